#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "std_msgs/Header.h"
#include "geometry_msgs/Pose.h"
namespace geometry_msgs {
struct PoseStamped { std_msgs::Header header; Pose pose; template <typename S> void fields(S& s) { s.next(header); s.next(pose); } };
}
