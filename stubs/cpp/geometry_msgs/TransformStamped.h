#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "std_msgs/Header.h"
#include "geometry_msgs/Transform.h"
namespace geometry_msgs {
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; template <typename S> void fields(S& s) { s.next(header); s.next(child_frame_id); s.next(transform); } };
}
