#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "std_msgs/Header.h"
#include "geometry_msgs/Point.h"
namespace geometry_msgs {
struct PointStamped { std_msgs::Header header; Point point; template <typename S> void fields(S& s) { s.next(header); s.next(point); } };
}
