#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "geometry_msgs/Point.h"
#include "geometry_msgs/Quaternion.h"
namespace geometry_msgs {
struct Pose { Point position; Quaternion orientation; template <typename S> void fields(S& s) { s.next(position); s.next(orientation); } };
}
