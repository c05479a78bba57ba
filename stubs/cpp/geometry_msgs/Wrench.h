#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "geometry_msgs/Vector3.h"
namespace geometry_msgs {
struct Wrench { Vector3 force, torque; template <typename S> void fields(S& s) { s.next(force); s.next(torque); } };
}
