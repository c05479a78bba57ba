#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
#include "geometry_msgs/Vector3.h"
#include "geometry_msgs/Quaternion.h"
namespace geometry_msgs {
struct Transform { Vector3 translation; Quaternion rotation; template <typename S> void fields(S& s) { s.next(translation); s.next(rotation); } };
}
