#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; template <typename S> void fields(S& s) { s.next(x); s.next(y); s.next(z); } };
}
