#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
namespace shape_msgs {
struct MeshTriangle { std::array<uint32_t, 3> vertex_indices{{0, 0, 0}}; };
}
