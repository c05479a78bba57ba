#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
namespace std_msgs {
struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; template <typename S> void fields(S& s) { s.next(seq); s.next(stamp.sec); s.next(stamp.nsec); s.next(frame_id); } };
}
