#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include "ros/time.h"
#include "ros/serialization.h"
namespace trajectory_msgs {
struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; ros::Duration time_from_start; template <typename S> void fields(S& s) { s.next(positions); s.next(velocities); s.next(accelerations); s.next(effort); s.next(time_from_start.sec); s.next(time_from_start.nsec); } };
}
