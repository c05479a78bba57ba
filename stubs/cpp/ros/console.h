#pragma once
#include <iomanip>
#include <sstream>
#include <string>
#include <vector>
// log lines are recorded instead of printed
namespace ros_stub {
inline std::vector<std::string>& lines() { static thread_local std::vector<std::string> l; return l; }
template <typename F> inline void log(const char* level, F f) {
  std::ostringstream o;
  f(o);
  lines().push_back(std::string(level) + ": " + o.str());
}
}
#define ROS_STUB_LOG(level, args) ros_stub::log(level, [&](std::ostream& ros_stub_o) { ros_stub_o << args; })
#define ROS_DEBUG_STREAM(a) ROS_STUB_LOG("DEBUG", a)
#define ROS_INFO_STREAM(a) ROS_STUB_LOG("INFO", a)
#define ROS_WARN_STREAM(a) ROS_STUB_LOG("WARN", a)
#define ROS_ERROR_STREAM(a) ROS_STUB_LOG("ERROR", a)
#define ROS_FATAL_STREAM(a) ROS_STUB_LOG("FATAL", a)
#define ROS_DEBUG_STREAM_NAMED(n, a) ROS_STUB_LOG("DEBUG", a)
#define ROS_INFO_STREAM_NAMED(n, a) ROS_STUB_LOG("INFO", a)
#define ROS_WARN_STREAM_NAMED(n, a) ROS_STUB_LOG("WARN", a)
#define ROS_ERROR_STREAM_NAMED(n, a) ROS_STUB_LOG("ERROR", a)
#define ROS_FATAL_STREAM_NAMED(n, a) ROS_STUB_LOG("FATAL", a)

namespace ros_stub {
struct NodeCall {
  std::string what, name;
  std::vector<std::string> argv;
  uint32_t options;
  int level;
};
inline std::vector<NodeCall>& node() { static std::vector<NodeCall> v; return v; }
}
namespace ros { namespace console { namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
typedef levels::Level Level;
inline bool set_logger_level(const std::string& name, levels::Level l) { ros_stub::node().push_back({"level", name, {}, 0, (int)l}); return true; }
inline void notifyLoggerLevelsChanged() {}
} }
