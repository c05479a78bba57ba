#pragma once
#include <chrono>
#include <cstdint>
#include <stdexcept>
#include <thread>
namespace ros {
// as roscpp: whole nanoseconds, normalised so that 0 <= nsec < 1e9
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) { set((int64_t)s * 1000000000LL + n); }
  explicit Duration(double d) { set((int64_t)(d * 1e9 + (d < 0 ? -0.5 : 0.5))); }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  Duration operator+(const Duration& o) const { Duration r; r.set(toNSec() + o.toNSec()); return r; }
  Duration operator-(const Duration& o) const { Duration r; r.set(toNSec() - o.toNSec()); return r; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator!=(const Duration& o) const { return !(*this == o); }
  void set(int64_t t) {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) n += 1000000000LL, s--;
    if (s < INT32_MIN || s > INT32_MAX) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = (int32_t)s, nsec = (int32_t)n;
  }
};
struct Time {
  uint32_t sec = 0, nsec = 0;
};
struct WallDuration {
  double s;
  explicit WallDuration(double d = 0) : s(d) {}
};
}
