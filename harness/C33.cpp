// MON-variants: asan
// MON-flags: -std=c++17
// MON-link: -lboost_filesystem
// MON-rule: every helper is called with generated arguments including boundary values (all bit positions of all four widths exhaustively; every 8-bit colour level; lengths 0..20; equal and unequal lengths; values on, inside and outside bounds); distinct by helper and arguments
#include <complex>
#include <functional>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Geometry>
#include "arc_utilities/arc_helpers.hpp"
#include "arc_utilities/vector_math.hpp"
#include "arc_utilities/math_helpers.hpp"
#include "arc_utilities/maybe.hpp"
#include "arc_utilities/get_neighbours.hpp"
#include "arc_utilities/hash.hpp"
#include "arc_utilities/stl_wrappers.hpp"
#include "arc_utilities/enumerate.h"
#include "arc_utilities/filesystem.hpp"
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <time.h>
#include "mon.hpp"
using namespace mon;
namespace ah = arc_helpers;
namespace eh = EigenHelpers;

struct Quiet {
  std::ostringstream a, b;
  std::streambuf *oa, *ob;
  Quiet() : oa(std::cout.rdbuf(a.rdbuf())), ob(std::cerr.rdbuf(b.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(oa);
    std::cerr.rdbuf(ob);
  }
};
template <typename T>
static std::string sh(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (auto x : v) o << x << " ";
  o << "]";
  return o.str();
}

template <typename T>
static void bits(Case& c) {
  const uint32_t W = sizeof(T) * 8;
  const T v = (T)c.rng.u64() & (c.rng.chance(0.2) ? (T)0 : (T)~(T)0);
  c.note(std::to_string(W) + " " + std::to_string((uint64_t)v));
  for (uint32_t b = 0; b < W; b++) {
    const bool want = ((uint64_t)v >> b) & 1u;
    c.count("bits");
    c.check(ah::GetBit<T>(v, b) == want, "getbit", [&] { return std::to_string(W) + "-bit value " + std::to_string((uint64_t)v) + " bit " + std::to_string(b) + " is " + std::to_string(want); });
    for (bool val : {false, true}) {
      const T r = ah::SetBit<T>(v, b, val);
      const uint64_t w = val ? ((uint64_t)v | ((uint64_t)1 << b)) : ((uint64_t)v & ~((uint64_t)1 << b));
      c.check((uint64_t)r == w, "setbit", [&] { return std::to_string(W) + "-bit value " + std::to_string((uint64_t)v) + " bit " + std::to_string(b) + " set to " + std::to_string(val) + " gave " + std::to_string((uint64_t)r); });
    }
  }
}

template <typename T>
static T gen(Rng& r) {
  if (std::is_floating_point<T>::value) return (T)(r.chance(0.2) ? (double)r.range(-3, 3) : r.real(-100, 100));
  return (T)(r.chance(0.3) ? r.range(-3, 3) : r.range(-1000000, 1000000));
}
template <typename T>
static bool near1(T a, T b) {
  if (std::is_floating_point<T>::value) return std::abs((double)a - (double)b) <= (sizeof(T) == 4 ? 1e-5 : 1e-13) * std::max(1.0, std::abs((double)b));
  return a == b;
}
template <typename T>
static void elementwise(Case& c) {
  const size_t n = c.rng.below(20), k = c.rng.chance(0.3) ? c.rng.below(20) : n;
  std::vector<T> a(n), b(k);
  for (auto& x : a) x = gen<T>(c.rng);
  for (auto& x : b)
    do x = (T)c.rng.range(-1000, 1000);
    while (x == 0);
  if (!std::is_floating_point<T>::value)
    for (auto& x : a)
      if (c.rng.chance(0.2) && k) x = b[c.rng.below(k)] * (T)c.rng.range(1, 60);
  T s;
  do s = (T)(std::is_floating_point<T>::value ? gen<T>(c.rng) : (T)c.rng.range(-200, 200));
  while (s == 0);
  if (n && c.rng.chance(0.5)) a[c.rng.below(n)] = s * (T)c.rng.range(1, 60);
  c.note(sh(a) + sh(b) + str(s));
  auto ck = [&](const char* name, const std::vector<T>& got, size_t len, auto f) {
    c.check(got.size() == len, "elementwise", [&] { return std::string(name) + " of " + sh(a) + " and " + sh(b) + " has " + std::to_string(got.size()) + " elements"; });
    for (size_t i = 0; i < len; i++)
      c.check(near1<T>(got[i], f(i)), "elementwise", [&] { return std::string(name) + " of " + sh(a) + " with " + sh(b) + " or " + str(s) + ": element " + std::to_string(i) + " is " + str(got[i]); });
    c.count("elements", len);
  };
  const size_t m = n == k ? n : 0;
  ck("Abs", eh::Abs(a), n, [&](size_t i) { return a[i] < 0 ? (T)-a[i] : a[i]; });
  ck("Multiply(s)", eh::Multiply(a, s), n, [&](size_t i) { return (T)(a[i] * s); });
  ck("Divide(s)", eh::Divide(a, s), n, [&](size_t i) { return (T)(a[i] / s); });
  ck("Add(s)", eh::Add(a, s), n, [&](size_t i) { return (T)(a[i] + s); });
  ck("Sub(s)", eh::Sub(a, s), n, [&](size_t i) { return (T)(a[i] - s); });
  ck("Multiply", eh::Multiply(a, b), m, [&](size_t i) { return (T)(a[i] * b[i]); });
  ck("Divide", eh::Divide(a, b), m, [&](size_t i) { return (T)(a[i] / b[i]); });
  ck("Add", eh::Add(a, b), m, [&](size_t i) { return (T)(a[i] + b[i]); });
  ck("Sub", eh::Sub(a, b), m, [&](size_t i) { return (T)(a[i] - b[i]); });
  T sum = 0;
  double mag = 0;
  for (auto x : a) sum += x, mag += std::abs((double)x);
  c.check(std::abs((double)eh::Sum(a) - (double)sum) <= (std::is_floating_point<T>::value ? (sizeof(T) == 4 ? 1e-4 : 1e-12) * (1 + mag) : 0.0), "elementwise", [&] { return "Sum of " + sh(a) + " is " + str(eh::Sum(a)); });
}

typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;

struct Tracked {  // counts live objects and copies out
  static int live;
  int v;
  std::string s;
  Tracked(int x = 0) : v(x), s(std::to_string(x) + std::string(20, 'x')) { live++; }
  Tracked(const Tracked& o) : v(o.v), s(o.s) { live++; }
  Tracked& operator=(const Tracked& o) = default;
  ~Tracked() { live--; }
};
int Tracked::live = 0;

template <typename F>
static bool refused(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

struct Rgba {
  float r = -1, g = -1, b = -1, a = -1;
};
static std::string shc(const Rgba& c) { return "(" + str(c.r) + "," + str(c.g) + "," + str(c.b) + "," + str(c.a) + ")"; }
static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }

static size_t openFds() {
  size_t n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("bits", 2000, 60000, [](Case& c) {
    c.nontrivial(true);
    bits<uint8_t>(c);
    bits<uint16_t>(c);
    bits<uint32_t>(c);
    bits<uint64_t>(c);
  });
  m.group("bytes", 256, 256, [](Case& c) {
    c.nontrivial(true);
    const uint8_t v = (uint8_t)c.index;
    c.note((double)v);
    for (uint32_t b = 0; b < 8; b++) c.check(ah::GetBit<uint8_t>(v, b) == (((v >> b) & 1) != 0), "getbit", "8-bit value " + std::to_string(v));
    const float f = ah::ColorChannelFromHex(v);
    c.check(f >= 0 && f <= 1 && std::abs(f - v / 255.0) < 1e-6, "channel", "level " + std::to_string(v) + " became " + str(f));
    c.check(ah::ColorChannelToHex(f) == v, "channel", "level " + std::to_string(v) + " came back as " + std::to_string(ah::ColorChannelToHex(f)));
    ah::RGBAColor k(v, v, v, v);
    c.check(k.GetRHex() == v && k.GetGHex() == v && k.GetBHex() == v && k.GetAHex() == v, "channel", "colour built from level " + std::to_string(v));
  });
  m.group("clamp", 20000, 400000, [](Case& c) {
    c.nontrivial(true);
    auto run = [&](auto lo, auto hi, auto v) {
      typedef decltype(v) T;
      c.note(str(lo) + " " + str(hi) + " " + str(v));
      const T want = v < lo ? lo : v > hi ? hi : v;
      c.check(ah::ClampValue<T>(v, lo, hi) == want, "clamp", [&] { return str(v) + " clamped to [" + str(lo) + "," + str(hi) + "] gave " + str(ah::ClampValue<T>(v, lo, hi)); });
      Quiet q;
      c.check(ah::ClampValueAndWarn<T>(v, lo, hi) == want, "clamp", [&] { return str(v) + " clamped (with warning) to [" + str(lo) + "," + str(hi) + "]"; });
      c.check(q.b.str().empty() == (v == want), "clamp_warning", [&] { return "clamping " + str(v) + " to [" + str(lo) + "," + str(hi) + "] warned: " + q.b.str(); });
    };
    auto spread = [&](auto lo, auto mid, auto hi, auto v) {
      typedef decltype(v) T;
      const T want = (v >= mid && v < hi) ? hi : (v < mid && v > lo) ? lo : v;
      c.check(ah::SpreadValue<T>(v, lo, mid, hi) == want, "spread", [&] { return str(v) + " spread by " + str(lo) + "," + str(mid) + "," + str(hi) + " gave " + str(ah::SpreadValue<T>(v, lo, mid, hi)); });
      Quiet q;
      c.check(ah::SpreadValueAndWarn<T>(v, lo, mid, hi) == want, "spread", [&] { return str(v) + " spread (with warning) by " + str(lo) + "," + str(mid) + "," + str(hi); });
      c.check(q.b.str().empty() == (v == want), "spread_warning", [&] { return "spreading " + str(v) + " warned: " + q.b.str(); });
    };
    if (c.rng.chance(0.5)) {
      int64_t a[3] = {c.rng.range(-5, 5), c.rng.range(-5, 5), c.rng.range(-5, 5)};
      std::sort(a, a + 3);
      const int64_t v = c.rng.range(-8, 8);
      run(a[0], a[2], v);
      spread(a[0], a[1], a[2], v);
    } else {
      double a[3] = {c.rng.real(-5, 5), c.rng.real(-5, 5), c.rng.real(-5, 5)};
      std::sort(a, a + 3);
      const double v = c.rng.chance(0.3) ? a[c.rng.below(3)] : c.rng.chance(0.05) ? INFINITY : c.rng.real(-8, 8);
      run(a[0], a[2], v);
      spread(a[0], a[1], a[2], v);
    }
  });
  m.group("elementwise", 4000, 120000, [](Case& c) {
    c.nontrivial(true);
    switch (c.rng.below(3)) {
      case 0: {
        const size_t n = c.rng.below(20), k = c.rng.chance(0.3) ? c.rng.below(20) : n;
        std::vector<double> a(n), b(k);
        for (auto& x : a) x = gen<double>(c.rng);
        for (auto& x : b)
          do x = gen<double>(c.rng);
          while (x == 0);
        double s;
        do s = gen<double>(c.rng);
        while (s == 0);
        c.note(sh(a) + sh(b) + str(s));
        auto ck = [&](const char* name, const std::vector<double>& got, size_t len, auto f) {
          c.check(got.size() == len, "elementwise", [&] { return std::string(name) + " of " + sh(a) + " and " + sh(b) + " has " + std::to_string(got.size()) + " elements"; });
          for (size_t i = 0; i < len; i++)
            c.check(near1<double>(got[i], f(i)), "elementwise", [&] { return std::string(name) + " of " + sh(a) + " with " + sh(b) + " or " + str(s) + ": element " + std::to_string(i) + " is " + str(got[i]); });
          c.count("elements", len);
        };
        const size_t e = n == k ? n : 0;
        ck("Abs", eh::Abs(a), n, [&](size_t i) { return std::abs(a[i]); });
        ck("Multiply(s)", eh::Multiply(a, s), n, [&](size_t i) { return a[i] * s; });
        ck("Divide(s)", eh::Divide(a, s), n, [&](size_t i) { return a[i] / s; });
        ck("Add(s)", eh::Add(a, s), n, [&](size_t i) { return a[i] + s; });
        ck("Sub(s)", eh::Sub(a, s), n, [&](size_t i) { return a[i] - s; });
        ck("Multiply", eh::Multiply(a, b), e, [&](size_t i) { return a[i] * b[i]; });
        ck("Divide", eh::Divide(a, b), e, [&](size_t i) { return a[i] / b[i]; });
        ck("Add", eh::Add(a, b), e, [&](size_t i) { return a[i] + b[i]; });
        ck("Sub", eh::Sub(a, b), e, [&](size_t i) { return a[i] - b[i]; });
        double sum = 0, mag = 0;
        for (auto x : a) sum += x, mag += std::abs(x);
        c.check(std::abs(eh::Sum(a) - sum) <= 1e-12 * (1 + mag), "elementwise", [&] { return "Sum of " + sh(a) + " is " + str(eh::Sum(a)); });
        break;
      }
      case 1:
        elementwise<int>(c);
        break;
      default:
        elementwise<int64_t>(c);
    }
  });
  m.group("pairs", 3000, 60000, [](Case& c) {
    c.nontrivial(true);
    const std::pair<double, int> a(gen<double>(c.rng), gen<int>(c.rng));
    std::pair<double, int> b(gen<double>(c.rng), (int)c.rng.range(-300, 300));
    if (b.first == 0) b.first = 2;
    if (b.second == 0) b.second = 3;
    const int s = (int)c.rng.range(1, 90);
    c.note(str(a.first) + "," + str(a.second) + " " + str(b.first) + "," + str(b.second));
    auto ck = [&](const char* n, const std::pair<double, int>& g, double f, int k) {
      c.check(near1<double>(g.first, f) && g.second == k, "pair", [&] { return std::string(n) + " of (" + str(a.first) + "," + str(a.second) + ") and (" + str(b.first) + "," + str(b.second) + ") or " + str(s) + " gave (" + str(g.first) + "," + str(g.second) + ")"; });
    };
    ck("Abs", eh::Abs(a), std::abs(a.first), std::abs(a.second));
    ck("Multiply(s)", eh::Multiply(a, s), a.first * s, a.second * s);
    ck("Multiply", eh::Multiply(a, b), a.first * b.first, a.second * b.second);
    ck("Divide(s)", eh::Divide(a, s), a.first / s, a.second / s);
    ck("Divide", eh::Divide(a, b), a.first / b.first, a.second / b.second);
    ck("Add", eh::Add(a, b), a.first + b.first, a.second + b.second);
    ck("Sub", eh::Sub(a, b), a.first - b.first, a.second - b.second);
    // scalar comparison helpers
    const double x = gen<double>(c.rng), y = c.rng.chance(0.4) ? x * (1 + c.rng.real(-1e-3, 1e-3)) : gen<double>(c.rng), t = c.rng.pick(std::vector<double>{0.0, 1e-6, 1e-3, 0.1, -0.1, 5.0});
    c.check(eh::CloseEnough(x, y, t) == (std::abs(x - y) <= std::abs(t)), "close", [&] { return str(x) + " and " + str(y) + " within " + str(t); });
    const double lim = t * std::min(std::abs(x), std::abs(y));
    if (t >= 0 && std::abs(std::abs(x - y) - lim) > 1e-12) c.check(eh::IsApprox(x, y, t) == (std::abs(x - y) <= lim), "close", [&] { return "relative comparison of " + str(x) + " and " + str(y) + " with " + str(t); });
    c.check(eh::Sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0) && eh::Sign(a.second) == (a.second > 0 ? 1 : a.second < 0 ? -1 : 0) && eh::Sign(0.0) == 0 && eh::Sign(-0.0) == 0, "sign", "sign of " + str(x));
    std::vector<double> u(c.rng.below(6)), v;
    for (auto& e : u) e = gen<double>(c.rng);
    v = u;
    bool want = true;
    if (!v.empty() && c.rng.chance(0.6)) {
      const size_t i = c.rng.below(v.size());
      const double d = c.rng.pick(std::vector<double>{1e-9, 0.5, -0.5, 2});
      v[i] += d;
      want = std::abs(v[i] - u[i]) <= 0.1;
    }
    if (c.rng.chance(0.2)) v.push_back(1), want = false;
    c.check(eh::CloseEnough(u, v, 0.1) == want, "close", [&] { return sh(u) + " and " + sh(v) + " within 0.1"; });
    if (u.size() == v.size()) {
      const double r = c.rng.chance(0.2) ? (double)c.rng.below(2) : c.rng.real(0, 1);
      auto g = eh::Interpolate(u, v, r);
      c.check(g.size() == u.size(), "interpolate", "length");
      for (size_t i = 0; i < u.size(); i++) c.check(near1<double>(g[i], u[i] + (v[i] - u[i]) * r), "interpolate", [&] { return sh(u) + " to " + sh(v) + " at " + str(r) + " gave " + sh(g); });
      const std::pair<double, double> p(x, 1), q(y, 3);
      auto pq = eh::Interpolate(p, q, r);
      c.check(near1<double>(pq.first, x + (y - x) * r) && near1<double>(pq.second, 1 + 2 * r), "interpolate", [&] { return "pair interpolation at " + str(r) + " gave " + str(pq.first) + "," + str(pq.second); });
    } else {
      Quiet q;
      c.check(eh::Interpolate(u, v, 0.5).empty(), "interpolate", "lists of different length were interpolated");
    }
  });
  m.group("maps", 3000, 60000, [](Case& c) {
    c.nontrivial(true);
    std::map<std::string, int> mp;
    std::unordered_map<int, std::string> um;
    std::map<int, double, std::greater<int>> desc;
    const size_t n = c.rng.below(15);
    for (size_t i = 0; i < n; i++) {
      mp["k" + std::to_string(c.rng.below(20))] = (int)c.rng.below(100);
      um[(int)c.rng.range(-10, 10)] = std::to_string(i);
      desc[(int)c.rng.range(-10, 10)] = (double)i;
    }
    const std::string k = "k" + std::to_string(c.rng.below(20));
    std::string d;
    for (auto& p : mp) d += p.first + ",";
    c.note(d + k);
    c.check(ah::RetrieveOrDefault(mp, k, -7) == (mp.count(k) ? mp[k] : -7), "retrieve", "key " + k + " among " + d);
    const int uk = (int)c.rng.range(-12, 12);
    c.check(ah::RetrieveOrDefault(um, uk, std::string("none")) == (um.count(uk) ? um.at(uk) : "none"), "retrieve", "unordered key " + std::to_string(uk));
    auto orders = [&](auto& mm, const char* what) {
      auto keys = ah::GetKeys(mm);
      auto kv = ah::GetKeysAndValues(mm);
      c.check(keys.size() == mm.size() && kv.size() == mm.size(), "keys", std::string(what) + ": number of keys");
      size_t i = 0;
      for (auto& p : mm) {
        c.check(keys[i] == p.first && kv[i].first == p.first && kv[i].second == p.second, "keys", std::string(what) + ": entry " + std::to_string(i));
        i++;
      }
      c.count("entries", i);
    };
    const size_t before = mp.size();
    orders(mp, "string map");
    orders(desc, "descending map");
    c.check(mp.size() == before, "keys", "extracting keys changed the map");
    auto back = ah::MakeFromKeysAndValues<std::string, int>(ah::GetKeysAndValues(mp));
    c.check(back == mp, "rebuild", "map rebuilt from its entries differs (" + d + ")");
    std::vector<int> ks, vs;
    std::map<int, int> want;
    for (size_t i = 0; i < n; i++) {
      ks.push_back((int)c.rng.below(10));
      vs.push_back((int)c.rng.below(100));
      want[ks.back()] = vs.back();
    }
    auto made = ah::MakeFromKeysAndValues<int, int>(ks, vs);
    c.check(made == want, "rebuild", [&] { return "map of " + sh(ks) + " to " + sh(vs); });
    // lookups by position
    const int e = (int)c.rng.below(12);
    int pos = -1;
    for (size_t i = 0; i < ks.size() && pos < 0; i++)
      if (ks[i] == e) pos = (int)i;
    c.check(arc_std::find(ks, e) == pos, "find", [&] { return std::to_string(e) + " in " + sh(ks) + " found at " + std::to_string(arc_std::find(ks, e)); });
    size_t i = 0;
    for (auto p : enumerate<std::vector<int>>(ks)) {
      c.check(i < ks.size() && p.first == i && p.second == ks[i], "enumerate", [&] { return "item " + std::to_string(i) + " of " + sh(ks) + " numbered " + std::to_string(p.first) + " value " + std::to_string(p.second); });
      i++;
    }
    c.check(i == ks.size(), "enumerate", [&] { return sh(ks) + " enumerated " + std::to_string(i) + " items"; });
    std::vector<std::string> ss;
    for (size_t j = 0; j < c.rng.below(5); j++) ss.push_back(c.rng.chance(0.6) ? "abcabd" : c.rng.chance(0.5) ? "xab" : "");
    const std::string sub = c.rng.pick(std::vector<std::string>{"ab", "abd", "", "xab", "zz"});
    bool all = true;
    for (auto& s : ss) {
      bool in = false;
      for (size_t o = 0; o + sub.size() <= s.size(); o++) in = in || s.compare(o, sub.size(), sub) == 0;
      all = all && in;
    }
    c.check(ah::CheckAllStringsForSubstring(ss, sub) == all, "substring", [&] { return "'" + sub + "' in " + sh(ss); });
  });
  m.group("hash", 4000, 80000, [](Case& c) {
    c.nontrivial(true);
    auto v = [&] { return c.rng.chance(0.3) ? (double)c.rng.range(-2, 2) : c.rng.normal(); };
    const int n = (int)c.rng.below(6);
    Eigen::VectorXd x(n);
    for (int i = 0; i < n; i++) x[i] = v();
    Eigen::VectorXd y(x.size());
    for (int i = 0; i < n; i++) y[i] = x[i] == 0 ? -x[i] : x[i];
    const V3 a(v(), v(), v());
    V3 b = a;
    for (int i = 0; i < 3; i++)
      if (b[i] == 0) b[i] = -b[i];
    const V2 p(v(), v()), q = p + V2::Zero();
    c.note(eh::Sum(std::vector<double>{a.x(), a.y(), a.z(), p.x()}));
    c.check(std::hash<Eigen::VectorXd>()(x) == std::hash<Eigen::VectorXd>()(y), "hash", "equal vectors hash differently");
    c.check(std::hash<V3>()(a) == std::hash<V3>()(b), "hash", "equal 3-vectors hash differently");
    c.check(std::hash<V2>()(p) == std::hash<V2>()(q), "hash", "equal 2-vectors hash differently");
    const std::complex<double> z(v(), v());
    std::complex<double> w(z.real() == 0 ? -z.real() : z.real(), z.imag() == 0 ? -z.imag() : z.imag());
    c.check(std::hash<std::complex<double>>()(z) == std::hash<std::complex<double>>()(w), "hash", "equal complex numbers hash differently");
    typedef std::pair<double, std::string> P;
    const P pr(z.real(), std::to_string(n)), ps(w.real(), std::to_string(n));
    c.check(std::hash<P>()(pr) == std::hash<P>()(ps), "hash", "equal pairs hash differently");
    // hashed containers find exactly what was stored
    struct Eq {
      bool operator()(const V3& l, const V3& r) const { return l == r; }
    };
    std::unordered_map<V3, int, std::hash<V3>, Eq> um;
    std::map<std::vector<double>, int> ref;
    for (int i = 0; i < 20; i++) {
      const V3 k((double)c.rng.range(-1, 1), (double)c.rng.range(-1, 1), c.rng.chance(0.5) ? 0.0 : -0.0);
      um[k] = i;
      ref[{k[0] + 0.0, k[1] + 0.0, 0.0}] = i;
    }
    c.check(um.size() == ref.size(), "hash", "hashed map of 3-vectors has " + std::to_string(um.size()) + " entries, not " + std::to_string(ref.size()));
    for (auto& r : ref) {
      auto it = um.find(V3(r.first[0], r.first[1], r.first[2]));
      c.check(it != um.end() && it->second == r.second, "hash", "stored key not found");
    }
    c.count("lookups", ref.size());
  });
  m.group("hash_spread", 10, 100, [](Case& c) {
    c.nontrivial(true);
    // an unlucky pair may collide; a thousand different keys must not all fall together
    std::unordered_set<size_t> h3, hx, hc, hp;
    for (int i = 0; i < 1000; i++) {
      h3.insert(std::hash<V3>()(V3(c.rng.normal(), c.rng.normal(), c.rng.normal())));
      Eigen::VectorXd x(4);
      for (int j = 0; j < 4; j++) x[j] = c.rng.normal();
      hx.insert(std::hash<Eigen::VectorXd>()(x));
      hc.insert(std::hash<std::complex<double>>()(std::complex<double>(c.rng.normal(), c.rng.normal())));
      hp.insert(std::hash<std::pair<int, int>>()(std::make_pair(i / 32, i % 32)));
    }
    c.note((double)c.index);
    c.check(h3.size() > 900 && hx.size() > 900 && hc.size() > 900 && hp.size() > 900, "spread", "1000 different keys gave " + std::to_string(h3.size()) + "/" + std::to_string(hx.size()) + "/" + std::to_string(hc.size()) + "/" + std::to_string(hp.size()) + " hash values");
  });
  m.group("neighbours", 6000, 120000, [](Case& c) {
    c.nontrivial(true);
    // bounds and the cell lie on the grid, as the rounding function defines it
    const double step = c.rng.pick(std::vector<double>{1, 0.5, 0.1, 0.03, 2});
    const double off = c.rng.chance(0.5) ? 0 : step * 0.25;
    auto g = [&](int64_t i) { return off + step * (double)i; };
    auto idx = [&](double x) { return (int64_t)std::llround((x - off) / step); };
    int64_t lo[3], hi[3], at[3];
    for (int d = 0; d < 3; d++) {
      lo[d] = c.rng.range(-5, 5);
      hi[d] = lo[d] + c.rng.range(0, 4);
      at[d] = c.rng.range(lo[d], hi[d]);
    }
    std::set<std::vector<int64_t>> blocked;
    for (int64_t x = lo[0] - 1; x <= hi[0] + 1; x++)
      for (int64_t y = lo[1] - 1; y <= hi[1] + 1; y++)
        for (int64_t z = lo[2] - 1; z <= hi[2] + 1; z++)
          if (c.rng.chance(0.2)) blocked.insert({x, y, z});
    c.note(str(step) + str(off) + std::to_string(at[0] - lo[0]) + std::to_string(hi[0] - at[0]) + std::to_string(at[1] - lo[1]) + std::to_string(hi[1] - at[1]) + std::to_string(at[2] - lo[2]) + std::to_string(hi[2] - at[2]) + std::to_string(blocked.size()));
    auto desc = [&] { return "cell " + std::to_string(at[0]) + "," + std::to_string(at[1]) + "," + std::to_string(at[2]) + " in [" + std::to_string(lo[0]) + ".." + std::to_string(hi[0]) + "]x[" + std::to_string(lo[1]) + ".." + std::to_string(hi[1]) + "]x[" + std::to_string(lo[2]) + ".." + std::to_string(hi[2]) + "] step " + str(step) + ": "; };
    {
      std::function<V2(const V2&)> rnd = [&](const V2& v) { return V2(g(idx(v[0])), g(idx(v[1]))); };
      std::function<bool(const V2&)> ok = [&](const V2& v) { return !blocked.count({idx(v[0]), idx(v[1]), 0}); };
      auto r = arc_utilities::GetNeighbours::TwoDimensional8Connected<V2, double>(V2(g(at[0]), g(at[1])), g(lo[0]), g(hi[0]), g(lo[1]), g(hi[1]), step, rnd, ok);
      std::set<std::vector<int64_t>> got, want;
      for (auto& v : r) got.insert({idx(v[0]), idx(v[1])});
      for (int64_t x = -1; x <= 1; x++)
        for (int64_t y = -1; y <= 1; y++)
          if ((x || y) && at[0] + x >= lo[0] && at[0] + x <= hi[0] && at[1] + y >= lo[1] && at[1] + y <= hi[1] && !blocked.count({at[0] + x, at[1] + y, 0})) want.insert({at[0] + x, at[1] + y});
      c.check(got.size() == r.size(), "neighbours2", [&] { return desc() + "a 2-D neighbour was listed twice"; });
      c.check(got == want, "neighbours2", [&] { return desc() + std::to_string(got.size()) + " 2-D neighbours instead of " + std::to_string(want.size()); });
      c.count("neighbours", want.size());
    }
    {
      std::function<V3(const V3&)> rnd = [&](const V3& v) { return V3(g(idx(v[0])), g(idx(v[1])), g(idx(v[2]))); };
      std::function<bool(const V3&)> ok = [&](const V3& v) { return !blocked.count({idx(v[0]), idx(v[1]), idx(v[2])}); };
      auto r = arc_utilities::GetNeighbours::ThreeDimensional8Connected<V3, double>(V3(g(at[0]), g(at[1]), g(at[2])), g(lo[0]), g(hi[0]), g(lo[1]), g(hi[1]), g(lo[2]), g(hi[2]), step, rnd, ok);
      std::set<std::vector<int64_t>> got, want;
      for (auto& v : r) got.insert({idx(v[0]), idx(v[1]), idx(v[2])});
      for (int64_t x = -1; x <= 1; x++)
        for (int64_t y = -1; y <= 1; y++)
          for (int64_t z = -1; z <= 1; z++) {
            const int64_t p[3] = {at[0] + x, at[1] + y, at[2] + z};
            bool in = x || y || z;
            for (int d = 0; d < 3; d++) in = in && p[d] >= lo[d] && p[d] <= hi[d];
            if (in && !blocked.count({p[0], p[1], p[2]})) want.insert({p[0], p[1], p[2]});
          }
      c.check(got.size() == r.size(), "neighbours3", [&] { return desc() + "a 3-D neighbour was listed twice"; });
      c.check(got == want, "neighbours3", [&] { return desc() + std::to_string(got.size()) + " 3-D neighbours instead of " + std::to_string(want.size()); });
      c.count("neighbours", want.size());
    }
  });
  m.group("maybe", 3000, 60000, [](Case& c) {
    c.nontrivial(true);
    const int base = Tracked::live;
    {
      // a history of assignments, copies and moves against a model
      std::vector<Maybe::Maybe<Tracked>> s(4);
      std::vector<int> model(4, -1);
      std::string h;
      for (int i = 0, n = 1 + (int)c.rng.below(15); i < n; i++) {
        const size_t a = c.rng.below(4), b = c.rng.below(4);
        const int v = (int)c.rng.below(1000);
        const int op = (int)c.rng.below(8);
        h += std::to_string(op) + std::to_string(a) + std::to_string(b) + ";";
        const Tracked t(v);
        switch (op) {
          case 0: s[a] = t; model[a] = v; break;
          case 1: s[a] = Tracked(v); model[a] = v; break;
          case 2: s[a].Set(t); model[a] = v; break;
          case 3: s[a].Set(Tracked(v)); model[a] = v; break;
          case 4: s[a] = s[b]; model[a] = model[b]; break;
          case 5: s[a] = Maybe::Maybe<Tracked>(); model[a] = -1; break;
          case 6: s[a] = Maybe::Maybe<Tracked>(t); model[a] = v; break;
          default:
            if (model[a] >= 0) {
              s[a].Get() = t;
              model[a] = v;
            }
        }
        for (size_t k = 0; k < 4; k++) {
          c.count("states");
          c.check(s[k].Valid() == (model[k] >= 0), "maybe", [&] { return "after " + h + " slot " + std::to_string(k) + " validity"; });
          const Maybe::Maybe<Tracked>& cs = s[k];
          if (model[k] >= 0) {
            c.check(s[k].Get().v == model[k] && cs.GetImmutable().v == model[k] && s[k].Get().s == Tracked(model[k]).s, "maybe", [&] { return "after " + h + " slot " + std::to_string(k) + " holds " + std::to_string(s[k].Get().v) + " instead of " + std::to_string(model[k]); });
          } else {
            c.check(refused([&] { s[k].Get(); }), "maybe_empty", [&] { return "after " + h + " the empty slot " + std::to_string(k) + " handed out a value"; });
            c.check(refused([&] { cs.GetImmutable(); }), "maybe_empty", [&] { return "after " + h + " the empty slot " + std::to_string(k) + " handed out an immutable value"; });
          }
        }
      }
      c.note(h);
    }
    c.check(Tracked::live == base, "maybe", "stored values leaked or destroyed twice");
  });
  m.group("colour", 6000, 120000, [](Case& c) {
    c.nontrivial(true);
    auto ch = [&] { return (float)(c.rng.chance(0.2) ? c.rng.real(-1, 2) : c.rng.chance(0.2) ? (double)c.rng.below(2) : c.rng.real(0, 1)); };
    const float r = ch(), g = ch(), b = ch(), a = ch();
    typedef ah::RGBAColorBuilder<Rgba> B;
    c.note(str(r) + str(g) + str(b) + str(a));
    auto is = [&](const Rgba& k, double x, double y, double z, double w) { return std::abs(k.r - x) < 2e-6 && std::abs(k.g - y) < 2e-6 && std::abs(k.b - z) < 2e-6 && std::abs(k.a - w) < 2e-6; };
    c.check(std::abs(ah::ColorChannelToHex(r) - clamp01(r) * 255.0) <= 0.5 + 1e-4, "channel", str(r) + " became level " + std::to_string(ah::ColorChannelToHex(r)));
    c.check(is(B::MakeFromFloatColors(r, g, b, a), clamp01(r), clamp01(g), clamp01(b), clamp01(a)), "build", "from " + str(r) + "," + str(g) + "," + str(b) + "," + str(a));
    const uint8_t h[4] = {(uint8_t)c.rng.below(256), (uint8_t)c.rng.below(256), (uint8_t)c.rng.below(256), (uint8_t)c.rng.below(256)};
    c.check(is(B::MakeFromHexColors(h[0], h[1], h[2], h[3]), h[0] / 255.0, h[1] / 255.0, h[2] / 255.0, h[3] / 255.0), "build", "from levels");
    c.check(is(B::MakeFromMixedColors(h[0], h[1], h[2], a), h[0] / 255.0, h[1] / 255.0, h[2] / 255.0, clamp01(a)), "build", "from levels and alpha " + str(a));
    Rgba raw;
    raw.r = r, raw.g = g, raw.b = b, raw.a = a;
    c.check(is(ah::ConvertColor<Rgba, Rgba>(raw), clamp01(r), clamp01(g), clamp01(b), clamp01(a)), "convert", "conversion of " + shc(raw));
    ah::RGBAColor k(r, g, b, a);
    c.check(k.GetR() == (float)clamp01(r) && k.GetG() == (float)clamp01(g) && k.GetB() == (float)clamp01(b) && k.GetA() == (float)clamp01(a), "build", "RGBAColor channels");
    k.SetR(b), k.SetG(a), k.SetB(r), k.SetA(g);
    c.check(k.r == (float)clamp01(b) && k.g == (float)clamp01(a) && k.b == (float)clamp01(r) && k.a == (float)clamp01(g), "build", "RGBAColor channel setters");
    k.SetRHex(h[0]), k.SetGHex(h[1]), k.SetBHex(h[2]), k.SetAHex(h[3]);
    c.check(k.GetRHex() == h[0] && k.GetGHex() == h[1] && k.GetBHex() == h[2] && k.GetAHex() == h[3], "build", "RGBAColor level setters");
    c.check(ah::RGBAColor(r, g, b).a == 1.0f && ah::RGBAColor().a == 0.0f && ah::RGBAColor(h[0], h[1], h[2]).GetGHex() == h[1] && ah::RGBAColor(h[0], h[1], h[2], a).a == (float)clamp01(a), "build", "RGBAColor default alpha");
    const float f = (float)c.rng.real(0, 3);
    const Rgba mc = ah::Multiply(raw, f);
    c.check(is(mc, clamp01(f * r), clamp01(f * g), clamp01(f * b), a), "scale", shc(raw) + " times " + str(f) + " gave " + shc(mc));
    Rgba c1, c2;
    c1.r = (float)clamp01(r), c1.g = (float)clamp01(g), c1.b = (float)clamp01(b), c1.a = (float)clamp01(a);
    c2.r = (float)clamp01(ch()), c2.g = (float)clamp01(ch()), c2.b = (float)clamp01(ch()), c2.a = (float)clamp01(ch());
    const float t = c.rng.chance(0.2) ? (float)c.rng.below(2) : (float)c.rng.real(-0.2, 1.2);
    const double rt = clamp01(t);
    Quiet q;
    const Rgba ic = ah::InterpolateColor(c1, c2, t);
    c.check(is(ic, c1.r + (c2.r - c1.r) * rt, c1.g + (c2.g - c1.g) * rt, c1.b + (c2.b - c1.b) * rt, c1.a + (c2.a - c1.a) * rt), "interpolate_colour", shc(c1) + " to " + shc(c2) + " at " + str(t) + " gave " + shc(ic));
    // hot-to-cold: blue, cyan, green, yellow, red at the quarters, straight lines between
    const double lo = c.rng.chance(0.5) ? 0 : c.rng.real(-10, 10), hi = lo + (c.rng.chance(0.5) ? 1 : c.rng.real(0.1, 20)), v = lo + (hi - lo) * (c.rng.chance(0.3) ? (double)c.rng.range(-1, 5) / 4 : c.rng.real(-0.1, 1.1));
    const double u = clamp01((v - lo) / (hi - lo)) * 4;
    static const double knots[5][3] = {{0, 0, 1}, {0, 1, 1}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}};
    const int s = std::min(3, (int)u);
    const double w = u - s;
    const Rgba hc = B::InterpolateHotToCold(v, lo, hi);
    bool good = hc.a == 1.0f;
    const float* hv = &hc.r;
    for (int i = 0; i < 3; i++) good = good && std::abs(hv[i] - (knots[s][i] * (1 - w) + knots[s + 1][i] * w)) < 1e-5;
    c.check(good, "hot_to_cold", "value " + str(v) + " in [" + str(lo) + "," + str(hi) + "] gave " + shc(hc));
  });
  m.group("unique_colours", 20, 100, [](Case& c) {
    c.nontrivial(true);
    const float alpha = (float)c.rng.real(0.1, 1);
    c.note(str(alpha));
    ah::UniqueColorGenerator<Rgba> gen(alpha);
    std::set<std::vector<float>> seen;
    for (uint32_t i = 1; i <= 20; i++) {
      const Rgba k = gen.next(), d = ah::GenerateUniqueColor<Rgba>(i, alpha);
      c.check(k.r == d.r && k.g == d.g && k.b == d.b && k.a == alpha && d.a == alpha, "unique_colour", "colour " + std::to_string(i) + " differs between the generator and the function, or lost its alpha");
      c.check(seen.insert({k.r, k.g, k.b}).second, "unique_colour", "colour " + std::to_string(i) + " was already used");
    }
    const Rgba z = ah::GenerateUniqueColor<Rgba>(0, alpha);
    c.check(z.a == 0 && z.r == 1 && z.g == 1 && z.b == 1, "unique_colour", "code 0 is " + shc(z));
  });
  m.group("system", 6, 30, [](Case& c) {
    c.nontrivial(true);
    c.note((double)c.index);
    const size_t before = openFds();
    for (int i = 0; i < 30; i++) {
      c.check(!ah::IsDebuggerPresent(), "debugger", "a debugger was reported where there is none");
      Quiet q;
      std::istringstream in("\n\n");
      auto* old = std::cin.rdbuf(in.rdbuf());
      ah::InteractiveWaitToContinue();
      std::cin.rdbuf(old);
      std::cin.clear();
    }
    c.check(openFds() == before, "descriptors", "60 checks for a debugger left " + std::to_string(openFds() - before) + " more files open");
    {
      Quiet q;
      const int a = (int)c.rng.range(-3, 3), b = (int)c.rng.range(-3, 3);
      ah::ConditionalPrint("hello", a, b);
      ah::ConditionalError("oops", a, b);
      const std::string pre = "[" + std::to_string(a) + "/" + std::to_string(b) + "] ";
      c.check(q.a.str() == (a <= b ? pre + "hello\n" : "") && q.b.str() == (a <= b ? pre + "oops\n" : ""), "print", "level " + std::to_string(a) + " of " + std::to_string(b) + " printed '" + q.a.str() + "' and '" + q.b.str() + "'");
      std::istringstream in("typed text\nmore\n");
      auto* old = std::cin.rdbuf(in.rdbuf());
      const std::string typed = ah::WaitForInput("prompt");
      std::cin.rdbuf(old);
      c.check(typed == "typed text", "input", "typed line came back as '" + typed + "'");
    }
    const time_t t0 = time(nullptr);
    const std::string s = ah::GetCurrentTimeAsString(), ms = ah::GetCurrentTimeAsStringWithMilliseconds();
    const time_t t1 = time(nullptr);
    bool ok = false, okms = false;
    for (time_t t = t0; t <= t1; t++) {
      char buf[64];
      strftime(buf, sizeof buf, "%Y-%m-%d__%H-%M-%S", localtime(&t));
      ok = ok || s == buf;
      if (ms.compare(0, strlen(buf), buf) == 0 && ms[strlen(buf)] == '-') {
        const int k = atoi(ms.c_str() + strlen(buf) + 1);
        okms = okms || (k >= 0 && k < 1000);
      }
    }
    c.check(ok && okms, "timestring", "time strings '" + s + "', '" + ms + "'");
    const auto b = std::chrono::steady_clock::now();
    ah::Sleep(0.02);
    c.check(std::chrono::duration<double>(std::chrono::steady_clock::now() - b).count() >= 0.02, "sleep", "returned early");
    alignas(64) char block[128];
    c.check(ah::CheckAlignment(block[0], 64) && !ah::CheckAlignment(block[1], 2) && ah::CheckAlignment(block[32], 32) && !ah::CheckAlignment(block[32], 64), "alignment", "alignment test");
    // directories
    const char* sd = getenv("MON_SCRATCH");
    const std::string root = std::string(sd ? sd : "/tmp") + "/c33_" + std::to_string(c.rng.u64());
    Quiet q;
    const std::string leaf = root + "/a/b" + (c.rng.chance(0.5) ? "/c" : "");
    arc_utilities::CreateDirectory(leaf);
    c.check(boost::filesystem::is_directory(leaf), "directory", leaf + " was not created");
    std::ofstream(leaf + "/keep") << "x";
    arc_utilities::CreateDirectory(leaf);
    c.check(boost::filesystem::exists(leaf + "/keep"), "directory", "creating an existing directory lost its contents");
    c.check(refused([&] { arc_utilities::CreateDirectory(leaf + "/keep"); }) && refused([&] { arc_utilities::CreateDirectory(leaf + "/keep/x"); }), "directory", "a directory was reported created over a file");
    boost::filesystem::remove_all(root);
  });
  return m.finish();
}
