// MON-variants: asan asan-debugstl
// MON-rule: paths of 0-40 points in 1-4 dimensions with identities (random, repeated points, zero-length and very uneven steps), edge checkers that accept all, none, random or short edges, resolutions from far below to far above the step length, sub-ranges, point counts below, at and above the path's; every edge check is recorded; distinct by path and parameters
#include <cstdint>
#include <vector>
#include "arc_utilities/path_utils.hpp"
#include "arc_utilities/eigen_helpers.hpp"
#include <set>
#include "mon.hpp"
using namespace mon;
namespace PU = path_utils;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
// A configuration that remembers where it comes from: an original point (a == b) or an interpolation.
struct Q {
  Eigen::VectorXd x;
  int a = -1, b = -1;
  double t = 0;
};
typedef std::vector<Q> Path;
static double dist(const Q& p, const Q& q) { return (p.x - q.x).norm(); }
static Path path(Rng& r, int lo, int hi) {
  const int n = (int)r.range(lo, hi), d = (int)r.range(1, 4);
  Path p;
  const bool uneven = r.chance(0.3);
  for (int i = 0; i < n; i++) {
    Q q;
    q.a = q.b = i;
    q.x.resize(d);
    if (i && r.chance(0.12)) q.x = p.back().x;
    else
      for (int k = 0; k < d; k++) q.x(k) = (i ? p.back().x(k) : 0.0) + r.real(-1, 1) * (uneven ? std::pow(10.0, r.real(-4, 1)) : 1.0);
    p.push_back(q);
  }
  return p;
}
static std::string ps(const Path& p) {
  std::ostringstream o;
  o.precision(17);
  for (auto& q : p) o << " (" << q.x.transpose() << ")";
  return o.str();
}
static std::string ids(const Path& p) {
  std::ostringstream o;
  for (auto& q : p) o << " " << q.a << (q.a == q.b ? "" : "-" + std::to_string(q.b));
  return o.str();
}
static void note(Case& c, const Path& p) {
  c.note(p.size());
  for (auto& q : p)
    for (int k = 0; k < q.x.size(); k++) c.note(q.x(k));
}
static Q lerp(const Q& p, const Q& q, double t) {
  Q m;
  m.a = p.a, m.b = q.a, m.t = t;
  m.x = (1 - t) * p.x + t * q.x;
  if (t == 0) m.b = p.a;
  if (t == 1) m.a = q.a;
  return m;
}
static double total(const Path& p) {
  double s = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) s += dist(p[i], p[i + 1]);
  return s;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("shortcut", 12000, 500000, [](Case& c) {
    Rng& r = c.rng;
    const Path p = c.index % 400 == 3 ? path(r, 120, 300) : path(r, 0, 40);
    const uint32_t it = (uint32_t)r.range(0, r.chance(0.3) ? 5 : 200), fl = (uint32_t)r.range(0, r.chance(0.3) ? 3 : 100);
    const double fr = r.chance(0.2) ? 1.0 : r.chance(0.1) ? 0.0 : r.real(0, 1);
    const int kind = (int)r.below(4);
    const double lim = r.real(0, 3);
    const uint64_t salt = r.u64();
    std::set<std::pair<int, int>> okd;
    std::vector<std::string> bad;
    uint32_t calls = 0, fails = 0;
    note(c, p), c.note(it), c.note(fl), c.note(fr), c.note(kind), c.note(salt);
    auto check = [&](const Q& s, const Q& e) {
      calls++;
      if (s.a != s.b || e.a != e.b || s.a < 0 || (size_t)e.a >= p.size() || s.x != p[s.a].x || e.x != p[e.a].x) bad.push_back("a configuration that is not on the path");
      else if (s.a + 1 >= e.a) bad.push_back("edge " + std::to_string(s.a) + "-" + std::to_string(e.a) + ", which is not a shortcut");
      const bool ok = kind == 0 ? true : kind == 1 ? false : kind == 2 ? ((salt ^ (uint64_t)(s.a * 7919 + e.a * 104729)) * 0x9E3779B97F4A7C15ull) >> 63 : dist(s, e) < lim;
      if (ok) okd.insert({s.a, e.a}); else fails++;
      return ok;
    };
    std::mt19937_64 g(r.u64());
    const Path o = PU::ShortcutSmoothPath(p, it, fl, fr, check, g);
    auto show = [&] { return "path" + ps(p) + ", " + str(it) + " iterations, " + str(fl) + " failures, fraction " + str(fr) + " ->" + ids(o); };
    c.nontrivial(calls > 0);
    c.count(calls ? "edges checked" : "no edge checked");
    if (o.size() < p.size()) c.count("shortened");
    c.check(bad.empty(), "the checker was asked about something other than a shortcut along the path", [&] { return show() + ": " + bad[0]; });
    c.check(calls <= it, "more edges were checked than iterations allowed", [&] { return show() + ": " + str(calls); });
    c.check(fails <= fl, "smoothing went on after too many failures", [&] { return show() + ": " + str(fails); });
    if (!c.check(o.empty() == p.empty() && o.size() <= p.size(), "smoothing lost the path or added points", show)) return;
    for (size_t i = 0; i < o.size(); i++) {
      c.check(o[i].a == o[i].b && o[i].a >= 0 && (size_t)o[i].a < p.size() && o[i].x == p[o[i].a].x, "a smoothed path contains a configuration that was not on the path", show);
      if (i) {
        c.check(o[i - 1].a < o[i].a, "a smoothed path changes the order of its points", show);
        c.check(o[i].a == o[i - 1].a + 1 || okd.count({o[i - 1].a, o[i].a}), "a smoothed path uses an edge that was never found valid", show);
      }
    }
    if (!p.empty()) c.check(o.front().a == 0 && (size_t)o.back().a == p.size() - 1, "smoothing changed an endpoint", show);
    c.check(total(o) <= total(p) * (1 + 1e-12), "smoothing made the path longer", show);
    if (p.size() > 2 && kind == 0 && it >= 100 && fl > 0 && fr == 1.0 && p.size() <= 6) c.check(o.size() < p.size(), "many valid shortcuts were offered and none taken", show);
  });
  m.group("resample", 15000, 600000, [](Case& c) {
    Quiet quiet;
    Rng& r = c.rng;
    const Path p = c.index % 400 == 3 ? path(r, 120, 300) : path(r, 0, 15);
    const double res = std::pow(10.0, r.real(-1.5, 1));
    const bool whole = r.chance(0.5);
    size_t s = 0, e = p.size();
    if (!whole) s = r.below(p.size() + 2), e = r.below(p.size() + 3);
    note(c, p), c.note(res), c.note(s), c.note(e);
    c.nontrivial(e > s + 1);
    auto show = [&] { return "path" + ps(p) + " [" + str(s) + "," + str(e) + ") resolution " + str(res); };
    std::vector<std::pair<int, int>> asked;
    bool outside = false;
    auto dfn = [&](const Q& a, const Q& b) { if (a.a < (int)s || b.a >= (int)e || b.a != a.a + 1) outside = true; return dist(a, b); };
    bool threw = false;
    Path o;
    try {
      o = whole ? PU::ResamplePath(p, res, dfn, lerp) : PU::ResamplePathPartial(p, s, e, res, dfn, lerp);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    const bool invalid = s >= e || e > p.size();
    c.check(threw == invalid, invalid ? "an empty or out-of-range portion was not refused" : "a valid portion was refused", show);
    if (threw) { c.count("refused"); return; }
    c.check(!outside, "a distance outside the portion, or not of consecutive points, was measured", show);
    if (!c.check(!o.empty(), "resampling lost the path", show)) return;
    c.check(o.front().x == p[s].x && o.front().a == (int)s && o.front().b == (int)s, "resampling changed the first point", [&] { return show() + " ->" + ps(o); });
    c.check(o.back().x == p[e - 1].x, "resampling changed the last point", [&] { return show() + " ->" + ps(o); });
    size_t want = 1;
    for (size_t i = s; i + 1 < e; i++) want += (size_t)std::ceil(dist(p[i], p[i + 1]) / res);
    c.check(o.size() == want, "resampling does not use the fewest points that reach the resolution on every segment", [&] { return show() + " -> " + str(o.size()) + " points instead of " + str(want); });
    double pos = -1;
    for (size_t i = 0; i < o.size(); i++) {
      if (i) c.check(dist(o[i - 1], o[i]) <= res * (1 + 1e-9), "a resampled step is longer than the resolution", [&] { return show() + " ->" + ps(o) + " at " + str(i); });
      const Q& q = o[i];
      c.check(q.a >= (int)s && q.b < (int)e && (q.a == q.b || (q.b == q.a + 1 && q.t > 0 && q.t < 1)), "a resampled point is not on the segments of the portion", [&] { return show() + " ->" + ids(o); });
      const double at = q.a == q.b ? q.a : q.a + q.t;
      c.check(at > pos, "resampled points are out of order or repeated", [&] { return show() + " ->" + ids(o); });
      pos = at;
    }
    for (size_t i = s; i + 1 < e; i++) {
      bool seen = dist(p[i], p[i + 1]) == 0 && false;
      for (auto& q : o) seen = seen || q.x == p[i].x;
      c.check(seen, "resampling dropped a point of the path", [&] { return show() + " ->" + ids(o); });
    }
  });
  m.group("upsample", 12000, 500000, [](Case& c) {
    Quiet quiet;
    Rng& r = c.rng;
    const Path p = c.index % 400 == 3 ? path(r, 120, 300) : path(r, 2, 12);
    const bool whole = r.chance(0.4);
    ssize_t s = 0, e = (ssize_t)p.size();
    if (!whole) {
      s = (ssize_t)r.below(p.size() - 1);
      e = s + 2 + (ssize_t)r.below(p.size() - s - 1);
      if (r.chance(0.1)) e = s + 1;
    }
    ssize_t n = e - s + (e == s + 1 ? 0 : r.range(-3, r.chance(0.5) ? 6 : 60));
    if (n < 0) n = 0;
    if (e == s + 1) n = (ssize_t)r.below(2);
    note(c, p), c.note(s), c.note(e), c.note(n);
    c.nontrivial(n > e - s);
    auto dfn = [&](const Q& a, const Q& b) { return dist(a, b); };
    const Path o = whole ? PU::UpsamplePath(p, n, dfn, lerp) : PU::UpsamplePathPartial(p, s, e, n, dfn, lerp);
    auto show = [&] { return "path" + ps(p) + " [" + str(s) + "," + str(e) + ") to " + str(n) + " points ->" + ids(o); };
    if (n <= e - s) {
      c.count(n == e - s ? "already matching" : "already more");
      bool same = (ssize_t)o.size() == e - s;
      for (ssize_t i = s; same && i < e; i++) same = o[i - s].a == i && o[i - s].b == i && o[i - s].x == p[i].x;
      c.check(same, "a portion with enough points is not returned as it is", show);
      return;
    }
    if (!c.check((ssize_t)o.size() == n, "upsampling does not give the requested number of points", show)) return;
    c.check(o.front().x == p[s].x && o.back().x == p[e - 1].x && o.back().a == e - 1, "upsampling changed an endpoint", show);
    std::vector<int> k(e - s - 1, 0);
    double pos = -1;
    for (size_t i = 0; i < o.size(); i++) {
      const Q& q = o[i];
      if (!c.check(q.a >= s && q.b < e && (q.a == q.b || (q.b == q.a + 1 && q.t > 0 && q.t < 1)), "an upsampled point is not on the segments of the portion", show)) return;
      const double at = q.a == q.b ? q.a : q.a + q.t;
      c.check(at > pos, "upsampled points are out of order or repeated", show);
      if (q.a < e - 1) k[q.a - s]++;
      pos = at;
    }
    double longest = 0;
    for (size_t i = 0; i < k.size(); i++) {
      c.check(k[i] >= 1, "upsampling dropped a point of the path", show);
      longest = std::max(longest, dist(p[s + i], p[s + i + 1]) / k[i]);
    }
    for (size_t i = 0; i < o.size(); i++)
      if (i) c.check(dist(o[i - 1], o[i]) <= longest * (1 + 1e-9) + 1e-12, "a segment is not divided evenly", show);
    // no other way of distributing the points leaves a shorter longest step
    for (size_t j = 0; j < k.size(); j++)
      if (k[j] > 1) c.check(dist(p[s + j], p[s + j + 1]) / (k[j] - 1) >= longest * (1 - 1e-9), "points were spent on a short segment while a longer one was left undivided", show);
  });
  m.group("distance", 10000, 400000, [](Case& c) {
    Rng& r = c.rng;
    const Path p = c.index % 400 == 3 ? path(r, 120, 300) : path(r, 0, 20);
    note(c, p);
    c.nontrivial(p.size() > 1);
    std::vector<std::pair<int, int>> asked;
    const double d = EigenHelpers::CalculateTotalDistance(p, [&](const Q& a, const Q& b) { asked.push_back({a.a, b.a}); return dist(a, b) * (a.a < b.a ? 1 : 100); });
    c.check(std::abs(d - total(p)) <= 1e-12 * (1 + d), "the distance of a path is not the sum of its steps", [&] { return ps(p) + ": " + str(d); });
    c.check(asked.size() == (p.empty() ? 0 : p.size() - 1), "the distance function is not called once per step", [&] { return ps(p) + ": " + str(asked.size()); });
    EigenHelpers::VectorVector3d v;
    for (auto& q : p) {
      Eigen::Vector3d x(0, 0, 0);
      for (int k = 0; k < std::min<int>(3, q.x.size()); k++) x(k) = q.x(k);
      v.push_back(x);
    }
    double acc = 0;
    const auto each = EigenHelpers::CalculateIndividualDistances(v), cum = EigenHelpers::CalculateCumulativeDistances(v);
    c.check(each.size() == v.size() && cum.size() == v.size(), "distances along a path have a different length than the path", [&] { return ps(p); });
    for (size_t i = 0; i < v.size(); i++) {
      const double st = i ? (v[i] - v[i - 1]).norm() : 0;
      acc += st;
      c.check(std::abs(each[i] - st) <= 1e-12 * (1 + st) && std::abs(cum[i] - acc) <= 1e-12 * (1 + acc), "individual or cumulative distances are not those of the steps", [&] { return ps(p) + " at " + str(i); });
    }
    c.check(std::abs(EigenHelpers::CalculateTotalDistance(v) - acc) <= 1e-12 * (1 + acc), "the total distance is not the sum of the steps", [&] { return ps(p); });
  });
  return m.finish();
}
