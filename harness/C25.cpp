// MON-variants: asan asan-debugstl
// MON-shards: 8
// MON-flags: -O2
// MON-libs: time_optimal_trajectory_parametrization
// MON-rule: waypoint lists of 2-14 points in 1-7 dimensions (random, axis-parallel, collinear, nearly collinear, sharp but not exact turns, tiny and long segments, equal limits), deviations 1e-3..1, steps 1-20 ms; trajectories sampled at half steps, queried in shuffled orders, copied and destroyed; judged by geometry and differences; distinct by waypoints and limits
#include <list>
#include <map>
#include <vector>
#include "arc_utilities/time_optimal_trajectory_parametrization.hpp"
#include <memory>
#include "mon.hpp"
using namespace mon;
namespace T = time_optimal_trajectory_parametrization;
typedef Eigen::VectorXd VX;
typedef std::vector<VX> WP;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static VX rv(Rng& r, int n, double a, double b) {
  VX v(n);
  for (int i = 0; i < n; i++) v(i) = r.real(a, b);
  return v;
}
static const char* CLS[] = {"random", "axis-parallel", "collinear", "nearly collinear", "sharp turns", "tiny segments", "long", "equal limits"};
struct Job {
  int cls, n;
  WP w;
  VX mv, ma;
  double dev, step;
  std::list<VX> list() const { return std::list<VX>(w.begin(), w.end()); }
};
static Job job(Rng& r) {
  Job j;
  j.cls = (int)r.below(8);
  j.n = (int)r.range(j.cls == 2 ? 1 : 2, 7);
  const int n = j.n;
  const bool large = r.chance(0.004);
  const int cnt = large ? (int)r.range(36, 60) : j.cls == 6 ? (int)r.range(7, 14) : (int)r.range(2, 7);
  VX q = rv(r, n, -2, 2), dir = rv(r, n, -1, 1);
  if (dir.norm() < 0.1) dir = VX::Ones(n);
  dir /= dir.norm();
  j.w.push_back(q);
  int last = -1;
  while ((int)j.w.size() < cnt) {
    switch (j.cls) {
      case 1: {
        int k;
        do k = (int)r.below(n); while (k == last);
        last = k;
        q(k) += r.real(0.2, 2) * (r.chance(0.5) ? 1 : -1);
        break;
      }
      case 2: q += dir * r.real(0.2, 2); break;
      case 3: dir += rv(r, n, -1, 1) * std::pow(10.0, r.real(-6, -1)), dir /= dir.norm(), q += dir * r.real(0.2, 2); break;
      case 4: dir += rv(r, n, -1, 1) * std::pow(10.0, r.real(-2.5, -1)), dir /= -dir.norm(), q += dir * r.real(0.2, 2); break;
      case 5: q += rv(r, n, -1, 1) * std::pow(10.0, r.real(-2, 0)); break;
      default: q = rv(r, n, -2, 2);
    }
    if ((q - j.w.back()).norm() > 2e-3) j.w.push_back(q);
  }
  j.mv = j.cls == 7 ? VX::Constant(n, r.real(0.3, 3)) : rv(r, n, 0.3, 3);
  j.ma = j.cls == 7 ? VX::Constant(n, r.real(0.3, 5)) : rv(r, n, 0.3, 5);
  j.dev = std::pow(10.0, large ? r.real(-1, 0) : r.real(-3, 0));
  const double st[] = {0.001, 0.002, 0.005, 0.01, 0.02};
  j.step = large ? st[r.range(3, 4)] : st[r.below(5)];
  return j;
}
static std::string vs(const VX& v) {
  std::ostringstream o;
  o.precision(17);
  o << "(" << v.transpose().format(Eigen::IOFormat(17, Eigen::DontAlignCols, ",")) << ")";
  return o.str();
}
static std::string js(const Job& j) {
  std::string s = CLS[j.cls] + std::string(" waypoints");
  for (auto& w : j.w) s += " " + vs(w);
  return s + " max velocity " + vs(j.mv) + " max acceleration " + vs(j.ma) + " deviation " + str(j.dev) + " step " + str(j.step);
}
static void note(Case& c, const Job& j) {
  for (auto& w : j.w)
    for (int i = 0; i < j.n; i++) c.note(w(i));
  for (int i = 0; i < j.n; i++) c.note(j.mv(i)), c.note(j.ma(i));
  c.note(j.dev), c.note(j.step);
  c.count(CLS[j.cls]);
}
static double seg(const VX& p, const VX& a, const VX& b) {
  const VX d = b - a;
  const double t = std::min(1.0, std::max(0.0, (p - a).dot(d) / d.squaredNorm()));
  return (p - a - t * d).norm();
}
static double poly(const VX& p, const WP& w) {
  double d = 1e300;
  for (size_t i = 0; i + 1 < w.size(); i++) d = std::min(d, seg(p, w[i], w[i + 1]));
  return d;
}
// The integration may refuse (throw) when the step is too coarse for a tight corner; a finer step must then work.
static std::unique_ptr<T::Trajectory> build(Case& c, Job& j) {
  std::string why;
  for (int k = 0; k < 4; k++) {
    try {
      return std::unique_ptr<T::Trajectory>(new T::Trajectory(j.list(), j.mv, j.ma, j.dev, j.step));
    } catch (const std::exception& e) {
      why = e.what();
      c.count("refused, retried with a finer step");
      j.step /= 5;
      if (k == 0 && (j.cls == 2 || j.w.size() == 2)) break;
    }
  }
  c.check(false, "no trajectory for a feasible path", [&] { return js(j) + ": " + why; });
  return nullptr;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.cpu_limit = 180;  // many waypoints with fine steps are slow under the sanitizers
  m.group("path", 700, 15000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    Job j = job(r);
    note(c, j);
    c.nontrivial(j.w.size() > 2);
    const bool blend = r.chance(0.8);
    const T::Path p(j.list(), blend ? j.dev : 0.0);
    const double L = p.Length();
    auto show = [&] { return js(j) + (blend ? "" : " no blending"); };
    double poll = 0;
    for (size_t i = 0; i + 1 < j.w.size(); i++) poll += (j.w[i + 1] - j.w[i]).norm();
    c.check(std::isfinite(L) && L > 0 && L <= poll * (1 + 1e-9), "the path is longer than the piecewise-linear one (or has no length)", [&] { return show() + ", length " + str(L); });
    if (!blend) c.check(std::abs(L - poll) <= 1e-9 * poll, "an unblended path does not have the length of the piecewise-linear one", show);
    c.check((p.GetConfig(0) - j.w.front()).norm() < 1e-9, "the path does not start at the first waypoint", show);
    c.check((p.GetConfig(L) - j.w.back()).norm() < 1e-9 * (1 + L), "the path does not end at the last waypoint", show);
    const auto sw = p.SwitchingPoints();
    double prev = 0;
    for (auto& s : sw) {
      c.check(s.first >= prev - 1e-12 && s.first <= L + 1e-12, "switching points are not sorted along the path", [&] { return show() + ", " + str(s.first) + " after " + str(prev); });
      prev = s.first;
    }
    const double lim = blend ? j.dev : 0;
    for (int k = 0; k < 60; k++) {
      const double s = r.real(0, L), d = 1e-6;
      const VX x = p.GetConfig(s), t = p.GetTangent(s), cu = p.GetCurvature(s);
      auto at = [&] { return show() + " at " + str(s) + " of " + str(L) + ": " + vs(x) + " tangent " + vs(t) + " curvature " + vs(cu); };
      c.check(poly(x, j.w) <= lim * (1 + 1e-6) + 1e-7, "the path leaves the allowed deviation", [&] { return at() + " is " + str(poly(x, j.w)) + " away"; });
      c.check(std::abs(t.norm() - 1) < 1e-6, "the path's tangent is not a unit vector", at);
      c.check(std::abs(t.dot(cu)) < 1e-6 * (1 + cu.norm()), "the curvature is not orthogonal to the tangent", at);
      bool disc = true;
      const double nx = p.GetNextSwitchingPoint(s, disc);
      auto it = sw.begin();
      while (it != sw.end() && it->first <= s) ++it;
      c.check(it == sw.end() ? nx == L && disc : nx == it->first && disc == it->second, "the next switching point is not the next one in the list", [&] { return at() + " next " + str(nx); });
      // derivatives, away from the places where segments meet
      double gap = std::min(s, L - s);
      for (auto& b : sw)
        if (b.second) gap = std::min(gap, std::abs(b.first - s));
      if (gap > 4 * d) {
        const VX a = p.GetConfig(s - d), b = p.GetConfig(s + d);
        const double rnd = 4e-15 * (1 + 1 / (cu.norm() + 1e-12)) / d;
        c.check(((b - a) / (2 * d) - t).norm() < 1e-6 + rnd + d * d * cu.squaredNorm() * 2, "the tangent is not the derivative of the path", at);
        const VX ta = p.GetTangent(s - d), tb = p.GetTangent(s + d);
        c.check(((tb - ta) / (2 * d) - cu).norm() < 1e-6 + 1e-15 / d + cu.norm() * std::min(2.0, d * d * cu.squaredNorm() * 2 + 1e-6), "the curvature is not the derivative of the tangent", at);
      }
    }
    // where segments meet the path stays continuous, and smooth if it was blended
    for (auto& b : sw) {
      const double e = 1e-9 * (1 + L);
      if (b.first < e || b.first > L - e) continue;
      const VX x0 = p.GetConfig(b.first - e), x1 = p.GetConfig(b.first + e);
      c.check((x1 - x0).norm() <= 4 * e + 1e-9, "the path jumps", [&] { return show() + " at " + str(b.first) + ": " + vs(x0) + " to " + vs(x1); });
      if (blend && b.second && j.cls != 4) {
        const VX t0 = p.GetTangent(b.first - e), t1 = p.GetTangent(b.first + e);
        const double k = std::max(p.GetCurvature(b.first - e).norm(), p.GetCurvature(b.first + e).norm());
        c.check((t1 - t0).norm() <= 1e-5 + 4 * e * k, "a blended path has a corner", [&] { return show() + " at " + str(b.first) + ": " + vs(t0) + " to " + vs(t1); });
      }
    }
    for (auto& w : j.w) {
      // no waypoint is missed by more than the deviation; the distance along the path changes at most as fast as the
      // path runs, so intervals whose middle is too far away can be discarded
      const double tol = lim * (1 + 1e-6) + 2e-6;
      std::vector<std::pair<double, double>> todo{{0, L}};
      bool ok = false;
      double best = 1e300;
      for (int k = 0; k < 4000 && !todo.empty() && !ok; k++) {
        const auto iv = todo.back();
        todo.pop_back();
        const double md = 0.5 * (iv.first + iv.second), d = (p.GetConfig(md) - w).norm();
        best = std::min(best, d);
        ok = d <= tol;
        if (d - 0.5 * (iv.second - iv.first) <= tol) todo.push_back({iv.first, md}), todo.push_back({md, iv.second});
      }
      c.check(ok, "the path misses a waypoint by more than the deviation", [&] { return show() + " " + vs(w) + " by " + str(best); });
    }
  });
  m.group("limits", 240, 8000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    Job j = job(r);
    note(c, j);
    auto t = build(c, j);
    if (!t) return;
    const double D = t->Duration(), h = j.step;
    auto show = [&] { return js(j) + ", duration " + str(D); };
    if (!c.check(std::isfinite(D) && D > 0, "the duration is not a positive number", show)) return;
    const T::Path p(j.list(), j.dev);
    const double L = p.Length();
    const int M = (int)std::ceil(D / (h / 2));
    c.nontrivial(M > 20);
    VX up = VX::Constant(j.n, 1e300), dn = up, ox, ov;
    double s = 0, pt = 0;
    int tight = 0;
    std::vector<double> near(j.w.size(), 1e300);
    const double slack = (j.cls == 4 ? 100 : 20) * h;
    for (int i = 0; i <= M; i++) {
      const double tm = std::min(D, i * (h / 2));
      const auto pv = t->GetPositionVelocity(tm);
      const VX &x = pv.first, &v = pv.second;
      auto at = [&] { return show() + " at " + str(tm) + ": position " + vs(x) + " velocity " + vs(v); };
      if (!c.check(x.size() == j.n && v.size() == j.n && x.allFinite() && v.allFinite(), "position or velocity is not finite", at)) return;
      bool busy = false;
      for (int k = 0; k < j.n; k++) {
        c.check(std::abs(v(k)) <= j.mv(k) * (1 + 4 * h + 1e-4), "a joint exceeds its velocity limit", [&] { return at() + " joint " + str(k); });
        const double f = v(k) / j.ma(k);
        if (i > 0) {
          const double ex = std::max(f - tm - up(k), -f - tm - dn(k));
          c.check(ex <= slack, "a joint's velocity changes faster than its acceleration limit allows", [&] { return at() + " joint " + str(k) + " by " + str(ex / h) + " steps' worth"; });
          const double dt = tm - pt;
          if (std::abs(v(k)) >= 0.97 * j.mv(k) || (dt > 0 && std::abs(v(k) - ov(k)) >= 0.9 * j.ma(k) * dt)) busy = true;
        }
        up(k) = std::min(up(k), f - tm), dn(k) = std::min(dn(k), -f - tm);
      }
      if (busy || i == 0) tight++;
      if (i > 0) {
        const double dt = tm - pt;
        s += 0.5 * dt * (v.norm() + ov.norm());
        // the move between two samples is the one the velocities promise
        const double am = j.ma.norm();
        c.check((x - ox - 0.5 * dt * (v + ov)).norm() <= am * dt * (2 * dt + slack) * 0.5 + 1e-5, "positions and velocities do not agree", at);
      }
      const double off = (x - p.GetConfig(std::min(s, L))).norm();
      c.check(off <= 2e-3 + 0.02 * L * h * 10, "the position is not the point of the path reached at the speed so far", [&] { return at() + " is off by " + str(off) + " after " + str(s) + " of " + str(L); });
      if (i % (1 + (int)j.w.size() / 12) == 0) c.check(poly(x, j.w) <= j.dev * (1 + 1e-6) + 1e-6, "the trajectory leaves the allowed deviation", [&] { return at() + " is " + str(poly(x, j.w)) + " away"; });
      if (i == 0) {
        c.check((x - j.w.front()).norm() < 1e-9, "the trajectory does not start at the first waypoint", at);
        c.check(v.norm() < 1e-9, "the trajectory does not start at rest", at);
      }
      if (i == M) {
        c.check((x - j.w.back()).norm() < 1e-6, "the trajectory does not end at the last waypoint", at);
        c.check(v.norm() < 1e-4, "the trajectory does not end at rest", at);
      }
      ox = x, ov = v, pt = tm;
    }
    // time-optimal: at every moment some joint is at one of its limits
    if (M > 150) c.check(tight >= (M > 400 ? 0.85 : 0.65) * (M + 1), "no joint is at any of its limits for much of the motion", [&] { return show() + ": " + str(tight) + " of " + str(M + 1) + " samples at a limit"; });
  });
  m.group("straight", 400, 15000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    Job j = job(r);
    j.w.resize(2);
    note(c, j);
    c.nontrivial(true);
    auto t = build(c, j);
    if (!t) return;
    const VX d = j.w[1] - j.w[0];
    const double L = d.norm();
    double V = 1e300, A = 1e300;
    for (int k = 0; k < j.n; k++)
      if (d(k) != 0) V = std::min(V, j.mv(k) * L / std::abs(d(k))), A = std::min(A, j.ma(k) * L / std::abs(d(k)));
    const double D = L >= V * V / A ? V / A + L / V : 2 * std::sqrt(L / A);
    c.count(L >= V * V / A ? "trapezoid" : "triangle");
    c.check(std::abs(t->Duration() - D) <= 2.5 * j.step, "a straight motion does not take the shortest possible time", [&] { return js(j) + ": " + str(t->Duration()) + " instead of " + str(D); });
    for (int k = 0; k < 8; k++) {
      const double tm = r.real(0, std::min(D, t->Duration()));
      const double ta = L >= V * V / A ? V / A : D / 2, pk = A * ta;
      const double s = tm < ta ? 0.5 * A * tm * tm : tm < D - ta ? 0.5 * A * ta * ta + pk * (tm - ta) : L - 0.5 * A * (D - tm) * (D - tm);
      const VX x = t->GetPositionVelocity(tm).first;
      c.check((x - j.w[0] - d * (s / L)).norm() <= 3 * j.step * pk + 1e-6, "a straight motion is not where the fastest one is", [&] { return js(j) + " at " + str(tm) + ": " + vs(x); });
    }
  });
  m.group("histories", 150, 6000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    Job j = job(r);
    note(c, j);
    j.step = std::max(j.step, 0.005);
    auto ref = build(c, j);
    if (!ref) return;
    const double D = ref->Duration();
    c.nontrivial(true);
    // expected values, read in increasing order from an otherwise untouched object
    std::map<double, std::pair<VX, VX>> want;
    for (int k = 0; k < 40; k++) want[r.chance(0.05) ? 0.0 : r.chance(0.05) ? D : r.real(0, D)];
    for (auto& w : want) w.second = ref->GetPositionVelocity(w.first);
    std::vector<double> ts;
    for (auto& w : want) ts.push_back(w.first);
    auto same = [&](const T::Trajectory& t, double tm, const char* key) {
      const auto g = t.GetPositionVelocity(tm);
      const auto& w = want[tm];
      c.check(g.first == w.first && g.second == w.second, key, [&] { return js(j) + " at " + str(tm) + ": " + vs(g.first) + " " + vs(g.second) + " instead of " + vs(w.first) + " " + vs(w.second); });
    };
    std::vector<std::unique_ptr<T::Trajectory>> pool;
    pool.push_back(std::unique_ptr<T::Trajectory>(new T::Trajectory(j.list(), j.mv, j.ma, j.dev, j.step)));
    {
      std::unique_ptr<T::Path> p(new T::Path(j.list(), j.dev));
      T::Path assigned(std::list<VX>{j.w[0], j.w.back() + VX::Ones(j.n)}, 0.1);
      assigned = *p;
      const T::Path& self = assigned;
      if (r.chance(0.3)) assigned = self;
      T::Path copied(*p);
      const double L = p->Length(), s = r.real(0, L);
      const VX x = p->GetConfig(s);
      const size_t nsw = p->SwitchingPoints().size();
      p.reset();
      for (auto* o : {&assigned, &copied})
        c.check(o->Length() == L && o->GetConfig(s) == x && o->SwitchingPoints().size() == nsw, "a copied or assigned path differs from its original", [&] { return js(j) + " at " + str(s); });
      pool.push_back(std::unique_ptr<T::Trajectory>(new T::Trajectory(r.chance(0.5) ? assigned : copied, j.mv, j.ma, j.step)));
    }
    c.check(pool[0]->Duration() == D && pool[1]->Duration() == D, "the same inputs give trajectories of different duration", [&] { return js(j); });
    ref.reset();
    for (int k = 0; k < 120; k++) {
      const size_t i = r.below(pool.size());
      switch (r.below(8)) {
        case 0:
          if (pool.size() < 6) {
            pool.push_back(std::unique_ptr<T::Trajectory>(new T::Trajectory(*pool[i])));
            c.count("copied");
            c.check(pool.back()->Duration() == D, "a copy has a different duration", [&] { return js(j); });
          }
          break;
        case 1:
          if (pool.size() > 1) pool.erase(pool.begin() + i), c.count("destroyed");
          break;
        case 2: {
          // a run of increasing times
          size_t a = r.below(ts.size()), n = r.below(10);
          for (; n-- && a < ts.size(); a++) same(*pool[i], ts[a], "a query depends on what was asked before");
          break;
        }
        default:
          same(*pool[i], ts[r.below(ts.size())], "a query depends on what was asked before");
      }
    }
  });
  return m.finish();
}
