// MON-variants: asan omp asan-debugstl
// MON-rule: sequences of length 1-14 (and up to 60, rarely 400; point sets up to 67 thousand) over small integer alphabets (many equal costs), reals, 2-D points and cross-type pairs; evaluators reused over histories of growing, shrinking and empty sequences; DTW checked against memoised search over alignments (and explicit enumeration when short) of the definition, Hausdorff against the definition in serial and OpenMP builds; distinct by sequences and distance table
#ifdef _OPENMP
#define ENABLE_PARALLEL_HAUSDORFF_DISTANCE
#endif
#include "arc_utilities/simple_dtw.hpp"
#include "arc_utilities/simple_hausdorff_distance.hpp"
#include "mon.hpp"
using namespace mon;
typedef std::vector<double> D1;
typedef std::array<double, 2> P2;
typedef std::vector<P2> D2;

// Total cost over every monotone alignment, enumerated.
static double brute(int i, int j, int n, int m, const std::function<double(int, int)>& d) {
  const double here = d(i, j);
  if (i == n - 1 && j == m - 1) return here;
  double best = INFINITY;
  if (i + 1 < n) best = std::min(best, brute(i + 1, j, n, m, d));
  if (j + 1 < m) best = std::min(best, brute(i, j + 1, n, m, d));
  if (i + 1 < n && j + 1 < m) best = std::min(best, brute(i + 1, j + 1, n, m, d));
  return here + best;
}
// Same from the end, memoised.
static double memo(int n, int m, const std::function<double(int, int)>& d) {
  std::vector<std::vector<double>> t(n + 1, std::vector<double>(m + 1, INFINITY));
  for (int i = n - 1; i >= 0; i--)
    for (int j = m - 1; j >= 0; j--) {
      double best = (i == n - 1 && j == m - 1) ? 0.0 : std::min(t[i + 1][j], std::min(t[i][j + 1], t[i + 1][j + 1]));
      t[i][j] = d(i, j) + best;
    }
  return t[0][0];
}
static double dist2(const P2& a, const P2& b) { return std::hypot(a[0] - b[0], a[1] - b[1]); }

static double item(Rng& r, int kind) { return kind == 0 ? (double)r.below(2) : kind == 1 ? (double)r.range(-3, 3) : kind == 2 ? r.real(-5, 5) : (double)r.range(0, 1000) / 8.0; }

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("dtw", 3000, 60000, [](Case& c) {
    Rng& r = c.rng;
    typedef std::function<double(const double&, const double&)> F;
    typedef std::function<double(const double&, const P2&)> F2;
    const size_t a0 = r.below(6), b0 = r.below(6);
    simple_dtw::SimpleDTW<double, double, F> reused = r.chance(0.5) ? simple_dtw::SimpleDTW<double, double, F>() : simple_dtw::SimpleDTW<double, double, F>(a0, b0);
    const int steps = (int)r.range(1, 8);
    const int shape = (int)r.below(3);
    int grew = 0;
    for (int s = 0; s < steps; s++) {
      const int kind = (int)r.below(4);
      const int top = c.index % 300 == 5 ? 400 : shape == 0 ? 5 : shape == 1 ? 12 : 60;
      int n = (int)r.range(1, top), k = (int)r.range(1, top);
      if (r.chance(0.15)) {  // an empty sequence in between must not disturb what follows
        D1 e, f(r.below(4), 1.0);
        F fn = [](const double& x, const double& y) { return std::fabs(x - y); };
        if (r.chance(0.5))
          reused.EvaluateWarpingCost(e, f, fn);
        else
          reused.EvaluateWarpingCost(f, e, fn);
      }
      D1 a, b;
      for (int i = 0; i < n; i++) a.push_back(item(r, kind));
      for (int i = 0; i < k; i++) b.push_back(item(r, kind));
      if (r.chance(0.1)) b = a, k = n;
      const int form = (int)r.below(3);
      F fn = [form](const double& x, const double& y) { return form == 0 ? std::fabs(x - y) : form == 1 ? (x - y) * (x - y) : std::max(0.0, x - y) + (x == y ? 0.0 : 0.25); };
      auto d = [&](int i, int j) { return fn(a[i], b[j]); };
      for (double x : a) c.note(x);
      for (double x : b) c.note(x);
      c.note(n), c.note(form);
      const double want = memo(n, k, d), tol = 1e-9 * (1 + std::fabs(want));
      if (n + k <= 9) c.near(brute(0, 0, n, k, d), want, tol, "oracle-self-check");
      c.near(simple_dtw::ComputeDTWDistance(a, b, fn), want, tol, "fresh", str(n, "x", k));
      c.near(reused.EvaluateWarpingCost(a, b, fn), want, tol, "reused", str(n, "x", k, " at step ", s));
      grew += n > 1 && k > 1;
      if (r.chance(0.3)) {  // different element types
        D2 q;
        for (int i = 0; i < k; i++) q.push_back({{item(r, kind), item(r, kind)}});
        F2 f2 = [](const double& x, const P2& y) { return std::fabs(x - y[0]) + std::fabs(y[1]); };
        const double w2 = memo(n, k, [&](int i, int j) { return f2(a[i], q[j]); });
        c.near(simple_dtw::ComputeDTWDistance(a, q, f2), w2, 1e-9 * (1 + w2), "mixed-types");
      }
      if (c.index < 2 && s == 0) c.sample(str(n, "x", k, " sequences, cost ", want));
    }
    c.nontrivial(grew >= 2);
  });
  m.group("hausdorff", 3000, 40000, [](Case& c) {
    Rng& r = c.rng;
    const int kind = (int)r.below(4);
    const int scale = c.index % 300 == 5 ? 1 : c.index % 300 == 6 ? 2 : c.index % 300 == 7 ? 3 : 0;
    const int n = scale == 1 ? (int)r.range(200, 400) : scale == 2 ? (int)r.range(65000, 67000) : scale == 3 ? 2 : r.chance(0.1) ? (int)r.below(2) : (int)r.range(1, 80);
    const int k = scale == 1 ? (int)r.range(200, 400) : scale == 2 ? 2 : scale == 3 ? (int)r.range(65000, 67000) : r.chance(0.05) ? 1 : (int)r.range(1, 40);
    D2 a, b;
    for (int i = 0; i < n; i++) a.push_back({{item(r, kind), item(r, kind)}});
    for (int i = 0; i < k; i++) b.push_back(r.chance(0.2) && n ? a[r.below(n)] : P2{{item(r, kind), item(r, kind)}});
    for (auto& p : a) c.note(p[0]), c.note(p[1]);
    for (auto& p : b) c.note(p[0]), c.note(p[1]);
    const bool skew = r.chance(0.4);
    std::function<double(const P2&, const P2&)> fn = [skew](const P2& x, const P2& y) { return skew ? std::max(0.0, x[0] - y[0]) + 2 * std::fabs(x[1] - y[1]) : dist2(x, y); };
    double want = 0;
    for (auto& x : a) {
      double best = INFINITY;
      for (auto& y : b) best = std::min(best, fn(x, y));
      want = std::max(want, best);
    }
    c.check(simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(a, b, fn) == want, "hausdorff", [&] {
      return str(n, "x", k, " got ", simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(a, b, fn), " want ", want);
    });
    D1 s;
    for (auto& p : a) s.push_back(p[0]);
    std::function<double(const double&, const P2&)> f2 = [](const double& x, const P2& y) { return std::fabs(x - y[0]); };
    double w2 = 0;
    for (double x : s) {
      double best = INFINITY;
      for (auto& y : b) best = std::min(best, f2(x, y));
      w2 = std::max(w2, best);
    }
    c.check(simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(s, b, f2) == w2, "hausdorff-mixed", "mixed element types");
    c.nontrivial(n >= 2 && k >= 2 && want > 0);
    if (c.index < 2) c.sample(str(n, "x", k, " points, Hausdorff ", want));
  });
  return m.finish();
}
