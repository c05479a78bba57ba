// MON-variants: asan omp asan-debugstl
// MON-rule: item sets of 0-120 (some of 600, a few of 67 thousand) numbers and points with many, few or no tied distances, K from 0 to beyond the set, symmetric and asymmetric and cross-type distance functions, sets of equal and unequal sizes; compared with exhaustive search in serial and OpenMP builds; distinct by items, query and K
#include "arc_utilities/arc_helpers.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_helpers;
typedef std::array<double, 2> P2;
typedef std::vector<std::pair<int64_t, double>> NN;

static void judge(Case& c, const NN& got, const std::vector<double>& d, size_t K, const std::string& what) {
  const size_t n = d.size();
  c.eq(got.size(), std::min(K, n), what + ":count", str("n=", n, " K=", K));
  std::set<int64_t> in;
  double worst = -INFINITY;
  for (auto& g : got) {
    c.check(g.first >= 0 && g.first < (int64_t)n, what + ":index", [&] { return str("index ", g.first, " of ", n); });
    c.check(in.insert(g.first).second, what + ":distinct", [&] { return str("index ", g.first, " twice"); });
    c.check(g.second == d[g.first], what + ":distance", [&] { return str("item ", g.first, " reported ", g.second, " is ", d[g.first]); });
    worst = std::max(worst, g.second);
  }
  for (size_t i = 0; i < n && K > 0; i++)
    if (!in.count((int64_t)i)) c.check(d[i] >= worst, what + ":nearest", [&] { return str("item ", i, " at ", d[i], " omitted, ", worst, " returned"); });
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("nearest", 4000, 80000, [](Case& c) {
    Rng& r = c.rng;
    const int kind = (int)r.below(3);
    const size_t n = c.index % 500 == 4 ? 65000 + r.below(2000) : c.index % 50 == 5 ? 200 + r.below(400) : r.chance(0.15) ? r.below(3) : r.below(121);
    auto gen = [&] { return kind == 0 ? (double)r.range(-3, 3) : kind == 1 ? r.real(-100, 100) : (double)r.below(40) * 1e-3; };
    std::vector<double> items;
    for (size_t i = 0; i < n; i++) items.push_back(gen());
    if (r.chance(0.2)) std::sort(items.begin(), items.end());
    if (r.chance(0.1)) std::sort(items.rbegin(), items.rend());
    const P2 q{{gen(), gen()}};
    const size_t K = n > 60000 ? 1 + r.below(30) : r.chance(0.1) ? 0 : r.chance(0.2) ? n + r.below(3) : r.chance(0.2) && n ? n - 1 : r.below(n + 4);
    const double scale = r.chance(0.1) ? 1e300 : 1.0;
    std::function<double(const double&, const P2&)> fn = [scale](const double& x, const P2& y) { return scale * (std::fabs(x - y[0]) + 0.5 * std::max(0.0, y[1] - x)); };
    std::vector<double> d;
    for (double x : items) d.push_back(fn(x, q)), c.note(x);
    c.note(K), c.note(q[0]), c.note(q[1]);
    judge(c, GetKNearestNeighborsSerial(items, q, fn, K), d, K, "serial");
    judge(c, GetKNearestNeighborsParallel(items, q, fn, K), d, K, "parallel");
    c.nontrivial(K > 0 && K < n);
    if (c.index < 2) c.sample(str("n=", n, " K=", K));
  });
  m.group("matrix", 2500, 40000, [](Case& c) {
    Rng& r = c.rng;
    const bool large = c.index % 250 == 4;
    const size_t n = large ? 200 + r.below(150) : r.chance(0.15) ? r.below(2) : r.below(25), k = large && r.chance(0.7) ? 200 + r.below(150) : r.chance(0.2) ? n : r.chance(0.15) ? r.below(2) : r.below(25);
    std::vector<double> a;
    std::vector<double> a2;
    std::vector<P2> b;
    for (size_t i = 0; i < n; i++) a.push_back(r.chance(0.3) ? (double)r.below(4) : r.real(-9, 9)), c.note(a.back());
    for (size_t i = 0; i < k; i++) a2.push_back(r.chance(0.3) ? (double)r.below(4) : r.real(-9, 9)), c.note(a2.back());
    for (size_t i = 0; i < k; i++) b.push_back({{r.real(-9, 9), r.real(-9, 9)}});
    std::function<double(const double&, const double&)> sym = [](const double& x, const double& y) { return std::fabs(x - y); };
    std::function<double(const double&, const double&)> asym = [](const double& x, const double& y) { return x > y ? 2 * (x - y) : y - x; };
    std::function<double(const double&, const P2&)> cross = [](const double& x, const P2& y) { return std::hypot(x - y[0], y[1]); };
    for (int par = 0; par < 2; par++) {
      const std::string w = par ? "parallel" : "serial";
      auto one = par ? BuildDistanceMatrixParallel(a, sym) : BuildDistanceMatrixSerial(a, sym);
      c.check(one.rows() == (int64_t)n && one.cols() == (int64_t)n, w + ":shape-one", [&] { return str(one.rows(), "x", one.cols(), " for ", n); });
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) c.check(one(i, j) == sym(a[i], a[j]), w + ":entry-one", [&] { return str("(", i, ",", j, ") ", one(i, j), " want ", sym(a[i], a[j])); });
      auto two = par ? BuildDistanceMatrixParallel(a, a2, asym) : BuildDistanceMatrixSerial(a, a2, asym);
      c.check(two.rows() == (int64_t)n && two.cols() == (int64_t)k, w + ":shape-two", [&] { return str(two.rows(), "x", two.cols(), " for ", n, " and ", k); });
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < k; j++) c.check(two(i, j) == asym(a[i], a2[j]), w + ":entry-two", [&] { return str("(", i, ",", j, ") ", two(i, j), " want ", asym(a[i], a2[j])); });
      auto x = par ? BuildDistanceMatrixParallel(a, b, cross) : BuildDistanceMatrixSerial(a, b, cross);
      c.check(x.rows() == (int64_t)n && x.cols() == (int64_t)k, w + ":shape-cross", [&] { return str(x.rows(), "x", x.cols(), " for ", n, " and ", k); });
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < k; j++) c.check(x(i, j) == cross(a[i], b[j]), w + ":entry-cross", "");
    }
    c.nontrivial(n >= 2 && k >= 2);
    if (c.index < 2) c.sample(str(n, " x ", k));
  });
  return m.finish();
}
