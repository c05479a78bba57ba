// MON-variants: asan asan-debugstl
// MON-rule: data sets of 1-220 items (a few of 900 with 300 clusters or of 67 thousand) in 1-3 dimensions (clumped, on a lattice with exact ties, collinear, with many repeated items) x cluster counts up to the number of items x caller-given or random starting centres x preliminary clustering x weights bound to the items; every call of the averaging function is observed; distinct by data, weights and cluster count
#include <cassert>
#include "arc_utilities/simple_kmeans_clustering.hpp"
#include "mon.hpp"
using namespace mon;
using namespace simple_kmeans_clustering;

// The code seeds its generator from the clock: a scripted clock makes every case replay exactly.
static int64_t g_now = 1;
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now += 1237)); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

struct P {
  std::array<double, 3> x{{0, 0, 0}};
  int id = -1;  // -1 for averages
};
typedef std::vector<P> V;
static double dist(const P& a, const P& b) {
  double s = 0;
  for (int k = 0; k < 3; k++) s += (a.x[k] - b.x[k]) * (a.x[k] - b.x[k]);
  return std::sqrt(s);
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("cluster", 2500, 40000, [](Case& c) {
    Rng& r = c.rng;
    g_now = (int64_t)(r.u64() >> 8);
    const int scale = c.index % 400 == 3 ? 2 : c.index % 400 == 4 ? 1 : 0;
    const int n = scale == 2 ? (int)r.range(65000, 67000) : scale == 1 ? (int)r.range(500, 900) : r.chance(0.15) ? (int)r.range(1, 4) : r.chance(0.3) ? (int)r.range(60, 220) : (int)r.range(3, 60);
    const int kind = (int)r.below(4), dim = (int)r.range(1, 3);
    V data(n);
    std::vector<double> weights(n);
    for (int i = 0; i < n; i++) {
      data[i].id = i;
      if (i && r.chance(kind == 2 ? 0.5 : 0.02))
        data[i].x = data[r.below(i)].x;
      else
        for (int k = 0; k < dim; k++)
          data[i].x[k] = kind == 0 ? (double)r.range(-4, 4) : kind == 1 ? 5.0 * (double)r.below(4) + 0.4 * r.normal() : kind == 2 ? (double)r.below(3) : r.real(-10, 10);
      weights[i] = std::exp(r.real(-2, 3));
      for (double q : data[i].x) c.note(q);
      c.note(weights[i]);
    }
    const bool weighted = r.chance(0.5), given = r.chance(0.4), prelim = r.chance(0.5);
    const uint32_t k = scale == 2 ? (uint32_t)r.range(1, 4) : scale == 1 ? (uint32_t)r.range(200, 300) : r.chance(0.3) ? (uint32_t)r.range(1, n) : (uint32_t)r.range(1, std::min(n, 6));
    c.note(k), c.note(weighted), c.note(given), c.note(prelim);
    int64_t averages = 0;
    auto average = [&](const V& v, const std::vector<double>& w) {
      averages++;
      c.check(!v.empty(), "average-of-nothing", [&] { return str("the averaging function was given an empty set, ", n, " items, ", k, " clusters"); });
      c.check(v.size() == w.size(), "weights-length", [&] { return str(v.size(), " items averaged with ", w.size(), " weights"); });
      P p;
      double tw = 0;
      std::set<int> ids;
      for (size_t i = 0; i < v.size(); i++) {
        c.check(v[i].id >= 0 && v[i].id < n && ids.insert(v[i].id).second, "average-items", "an item that is not (or twice) in the input was averaged");
        if (weighted)
          c.check(w[i] == weights[v[i].id], "weight-follows-item", [&] { return str("item ", v[i].id, " was averaged with weight ", w[i], ", its own is ", weights[v[i].id]); });
        for (int q = 0; q < 3; q++) p.x[q] += w[i] * v[i].x[q];
        tw += w[i];
      }
      for (double& q : p.x) q /= tw;
      return p;
    };
    const std::function<double(const P&, const P&)> df = dist;
    const std::function<P(const V&)> af = [&](const V& v) { return average(v, std::vector<double>(v.size(), 1.0)); };
    const std::function<P(const V&, const std::vector<double>&)> wf = average;
    std::vector<uint32_t> labels;
    V centers;
    {
      Quiet q;
      if (given) {
        V start;
        if (r.chance(0.7))
          for (uint32_t i = 0; i < k; i++) start.push_back(data[r.below(n)]);
        else
          for (uint32_t i = 0; i < k; i++) {
            P p;
            for (int j = 0; j < dim; j++) p.x[j] = r.real(-12, 12);
            start.push_back(p);
          }
        auto res = weighted ? SimpleKMeansClustering::ClusterWeighted(data, weights, df, wf, start) : SimpleKMeansClustering::Cluster(data, df, af, start);
        labels = res.first;
        centers = res.second;
        c.eq(centers.size(), (size_t)k, "centre-count");
        for (int again = 0; again < 1; again++) {
          auto r2 = weighted ? SimpleKMeansClustering::ClusterWeighted(data, weights, df, wf, start) : SimpleKMeansClustering::Cluster(data, df, af, start);
          c.check(r2.first == labels, "deterministic", "same data and start, other labels");
        }
      } else {
        labels = weighted ? SimpleKMeansClustering::ClusterWeighted(data, weights, df, wf, k, prelim) : SimpleKMeansClustering::Cluster(data, df, af, k, prelim);
      }
    }
    c.eq(labels.size(), (size_t)n, "one-label-per-item");
    std::vector<P> mean(k);
    std::vector<double> tw(k, 0.0);
    for (int i = 0; i < n; i++) {
      c.check(labels[i] < k, "label-range", [&] { return str("label ", labels[i], " of ", k); });
      const double w = weighted ? weights[i] : 1.0;
      tw[labels[i]] += w;
      for (int q = 0; q < 3; q++) mean[labels[i]].x[q] += w * data[i].x[q];
    }
    size_t used = 0;
    for (uint32_t j = 0; j < k; j++) {
      if (tw[j] <= 0) continue;
      used++;
      for (double& q : mean[j].x) q /= tw[j];
      if (!centers.empty()) c.check(dist(mean[j], centers[j]) < 1e-9, "centre-is-average", [&] { return str("centre ", j, " is ", dist(mean[j], centers[j]), " from the average of its items"); });
    }
    const V& ref = centers.empty() ? mean : centers;
    for (int i = 0; i < n; i++) {
      const double mine = dist(data[i], ref[labels[i]]);
      for (uint32_t j = 0; j < k; j++)
        if (!centers.empty() || tw[j] > 0)
          c.check(mine <= dist(data[i], ref[j]) + 1e-9, "nearest-centre", [&] { return str("item ", i, " is ", mine, " from its centre and ", dist(data[i], ref[j]), " from another"); });
    }
    if (k == 1)
      for (auto l : labels) c.eq(l, 0u, "single");
    c.count("averages", averages);
    c.nontrivial(used >= 2 && n > (int)k);
    if (c.index < 2) c.sample(str(n, " items into ", k, weighted ? " weighted" : "", " clusters: ", used, " used, ", averages, " averages"));
  });
  return m.finish();
}
