// MON-variants: asan omp asan-debugstl
// MON-rule: item sets of 0-24 (a few of up to 300) points in 1-3 dimensions (clumped, on a lattice with many ties, random, or an arbitrary symmetric distance table) x both linkages x limits below, at and above actual distances, unlimited or negative; outputs judged by the definition of the linkage and, when distances are distinct, against a reference agglomeration; distinct by items, linkage and limit
#ifdef _OPENMP
#define ENABLE_PARALLEL_COMPLETE_LINK_CLUSTERING
#endif
#include <cassert>
#include "arc_utilities/simple_hierarchical_clustering.hpp"
#include "mon.hpp"
using namespace mon;
using namespace simple_hierarchical_clustering;

struct Item {
  int id;
  std::vector<double> x;
};
typedef std::vector<std::set<int>> Parts;

static double linkage(const Eigen::MatrixXd& d, const std::set<int>& a, const std::set<int>& b, bool complete) {
  double r = complete ? 0.0 : INFINITY;
  for (int i : a)
    for (int j : b) r = complete ? std::max(r, d(i, j)) : std::min(r, d(i, j));
  return r;
}

static void judge(Case& c, const std::pair<std::vector<std::vector<Item>>, double>& got, const Eigen::MatrixXd& d, double limit, bool complete,
                  bool distinct, const std::string& what) {
  const int n = (int)d.rows();
  std::vector<int> seen(n, 0);
  Parts parts;
  for (auto& cl : got.first) {
    c.check(!cl.empty(), what + ":empty-cluster", "an empty cluster was returned");
    std::set<int> s;
    for (auto& it : cl) {
      c.check(it.id >= 0 && it.id < n, what + ":foreign", "item that was not in the input");
      seen[it.id]++;
      s.insert(it.id);
    }
    parts.push_back(s);
  }
  for (int i = 0; i < n; i++) c.eq(seen[i], 1, what + ":exactly-once", str("item ", i, " of ", n));
  double spacing = INFINITY;
  for (size_t a = 0; a < parts.size(); a++) {
    if (complete)
      for (int i : parts[a])
        for (int j : parts[a])
          c.check(d(i, j) <= limit || i == j, what + ":limit", [&] { return str("items ", i, ",", j, " are ", d(i, j), " apart, limit ", limit); });
    for (size_t b = a + 1; b < parts.size(); b++) {
      const double l = linkage(d, parts[a], parts[b], complete);
      spacing = std::min(spacing, l);
      c.check(l > limit, what + ":unmerged", [&] { return str("clusters at ", l, " left unmerged, limit ", limit); });
    }
  }
  c.check(got.second == spacing, what + ":spacing", [&] { return str("reported ", got.second, " actual ", spacing); });
  std::set<std::set<int>> gs(parts.begin(), parts.end());
  if (!complete) {
    std::vector<int> root(n);
    for (int i = 0; i < n; i++) root[i] = i;
    std::function<int(int)> find = [&](int i) { return root[i] == i ? i : root[i] = find(root[i]); };
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (i != j && d(i, j) <= limit) root[find(i)] = find(j);
    std::map<int, std::set<int>> comp;
    for (int i = 0; i < n; i++) comp[find(i)].insert(i);
    std::set<std::set<int>> ws;
    for (auto& k : comp) ws.insert(k.second);
    c.check(gs == ws, what + ":components", "single linkage clusters are not the components of the within-limit relation");
  } else if (distinct) {
    Parts ref;
    for (int i = 0; i < n; i++) ref.push_back({i});
    while (ref.size() > 1) {
      double best = INFINITY;
      size_t bi = 0, bj = 1;
      for (size_t i = 0; i < ref.size(); i++)
        for (size_t j = i + 1; j < ref.size(); j++) {
          const double l = linkage(d, ref[i], ref[j], true);
          if (l < best) best = l, bi = i, bj = j;
        }
      if (!(best <= limit)) break;
      ref[bi].insert(ref[bj].begin(), ref[bj].end());
      ref.erase(ref.begin() + bj);
    }
    c.check(gs == std::set<std::set<int>>(ref.begin(), ref.end()), what + ":closest-first", "merging did not proceed closest pair first");
  }
  c.count("clusters", (int64_t)parts.size());
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("cluster", 3000, 60000, [](Case& c) {
    Rng& r = c.rng;
    const int n = c.index % 500 == 3 ? (int)r.range(120, 300) : r.chance(0.15) ? (int)r.below(3) : (int)r.range(2, c.m.thorough ? 40 : 24);
    const int kind = (int)r.below(4), dim = (int)r.range(1, 3);
    std::vector<Item> data;
    for (int i = 0; i < n; i++) {
      Item it{i, {}};
      for (int k = 0; k < dim; k++)
        it.x.push_back(kind == 0 ? (double)r.range(0, 5) + (dim > 1 ? 1e-4 * r.real() : 0.0) : kind == 1 ? 5.0 * (double)r.below(3) + 0.4 * r.normal() : r.real(-10, 10));
      data.push_back(it);
    }
    std::function<double(const Item&, const Item&)> dist = [](const Item& a, const Item& b) {
      double s = 0;
      for (size_t k = 0; k < a.x.size(); k++) s += (a.x[k] - b.x[k]) * (a.x[k] - b.x[k]);
      return std::sqrt(s);
    };
    Eigen::MatrixXd table(n, n);
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++) table(i, j) = table(j, i) = i == j ? 0.0 : r.chance(0.05) ? 0.0 : r.chance(0.3) ? (double)r.range(0, 6) : r.real(0, 10);
    if (kind == 3)
      dist = [&table](const Item& a, const Item& b) { return table(a.id, b.id); };
    Eigen::MatrixXd d(n, n);
    std::vector<double> all;
    for (int i = 0; i < n; i++)
      for (int j = i; j < n; j++) {
        d(i, j) = d(j, i) = i == j ? 0.0 : dist(data[i], data[j]);
        if (i != j) all.push_back(d(i, j));
      }
    std::sort(all.begin(), all.end());
    const bool distinct = std::adjacent_find(all.begin(), all.end()) == all.end();
    const bool complete = r.chance(0.5);
    double limit;
    switch (r.below(7)) {
      case 0: limit = INFINITY; break;
      case 1: limit = -1.0; break;
      case 2: limit = 0.0; break;
      case 3: limit = 1e9; break;
      case 4: limit = all.empty() ? 1.0 : all[r.below(all.size())]; break;
      case 5: limit = all.empty() ? 1.0 : std::nextafter(all[r.below(all.size())], r.chance(0.5) ? 0.0 : 1e9); break;
      default: limit = r.real(0.0, 12.0);
    }
    for (auto& it : data)
      for (double x : it.x) c.note(x);
    if (kind == 3)
      for (double x : all) c.note(x);
    c.note(n), c.note(complete), c.note(limit);
    const CLUSTER_STRATEGY st = complete ? COMPLETE_LINK : SINGLE_LINK;
    auto a = SimpleHierarchicalClustering::Cluster(data, dist, limit, st);
    judge(c, a, d, limit, complete, distinct, "function");
    auto b = SimpleHierarchicalClustering::Cluster(data, d, limit, st);
    judge(c, b, d, limit, complete, distinct, "matrix");
    size_t big = 0;
    for (auto& k : a.first) big = std::max(big, k.size());
    c.nontrivial(big >= 3 && a.first.size() >= 2);
    if (c.index < 2) c.sample(str(n, " items, limit ", limit, complete ? " complete" : " single", " -> ", a.first.size(), " clusters, spacing ", a.second));
  });
  return m.finish();
}
