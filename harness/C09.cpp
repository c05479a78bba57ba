// MON-variants: asan
// MON-rule: random undirected graphs (isolated nodes, islands, parallel edges, up to 68 thousand components): labels against union-find; random walks with several generators from every kind of start; non-trivial when the graph has an edge; distinct by graph
#include <random>

#include "arc_utilities/arc_helpers.hpp"
#include "arc_utilities/dijkstras.hpp"
#include "graphs.hpp"
using namespace mon;
using namespace arc_dijkstras;
typedef Graph<int> Gr;

static Gr build(const gr::G& g) {
  Gr graph;
  for (int64_t i = 0; i < g.n; i++) graph.addNode((int)i);
  for (const auto& e : g.e) graph.addEdgeBetweenNodes(e.u, e.v, e.w);
  return graph;
}
static std::vector<int64_t> components(const gr::G& g, int64_t& k) {
  std::vector<int64_t> p((size_t)g.n);
  for (size_t i = 0; i < p.size(); i++) p[i] = (int64_t)i;
  auto find = [&](int64_t x) {
    while (p[(size_t)x] != x) x = p[(size_t)x] = p[(size_t)p[(size_t)x]];
    return x;
  };
  for (const auto& e : g.e) p[(size_t)find(e.u)] = find(e.v);
  std::set<int64_t> roots;
  for (int64_t i = 0; i < g.n; i++) {
    p[(size_t)i] = find(i);
    roots.insert(p[(size_t)i]);
  }
  k = (int64_t)roots.size();
  return p;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("components", 5000, 80000, [](Case& c) {
    gr::G g = c.index % 600 == 0 ? gr::large(c.rng, gr::largeSize(c.rng, c.index % 2400 == 0), true)
                                 : gr::random(c.rng, c.rng.chance(0.1) ? 80 : 15, true, c.rng.chance(0.3), true);
    if (c.rng.chance(0.3)) g.n += c.rng.range(1, 4);  // isolated nodes at the end
    if (c.index % 200 == 0) {  // many components of one to three nodes
      const int64_t more = c.index % 2500 == 0 ? 65600 : c.rng.range(200, 400);
      for (int64_t i = 0; i < more; i++) {
        const int64_t size = c.rng.range(1, 3);
        for (int64_t j = 1; j < size; j++)
          for (int back = 0; back < 2; back++) g.e.push_back(gr::E{g.n + (back ? j : j - 1), g.n + (back ? j - 1 : j), 1.0, 0});
        g.n += size;
      }
    }
    if (c.rng.chance(0.02)) {
      g.n = 0;
      g.e.clear();
    }
    const Gr graph = build(g);
    const auto res = graph.getConnectedComponentsUndirected();
    int64_t k = 0;
    const auto want = components(g, k);
    auto desc = [&] { return str("labels ", show(res.first), " count ", res.second, " want ", k, " ", gr::show(g)); };
    c.check((int64_t)res.first.size() == g.n, "label-count", desc);
    c.check((int64_t)res.second == k, "component-count", desc);
    std::map<int64_t, uint32_t> label;
    std::set<uint32_t> used;
    for (size_t i = 0; i < want.size(); i++) {
      c.check(res.first[i] >= 1 && res.first[i] <= res.second, "label-range", desc);
      if (!label.count(want[i])) {
        label[want[i]] = res.first[i];
        c.check(used.insert(res.first[i]).second, "components-share-label", desc);
      }
      c.check(label[want[i]] == res.first[i], "component-split", desc);
    }
    gr::note(c, g);
    c.nontrivial(!g.e.empty());
    c.count("components", k);
    c.sample(desc());
  });
  m.group("walks", 2500, 40000, [](Case& c) {
    gr::G g = gr::random(c.rng, 12, true, c.rng.chance(0.2), true);
    if (c.index % 25 == 0) {  // long corridors, where the walk gets far before it closes a loop
      g = gr::G();
      g.n = c.rng.range(40, 300);
      if (c.rng.chance(0.4))  // a hub, left through any one of many edges
        for (int64_t i = 1; i < g.n; i++) g.e.push_back({0, i, 1.0, 0}), g.e.push_back({i, 0, 1.0, 0});
      const int64_t skip = c.rng.range(2, g.n);
      for (int64_t i = g.e.empty() ? 0 : g.n; i + 1 < g.n; i++)
        for (int64_t d : {(int64_t)1, i % skip == 0 ? skip : 0})
          if (d > 0 && i + d < g.n) g.e.push_back({i, i + d, 1.0, 0}), g.e.push_back({i + d, i, 1.0, 0});
    }
    const Gr graph = build(g);
    int64_t k = 0;
    const auto comp = components(g, k);
    const int64_t s = c.rng.range(0, g.n - 1);
    std::vector<int64_t> same;
    for (int64_t i = 0; i < g.n; i++)
      if (comp[(size_t)i] == comp[(size_t)s]) same.push_back(i);
    const int64_t t = c.index % 25 == 0 && c.rng.chance(0.5) ? (s < g.n / 2 ? g.n - 1 : 0) : c.rng.pick(same);
    std::vector<int64_t> path;
    const uint64_t seed = c.rng.u64();
    const int gen = (int)c.rng.below(3);
    if (gen == 0) {
      std::mt19937_64 rg(seed);
      path = GraphRandomWalk<int>::PerformRandomWalk(graph, s, t, rg);
    } else if (gen == 1) {
      std::mt19937 rg((uint32_t)seed);
      path = GraphRandomWalk<int>::PerformRandomWalk(graph, s, t, rg);
    } else {
      Rng rg(seed);
      path = GraphRandomWalk<int>::PerformRandomWalk(graph, s, t, rg);
    }
    auto desc = [&] { return str(s, "->", t, " walk ", show(path), " ", gr::show(g)); };
    c.check(!path.empty() && path.front() == s && path.back() == t, "walk-endpoints", desc);
    std::set<int64_t> seen;
    for (size_t i = 0; i < path.size(); i++) {
      c.check(seen.insert(path[i]).second, "walk-repeats-node", desc);
      if (i + 1 == path.size()) break;
      bool ok = false;
      for (const auto& e : g.e) ok = ok || (e.u == path[i] && e.v == path[i + 1]);
      c.check(ok, "walk-leaves-graph", desc);
    }
    gr::note(c, g);
    c.note(s * 100 + t);
    c.nontrivial(path.size() > 1);
    c.count("walk-steps", (int64_t)path.size() - 1);
    c.sample(desc());
  });
  return m.finish();
}
