// MON-variants: asan
// MON-rule: random directed multigraphs (ties, zero and infinite weights, islands, parallel edges; sparse ones with up to 68 thousand nodes), random starts; distances against Bellman-Ford, back-pointers replayed; non-trivial when a node other than the start is reachable; distinct by graph and start
#include "arc_utilities/dijkstras.hpp"
#include "graphs.hpp"
using namespace mon;
using namespace arc_dijkstras;
typedef Graph<int64_t> Gr;
typedef SimpleDijkstrasAlgorithm<int64_t> D;

static bool sameGraph(const Gr& a, const Gr& b, bool distances) {
  if (a.getNodes().size() != b.getNodes().size()) return false;
  for (size_t i = 0; i < a.getNodes().size(); i++) {
    const auto &x = a.getNodes()[i], &y = b.getNodes()[i];
    if (x.getValue() != y.getValue() || !(x.getInEdges() == y.getInEdges()) || !(x.getOutEdges() == y.getOutEdges())) return false;
    if (distances && !(x.getDistance() == y.getDistance())) return false;
  }
  return true;
}
static uint64_t put(const int64_t& v, std::vector<uint8_t>& b) {
  for (int i = 0; i < 8; i++) b.push_back((uint8_t)((uint64_t)v >> (8 * i)));
  return 8;
}
static std::pair<int64_t, uint64_t> get(const std::vector<uint8_t>& b, const uint64_t at) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) v |= (uint64_t)b.at(at + (uint64_t)i) << (8 * i);
  return {(int64_t)v, 8};
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("distances", 4000, 60000, [](Case& c) {
    Rng& r = c.rng;
    gr::G g = gr::random(r, r.chance(0.1) ? 60 : 14, r.chance(0.3), r.chance(0.5), true);
    if (r.chance(0.15))
      for (auto& e : g.e)
        if (r.chance(0.2)) e.w = INFINITY;
    Gr graph;
    for (int64_t i = 0; i < g.n; i++) graph.addNode(1000 + i);
    for (const auto& e : g.e) graph.addEdgeBetweenNodes(e.u, e.v, e.w);
    for (auto& nd : graph.getNodes()) nd.setDistance(r.chance(0.5) ? 0.0 : -1.0);  // stale distances must not matter
    const Gr before = graph;
    const int64_t s = r.range(0, g.n - 1);
    const auto res = D::PerformDijkstrasAlgorithm(graph, s);
    c.check(sameGraph(graph, before, true), "input-modified");
    const auto& prev = res.second.first;
    const auto& dist = res.second.second;
    c.check((int64_t)prev.size() == g.n && (int64_t)dist.size() == g.n, "result-size");
    c.check(sameGraph(res.first, before, false), "result-graph-differs");
    const auto want = gr::bellmanFord(g, s, true, [](const gr::E&) { return true; });
    int64_t reached = 0;
    for (int64_t i = 0; i < g.n; i++) {
      const size_t k = (size_t)i;
      c.check(gr::close(g, dist[k], want[k]), "distance", [&] { return str("node ", i, " start ", s, " got ", dist[k], " want ", want[k], " ", gr::show(g)); });
      c.check(res.first.getNode(i).getDistance() == dist[k], "stored-distance", str("node ", i));
      if (std::isinf(want[k])) {
        c.check(prev[k] == -1, "unreached-backpointer", str("node ", i, " prev ", prev[k]));
        continue;
      }
      reached++;
      double sum = 0;
      int64_t at = i, hops = 0;
      while (at != s) {
        const int64_t nx = prev[(size_t)at];
        double best = INFINITY;
        for (const auto& e : g.e)
          if (e.u == at && e.v == nx) best = std::min(best, e.w);
        c.check(!std::isinf(best), "backpointer-without-edge", [&] { return str(at, ">", nx, " ", gr::show(g)); });
        sum += best;
        at = nx;
        c.check(++hops <= g.n, "backpointer-cycle", [&] { return gr::show(g); });
      }
      c.check(gr::close(g, sum, dist[k]), "backpointer-path-cost", [&] { return str("node ", i, " sum ", sum, " dist ", dist[k], " ", gr::show(g)); });
    }
    c.eq(prev[(size_t)s], s, "start-backpointer");
    for (int64_t badStart : {(int64_t)-1, g.n, g.n + 7, INT64_MIN}) {
      bool threw = false;
      try {
        D::PerformDijkstrasAlgorithm(graph, badStart);
      } catch (const std::exception&) {
        threw = true;
      }
      c.check(threw, "bad-start-accepted", str(badStart));
    }
    std::vector<uint8_t> buf(r.below(5), 1);
    const size_t off = buf.size();
    const uint64_t wrote = D::SerializeDijstrasResult(res, buf, put);
    c.check(wrote == buf.size() - off, "serialized-bytes");
    if (r.chance(0.5)) buf.push_back(3);
    const auto back = D::DijstrasResult(buf, off, get);
    c.check(back.second == wrote, "deserialized-bytes");
    c.check(sameGraph(back.first.first, res.first, true) && back.first.second.first == prev && back.first.second.second == dist, "result-roundtrip");
    gr::note(c, g);
    c.note(s);
    c.nontrivial(reached > 1);
    c.count("nodes-judged", g.n);
    c.count("reachable-nodes", reached);
    c.sample(str("start ", s, " ", gr::show(g)));
  });
  // Large sparse graphs.
  m.group("large", 16, 200, [](Case& c) {
    Rng& r = c.rng;
    const gr::G g = gr::large(r, gr::largeSize(r, c.index % 8 == 0), r.chance(0.3));
    Gr graph;
    for (int64_t i = 0; i < g.n; i++) graph.addNode(1000 + i);
    for (const auto& e : g.e) graph.addEdgeBetweenNodes(e.u, e.v, e.w);
    const int64_t s = r.chance(0.3) ? g.n - 1 : r.range(0, g.n - 1);
    const auto res = D::PerformDijkstrasAlgorithm(graph, s);
    const auto& prev = res.second.first;
    const auto& dist = res.second.second;
    c.check((int64_t)prev.size() == g.n && (int64_t)dist.size() == g.n, "result-size");
    c.check(sameGraph(res.first, graph, false), "result-graph-differs");
    const auto want = gr::shortest(g, s, true, [](const gr::E&) { return true; });
    std::map<std::pair<int64_t, int64_t>, double> best;
    for (const auto& e : g.e) {
      auto it = best.insert({{e.u, e.v}, e.w}).first;
      it->second = std::min(it->second, e.w);
    }
    std::vector<int8_t> done((size_t)g.n, 0);
    done[(size_t)s] = 1;
    int64_t reached = 0;
    for (int64_t i = 0; i < g.n; i++) {
      const size_t k = (size_t)i;
      c.check(gr::close(g, dist[k], want[k]), "distance", [&] { return str("node ", i, " start ", s, " of ", g.n, " got ", dist[k], " want ", want[k]); });
      c.check(res.first.getNode(i).getDistance() == dist[k], "stored-distance", [&] { return str("node ", i); });
      if (std::isinf(want[k])) {
        c.check(prev[k] == -1, "unreached-backpointer", [&] { return str("node ", i, " prev ", prev[k]); });
        continue;
      }
      reached++;
      // Follow back-pointers to a node already known to reach the start.
      std::vector<int64_t> chain;
      int64_t at = i;
      while (!done[(size_t)at]) {
        done[(size_t)at] = 1;
        chain.push_back(at);
        const int64_t nx = prev[(size_t)at];
        const auto it = best.find({at, nx});
        c.check(it != best.end(), "backpointer-without-edge", [&] { return str(at, ">", nx, " of ", g.n); });
        c.check(gr::close(g, dist[(size_t)at], dist[(size_t)nx] + it->second), "backpointer-path-cost", [&] { return str(at, ">", nx); });
        at = nx;
        for (size_t q = 0; q < chain.size() && chain.size() < 200; q++) c.check(chain[q] != at, "backpointer-cycle", [&] { return str(at); });
      }
    }
    c.eq(prev[(size_t)s], s, "start-backpointer");
    if (g.n < 4000 || c.index % 8 == 0) {
      std::vector<uint8_t> buf(1);
      const uint64_t wrote = D::SerializeDijstrasResult(res, buf, put);
      const auto back = D::DijstrasResult(buf, 1, get);
      c.check(wrote == buf.size() - 1 && back.second == wrote, "serialized-bytes");
      c.check(sameGraph(back.first.first, res.first, true) && back.first.second.first == prev && back.first.second.second == dist, "result-roundtrip");
    }
    gr::note(c, g);
    c.nontrivial(reached > 1);
    c.count("nodes-judged", g.n);
    c.count("reachable-nodes", reached);
    c.sample(str("start ", s, " of ", g.n, " nodes, ", g.e.size(), " edges"));
  });
  return m.finish();
}
