// MON-variants: asan
// MON-rule: random directed graphs with validity flags, infinite weights and admissible heuristics (zero, exact, scaled, randomly inconsistent), occasionally with up to 68 thousand nodes, eager and lazy, duplicates limited or not, near-ties at any magnitude, caller answers that differ from the flags and weights stored in the graph; cost against Bellman-Ford, path and queries replayed; non-trivial when a path exists; distinct by graph, endpoints and mode
#include "arc_utilities/dijkstras.hpp"
#include "graphs.hpp"
using namespace mon;
using namespace arc_dijkstras;
typedef Graph<int64_t> Gr;
typedef SimpleGraphAstar<int64_t> A;

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("astar", 6000, 100000, [](Case& c) {
    Rng& r = c.rng;
    const bool large = c.index % 400 == 0;
    const int mode = large ? (int)(c.index / 400 % 5 % 3) : (int)r.below(3);  // 0 eager, 1 lazy over edges, 2 lazy over values
    // Value-level callbacks cannot tell parallel edges apart, so those cases have none.
    const bool parallel = mode != 2 && (large || r.chance(0.4));
    // With lazy search only the caller's answers count: what the graph itself says about its edges may be something else.
    const bool foreign = mode != 0 && !parallel && r.chance(0.5);
    gr::G g = large ? gr::large(r, mode == 2 ? r.range(120, 300) : gr::largeSize(r, c.index % 2000 < 800), r.chance(0.3))
                    : gr::random(r, r.chance(0.1) ? 50 : 12, r.chance(0.3), parallel, true);
    if (large && mode == 2) {
      std::set<std::pair<int64_t, int64_t>> seen;
      std::vector<gr::E> once;
      for (const auto& e : g.e)
        if (seen.insert({e.u, e.v}).second) once.push_back(e);
      g.e = once;
    }
    if (mode == 0 && r.chance(0.3))
      for (auto& e : g.e)
        if (r.chance(0.2)) e.w = INFINITY;
    const double pInvalid = r.chance(0.5) ? 0 : r.real(0, large ? 0.02 : 0.4);
    for (auto& e : g.e) e.validity = r.chance(pInvalid) ? INVALID : r.chance(0.5) ? VALID : UNKNOWN;
    const bool limit = r.chance(0.5);
    Gr graph;
    for (int64_t i = 0; i < g.n; i++) graph.addNode(i * 3 + 1);
    for (const auto& e : g.e) {
      graph.addEdgeBetweenNodes(e.u, e.v, foreign ? (r.chance(0.2) ? INFINITY : r.real(0, 10)) : e.w);
      const auto flag = (EDGE_VALIDITY)(foreign ? (int)r.below(3) : e.validity);
      graph.getNode(e.u).getOutEdges().back().setValidity(flag);
      graph.getNode(e.v).getInEdges().back().setValidity(flag);
    }
    int64_t s = r.range(0, g.n - 1);
    const int64_t t = r.range(0, g.n - 1);
    auto usable = [](const gr::E& e) { return e.validity != INVALID && e.w < INFINITY; };
    const auto toGoal = large ? gr::shortest(g, t, true, usable) : gr::bellmanFord(g, t, true, usable);
    for (int k = 0; large && k < 20 && (s == t || std::isinf(toGoal[(size_t)s])); k++) s = r.range(0, g.n - 1);
    // Admissible heuristic: h(v) <= true cost (infinite true cost: any finite value is admissible).
    const int hk = (int)r.below(4);
    std::vector<double> h((size_t)g.n);
    for (size_t i = 0; i < h.size(); i++) {
      const double d = std::isinf(toGoal[i]) ? r.real(0, 20) * g.scale : toGoal[i];
      h[i] = hk == 0 ? 0.0 : hk == 1 ? d : hk == 2 ? 0.5 * d : std::floor(d / g.scale * r.real() * 8) / 8 * g.scale;
      if (h[i] > d) h[i] = d;
      if (hk != 0) h[i] *= (1 - 1e-12);
    }
    h[(size_t)t] = 0;
    std::set<int64_t> discovered = {s};
    int64_t queries = 0;
    auto heur = [&](const int64_t& v, const int64_t& goal) {
      c.check(goal == t * 3 + 1, "heuristic-goal-argument", str(goal));
      return h[(size_t)((v - 1) / 3)];
    };
    // The caller's answers, by edge endpoints.
    auto validity = [&](int64_t u, int64_t v, const GraphEdge* e) {
      queries++;
      c.check(discovered.count(u) > 0, "edge-of-unexpanded-node-queried", str(u, ">", v));
      bool ok = false;
      if (e) ok = e->getValidity() != INVALID;
      else
        for (const auto& x : g.e)
          if (x.u == u && x.v == v) ok = x.validity != INVALID;
      if (ok) discovered.insert(v);
      return ok;
    };
    auto byEnds = [&](int64_t a, int64_t b) {
      for (const auto& x : g.e)
        if (x.u == a && x.v == b) {
          c.check(x.validity != INVALID, "distance-of-invalid-edge");
          return x.w;
        }
      c.fail("distance-of-missing-edge", str(a, ">", b));
      return 0.0;
    };
    auto run = [&]() {
      if (mode == 0) return A::PerformAstar(graph, s, t, heur, limit);
      if (mode == 1) {
        const std::function<bool(const Gr&, const GraphEdge&)> vf = [&](const Gr&, const GraphEdge& e) { return validity(e.getFromIndex(), e.getToIndex(), foreign ? nullptr : &e); };
        const std::function<double(const Gr&, const GraphEdge&)> df = [&](const Gr&, const GraphEdge& e) {
          if (foreign) return byEnds(e.getFromIndex(), e.getToIndex());
          c.check(e.getValidity() != INVALID, "distance-of-invalid-edge");
          return e.getWeight();
        };
        return A::PerformLazyAstar(graph, s, t, vf, df, heur, limit);
      }
      const std::function<bool(const int64_t&, const int64_t&)> vf = [&](const int64_t& a, const int64_t& b) { return validity((a - 1) / 3, (b - 1) / 3, nullptr); };
      const std::function<double(const int64_t&, const int64_t&)> df = [&](const int64_t& a, const int64_t& b) {
        return byEnds((a - 1) / 3, (b - 1) / 3);
      };
      return A::PerformLazyAstar(graph, s, t, vf, df, heur, limit);
    };
    gr::note(c, g);
    c.note(s * 1000 + t);
    c.note(mode * 2 + limit);
    const std::string modeName = str(mode == 0 ? "eager" : mode == 1 ? "lazy-edge" : "lazy-value", limit ? "-limited" : "", " heuristic ", hk);
    if (s == t) {
      bool threw = false;
      try {
        run();
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.check(threw, "start-is-goal-accepted");
      return;
    }
    auto desc = [&] { return str(modeName, " ", s, "->", t, " ", gr::show(g)); };
    const auto res = run();
    const double want = toGoal[(size_t)s];
    if (std::isinf(want)) {
      c.check(res.first.empty() && res.second == INFINITY, "no-path-reported-as-path", desc);
    } else {
      c.check(!res.first.empty(), "path-missed", desc);
      c.check(res.first.front() == s && res.first.back() == t, "path-endpoints", desc);
      double sum = 0;
      for (size_t i = 0; i + 1 < res.first.size(); i++) {
        double best = INFINITY;
        for (const auto& e : g.e)
          if (e.u == res.first[i] && e.v == res.first[i + 1] && usable(e)) best = std::min(best, e.w);
        c.check(!std::isinf(best), "path-uses-unusable-edge", [&] { return str(show(res.first), " ", desc()); });
        sum += best;
      }
      c.check(gr::close(g, sum, res.second), "cost-is-not-path-cost", [&] { return str("sum ", sum, " reported ", res.second, " path ", show(res.first), " ", desc()); });
      c.check(gr::close(g, res.second, want), "cost-not-optimal", [&] { return str("reported ", res.second, " optimal ", want, " ", desc()); });
      c.nontrivial();
      c.count("paths-found");
    }
    for (size_t i = 0; i < graph.getNodes().size(); i++) c.check(graph.getNodes()[i].getValue() == (int64_t)i * 3 + 1, "graph-modified");
    for (auto bad : {std::make_pair((int64_t)-1, t), std::make_pair(s, g.n), std::make_pair(g.n, t), std::make_pair(s, (int64_t)-1)}) {
      bool threw = false;
      try {
        A::PerformAstar(graph, bad.first, bad.second, [](const int64_t&, const int64_t&) { return 0.0; }, limit);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.check(threw, "bad-index-accepted", str(bad.first, " ", bad.second));
    }
    c.count("validity-queries", queries);
    c.count("runs." + std::string(mode == 0 ? "eager" : mode == 1 ? "lazy-edge" : "lazy-value"));
    c.sample(desc());
  });
  return m.finish();
}
