// MON-variants: asan
// MON-rule: random finite state spaces served through recorded callbacks (integer-id search with sparse ids; configuration planner over integers and 2-vectors), consistent or merely admissible heuristics where the search supports them; non-trivial when the goal is reachable and is not the start; distinct by space, endpoints and mode
#include "arc_utilities/arc_helpers.hpp"
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/simple_astar_planner.hpp"
#include "graphs.hpp"
using namespace mon;

struct Cfg {
  int64_t id;
  int64_t tag;
  bool operator==(const Cfg& o) const { return id == o.id && tag == o.tag; }
};
struct CfgHash {
  size_t operator()(const Cfg& c) const { return (size_t)(c.id % 3); }  // collisions on purpose
};

// Edges by their ends (there are no parallel edges here).
struct Table {
  std::map<std::pair<int64_t, int64_t>, const gr::E*> at;
  explicit Table(const gr::G& g) {
    for (const gr::E& e : g.e) at.insert({{e.u, e.v}, &e});
  }
  const gr::E* find(int64_t u, int64_t v) const {
    const auto it = at.find({u, v});
    return it == at.end() ? nullptr : it->second;
  }
};

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("integer-ids", 4000, 60000, [](Case& c) {
    Rng& r = c.rng;
    const gr::G g = gr::random(r, c.index % 100 == 0 ? 250 : r.chance(0.1) ? 50 : 12, r.chance(0.3), false, true);
    const int64_t mul = r.chance(0.5) ? 1 : 1000003, off = r.chance(0.5) ? 0 : 17;
    auto id = [&](int64_t i) { return i * mul + off; };
    auto ix = [&](int64_t d) { return (d - off) / mul; };
    const int64_t s = r.range(0, g.n - 1), t = r.range(0, g.n - 1);
    auto usable = [](const gr::E& e) { return e.validity != 1; };
    const auto toGoal = gr::bellmanFord(g, t, true, usable);
    const int hk = (int)r.below(4);
    std::vector<double> h((size_t)g.n);
    for (size_t i = 0; i < h.size(); i++) {
      const double d = std::isinf(toGoal[i]) ? 5.0 * g.scale : toGoal[i];
      h[i] = (hk == 0 ? 0.0 : hk == 1 ? d : hk == 2 ? 0.5 * d : d * r.real()) * (1 - 1e-12);
    }
    h[(size_t)t] = 0;
    const bool limit = r.chance(0.5);
    std::set<int64_t> discovered = {id(s)}, generated;
    const Table table(g);
    auto find = [&](int64_t a, int64_t b) -> const gr::E* {
      return table.find(ix(a), ix(b));
    };
    auto run = [&] {
      return arc_helpers::GenericAstarSearch(
          id(s), id(t),
          [&](const int64_t v) {
            c.check(discovered.count(v) > 0, "expanded-undiscovered-state", str(v));
            generated.insert(v);
            std::vector<int64_t> out;
            for (const auto& e : g.e)
              if (e.u == ix(v)) out.push_back(id(e.v));
            c.count("expansions");
            return out;
          },
          [&](const int64_t a, const int64_t b) {
            const gr::E* e = find(a, b);
            c.check(e && generated.count(a), "queried-ungenerated-edge", str(a, ">", b));
            if (usable(*e)) discovered.insert(b);
            return usable(*e);
          },
          [&](const int64_t a, const int64_t b) {
            const gr::E* e = find(a, b);
            c.check(e && usable(*e), "distance-of-unusable-edge", str(a, ">", b));
            return e->w;
          },
          [&](const int64_t v, const int64_t goal) {
            c.check(goal == id(t), "heuristic-goal-argument");
            return h[(size_t)ix(v)];
          },
          limit);
    };
    auto desc = [&] { return str(s, "->", t, " limit ", limit, " heuristic ", hk, " ", gr::show(g)); };
    gr::note(c, g);
    c.note(s * 1000 + t);
    c.note(limit);
    if (s == t) {
      bool threw = false;
      try {
        run();
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.check(threw, "start-is-goal-accepted");
      return;
    }
    const auto res = run();
    const double want = toGoal[(size_t)s];
    if (std::isinf(want)) {
      c.check(res.first.empty() && res.second == INFINITY, "no-path-reported-as-path", desc);
      return;
    }
    c.check(!res.first.empty(), "path-missed", desc);
    c.check(res.first.front() == id(s) && res.first.back() == id(t), "path-endpoints", desc);
    double sum = 0;
    for (size_t i = 0; i + 1 < res.first.size(); i++) {
      const gr::E* e = find(res.first[i], res.first[i + 1]);
      c.check(e && usable(*e), "path-uses-unusable-edge", desc);
      sum += e->w;
    }
    c.check(gr::close(g, sum, res.second), "cost-is-not-path-cost", [&] { return str("sum ", sum, " reported ", res.second, " ", desc()); });
    c.check(gr::close(g, res.second, want), "cost-not-optimal", [&] { return str(res.second, " vs ", want, " ", desc()); });
    c.nontrivial();
    c.count("paths-found");
    c.sample(desc());
  });

  m.group("configurations", 4000, 60000, [](Case& c) {
    Rng& r = c.rng;
    gr::G g = gr::random(r, c.index % 100 == 0 ? 250 : r.chance(0.1) ? 50 : 12, r.chance(0.3), false, true, 14, false);
    // Costs closer than 1e-10 of each other may be taken for equal: differences are exact and either none or larger.
    if (!g.exact)
      for (auto& e : g.e) e.w = std::floor(e.w * 8) / 8;
    g.exact = true;
    const int64_t s = r.range(0, g.n - 1);
    // Goal predicate: any subset of states, possibly empty, possibly containing the start.
    std::vector<char> goal((size_t)g.n, 0);
    for (int64_t k = r.range(0, 3); k > 0; k--) goal[r.below((uint64_t)g.n)] = 1;
    auto usable = [](const gr::E& e) { return e.validity != 1; };
    std::vector<double> best((size_t)g.n, INFINITY);  // cost to the nearest goal
    for (int64_t t = 0; t < g.n; t++)
      if (goal[(size_t)t]) {
        const auto d = gr::bellmanFord(g, t, true, usable);
        for (size_t i = 0; i < best.size(); i++) best[i] = std::min(best[i], d[i]);
      }
    // Consistent heuristic: zero, or the exact cost-to-go capped (min with a constant keeps consistency).
    const int hk = (int)r.below(3);
    const double cap = hk == 1 ? 1e6 : r.range(1, 6);
    std::vector<double> h((size_t)g.n);
    for (size_t i = 0; i < h.size(); i++) h[i] = hk == 0 ? 0.0 : std::min(best[i], cap);
    const int64_t tag = r.range(-5, 5);
    const Table table(g);
    std::set<int64_t> discovered = {s};
    int64_t expansions = 0;
    const auto res = simple_astar_planner::SimpleAStarPlanner<Cfg>::Plan<CfgHash>(
        Cfg{s, tag},
        [&](const Cfg& v) {
          c.check(v.tag == tag && discovered.count(v.id), "expanded-undiscovered-state");
          c.check(++expansions <= g.n, "state-expanded-twice");
          std::vector<Cfg> out;
          for (const auto& e : g.e)
            if (e.u == v.id && usable(e)) {
              out.push_back(Cfg{e.v, tag});
              discovered.insert(e.v);
            }
          return out;
        },
        [&](const Cfg& a, const Cfg& b) {
          if (const gr::E* e = table.find(a.id, b.id)) return e->w;
          c.fail("distance-of-missing-edge", str(a.id, ">", b.id));
          return 0.0;
        },
        [&](const Cfg& v) { return h[(size_t)v.id]; }, [&](const Cfg& v) { return goal[(size_t)v.id] != 0; });
    auto desc = [&] {
      std::string p;
      for (const Cfg& x : res.first) p += std::to_string(x.id) + " ";
      return str("start ", s, " goals ", std::string(goal.begin(), goal.end()).size(), " heuristic ", hk, " path ", p, gr::show(g));
    };
    gr::note(c, g);
    c.note(s);
    for (char x : goal) c.note((int)x);
    const double want = best[(size_t)s];
    if (std::isinf(want)) {
      c.check(res.first.empty(), "no-path-reported-as-path", desc);
      return;
    }
    c.check(!res.first.empty(), "path-missed", desc);
    c.check(res.first.front() == Cfg{s, tag}, "path-start", desc);
    c.check(goal[(size_t)res.first.back().id] != 0, "path-end", desc);
    double sum = 0;
    for (size_t i = 0; i + 1 < res.first.size(); i++) {
      double w = INFINITY;
      const gr::E* e = table.find(res.first[i].id, res.first[i + 1].id);
      if (e && usable(*e)) w = e->w;
      c.check(!std::isinf(w), "path-uses-unusable-edge", desc);
      sum += w;
    }
    c.check(gr::close(g, sum, want), "cost-not-optimal", [&] { return str("path cost ", sum, " optimal ", want, " ", desc()); });
    c.check(res.second.count("nodes explored") && res.second.at("nodes explored") == (double)expansions, "explored-count",
            [&] { return str(expansions, " expansions"); });
    c.nontrivial(res.first.size() > 1);
    c.count("paths-found");
    c.count("expansions", expansions);
    c.sample(desc());
  });
  return m.finish();
}
