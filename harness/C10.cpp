// MON-variants: asan omp
// MON-rule: random sampled environments (obstacles, duplicate samples, symmetric and asymmetric metrics, K 0-6), roadmap growth (up to 35, rarely 500 samples), extension, re-weighting and all query forms; every added node's neighbourhood judged against brute force, every query against Bellman-Ford on the augmented roadmap; non-trivial when the roadmap has edges; distinct by environment
#ifdef _OPENMP
#define ENABLE_PARALLEL_ROADMAP
#endif
#include "arc_utilities/simple_prm_planner.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_dijkstras;
typedef simple_prm_planner::SimpleGeometricPrmPlanner Prm;
struct S {
  double x, y;
};
static bool operator==(const S& a, const S& b) { return a.x == b.x && a.y == b.y; }
typedef Graph<S> Gr;
typedef std::function<double(const S&, const S&)> Dist;
typedef std::function<bool(const S&, const S&)> Edge;

static uint64_t hs(const S& s) {
  uint64_t a, b;
  memcpy(&a, &s.x, 8);
  memcpy(&b, &s.y, 8);
  return mix(a ^ mix(b));
}
struct Env {
  bool symmetric;
  double climb, pBlocked;
  uint64_t salt;
  Dist dist() const {
    const double k = climb;
    if (symmetric) return [](const S& a, const S& b) { return std::hypot(a.x - b.x, a.y - b.y); };
    return [k](const S& a, const S& b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + k * std::max(0.0, b.y - a.y); };
  }
  Edge edge() const {
    const double p = pBlocked;
    const uint64_t sl = salt;
    return [p, sl](const S& a, const S& b) { return (double)(mix((hs(a) ^ hs(b)) + sl) >> 11) / 9007199254740992.0 >= p; };
  }
};
static std::string show(const S& s) { return str("(", s.x, ",", s.y, ")"); }
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }

static bool sameGraph(const Gr& a, const Gr& b) {
  if (a.getNodes().size() != b.getNodes().size()) return false;
  for (size_t i = 0; i < a.getNodes().size(); i++) {
    const auto &x = a.getNodes()[i], &y = b.getNodes()[i];
    if (!(x.getValue() == y.getValue()) || !(x.getInEdges() == y.getInEdges()) || !(x.getOutEdges() == y.getOutEdges())) return false;
  }
  return true;
}
// Node i was added when nodes [0, i) existed, looking for neighbours by distance towards it (or from it).
static void judgeAdded(Case& c, const Gr& g, size_t i, const Env& env, size_t K, bool towards, bool flagSymmetric, const std::string& what) {
  const Dist d = env.dist();
  const Edge ok = env.edge();
  const S& s = g.getNodes()[i].getValue();
  std::vector<double> ds(i);
  for (size_t j = 0; j < i; j++) ds[j] = towards ? d(g.getNodes()[j].getValue(), s) : d(s, g.getNodes()[j].getValue());
  std::vector<double> sorted = ds;
  std::sort(sorted.begin(), sorted.end());
  const double kth = K == 0 ? -1 : i <= K ? INFINITY : sorted[K - 1];
  std::map<size_t, int> in, out;
  for (const auto& e : g.getNodes()[i].getInEdges())
    if ((size_t)e.getFromIndex() < i) in[(size_t)e.getFromIndex()]++;
  for (const auto& e : g.getNodes()[i].getOutEdges())
    if ((size_t)e.getToIndex() < i) out[(size_t)e.getToIndex()]++;
  auto desc = [&](size_t j) { return str(what, " node ", i, " ", show(s), " neighbour ", j, " ", show(g.getNodes()[j].getValue()), " distance ", ds[j], " kth ", kth, " K ", K); };
  size_t connected = 0;
  for (size_t j = 0; j < i; j++) {
    const S& n = g.getNodes()[j].getValue();
    c.check(in[j] <= 1 && in[j] == out[j], "one-way-or-repeated-connection", [&] { return desc(j); });
    if (!in[j]) {
      c.check(!(ok(n, s) && ds[j] < kth), "near-valid-neighbour-not-connected", [&] { return desc(j); });
      continue;
    }
    connected++;
    c.check(ok(n, s), "edge-failed-its-check", [&] { return desc(j); });
    c.check(ds[j] <= kth, "connected-beyond-k-nearest", [&] { return desc(j); });
    const double wantIn = flagSymmetric ? ds[j] : d(n, s), wantOut = flagSymmetric ? ds[j] : d(s, n);
    for (const auto& e : g.getNodes()[i].getInEdges())
      if ((size_t)e.getFromIndex() == j) c.check(close(e.getWeight(), wantIn), "edge-weight-towards-new", [&] { return str(desc(j), " weight ", e.getWeight()); });
    for (const auto& e : g.getNodes()[i].getOutEdges())
      if ((size_t)e.getToIndex() == j) c.check(close(e.getWeight(), wantOut), "edge-weight-from-new", [&] { return str(desc(j), " weight ", e.getWeight()); });
  }
  c.check(connected <= K, "more-than-k-neighbours", str(connected, " > ", K));
  c.count("added-nodes-judged");
}
// Both edge lists carry the same weights.
static void judgeWeights(Case& c, const Gr& g) {
  c.check(g.checkGraphLinkage(), "linkage");
  std::multiset<std::pair<std::pair<int64_t, int64_t>, double>> a, b;
  for (const auto& n : g.getNodes()) {
    for (const auto& e : n.getInEdges()) a.insert({{e.getFromIndex(), e.getToIndex()}, e.getWeight()});
    for (const auto& e : n.getOutEdges()) b.insert({{e.getFromIndex(), e.getToIndex()}, e.getWeight()});
  }
  c.check(a == b, "in-and-out-edges-disagree");
}
typedef std::pair<std::vector<S>, double> Res;
static std::vector<double> toGoal(const Gr& g, int64_t goal, bool lazy, const Dist& d, const Edge& ok) {
  std::vector<double> v(g.getNodes().size(), INFINITY);
  v[(size_t)goal] = 0;
  for (size_t it = 0; it < v.size(); it++) {
    bool ch = false;
    for (const auto& n : g.getNodes())
      for (const auto& e : n.getOutEdges()) {
        const S &a = n.getValue(), &b = g.getNode(e.getToIndex()).getValue();
        double w = e.getWeight();
        if (lazy) w = ok(a, b) ? d(a, b) : INFINITY;
        if (v[(size_t)e.getToIndex()] + w < v[(size_t)e.getFromIndex()]) {
          v[(size_t)e.getFromIndex()] = v[(size_t)e.getToIndex()] + w;
          ch = true;
        }
      }
    if (!ch) break;
  }
  return v;
}
static int64_t findState(const Gr& g, const S& s) {
  for (size_t i = 0; i < g.getNodes().size(); i++)
    if (g.getNodes()[i].getValue() == s) return (int64_t)i;
  return -1;
}
// The returned path runs through states of the augmented roadmap over usable edges; its cost is the sum and is optimal.
static void judgeQuery(Case& c, const Res& r, const Gr& aug, const std::vector<S>& starts, const S& goal, bool lazy, const Dist& d, const Edge& ok, const std::string& what, bool separate, double* wantOut = nullptr) {
  // With duplicate states allowed several nodes may carry the same state; any of them may be the start or goal, but the query used the last added ones.
  int64_t gi = -1;
  for (size_t i = aug.getNodes().size(); i-- > 0 && gi < 0;)
    if (aug.getNodes()[i].getValue() == goal) gi = (int64_t)i;
  c.check(gi >= 0, "goal-not-in-roadmap", what);
  const auto v = toGoal(aug, gi, lazy, d, ok);
  double want = INFINITY;
  for (size_t k = 0; k < starts.size(); k++) {
    const S& s = starts[k];
    int64_t si = separate ? (int64_t)(aug.getNodes().size() - starts.size() - 1 + k) : -1;
    if (!separate) for (size_t i = aug.getNodes().size(); i-- > 0 && si < 0;)
      if (aug.getNodes()[i].getValue() == s) si = (int64_t)i;
    c.check(si >= 0 && aug.getNode(si).getValue() == s, "start-not-in-roadmap", what);
    want = std::min(want, v[(size_t)si]);
  }
  if (wantOut) *wantOut = want;
  if (std::isinf(want)) {
    c.check(r.first.empty() && r.second == INFINITY, "unreachable-reported-as-path", what);
    return;
  }
  c.check(!r.first.empty(), "path-missed", str(what, " optimal ", want));
  bool isStart = false;
  for (const S& s : starts) isStart = isStart || s == r.first.front();
  c.check(isStart && r.first.back() == goal, "path-endpoints", what);
  // Follow the states through the roadmap, keeping every node that could carry them.
  std::map<int64_t, double> at;
  for (size_t i = 0; i < aug.getNodes().size(); i++)
    if (aug.getNodes()[i].getValue() == r.first.front()) at[(int64_t)i] = 0;
  for (size_t k = 1; k < r.first.size(); k++) {
    std::map<int64_t, double> next;
    for (const auto& p : at)
      for (const auto& e : aug.getNode(p.first).getOutEdges()) {
        const S& b = aug.getNode(e.getToIndex()).getValue();
        if (!(b == r.first[k])) continue;
        double w = e.getWeight();
        if (lazy) w = ok(aug.getNode(p.first).getValue(), b) ? d(aug.getNode(p.first).getValue(), b) : INFINITY;
        if (std::isinf(w)) continue;
        auto it = next.find(e.getToIndex());
        if (it == next.end() || it->second > p.second + w) next[e.getToIndex()] = p.second + w;
      }
    if (next.empty() && r.first.size() == 2 && r.first[0] == r.first[1]) next = at;  // the start state is the goal state
    c.check(!next.empty(), "path-uses-unusable-edge", str(what, " step ", k, " ", show(r.first[k - 1]), " to ", show(r.first[k])));
    at = next;
  }
  double sum = INFINITY;
  for (const auto& p : at) sum = std::min(sum, p.second);
  c.check(close(sum, r.second), "cost-is-not-path-cost", str(what, " reported ", r.second, " sum ", sum));
  c.check(close(r.second, want), "cost-not-shortest", str(what, " reported ", r.second, " shortest ", want));
  c.count("paths-judged");
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("roadmap", 700, 12000, [](Case& c) {
    Rng& r = c.rng;
    Env env{r.chance(0.5), r.real(0.1, 2), r.chance(0.4) ? 0.0 : r.real(0, 0.7), r.u64()};
    const bool flag = env.symmetric;  // "distance_is_symmetric" only when it is
    const size_t K = r.chance(0.05) ? 0 : (size_t)r.range(1, 6);
    const bool dup = r.chance(0.2);
    const bool large = c.index % 100 == 3;
    const int64_t grid = large ? r.range(18, 30) : r.range(2, 8);
    auto sampleState = [&] { return S{(double)r.range(0, grid), (double)r.range(0, grid)}; };
    std::vector<S> accepted;
    const uint64_t vsalt = r.u64();
    const double pv = r.chance(0.5) ? 0 : r.real(0, 0.5);
    auto valid = [&](const S& s) { return (double)(mix(hs(s) ^ vsalt) >> 11) / 9007199254740992.0 >= pv; };
    int64_t left = large ? r.range(200, 500) : r.range(0, 35), asked = 0, drawn = 0;
    const Dist dist = env.dist();
    const Edge edge = env.edge();
    std::vector<S> drawnStates;
    const std::function<S(void)> sampler = [&] {
      drawn++;
      drawnStates.push_back(sampleState());
      return drawnStates.back();
    };
    const std::function<bool(const S&)> validFn = [&](const S& s) {
      c.check(!drawnStates.empty() && s == drawnStates.back(), "validity-of-unsampled-state");
      return valid(s);
    };
    const std::function<bool(void)> stop = [&] {
      asked++;
      return left-- <= 0;
    };
    Gr g;
    if (r.chance(0.5)) g = Prm::BuildRoadMap<S>(sampler, dist, validFn, edge, stop, K, flag, dup);
    else Prm::ExtendRoadMap<S>(g, sampler, dist, validFn, edge, stop, K, flag, dup);
    if (r.chance(0.4)) {
      const size_t had = g.getNodes().size();
      const Gr before = g;
      left = r.range(0, 10);
      Prm::ExtendRoadMap<S>(g, sampler, dist, validFn, edge, stop, K, flag, dup);
      c.check(g.getNodes().size() >= had, "extension-lost-nodes");
      for (size_t i = 0; i < had; i++) c.check(g.getNodes()[i].getValue() == before.getNodes()[i].getValue(), "extension-moved-nodes");
    }
    // Exactly the valid samples, in order, without repeats unless allowed.
    for (const S& s : drawnStates) {
      if (!valid(s)) continue;
      bool have = false;
      for (const S& a : accepted) have = have || a == s;
      if (have && !dup && K > 0) continue;
      accepted.push_back(s);
    }
    c.check(accepted.size() == g.getNodes().size(), "roadmap-size", str(g.getNodes().size(), " want ", accepted.size()));
    for (size_t i = 0; i < accepted.size(); i++) c.check(g.getNodes()[i].getValue() == accepted[i], "roadmap-states", str("node ", i));
    judgeWeights(c, g);
    size_t edges = 0;
    for (size_t i = 0; i < g.getNodes().size(); i++) {
      judgeAdded(c, g, i, env, K, true, flag, "roadmap");
      edges += g.getNodes()[i].getOutEdges().size();
      c.note((int64_t)hs(g.getNodes()[i].getValue()));
    }
    c.note(K);
    c.note(env.salt);
    c.nontrivial(edges > 0);
    c.sample(str(g.getNodes().size(), " nodes ", edges, " edges K ", K, env.symmetric ? " symmetric" : " asymmetric", " blocked ", env.pBlocked));

    // Re-weighting under a changed environment.
    Env env2 = env;
    if (r.chance(0.5)) {
      env2.salt = r.u64();
      env2.pBlocked = r.real(0, 0.6);
      const Gr before = g;
      Prm::UpdateRoadMapEdges<S>(g, env2.edge(), dist);
      judgeWeights(c, g);
      c.check(g.getNodes().size() == before.getNodes().size(), "update-changed-nodes");
      for (size_t i = 0; i < g.getNodes().size(); i++) {
        const auto &a = g.getNodes()[i], &b = before.getNodes()[i];
        c.check(a.getValue() == b.getValue() && a.getOutEdges().size() == b.getOutEdges().size() && a.getInEdges().size() == b.getInEdges().size(), "update-changed-structure");
        for (size_t k = 0; k < a.getOutEdges().size(); k++) {
          const auto& e = a.getOutEdges()[k];
          c.check(e.getToIndex() == b.getOutEdges()[k].getToIndex(), "update-changed-edge");
          const S& to = g.getNode(e.getToIndex()).getValue();
          const double want = env2.edge()(a.getValue(), to) ? dist(a.getValue(), to) : INFINITY;
          c.check(e.getWeight() == want || close(e.getWeight(), want), "updated-weight", str(e.getWeight(), " want ", want));
        }
      }
      c.count("reweightings");
      // The same on a roadmap somebody edited by hand: parallel and one-way edges.
      Gr edited = before;
      const int64_t nn = (int64_t)edited.getNodes().size();
      if (nn > 0) {
        for (int64_t k = r.range(1, 8); k > 0; k--) {
          const int64_t a = (int64_t)r.below((size_t)nn), b = (int64_t)r.below((size_t)nn);
          const double w = r.real(0, 20);
          for (int64_t m = a == b ? 0 : r.range(1, 3); m > 0; m--) edited.addEdgeBetweenNodes(a, b, r.chance(0.5) ? w : r.real(0, 20));
        }
        Prm::UpdateRoadMapEdges<S>(edited, env2.edge(), dist);
        c.count("edited-reweightings");
        for (int64_t i = 0; i < nn; i++) {
          const auto& a = edited.getNode(i);
          auto want = [&](int64_t from, int64_t to) {
            const S &x = edited.getNode(from).getValue(), &y = edited.getNode(to).getValue();
            return env2.edge()(x, y) ? dist(x, y) : INFINITY;
          };
          auto judge = [&](const arc_dijkstras::GraphEdge& e, const char* what) {
            const double w = want(e.getFromIndex(), e.getToIndex());
            c.check(e.getWeight() == w || close(e.getWeight(), w), what, str("edge ", e.getFromIndex(), "->", e.getToIndex(), " weighs ", e.getWeight(), " want ", w));
          };
          for (const auto& e : a.getOutEdges()) judge(e, "edited-out-weight");
          for (const auto& e : a.getInEdges()) judge(e, "edited-in-weight");
        }
      }
    }
    // Queries. Zero-cost stale edges are not involved: distances are positive between distinct states.
    const Edge qedge = env2.edge();
    for (int q = 0; q < 3; q++) {
      auto pickState = [&] { return r.chance(0.3) && !accepted.empty() ? r.pick(accepted) : r.chance(0.5) ? sampleState() : S{r.real(0, (double)grid), r.real(0, (double)grid)}; };
      std::vector<S> starts, goals;
      for (int64_t k = r.range(1, 3); k > 0; k--) starts.push_back(pickState());
      for (int64_t k = r.range(1, 3); k > 0; k--) goals.push_back(pickState());
      const Gr snapshot = g;
      const size_t n0 = g.getNodes().size();
      auto judgeAug = [&](const Gr& aug, size_t nStarts, const std::string& what) {
        judgeWeights(c, aug);
        c.check(aug.getNodes().size() >= n0 && aug.getNodes().size() <= n0 + nStarts + 1, "augmented-size", what);
        for (size_t i = 0; i < n0; i++) c.check(aug.getNodes()[i].getValue() == snapshot.getNodes()[i].getValue(), "augmented-nodes-moved", what);
        for (size_t i = n0; i < aug.getNodes().size(); i++) {
          // With duplicates allowed or K = 0 every query state is added, starts first, then the goal.
          const S& s = aug.getNodes()[i].getValue();
          bool isStart = false;
          for (size_t k = 0; k < nStarts; k++) isStart = isStart || starts[k] == s;
          if (isStart && goals.size() && s == goals[0]) continue;
          judgeAdded(c, aug, i, env2, K, !isStart, flag, what + (isStart ? " start" : " goal"));
        }
      };
      const S s0 = starts[0], g0 = goals[0];
      const bool limit = r.chance(0.5);
      if (!(s0 == g0)) {
        Gr aug = g;
        const Res a = Prm::QueryPathAndAddNodesSingleStartSingleGoal<S>(s0, g0, aug, qedge, dist, K, flag, dup, limit);
        judgeAug(aug, 1, "single");
        judgeQuery(c, a, aug, {s0}, g0, false, dist, qedge, "single", dup || K == 0);
        const Res b = Prm::QueryPathSingleStartSingleGoal<S>(s0, g0, g, qedge, dist, K, flag, dup, limit);
        c.check(close(a.second, b.second), "const-query-differs", str(a.second, " vs ", b.second));
        judgeQuery(c, b, aug, {s0}, g0, false, dist, qedge, "single const", dup || K == 0);
        Gr aug2 = g;
        const Res l = Prm::LazyQueryPathAndAddNodesSingleStartSingleGoal<S>(s0, g0, aug2, qedge, dist, K, flag, dup, limit);
        judgeAug(aug2, 1, "lazy");
        judgeQuery(c, l, aug2, {s0}, g0, true, dist, qedge, "lazy", dup || K == 0);
        const Res lc = Prm::LazyQueryPathSingleStartSingleGoal<S>(s0, g0, g, qedge, dist, K, flag, dup, limit);
        judgeQuery(c, lc, aug2, {s0}, g0, true, dist, qedge, "lazy const", dup || K == 0);
        c.check(sameGraph(g, snapshot), "const-query-modified-roadmap");
        // Lazy query in an environment the roadmap was not built for.
        Env env3 = env2;
        env3.salt = r.u64();
        env3.pBlocked = r.real(0, 0.5);
        Gr aug3 = g;
        const Res l3 = Prm::LazyQueryPathAndAddNodesSingleStartSingleGoal<S>(s0, g0, aug3, env3.edge(), dist, K, flag, dup, limit);
        judgeQuery(c, l3, aug3, {s0}, g0, true, dist, env3.edge(), "lazy, changed environment", dup || K == 0);
        // Random walk, where the goal is reachable.
        if (!dup && K > 0) {
          Gr aug4 = g;
          const int64_t si = findState(aug, s0), gi = findState(aug, g0);
          std::vector<int64_t> work = {si};
          std::set<int64_t> seen = {si};
          while (!work.empty()) {
            const int64_t x = work.back();
            work.pop_back();
            for (const auto& e : aug.getNode(x).getOutEdges())
              if (seen.insert(e.getToIndex()).second) work.push_back(e.getToIndex());
          }
          if (seen.count(gi) && seen.size() < 25) {
            std::mt19937_64 gen(r.u64());
            const Res w = Prm::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<S>(s0, g0, gen, aug4, qedge, dist, K, flag);
            c.check(!w.first.empty() && w.first.front() == s0 && w.first.back() == g0, "walk-endpoints");
            double sum = 0;
            for (size_t k = 0; k + 1 < w.first.size(); k++) {
              bool has = false;
              for (const auto& e : aug4.getNode(findState(aug4, w.first[k])).getOutEdges()) has = has || aug4.getNode(e.getToIndex()).getValue() == w.first[k + 1];
              c.check(has, "walk-leaves-roadmap");
              sum += dist(w.first[k], w.first[k + 1]);
            }
            c.check(close(sum, w.second), "walk-cost", str(w.second, " want ", sum));
            c.count("random-walks");
          }
        }
      }
      {
        Gr aug = g;
        const Res a = Prm::QueryPathAndAddNodesMultiStartSingleGoal<S>(starts, g0, aug, qedge, dist, K, flag, dup);
        judgeAug(aug, starts.size(), "multi-start");
        judgeQuery(c, a, aug, starts, g0, false, dist, qedge, "multi-start", dup || K == 0);
        const Res b = Prm::QueryPathMultiStartSingleGoal<S>(starts, g0, g, qedge, dist, K, flag, dup);
        c.check(close(a.second, b.second), "const-query-differs", "multi-start");
        double want = INFINITY;
        size_t bestGoal = 0;
        for (size_t k = 0; k < goals.size(); k++) {
          Gr x = g;
          Prm::QueryPathAndAddNodesMultiStartSingleGoal<S>(starts, goals[k], x, qedge, dist, K, flag, dup);
          double w = INFINITY;
          const Res rk = Prm::QueryPathMultiStartSingleGoal<S>(starts, goals[k], g, qedge, dist, K, flag, dup);
          judgeQuery(c, rk, x, starts, goals[k], false, dist, qedge, "multi-start", dup || K == 0, &w);
          if (w < want) {
            want = w;
            bestGoal = k;
          }
        }
        const Res mm = Prm::QueryPathMultiStartMultiGoal<S>(starts, goals, g, qedge, dist, K, flag, dup);
        c.check(close(mm.second, want), "multi-goal-cost", str(mm.second, " want ", want));
        if (std::isinf(want)) c.check(mm.first.empty(), "unreachable-reported-as-path", "multi-goal");
        else {
          bool okS = false, okG = false;
          for (const S& s : starts) okS = okS || s == mm.first.front();
          for (const S& s : goals) okG = okG || s == mm.first.back();
          c.check(okS && okG, "path-endpoints", str("multi-goal, best goal ", bestGoal));
        }
        c.check(sameGraph(g, snapshot), "const-query-modified-roadmap", "multi");
      }
      c.count("queries", 5);
    }
  });
  return m.finish();
}
