// MON-variants: asan asan-debugstl
// MON-rule: planner runs with recorded callbacks (random/greedy nearest neighbours, branching propagation, failures, early end, pre-grown trees); every tree mutation mirrored from the callbacks, every returned path replayed; non-trivial when the tree grew; distinct by callback history
#include "arc_utilities/simple_rrt_planner.hpp"
#include "mon.hpp"
using namespace mon;
using namespace simple_rrt_planner;
struct S {
  uint64_t id;
  double x, y;
};
typedef SimpleRRTPlannerState<S> Node;
typedef std::vector<Node> Tree;
typedef SimpleHybridRRTPlanner Rrt;
typedef SimpleHybridBiRRTPlanner Bi;
typedef std::vector<std::pair<S, int64_t>> Prop;
struct MNode {
  uint64_t id;
  int64_t parent;
  std::vector<int64_t> kids;
};
struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

struct World {
  Case& c;
  uint64_t nextId = 1;
  uint64_t salt;
  double pGoal, pFail, pNegNN;
  int mode;
  explicit World(Case& cc) : c(cc) {
    salt = c.rng.u64();
    pGoal = c.rng.chance(0.3) ? 0.0 : c.rng.real(0, 0.1);
    pFail = c.rng.chance(0.3) ? 0 : c.rng.real(0, 0.6);
    pNegNN = c.rng.chance(0.8) ? 0 : 0.05;
    mode = (int)c.rng.below(3);
  }
  S fresh() { return S{nextId++, c.rng.real(), c.rng.real()}; }
  bool isGoal(uint64_t id) const { return (double)(mix(id ^ salt) >> 11) / 9007199254740992.0 < pGoal; }
};
static void same(Case& c, const Tree& t, const std::vector<MNode>& m, const std::string& where) {
  c.eq(t.size(), m.size(), "tree-size", where);
  for (size_t i = 0; i < m.size(); i++) {
    c.check(t[i].IsInitialized(), "tree-initialized", where);
    c.eq(t[i].GetValueImmutable().id, m[i].id, "tree-value", str(where, " node ", i));
    c.eq(t[i].GetParentIndex(), m[i].parent, "tree-parent", str(where, " node ", i));
    c.check(t[i].GetChildIndices() == m[i].kids, "tree-children", [&] { return str(where, " node ", i, " got ", mon::show(t[i].GetChildIndices()), " want ", mon::show(m[i].kids)); });
  }
}
static std::vector<uint64_t> chain(const std::vector<MNode>& m, int64_t i) {
  std::vector<uint64_t> r;
  for (; i >= 0; i = m[i].parent) r.push_back(m[i].id);
  std::reverse(r.begin(), r.end());
  return r;
}
static std::vector<uint64_t> ids(const std::vector<S>& p) {
  std::vector<uint64_t> r;
  for (auto& s : p) r.push_back(s.id);
  return r;
}
static void grow(World& w, Tree& t, std::vector<MNode>& m, int64_t n) {
  for (int64_t i = 0; i < n; i++) {
    const S s = w.fresh();
    // A second root is allowed only in first position of its own component here: keep one root.
    const int64_t p = m.empty() ? -1 : (int64_t)w.c.rng.below(m.size());
    m.push_back(MNode{s.id, p, {}});
    t.push_back(p < 0 ? Node(s) : Node(s, p));
    if (p >= 0) {
      m[p].kids.push_back(i);
      t[p].AddChildIndex(i);
    }
  }
}
// Propagated states: chain, star, or arbitrary earlier parents.
static Prop propagate(World& w) {
  Prop out;
  if (w.c.rng.chance(w.pFail)) return out;
  const int64_t n = w.c.rng.range(1, w.c.rng.chance(0.3) ? 8 : 3);
  for (int64_t i = 0; i < n; i++) {
    int64_t rel;
    if (w.mode == 0)
      rel = i - 1;
    else if (w.mode == 1)
      rel = -1;
    else
      rel = w.c.rng.chance(0.2) ? -w.c.rng.range(1, 9) : i == 0 ? -1 : w.c.rng.range(-1, i - 1);
    out.push_back({w.fresh(), rel});
  }
  return out;
}

static void singleTree(Case& c) {
  World w(c);
  Quiet q;
  Tree t;
  std::vector<MNode> m;
  const int form = (int)c.rng.below(6);
  const S start = w.fresh();
  if (form == 0 || form == 1) {
    grow(w, t, m, c.rng.range(1, 12));
  } else {
    if (c.rng.chance(0.5)) {  // forms that take a tree and a start clear the tree first
      std::vector<MNode> junk;
      grow(w, t, junk, c.rng.range(1, 5));
    }
    m.push_back(MNode{start.id, -1, {}});
  }
  const int64_t iters = c.index % 90 == 4 ? c.rng.range(250, 700) : c.rng.range(0, 40);
  int64_t asked = 0, batches = 0, fails = 0, samples = 0;
  std::vector<int64_t> goals, goalCb, added;
  Prop pending;
  size_t pendingAt = 0;
  S lastTarget{0, 0, 0};
  int64_t lastNN = -1;
  const Tree* treeAddr = nullptr;
  bool stopped = false, solved = false;
  const bool single = form == 1 || form == 3 || form == 4;
  for (size_t i = 0; i < m.size(); i++)
    if (w.isGoal(m[i].id)) goals.push_back((int64_t)i);
  const size_t preGoals = goals.size();
  // Applies what the planner must have done with the last propagation.
  auto flush = [&] {
    const int64_t base = (int64_t)m.size();
    for (size_t k = 0; k < pending.size(); k++) {
      const int64_t p = pending[k].second < 0 ? lastNN : base + pending[k].second;
      m.push_back(MNode{pending[k].first.id, p, {}});
      m[p].kids.push_back((int64_t)m.size() - 1);
      if (w.isGoal(m.back().id)) goals.push_back((int64_t)m.size() - 1);
    }
    pending.clear();
    pendingAt = 0;
  };
  std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& tr, const S& target) {
    c.eq(target.id, lastTarget.id, "nn-target", "nearest neighbour asked for the sampled state");
    treeAddr = &tr;
    same(c, tr, m, "at nearest neighbour query");
    if (c.rng.chance(w.pNegNN)) {
      stopped = true;
      lastNN = -1;
    } else
      lastNN = c.rng.chance(0.3) ? (int64_t)m.size() - 1 : (int64_t)c.rng.below(m.size());
    return lastNN;
  };
  std::function<bool(const S&)> goal = [&](const S& s) { return w.isGoal(s.id); };
  std::function<S()> sample = [&] {
    c.check(!stopped, "sampled-after-stop");
    if (single) c.check(goals.empty(), "sampled-after-solution", "single-path planner went on after reaching a goal");
    samples++;
    lastTarget = w.fresh();
    return lastTarget;
  };
  std::function<Prop(const S&, const S&)> prop = [&](const S& a, const S& b) {
    c.check(lastNN >= 0, "propagate-without-nn");
    c.eq(a.id, m[lastNN].id, "propagate-from", "propagation starts at the nearest neighbour");
    c.eq(b.id, lastTarget.id, "propagate-target", "propagation heads for the sample");
    Prop p = propagate(w);
    (p.empty() ? fails : batches)++;
    pending = p;
    // callbacks of this batch are checked against the tree state they must see
    if (form != 0) flush();
    return p;
  };
  std::function<bool()> term = [&] {
    if (form == 0) flush();
    return asked++ >= iters;
  };
  std::function<void(Tree&, int64_t)> onAdd = [&](Tree& tr, int64_t i) {
    c.check(pendingAt < pending.size(), "add-unannounced");
    const int64_t p = pending[pendingAt].second < 0 ? lastNN : (int64_t)m.size() + pending[pendingAt].second;
    c.eq(i, (int64_t)(m.size() + pendingAt), "added-index");
    c.eq(tr.size(), m.size() + pendingAt + 1, "added-size");
    c.eq(tr[i].GetParentIndex(), p, "added-parent");
    c.eq(tr[i].GetValueImmutable().id, pending[pendingAt].first.id, "added-value");
    c.check(Rrt::CheckTreeLinkage(tr), "added-linkage", "tree handed to the state callback is not linked");
    added.push_back(i);
    pendingAt++;
  };
  std::function<void(Tree&, int64_t)> onGoal = [&](Tree& tr, int64_t i) {
    c.check(i >= 0 && i < (int64_t)tr.size() && w.isGoal(tr[i].GetValueImmutable().id), "goal-callback", "callback for a state that is no goal");
    goalCb.push_back(i);
  };
  std::vector<std::vector<S>> paths;
  std::map<std::string, double> st;
  const Tree before = t;
  if (form == 0) {
    auto r = Rrt::PlanMultiPath(t, nn, onAdd, goal, onGoal, sample, prop, term);
    paths = r.first, st = r.second;
    flush();
    c.eq(added.size(), m.size() - before.size(), "added-count", "state callback per new state");
  } else if (form == 1) {
    // pre-grown tree, stop at first solution through the caller's own flag
    std::function<bool()> term1 = [&] { return asked++ >= iters || !goals.empty(); };
    auto r = Rrt::PlanMultiPath(t, nn, goal, onGoal, sample, prop, term1);
    paths = r.first, st = r.second;
  } else if (form == 2) {
    auto r = Rrt::PlanMultiPath(t, start, nn, goal, onGoal, sample, prop, term);
    paths = r.first, st = r.second;
  } else if (form == 3) {
    auto r = Rrt::Plan(t, start, nn, goal, sample, prop, term);
    if (!r.first.empty()) paths.push_back(r.first);
    st = r.second;
  } else if (form == 4) {
    auto r = Rrt::Plan(start, nn, goal, sample, prop, term);
    if (!r.first.empty()) paths.push_back(r.first);
    st = r.second;
  } else {
    auto r = Rrt::PlanMultiPath(start, nn, goal, onGoal, sample, prop, term);
    paths = r.first, st = r.second;
  }
  if (form <= 3) {
    same(c, t, m, "after planning");
    c.check(Rrt::CheckTreeLinkage(t), "linkage-after");
    // Children are linked back and parent chains are loop free.
    for (size_t i = 0; i < t.size(); i++) {
      size_t steps = 0;
      for (int64_t p = t[i].GetParentIndex(); p >= 0; p = t[p].GetParentIndex()) c.check(++steps <= t.size(), "cycle");
    }
    auto byHand = Rrt::ExtractSolutionPaths(t, goals);
    for (size_t i = 0; i < goals.size(); i++) c.check(ids(byHand[i]) == chain(m, goals[i]), "extract");
  }
  const bool planForm = form == 3 || form == 4;
  const size_t want = planForm ? std::min<size_t>(1, goals.size()) : goals.size();
  c.eq(paths.size(), want, "solution-count", str("form ", form));
  for (size_t i = 0; i < paths.size(); i++) {
    const auto got = ids(paths[i]), exp = chain(m, goals[i]);
    c.check(got == exp, "path", [&] { return str("form ", form, " solution ", i, " got ", mon::show(got), " want ", mon::show(exp)); });
    std::set<uint64_t> u(got.begin(), got.end());
    c.eq(u.size(), got.size(), "path-loop");
    c.check(w.isGoal(got.back()), "path-end");
    c.eq(got.front(), m[0].id, "path-start");
  }
  if (!planForm) c.check(goalCb == goals, "goal-callbacks", [&] { return str("goal callbacks ", mon::show(goalCb), " want ", mon::show(goals)); });
  c.eq(st["total_samples"], (double)(batches + fails), "stat-total");
  c.eq(st["successful_samples"], (double)batches, "stat-success");
  c.eq(st["failed_samples"], (double)fails, "stat-failed");
  c.eq(st["total_states"], (double)m.size(), "stat-states");
  c.eq(st["solutions"], (double)goals.size(), "stat-solutions");
  c.check(st["planning_time"] >= 0 && st["planning_time"] < 100, "stat-time");
  if (!stopped && !single) c.eq(samples, iters, "iterations", "the planner runs until the termination check says so");
  if (m.size() > 1 + preGoals) c.nontrivial();
  c.note(form);
  c.note(w.salt);
  c.note(m.size());
  c.count("nodes", (int64_t)m.size());
  c.count("solutions", (int64_t)goals.size());
  (void)solved;
  (void)treeAddr;
}

static void timed(Case& c) {
  World w(c);
  w.pFail = 0.2;
  w.pNegNN = 0;
  Quiet q;
  const bool reach = c.rng.chance(0.5);
  w.pGoal = reach ? 0.05 : 0;
  const S start = w.fresh(), goalS = w.fresh();
  const double bias = c.rng.chance(0.25) ? 0.0 : c.rng.chance(0.3) ? 1.0 : c.rng.real(0.1, 0.9);
  int64_t goalTargets = 0, samples = 0, states = 0, goalCalls = 0;
  std::set<uint64_t> given;
  std::map<uint64_t, uint64_t> parentOf;
  int64_t count = 1;
  const bool two = c.rng.chance(0.5);
  std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S& target) {
    samples++;
    if (two ? given.count(target.id) == 0 : target.id == goalS.id) goalTargets++;
    c.eq((int64_t)t.size(), count, "timed-size");
    // linear time in the tree would be wasteful here: sample
    return (int64_t)c.rng.below(t.size());
  };
  std::function<bool(const S&)> goal = [&](const S& s) { return w.isGoal(s.id); };
  std::function<S()> sampleFn = [&] {
    const S s = w.fresh();
    given.insert(s.id);
    states++;
    return s;
  };
  std::function<S()> goalFn = [&] {
    goalCalls++;
    return w.fresh();
  };
  std::function<Prop(const S&, const S&)> prop = [&](const S& a, const S&) {
    Prop p = propagate(w);
    for (size_t k = 0; k < p.size(); k++) parentOf[p[k].first.id] = p[k].second < 0 ? a.id : p[p[k].second].first.id;
    count += (int64_t)p.size();
    return p;
  };
  const double lim = c.rng.chance(0.2) ? 0.0 : 0.004;
  std::mt19937_64 rng(c.rng.u64());
  const auto t0 = std::chrono::steady_clock::now();
  std::pair<std::vector<S>, std::map<std::string, double>> r;
  if (two)
    r = Rrt::Plan(start, nn, goal, sampleFn, goalFn, prop, bias, std::chrono::duration<double>(lim), rng);
  else
    r = Rrt::Plan(start, goalS, nn, goal, sampleFn, prop, bias, std::chrono::duration<double>(lim), rng);
  const double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r.first.empty()) {
    c.check(el >= lim, "ended-early", str("no solution yet planner ended after ", el, " of ", lim));
  } else {
    const auto p = ids(r.first);
    c.check(w.isGoal(p.back()), "timed-end");
    c.eq(p.front(), start.id, "timed-start");
    for (size_t i = 0; i + 1 < p.size(); i++) {
      c.check(parentOf.count(p[i + 1]) && parentOf[p[i + 1]] == p[i], "timed-step", "a step nobody propagated");
    }
  }
  c.eq(r.second["total_states"], (double)count, "timed-states");
  c.eq(states + goalTargets, samples, "timed-targets", "every target is a sample or a goal");
  if (two) c.eq(goalCalls, goalTargets, "timed-goal-calls");
  if (bias == 1.0) c.eq(goalTargets, samples, "timed-bias-one");
  const double sd = std::sqrt(bias * (1 - bias) * (double)samples);
  c.check(std::fabs((double)goalTargets - bias * (double)samples) <= 8 * sd + 4, "timed-bias", str("goal bias ", bias, ": ", goalTargets, " of ", samples));
  if (samples) c.nontrivial();
  c.note(w.salt);
  c.count("timed_samples", samples);
}

static void badInput(Case& c) {
  World w(c);
  w.pGoal = 0;
  Quiet q;
  Tree t;
  std::vector<MNode> m;
  grow(w, t, m, c.rng.range(2, 12));
  const int64_t n = (int64_t)t.size();
  c.check(Rrt::CheckTreeLinkage(t), "good-tree", "a well linked tree is refused");
  // Add/remove child model
  {
    Node s(w.fresh());
    std::vector<int64_t> ref;
    for (int i = 0; i < 12; i++) {
      const int64_t k = c.rng.range(0, 5);
      if (c.rng.chance(0.6)) {
        s.AddChildIndex(k);
        if (std::find(ref.begin(), ref.end(), k) == ref.end()) ref.push_back(k);
      } else {
        s.RemoveChildIndex(k);
        ref.erase(std::remove(ref.begin(), ref.end(), k), ref.end());
      }
      c.check(s.GetChildIndices() == ref, "child-list");
    }
    s.ClearChildIndicies();
    c.check(s.GetChildIndices().empty(), "child-clear");
  }
  Tree bad = t;
  const int64_t i = c.rng.range(1, n - 1), p = m[i].parent;
  const int kind = (int)c.rng.below(10);
  switch (kind) {
    case 0: bad[p].RemoveChildIndex(i); break;
    case 1: bad[i].AddChildIndex(n + c.rng.range(0, 3)); break;
    case 2: bad[i].AddChildIndex(-c.rng.range(1, 3)); break;
    case 3: bad[i].SetParentIndex(n + c.rng.range(0, 1000)); bad[p].RemoveChildIndex(i); break;
    case 4: bad[i].SetParentIndex(-c.rng.range(2, 9)); bad[p].RemoveChildIndex(i); break;
    case 5: bad[i].SetParentIndex(i); bad[p].RemoveChildIndex(i); bad[i].AddChildIndex(i); break;
    case 6: bad[i].SetParentIndex(-1); break;
    case 7: bad[i] = Node(); break;
    case 8: {
      int64_t j = c.rng.range(1, n - 1), k = (int64_t)c.rng.below((uint64_t)n);
      if (m[j].parent == k) k = (k + 1) % n;
      bad[k].AddChildIndex(j);
      break;
    }
    default: bad.clear();
  }
  if (kind != 9) c.check(!Rrt::CheckTreeLinkage(bad), "bad-tree", str("corruption ", kind, " accepted"));
  std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& tr, const S&) { return (int64_t)tr.size() - 1; };
  std::function<bool(const S&)> goal = [](const S&) { return false; };
  std::function<void(Tree&, int64_t)> cb = [](Tree&, int64_t) {};
  std::function<S()> sample = [&] { return w.fresh(); };
  int asked = 0;
  std::function<bool()> term = [&] { return asked++ >= 3; };
  std::function<Prop(const S&, const S&)> prop = [&](const S&, const S&) { return Prop{{w.fresh(), -1}}; };
  std::function<bool(const S&, const S&)> conn = [](const S&, const S&) { return false; };
  std::function<void(Tree&, int64_t, Tree&, int64_t, bool)> bcb = [](Tree&, int64_t, Tree&, int64_t, bool) {};
  std::mt19937_64 rng(1);
  auto throws = [&](const std::function<void()>& f) {
    try {
      f();
    } catch (const std::invalid_argument&) {
      return true;
    }
    return false;
  };
  {
    Tree b = bad;
    c.check(throws([&] { Rrt::PlanMultiPath(b, nn, goal, cb, sample, prop, term); }), "bad-tree-plan", str("planner accepted corruption ", kind));
    Tree b1 = bad, g1 = t, b2 = bad, g2 = t;
    c.check(throws([&] { Bi::PlanMultiPath(b1, g1, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng); }), "bad-start-tree", str("corruption ", kind));
    c.check(throws([&] { Bi::PlanMultiPath(g2, b2, nn, cb, conn, bcb, sample, prop, 0.5, 0.5, term, rng); }), "bad-goal-tree", str("corruption ", kind));
  }
  // Propagation that links forward is refused.
  const int64_t at = c.rng.range(0, 3), over = c.rng.range(0, 3);
  std::function<Prop(const S&, const S&)> fwd = [&](const S&, const S&) {
    Prop o;
    for (int64_t k = 0; k < at; k++) o.push_back({w.fresh(), k - 1});
    o.push_back({w.fresh(), at + over});
    return o;
  };
  {
    Tree g = t, a = t, b = t;
    asked = 0;
    c.check(throws([&] { Rrt::PlanMultiPath(g, nn, goal, cb, sample, fwd, term); }), "forward-link", str("relative parent ", at + over, " of state ", at));
    asked = 0;
    c.check(throws([&] { Bi::PlanMultiPath(a, b, nn, cb, conn, bcb, sample, fwd, 0.5, 0.5, term, rng); }), "forward-link-bi");
  }
  c.nontrivial();
  c.note(kind);
  c.note(w.salt);
}

static void bidir(Case& c) {
  World w(c);
  Quiet q;
  const int form = (int)c.rng.below(4);
  Tree trees[2];
  std::vector<MNode> m[2];
  if (form == 0) {
    grow(w, trees[0], m[0], c.rng.range(1, 6));
    grow(w, trees[1], m[1], c.rng.range(1, 6));
  } else {
    const S a = w.fresh(), b = w.fresh();
    m[0].push_back(MNode{a.id, -1, {}});
    m[1].push_back(MNode{b.id, -1, {}});
  }
  const S start = S{m[0][0].id, 0, 0}, goalS = S{m[1][0].id, 0, 0};
  std::map<uint64_t, std::pair<int, int64_t>> where;
  for (int k = 0; k < 2; k++)
    for (size_t i = 0; i < m[k].size(); i++) where[m[k][i].id] = {k, (int64_t)i};
  const double pc = c.rng.chance(0.3) ? 0.0 : c.rng.real(0, 0.3);
  auto conn2 = [&](uint64_t a, uint64_t b) { return (double)(mix((mix(a) ^ mix(b)) + w.salt) >> 11) / 9007199254740992.0 < pc; };
  const double bias = c.rng.chance(0.2) ? 1.0 : c.rng.chance(0.2) ? 0.0 : c.rng.real(0.05, 0.95);
  const double sw = c.rng.chance(0.2) ? 1.0 : c.rng.chance(0.2) ? 0.0 : c.rng.real(0.05, 0.95);
  typedef std::pair<int64_t, int64_t> Br;
  std::vector<Br> bridges, cbBridges;
  for (size_t i = 0; i < m[0].size(); i++)
    for (size_t j = 0; j < m[1].size(); j++)
      if (conn2(m[0][i].id, m[1][j].id)) bridges.push_back({(int64_t)i, (int64_t)j});
  const Tree* addr[2] = {nullptr, nullptr};
  int active = 0, lastActive = 0;
  int64_t iters = c.index % 90 == 4 ? c.rng.range(250, 700) : c.rng.range(0, 40), asked = 0, batches = 0, fails = 0, observedSwaps = 0, iterations = 0, fromTree = 0, adds = 0;
  int64_t lastNN = -1;
  uint64_t lastTarget = 0;
  bool stopped = false;
  const bool single = form == 3;
  bool first = true;
  std::function<int64_t(const Tree&, const S&)> nn = [&](const Tree& t, const S& target) {
    c.check(!stopped, "bi-after-stop");
    if (single) c.check(bridges.empty(), "bi-after-solution", "went on after the trees were joined");
    // Which tree is this? Roots have unique ids.
    const uint64_t root = t.at(0).GetValueImmutable().id;
    active = root == m[0][0].id ? 0 : 1;
    c.eq(root, m[active][0].id, "bi-root");
    if (first)
      c.eq(active, 0, "bi-first-active", "the start tree grows first");
    else if (active != lastActive)
      observedSwaps++;
    first = false;
    lastActive = active;
    same(c, t, m[active], "bidirectional nearest neighbour query");
    iterations++;
    lastTarget = target.id;
    const auto it = where.find(target.id);
    if (it != where.end()) {
      fromTree++;
      c.eq(it->second.first, 1 - active, "bi-target-tree", "tree samples come from the other tree");
    }
    if (c.rng.chance(w.pNegNN)) {
      stopped = true;
      return (int64_t)-1;
    }
    return lastNN = (int64_t)c.rng.below(m[active].size());
  };
  std::function<S()> sample = [&] { return w.fresh(); };
  std::function<bool(const S&, const S&)> conn = [&](const S& a, const S& b) { return conn2(a.id, b.id); };
  std::function<Prop(const S&, const S&)> prop = [&](const S& a, const S& b) {
    c.eq(a.id, m[active][lastNN].id, "bi-propagate-from");
    c.eq(b.id, lastTarget, "bi-propagate-target");
    Prop p = propagate(w);
    (p.empty() ? fails : batches)++;
    const int64_t base = (int64_t)m[active].size();
    const auto tt = where.find(lastTarget);
    for (size_t k = 0; k < p.size(); k++) {
      const int64_t par = p[k].second < 0 ? lastNN : base + p[k].second;
      m[active].push_back(MNode{p[k].first.id, par, {}});
      const int64_t me = (int64_t)m[active].size() - 1;
      m[active][par].kids.push_back(me);
      where[p[k].first.id] = {active, me};
      if (tt != where.end() && conn2(p[k].first.id, lastTarget)) bridges.push_back(active == 0 ? Br{me, tt->second.second} : Br{tt->second.second, me});
    }
    return p;
  };
  std::function<bool()> term = [&] { return asked++ >= iters; };
  std::function<void(Tree&, int64_t)> onAdd = [&](Tree& t, int64_t i) {
    c.check(i == (int64_t)t.size() - 1 && i < (int64_t)m[active].size() && t[i].GetValueImmutable().id == m[active][i].id, "bi-added");
    c.check(Rrt::CheckTreeLinkage(t), "bi-added-linkage");
    adds++;
  };
  std::function<void(Tree&, int64_t, Tree&, int64_t, bool)> onBridge = [&](Tree& a, int64_t i, Tree& b, int64_t j, bool fromStart) {
    c.check(a.at(0).GetValueImmutable().id == m[0][0].id && b.at(0).GetValueImmutable().id == m[1][0].id, "bridge-order", "start tree first");
    c.check(i >= 0 && i < (int64_t)a.size() && j >= 0 && j < (int64_t)b.size() && conn2(a[i].GetValueImmutable().id, b[j].GetValueImmutable().id), "bridge-pair");
    if (iterations) c.eq(fromStart, active == 0, "bridge-flag");
    cbBridges.push_back({i, j});
  };
  const size_t pre0 = m[0].size() + m[1].size();
  std::mt19937_64 rng(c.rng.u64());
  std::vector<std::vector<S>> paths;
  std::map<std::string, double> st;
  if (form == 0) {
    auto r = Bi::PlanMultiPath(trees[0], trees[1], nn, onAdd, conn, onBridge, sample, prop, bias, sw, term, rng);
    paths = r.first, st = r.second;
    for (int k = 0; k < 2; k++) {
      same(c, trees[k], m[k], "after bidirectional planning");
      c.check(Rrt::CheckTreeLinkage(trees[k]), "bi-linkage-after");
    }
  } else if (form == 1) {
    auto r = Bi::PlanMultiPath(start, goalS, nn, onAdd, conn, onBridge, sample, prop, bias, sw, term, rng);
    paths = r.first, st = r.second;
  } else if (form == 2) {
    auto r = Bi::PlanMultiPath(start, goalS, nn, conn, sample, prop, bias, sw, term, rng);
    paths = r.first, st = r.second;
  } else {
    auto r = Bi::Plan(start, goalS, nn, conn, sample, prop, bias, sw, std::chrono::duration<double>(0.003), rng);
    if (!r.first.empty()) paths.push_back(r.first);
    st = r.second;
  }
  const size_t want = single ? std::min<size_t>(1, bridges.size()) : bridges.size();
  c.eq(paths.size(), want, "bi-solution-count", str("form ", form));
  for (size_t k = 0; k < paths.size(); k++) {
    auto exp = chain(m[0], bridges[k].first);
    auto g = chain(m[1], bridges[k].second);
    exp.insert(exp.end(), g.rbegin(), g.rend());
    const auto got = ids(paths[k]);
    c.check(got == exp, "bi-path", [&] { return str("form ", form, " got ", mon::show(got), " want ", mon::show(exp)); });
    c.check(got.front() == start.id && got.back() == goalS.id, "bi-ends");
    std::set<uint64_t> u(got.begin(), got.end());
    c.eq(u.size(), got.size(), "bi-path-loop");
  }
  if (form <= 1) {
    c.check(cbBridges == bridges, "bridge-callbacks", str(cbBridges.size(), " callbacks, ", bridges.size(), " bridges"));
    c.eq(adds, (int64_t)(m[0].size() + m[1].size() - pre0), "bi-add-callbacks");
  }
  if (form < 3 && !stopped) c.eq(iterations, iters, "bi-iterations");
  c.eq(st["total_samples"], (double)(batches + fails), "bi-stat-total");
  c.eq(st["successful_samples"], (double)batches, "bi-stat-success");
  c.eq(st["failed_samples"], (double)fails, "bi-stat-failed");
  c.eq(st["total_states"], (double)(m[0].size() + m[1].size()), "bi-stat-states");
  c.eq(st["solutions"], (double)bridges.size(), "bi-stat-solutions");
  const double swaps = st["active_tree_swaps"];
  c.check(swaps == (double)observedSwaps || swaps == (double)observedSwaps + 1, "bi-stat-swaps", str(swaps, " vs observed ", observedSwaps));
  const double done = (double)(batches + fails);
  if (sw == 1.0) c.eq(swaps, done, "bi-swap-always");
  if (sw == 0.0) c.eq(swaps, 0.0, "bi-swap-never");
  c.check(std::fabs(swaps - sw * done) <= 8 * std::sqrt(sw * (1 - sw) * done) + 4, "bi-swap-rate", str("rate ", sw, ": ", swaps, " of ", done));
  if (bias == 1.0) c.eq(fromTree, iterations, "bi-bias-one");
  if (bias == 0.0) c.eq(fromTree, (int64_t)0, "bi-bias-zero");
  c.check(std::fabs((double)fromTree - bias * (double)iterations) <= 8 * std::sqrt(bias * (1 - bias) * (double)iterations) + 4, "bi-bias", str("bias ", bias, ": ", fromTree, " of ", iterations));
  if (m[0].size() + m[1].size() > pre0) c.nontrivial();
  c.note(form);
  c.note(w.salt);
  c.count("bi_nodes", (int64_t)(m[0].size() + m[1].size()));
  c.count("bridges", (int64_t)bridges.size());
  c.count("swaps", observedSwaps);
  (void)addr;
}

static void serialization(Case& c) {
  World w(c);
  Tree t;
  std::vector<MNode> m;
  grow(w, t, m, c.index % 50 == 4 ? c.rng.range(250, 400) : c.rng.range(1, 20));
  if (c.rng.chance(0.3)) t.push_back(Node());
  auto ser = [](const S& s, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<S>(s, b); };
  auto des = [](const std::vector<uint8_t>& b, uint64_t at) { return arc_utilities::DeserializeFixedSizePOD<S>(b, at); };
  if (!t.back().IsInitialized()) t.back().GetValueMutable() = S{0, 0, 0};
  std::vector<uint8_t> buf((size_t)c.rng.below(9), 0xAB);
  const size_t off = buf.size();
  std::vector<uint64_t> lens;
  for (auto& n : t) {
    const size_t b = buf.size();
    const uint64_t r = Node::Serialize(n, buf, ser);
    c.eq(r, (uint64_t)(buf.size() - b), "ser-size");
    lens.push_back(r);
  }
  for (size_t i = 0; i < off; i++) c.check(buf[i] == 0xAB, "ser-prefix");
  uint64_t at = off;
  for (size_t i = 0; i < t.size(); i++) {
    auto r = Node::Deserialize(buf, at, des);
    c.eq(r.second, lens[i], "des-size");
    at += r.second;
    c.eq(r.first.IsInitialized(), t[i].IsInitialized(), "des-initialized");
    c.eq(r.first.GetParentIndex(), t[i].GetParentIndex(), "des-parent");
    c.check(r.first.GetChildIndices() == t[i].GetChildIndices(), "des-children");
    c.check(memcmp(&r.first.GetValueImmutable(), &t[i].GetValueImmutable(), sizeof(S)) == 0, "des-value");
    Node used = t[c.rng.below(t.size())];  // a state that already holds something
    used.AddChildIndex(77);
    c.eq(used.DeserializeSelf(buf, at - lens[i], des), lens[i], "des-size");
    c.check(used.IsInitialized() == t[i].IsInitialized() && used.GetParentIndex() == t[i].GetParentIndex() && used.GetChildIndices() == t[i].GetChildIndices(), "des-into-used");
    c.check(memcmp(&used.GetValueImmutable(), &t[i].GetValueImmutable(), sizeof(S)) == 0, "des-into-used");
  }
  c.eq(at, (uint64_t)buf.size(), "des-all");
  c.nontrivial();
  c.note(w.salt);
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("single", 900, 30000, singleTree);
  m.group("bidir", 900, 30000, bidir);
  m.group("timed", 60, 2000, timed);
  m.group("bad_input", 300, 8000, badInput);
  m.group("serialization", 150, 4000, serialization);
  return m.finish();
}
