// MON-variants: asan
// MON-rule: random histories of node/edge additions (good and bad), weight/validity/value updates and queries, checked after every step against an edge-list model; then linkage corruptions and serialization; non-trivial when at least two edges were added; distinct by history
#include "arc_utilities/graph.hpp"
#include "graphs.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_dijkstras;
typedef Graph<std::string> Gr;
typedef GraphNode<std::string> Node;

struct ME {
  int64_t u, v;
  double w;
  EDGE_VALIDITY val;
  bool operator==(const ME& o) const { return u == o.u && v == o.v && (w == o.w) && val == o.val; }
};
struct MN {
  std::string value;
  double dist = INFINITY;
  std::vector<ME> in, out;
};
typedef std::vector<MN> Model;

static bool sameEdges(const std::vector<GraphEdge>& a, const std::vector<ME>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].getFromIndex() != b[i].u || a[i].getToIndex() != b[i].v || !(a[i].getWeight() == b[i].w) || a[i].getValidity() != b[i].val) return false;
  return true;
}
static bool same(const Gr& g, const Model& m) {
  if (g.getNodes().size() != m.size()) return false;
  for (size_t i = 0; i < m.size(); i++) {
    const Node& n = g.getNodes()[i];
    if (n.getValue() != m[i].value || !(n.getDistance() == m[i].dist)) return false;
    if (!sameEdges(n.getInEdges(), m[i].in) || !sameEdges(n.getOutEdges(), m[i].out)) return false;
  }
  return true;
}
static bool linked(const std::vector<Node>& ns) {
  const int64_t n = (int64_t)ns.size();
  for (int64_t i = 0; i < n; i++) {
    for (const GraphEdge& e : ns[(size_t)i].getInEdges()) {
      if (e.getFromIndex() < 0 || e.getFromIndex() >= n || e.getToIndex() != i || e.getFromIndex() == i) return false;
      bool ok = false;
      for (const GraphEdge& o : ns[(size_t)e.getFromIndex()].getOutEdges()) ok = ok || o.getToIndex() == i;
      if (!ok) return false;
    }
    for (const GraphEdge& e : ns[(size_t)i].getOutEdges()) {
      if (e.getToIndex() < 0 || e.getToIndex() >= n || e.getFromIndex() != i || e.getToIndex() == i) return false;
      bool ok = false;
      for (const GraphEdge& o : ns[(size_t)e.getToIndex()].getInEdges()) ok = ok || o.getFromIndex() == i;
      if (!ok) return false;
    }
  }
  return true;
}
static uint64_t putStr(const std::string& s, std::vector<uint8_t>& b) {
  const uint64_t at = b.size();
  const uint64_t n = s.size();
  for (int i = 0; i < 8; i++) b.push_back((uint8_t)(n >> (8 * i)));
  b.insert(b.end(), s.begin(), s.end());
  return b.size() - at;
}
static std::pair<std::string, uint64_t> getStr(const std::vector<uint8_t>& b, const uint64_t at) {
  uint64_t n = 0;
  for (int i = 0; i < 8; i++) n |= (uint64_t)b.at(at + (uint64_t)i) << (8 * i);
  std::string s;
  for (uint64_t i = 0; i < n; i++) s += (char)b.at(at + 8 + i);
  return {s, 8 + n};
}
template <typename F>
static bool throws(const F& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
static std::string rstr(Rng& r) {
  std::string s;
  for (uint64_t i = r.below(5); i > 0; i--) s += (char)r.u64();
  return s;
}
static double rweight(Rng& r) {
  const double ws[] = {0.0, 1.0, INFINITY, -3.5, 1e300, 5e-324};
  return r.chance(0.4) ? ws[r.below(6)] : r.real(0, 10);
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("history", 2500, 40000, [](Case& c) {
    Rng& r = c.rng;
    Gr g = r.chance(0.5) ? Gr() : Gr((size_t)r.below(4));
    Model mo;
    const int steps = (int)r.range(3, r.chance(0.2) ? 120 : 40);
    const double bad = r.real(0, 0.3);
    int added = 0;
    for (int s = 0; s < steps; s++) {
      const int64_t n = (int64_t)mo.size();
      auto idx = [&]() -> int64_t { return r.chance(bad) || n == 0 ? r.range(-2, n + 2) : r.range(0, n - 1); };
      const int op = (int)r.below(12);
      c.note(op);
      if (op <= 2 || (n < 2 && op < 10)) {
        MN x;
        x.value = rstr(r);
        int64_t at;
        if (r.chance(0.5)) at = g.addNode(x.value);
        else {
          Node nn(x.value);
          x.dist = rweight(r);
          nn.setDistance(x.dist);
          at = g.addNode(nn);
        }
        mo.push_back(x);
        c.eq(at, n, "addNode-index");
      } else if (op <= 5) {
        const int64_t u = idx(), v = idx();
        const double w = rweight(r);
        c.note(u);
        c.note(v);
        const bool ok = u >= 0 && v >= 0 && u < n && v < n && u != v;
        if (!ok) {
          c.check(throws([&] { g.addEdgeBetweenNodes(u, v, w); }), "bad-edge-accepted", str(u, ">", v, " of ", n));
          c.count("rejected-edges");
        } else {
          GraphEdge& e = g.addEdgeBetweenNodes(u, v, w);
          c.check(e.getFromIndex() == u && e.getToIndex() == v && e.getWeight() == w && e.getValidity() == UNKNOWN, "returned-edge", str(u, ">", v, ":", w, " got ", e.print()));
          mo[(size_t)u].out.push_back(ME{u, v, w, UNKNOWN});
          mo[(size_t)v].in.push_back(ME{u, v, w, UNKNOWN});
          if (r.chance(0.3)) {
            e.setValidity(INVALID);
            mo[(size_t)u].out.back().val = INVALID;
          }
          added++;
        }
      } else if (op == 6) {
        const int64_t u = idx(), v = idx();
        const double w = rweight(r);
        const bool ok = u >= 0 && v >= 0 && u < n && v < n && u != v;
        if (!ok) {
          c.check(throws([&] { g.addEdgesBetweenNodes(u, v, w); }), "bad-edges-accepted", str(u, ">", v, " of ", n));
        } else {
          const auto es = g.addEdgesBetweenNodes(u, v, w);
          c.check(es.first.getFromIndex() == u && es.first.getToIndex() == v && es.second.getFromIndex() == v && es.second.getToIndex() == u && es.first.getWeight() == w && es.second.getWeight() == w, "returned-edges");
          mo[(size_t)u].out.push_back(ME{u, v, w, UNKNOWN});
          mo[(size_t)v].in.push_back(ME{u, v, w, UNKNOWN});
          mo[(size_t)v].out.push_back(ME{v, u, w, UNKNOWN});
          mo[(size_t)u].in.push_back(ME{v, u, w, UNKNOWN});
          added += 2;
        }
      } else if (op == 7 || op == 8) {
        // getEdge / const getEdge / getReverseEdge, update through the reference
        const int64_t u = idx(), v = idx();
        ME* want = nullptr;
        if (u >= 0 && u < n)
          for (ME& e : mo[(size_t)u].out)
            if (e.v == v) {
              want = &e;
              break;
            }
        const Gr& cg = g;
        if (!want) {
          c.check(throws([&] { g.getEdge(u, v); }), "missing-edge-returned");
          c.check(throws([&] { (void)cg.getEdge(u, v); }), "missing-edge-returned-const");
        } else {
          c.check(cg.getEdge(u, v) == g.getEdge(u, v), "const-edge");
          const GraphEdge asEdge(v, u, 0.0);
          c.check(&g.getReverseEdge(asEdge) == &g.getEdge(u, v), "reverse-edge");
          c.check(g.getEdge(u, v) == g.getNode(u).getEdgeTo(v), "node-edge");
          const double w = rweight(r);
          const EDGE_VALIDITY val = (EDGE_VALIDITY)r.below(3);
          g.getEdge(u, v).setWeight(w);
          g.getEdge(u, v).setValidity(val);
          want->w = w;
          want->val = val;
          c.check(g.getEdge(u, v).isValid() == (val == VALID) && g.getEdge(u, v).isInvalid() == (val == INVALID), "validity-flags");
          c.count("edge-updates");
        }
      } else if (op == 9) {
        const int64_t u = idx();
        c.check(g.indexInRange(u) == (u >= 0 && u < n), "indexInRange", str(u, " of ", n));
        if (u < 0 || u >= n) {
          c.check(throws([&] { g.getNode(u); }), "bad-node-returned");
          const Gr& cg = g;
          c.check(throws([&] { (void)cg.getNode(u); }), "bad-node-returned-const");
        } else {
          mo[(size_t)u].value = rstr(r);
          g.getNode(u).getValue() = mo[(size_t)u].value;
          mo[(size_t)u].dist = rweight(r);
          g.getNode(u).setDistance(mo[(size_t)u].dist);
        }
      } else if (op == 10) {
        const Gr copy = g;
        g.shrinkToFit();
        c.check(same(copy, mo), "copy");
        if (n > 2 && r.chance(0.3)) {  // a copy is independent
          Gr c2 = g;
          c2.addEdgesBetweenNodes(0, 1, 9);
          c2.getNode(0).getValue() = "zz";
        }
      } else if (op == 11) {
        std::vector<uint8_t> buf(r.below(9), 0xAA);
        const size_t off = buf.size();
        const uint64_t wrote = Gr::Serialize(g, buf, putStr);
        c.check(wrote == buf.size() - off, "serialize-bytes", str(wrote, " vs ", buf.size() - off));
        const size_t end = buf.size();
        if (r.chance(0.5)) buf.resize(buf.size() + 5, 0x55);
        const auto back = Gr::Deserialize(buf, off, getStr);
        c.check(back.second == end - off, "deserialize-bytes", str(back.second, " vs ", end - off));
        c.check(same(back.first, mo), "serialize-roundtrip");
        {  // into a graph that already holds something
          Gr used;
          for (uint64_t k = 2 + r.below(3); k > 0; k--) used.addNode("old");
          used.addEdgesBetweenNodes(0, 1, 4.0);
          used.getNode(0).setDistance(2.0);
          c.check(used.deserializeSelf(buf, off, getStr) == end - off, "deserialize-bytes", "into a used graph");
          c.check(same(used, mo), "serialize-roundtrip", "into a used graph");
          for (size_t k = 0; k < mo.size(); k++) {
            std::vector<uint8_t> b2;
            Node nn("old");
            nn.setDistance(1.0);
            nn.addEdgePair(GraphEdge(1, 0, 2.0), GraphEdge(0, 1, 3.0));
            const uint64_t w2 = Node::Serialize(g.getNode((int64_t)k), b2, putStr);
            c.check(w2 == b2.size() && nn.deserializeSelf(b2, 0, getStr) == w2, "deserialize-bytes", "into a used node");
            c.check(nn.getValue() == mo[k].value && nn.getDistance() == mo[k].dist && sameEdges(nn.getInEdges(), mo[k].in) && sameEdges(nn.getOutEdges(), mo[k].out), "serialize-roundtrip", "into a used node");
          }
        }
        c.count("roundtrips");
      }
      c.check(same(g, mo), "model-divergence", str("after op ", op, " step ", s));
      c.check(g.checkGraphLinkage() && Gr::CheckGraphLinkage(g) && Gr::CheckGraphLinkage(g.getNodes()), "linkage");
      c.count("steps");
    }
    c.nontrivial(added >= 2);
    c.sample(str(mo.size(), " nodes, ", added, " edges in ", steps, " steps"));

    // Corrupt one thing and compare verdicts.
    for (int k = 0; k < 8; k++) {
      std::vector<Node> ns = g.getNodes();
      if (ns.empty()) break;
      const int64_t n = (int64_t)ns.size();
      const int edits = r.chance(0.2) ? 2 : 1;
      for (int t = 0; t < edits; t++) {
        Node& x = ns[r.below(ns.size())];
        std::vector<GraphEdge>& list = r.chance(0.5) ? x.getInEdges() : x.getOutEdges();
        const int kind = (int)r.below(5);
        if (kind == 0 && !list.empty()) list.erase(list.begin() + (long)r.below(list.size()));
        else if (kind == 1 && !list.empty()) list[r.below(list.size())].setFromIndex(r.range(-1, n));
        else if (kind == 2 && !list.empty()) list[r.below(list.size())].setToIndex(r.range(-1, n));
        else if (kind == 3) {
          const GraphEdge extra(r.range(-1, n), r.range(-1, n), 1.0);
          list.insert(list.begin() + (long)r.below(list.size() + 1), extra);
        } else if (kind == 4) {
          const int64_t i = (int64_t)r.below(ns.size());
          const GraphEdge self(i, i, 1.0);
          ns[(size_t)i].addInEdge(self);
          ns[(size_t)i].addOutEdge(self);
        }
      }
      if (r.chance(0.1)) ns.pop_back();
      const bool want = linked(ns);
      c.check(Gr::CheckGraphLinkage(ns) == want, "linkage-verdict", str("want ", want));
      bool threw = false;
      try {
        Gr built(ns);
        c.check(built.getNodes().size() == ns.size(), "constructed-size");
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      c.check(threw == !want, "constructor-verdict", str("want throw ", !want));
      c.count(want ? "corruptions-still-consistent" : "corruptions-rejected");
    }
  });
  // Large graphs, built in one go and then mutated.
  m.group("large", 12, 150, [](Case& c) {
    Rng& r = c.rng;
    const gr::G src = gr::large(r, gr::largeSize(r, c.index % 6 == 0), false);
    Gr g((size_t)r.below(3) * 100);
    Model mo((size_t)src.n);
    for (int64_t i = 0; i < src.n; i++) {
      mo[(size_t)i].value = rstr(r);
      c.eq(g.addNode(mo[(size_t)i].value), i, "addNode-index");
    }
    for (const auto& e : src.e) {
      const GraphEdge& got = g.addEdgeBetweenNodes(e.u, e.v, e.w);
      c.check(got.getFromIndex() == e.u && got.getToIndex() == e.v && got.getWeight() == e.w, "returned-edge", [&] { return str(e.u, ">", e.v); });
      mo[(size_t)e.u].out.push_back(ME{e.u, e.v, e.w, UNKNOWN});
      mo[(size_t)e.v].in.push_back(ME{e.u, e.v, e.w, UNKNOWN});
    }
    c.check(same(g, mo), "model-divergence", "after building");
    c.check(g.checkGraphLinkage(), "linkage");
    for (int k = 0; k < 200; k++) {
      const int64_t u = r.range(0, src.n - 1), v = r.chance(0.5) && !mo[(size_t)u].out.empty() ? mo[(size_t)u].out[r.below(mo[(size_t)u].out.size())].v : r.range(0, src.n - 1);
      bool has = false;
      for (const ME& e : mo[(size_t)u].out) has = has || e.v == v;
      if (u == v) continue;
      bool got = true;
      try {
        const GraphEdge& e = g.getEdge(u, v);
        c.check(e.getFromIndex() == u && e.getToIndex() == v, "getEdge", [&] { return str(u, ">", v); });
        GraphEdge& rev = g.getReverseEdge(e);
        c.check(rev.getFromIndex() == v && rev.getToIndex() == u, "getReverseEdge", [&] { return str(u, ">", v); });
      } catch (const Failed&) {
        throw;
      } catch (const std::exception&) {
        bool hasBack = false;
        for (const ME& e : mo[(size_t)v].out) hasBack = hasBack || e.v == u;
        got = has && !hasBack;
      }
      c.check(got == has, "edge-lookup", [&] { return str(u, ">", v, " present ", has); });
    }
    for (int64_t i : {(int64_t)-1, src.n, src.n + 1, (int64_t)0, src.n - 1}) c.check(g.indexInRange(i) == (i >= 0 && i < src.n), "indexInRange", [&] { return str(i, " of ", src.n); });
    c.check(throws([&] { g.addEdgeBetweenNodes(0, src.n, 1.0); }), "bad-edge-accepted");
    std::vector<uint8_t> buf(3);
    const uint64_t wrote = Gr::Serialize(g, buf, putStr);
    const auto back = Gr::Deserialize(buf, 3, getStr);
    c.check(wrote + 3 == buf.size() && back.second == wrote, "serialize-bytes");
    c.check(same(back.first, mo), "serialize-roundtrip");
    // One misfiled edge anywhere must be noticed.
    std::vector<Node> ns = g.getNodes();
    const ME& e = mo[(size_t)src.e[r.below(src.e.size())].u].out[0];
    const int kind = (int)r.below(3);
    auto& out = ns[(size_t)e.u].getOutEdges();
    if (kind == 0) out.erase(out.begin());
    else if (kind == 1) out[0].setToIndex((e.v + 1) % src.n);
    else out[0].setToIndex(src.n);
    c.check(Gr::CheckGraphLinkage(ns) == linked(ns), "linkage-verdict", [&] { return str("kind ", kind, " edge ", e.u, ">", e.v, " of ", src.n); });
    gr::note(c, src);
    c.nontrivial();
    c.count("large-graphs");
    c.sample(str(src.n, " nodes, ", src.e.size(), " edges"));
  });
  return m.finish();
}
