// Random graphs and reference algorithms shared by the graph harnesses.
#pragma once
#include <queue>

#include "mon.hpp"
namespace gr {
using mon::Rng;
struct E {
  int64_t u, v;
  double w;
  int validity;  // 0 valid, 1 invalid, 2 unknown
};
struct G {
  int64_t n = 0;
  std::vector<E> e;
  bool exact = false;  // every sum of weights along a path is representable, so costs compare exactly
  double scale = 1;
};
// Weights one of which is a tiny bit (a unit in 2^fine) off another, at any magnitude: sums stay exact.
inline double nearTie(Rng& r, int fine, double scale, bool zero) {
  const int64_t base = r.chance(0.7) ? r.range(1, 3) : r.range(zero ? 0 : 1, 9);
  const int64_t off = base == 0 ? r.range(0, 3) : r.range(-3, 3);
  return std::ldexp((double)(base * (int64_t(1) << fine) + off), -fine) * scale;
}
inline double anyScale(Rng& r) { return r.chance(0.4) ? 1.0 : r.chance(0.5) ? std::ldexp(1.0, (int)r.range(-400, 400)) : std::ldexp(1.0, (int)r.range(-40, 40)); }
// Shapes: sparse, dense, DAG-ish, chain with shortcuts, grid, several islands; weights: small ints with ties and zeros, reals, or exact near-ties at any magnitude.
inline G random(Rng& r, int64_t maxn, bool symmetric, bool parallel, bool zero, int fine = 20, bool scaled = true) {
  G g;
  g.n = r.chance(0.05) ? 1 : r.chance(0.3) ? r.range(2, 5) : r.range(2, maxn);
  const int shape = (int)r.below(5);
  const bool ints = r.chance(0.7);
  const int64_t wmax = r.chance(0.3) ? 2 : r.chance(0.5) ? 9 : 1000;
  const bool near = r.chance(0.2);
  g.exact = near || ints;
  g.scale = near && scaled ? anyScale(r) : 1.0;
  auto weight = [&]() -> double {
    if (near) return nearTie(r, fine, g.scale, zero);
    if (zero && r.chance(0.1)) return 0.0;
    return ints ? (double)r.range(zero ? 0 : 1, wmax) : r.real(1e-3, 10.0);
  };
  std::set<std::pair<int64_t, int64_t>> seen;
  auto add = [&](int64_t u, int64_t v) {
    if (u == v || u < 0 || v < 0 || u >= g.n || v >= g.n) return;
    if (!parallel && (seen.count({u, v}) || (symmetric && seen.count({v, u})))) return;
    seen.insert({u, v});
    const double w = weight();
    g.e.push_back(E{u, v, w, (int)r.below(3)});
    if (symmetric) {
      seen.insert({v, u});
      g.e.push_back(E{v, u, w, g.e.back().validity});
    }
  };
  if (shape == 0) {
    const double p = r.real(0.0, 2.5 / (double)g.n);
    for (int64_t u = 0; u < g.n; u++)
      for (int64_t v = 0; v < g.n; v++)
        if (r.chance(p)) add(u, v);
  } else if (shape == 1) {
    const double p = r.real(0.3, 1.0);
    for (int64_t u = 0; u < g.n; u++)
      for (int64_t v = 0; v < g.n; v++)
        if (r.chance(p)) add(u, v);
  } else if (shape == 2) {
    for (int64_t u = 0; u + 1 < g.n; u++) add(u, u + 1);
    const int64_t k = r.range(0, g.n);
    for (int64_t i = 0; i < k; i++) add(r.range(0, g.n - 1), r.range(0, g.n - 1));
  } else if (shape == 3) {
    const int64_t wd = std::max<int64_t>(1, (int64_t)std::sqrt((double)g.n));
    for (int64_t i = 0; i < g.n; i++) {
      if ((i + 1) % wd) add(i, i + 1), add(i + 1, i);
      add(i, i + wd);
      add(i + wd, i);
    }
  } else {
    const int64_t k = r.range(1, 4);
    const double p = r.real(0.2, 0.8);
    for (int64_t u = 0; u < g.n; u++)
      for (int64_t v = 0; v < g.n; v++)
        if (u % k == v % k && r.chance(p)) add(u, v);
  }
  if (parallel && !g.e.empty())
    for (int64_t i = r.range(0, 3); i > 0; i--) {
      const E x = g.e[r.below(g.e.size())];
      g.e.push_back(E{x.u, x.v, weight(), (int)r.below(3)});
      if (symmetric) g.e.push_back(E{x.v, x.u, g.e.back().w, g.e.back().validity});
    }
  // Edge insertion order must not matter.
  if (!symmetric)
    for (size_t i = g.e.size(); i > 1; i--) std::swap(g.e[i - 1], g.e[r.below(i)]);
  return g;
}
// A sparse graph of any size: a long chain, a hub, random extra edges and some isolated nodes under a random numbering.
inline G large(Rng& r, int64_t n, bool symmetric) {
  G g;
  g.n = n;
  std::vector<int64_t> id((size_t)n);
  for (size_t i = 0; i < id.size(); i++) id[i] = (int64_t)i;
  for (size_t i = id.size(); i > 1; i--) std::swap(id[i - 1], id[r.below(i)]);
  g.exact = r.chance(0.4);
  g.scale = g.exact ? anyScale(r) : 1.0;
  auto add = [&](int64_t u, int64_t v) {
    if (u == v) return;
    const double w = g.exact ? nearTie(r, 20, g.scale, true) : r.chance(0.5) ? (double)r.range(0, 9) : r.real(1e-3, 10);
    g.e.push_back(E{id[(size_t)u], id[(size_t)v], w, (int)r.below(3)});
    if (symmetric) g.e.push_back(E{id[(size_t)v], id[(size_t)u], w, g.e.back().validity});
  };
  const int64_t used = n - r.range(0, 5), chain = r.range(used / 2, used - 1);
  for (int64_t i = 0; i + 1 < chain; i++) {
    add(i, i + 1);
    if (!symmetric && r.chance(0.9)) add(i + 1, i);
  }
  const int64_t hub = r.range(0, used - 1);
  for (int64_t i = 0; i < std::min<int64_t>(used, 300); i++) r.chance(0.5) ? add(hub, r.range(0, used - 1)) : add(r.range(0, used - 1), hub);
  for (int64_t i = chain; i < used; i++) add(i, r.range(0, i - 1)), add(r.range(0, i - 1), i);
  const int64_t extra = r.range(0, n);
  for (int64_t i = 0; i < extra; i++) add(r.range(0, used - 1), r.range(0, used - 1));
  return g;
}
// Node counts around the limits of 8- and 16-bit numbers.
inline int64_t largeSize(Rng& r, bool huge) {
  return huge ? 65530 + r.range(0, 3000) : r.chance(0.3) ? 250 + r.range(0, 12) : r.chance(0.2) ? 126 + r.range(0, 6) : r.range(130, 3000);
}
// Shortest distances by a plain ordered-set search (non-negative weights), for graphs too large for bellmanFord.
template <typename Usable>
std::vector<double> shortest(const G& g, int64_t s, bool reverse, const Usable& ok) {
  std::vector<std::vector<std::pair<int64_t, double>>> adj((size_t)g.n);
  for (const E& e : g.e)
    if (ok(e)) adj[(size_t)(reverse ? e.v : e.u)].push_back({reverse ? e.u : e.v, e.w});
  std::vector<double> d((size_t)g.n, INFINITY);
  std::set<std::pair<double, int64_t>> open = {{0.0, s}};
  d[(size_t)s] = 0;
  while (!open.empty()) {
    const int64_t u = open.begin()->second;
    open.erase(open.begin());
    for (const auto& x : adj[(size_t)u])
      if (d[(size_t)u] + x.second < d[(size_t)x.first]) {
        open.erase({d[(size_t)x.first], x.first});
        d[(size_t)x.first] = d[(size_t)u] + x.second;
        open.insert({d[(size_t)x.first], x.first});
      }
  }
  return d;
}
template <typename Usable>
std::vector<double> bellmanFord(const G& g, int64_t s, bool reverse, const Usable& ok) {
  std::vector<double> d((size_t)g.n, INFINITY);
  d[(size_t)s] = 0;
  for (int64_t it = 0; it < g.n; it++) {
    bool ch = false;
    for (const E& e : g.e) {
      if (!ok(e)) continue;
      const size_t a = (size_t)(reverse ? e.v : e.u), b = (size_t)(reverse ? e.u : e.v);
      if (d[a] + e.w < d[b]) {
        d[b] = d[a] + e.w;
        ch = true;
      }
    }
    if (!ch) break;
  }
  return d;
}
inline std::string show(const G& g) {
  std::ostringstream o;
  o << "n=" << g.n << " ";
  for (size_t i = 0; i < g.e.size() && i < 60; i++) o << g.e[i].u << ">" << g.e[i].v << ":" << g.e[i].w << "/" << g.e[i].validity << " ";
  return o.str();
}
inline void note(mon::Case& c, const G& g) {
  c.note(g.n);
  for (const E& e : g.e) {
    c.note(e.u);
    c.note(e.v);
    c.note(e.w);
  }
}
inline bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }
inline bool close(const G& g, double a, double b) { return g.exact ? a == b : close(a, b); }
}  // namespace gr
