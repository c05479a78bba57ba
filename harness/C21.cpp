// MON-variants: asan
// MON-rule: value pairs (equal, opposite, half-turn apart, orthogonal, huge, tiny, random) x ratios (0, 1, outside, random), and value sets of 1-12 elements with weights (zero, negative, equal, skewed), judged by long double arithmetic and quaternion angles; distinct by the arguments
#include "arc_utilities/eigen_helpers.hpp"
#include "eig.hpp"
#include "mon.hpp"
using namespace mon;
typedef long double LD;
namespace EH = EigenHelpers;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static double number(Rng& r) {
  switch (r.below(6)) {
    case 0: return (double)r.range(-5, 5);
    case 1: return r.real(-1, 1) * std::pow(10.0, (double)r.range(-12, 12));
    case 2: return 0.0;
    default: return r.real(-10, 10);
  }
}
static double ratio(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return -r.real(0, 3);
    case 3: return 1.0 + r.real(0, 3);
    case 4: return 0.5;
    case 5: return r.chance(0.5) ? 1e-12 : 1.0 - 1e-12;
    default: return r.real();
  }
}
static double unit(double t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
// rotation angle between two unit quaternions, accurate at both ends, in [0, pi]
static double angle(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
  LD d = (LD)a.w() * b.w() + (LD)a.x() * b.x() + (LD)a.y() * b.y() + (LD)a.z() * b.z();
  const LD s = d < 0 ? -1 : 1;
  LD up = 0, um = 0;
  const double av[4] = {a.w(), a.x(), a.y(), a.z()}, bv[4] = {b.w(), b.x(), b.y(), b.z()};
  for (int i = 0; i < 4; i++) {
    um += ((LD)av[i] - s * bv[i]) * ((LD)av[i] - s * bv[i]);
    up += ((LD)av[i] + s * bv[i]) * ((LD)av[i] + s * bv[i]);
  }
  return (double)(4 * atan2l(sqrtl(um), sqrtl(up)));
}
static Eigen::Quaterniond neg(const Eigen::Quaterniond& q) { return Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()); }
static std::string qs(const Eigen::Quaterniond& q) { return str("(", q.w(), " ", q.x(), " ", q.y(), " ", q.z(), ")"); }
// a partner for q: same, negated, opposite by a half turn, near, far
static Eigen::Quaterniond partner(Rng& r, const Eigen::Quaterniond& q) {
  switch (r.below(7)) {
    case 0: return q;
    case 1: return neg(q);
    case 2: return q * Eigen::Quaterniond(Eigen::AngleAxisd(M_PI, eg::unit(r)));
    case 3: return q * Eigen::Quaterniond(Eigen::AngleAxisd(r.real(-1e-7, 1e-7), eg::unit(r)));
    case 4: return q * Eigen::Quaterniond(Eigen::AngleAxisd(M_PI - r.real(0, 1e-6), eg::unit(r)));
    default: return eg::rot(r);
  }
}
static std::vector<double> weights(Rng& r, size_t n) {
  std::vector<double> w(n);
  for (double& x : w) x = r.chance(0.2) ? 0.0 : r.chance(0.3) ? (double)r.range(1, 4) : r.real(0.01, 10);
  if (r.chance(0.1)) w[0] = 0.0;
  bool any = false;
  for (double x : w) any |= x != 0;
  if (!any) w[r.below(n)] = 1.0;
  if (r.chance(0.3))
    for (double& x : w) x *= r.chance(0.5) ? -1 : 1;  // only magnitudes count
  return w;
}
template <typename V>
static std::vector<size_t> perm(Rng& r, const V& v) {
  std::vector<size_t> p(v.size());
  for (size_t i = 0; i < p.size(); i++) p[i] = i;
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
  return p;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("numbers", 30000, 1500000, [](Case& c) {
    Rng& r = c.rng;
    Quiet q;
    const double t = ratio(r), u = unit(t);
    const size_t n = r.below(6);
    std::vector<double> a(n), b(n);
    for (size_t i = 0; i < n; i++) a[i] = number(r), b[i] = r.chance(0.1) ? a[i] : number(r);
    c.note(t);
    for (size_t i = 0; i < n; i++) c.note(a[i]), c.note(b[i]);
    auto judge = [&](double got, double x, double y, const char* f) {
      const LD want = (LD)x * (1 - (LD)u) + (LD)y * u;
      const double tol = 4e-16 * (std::fabs(x) + std::fabs(y));
      c.check(std::fabs(got - (double)want) <= tol, str(f, "-value"), [&] { return str(x, " -> ", y, " at ", t, ": ", got); });
      if (t <= 0) c.check(got == x, str(f, "-start"), [&] { return str(x, " -> ", y, " at ", t, ": ", got); });
      if (t >= 1) c.check(got == y, str(f, "-end"), [&] { return str(x, " -> ", y, " at ", t, ": ", got); });
    };
    const double x = number(r), y = number(r), z = number(r), w = number(r);
    c.note(x), c.note(y), c.note(z), c.note(w);
    judge(EH::Interpolate(x, y, t), x, y, "number");
    const auto p = EH::Interpolate(std::make_pair(x, z), std::make_pair(y, w), t);
    judge(p.first, x, y, "pair-first"), judge(p.second, z, w, "pair-second");
    const std::vector<double> v = EH::Interpolate(a, b, t);
    if (c.check(v.size() == n, "vector-size", str(v.size())))
      for (size_t i = 0; i < n; i++) judge(v[i], a[i], b[i], "vector");
    std::vector<float> fa(a.begin(), a.end()), fb(b.begin(), b.end());
    const std::vector<float> fv = EH::Interpolate(fa, fb, t);
    if (c.check(fv.size() == n, "vector-size", str(fv.size())))
      for (size_t i = 0; i < n; i++) {
        const double want = (double)fa[i] * (1 - u) + (double)fb[i] * u;
        c.check(std::fabs(fv[i] - want) <= 1e-6 * (std::fabs((double)fa[i]) + std::fabs((double)fb[i])) + 1e-40, "float-vector", [&] { return str(fa[i], fb[i], t, fv[i]); });
      }
    std::vector<double> longer = b;
    longer.push_back(1.0);
    c.check(EH::Interpolate(a, longer, t).empty(), "vector-mismatch", "sizes differ");
    c.check(EH::Interpolate(longer, a, t).empty(), "vector-mismatch", "sizes differ");
    // Eigen vectors
    const Eigen::VectorXd ea = Eigen::Map<const Eigen::VectorXd>(a.data(), (long)n), eb = Eigen::Map<const Eigen::VectorXd>(b.data(), (long)n);
    const Eigen::VectorXd ev = EH::Interpolate(ea, eb, t);
    if (c.check(ev.size() == (long)n, "eigen-size", str(ev.size())))
      for (size_t i = 0; i < n; i++) judge(ev((long)i), a[i], b[i], "eigen");
    const Eigen::VectorXd el = Eigen::Map<const Eigen::VectorXd>(longer.data(), (long)n + 1);
    bool threw = false;
    try { EH::Interpolate(ea, el, t); } catch (const std::invalid_argument&) { threw = true; }
    c.check(threw, "eigen-mismatch", "no exception");
    const Eigen::Vector3d a3(x, y, z), b3(z, w, x);
    const Eigen::Vector3d r3 = EH::Interpolate(a3, b3, t);
    for (int i = 0; i < 3; i++) judge(r3(i), a3(i), b3(i), "eigen3");
    const double s = EH::SafetyCheckUnitInterval(t);
    c.check(s == u, "clamp", [&] { return str(t, " -> ", s); });
    c.nontrivial(n > 0);
    c.count(t < 0 ? "ratio below 0" : t > 1 ? "ratio above 1" : t == 0 ? "ratio 0" : t == 1 ? "ratio 1" : "ratio inside");
  });
  m.group("rotations", 30000, 1500000, [](Case& c) {
    Rng& r = c.rng;
    Quiet quiet;
    const Eigen::Quaterniond a = eg::rot(r), b = partner(r, a);
    const double t = ratio(r), u = unit(t);
    c.note(t);
    for (int i = 0; i < 4; i++) c.note(a.coeffs()(i)), c.note(b.coeffs()(i));
    const double d = angle(a, b);
    c.nontrivial(d > 1e-9);
    c.count(d < 1e-6 ? "equal" : d > M_PI - 1e-5 ? "half turn" : "between");
    auto judge = [&](const Eigen::Quaterniond& g, const char* f) {
      c.check(std::fabs(g.norm() - 1) < 1e-12, str(f, "-unit"), [&] { return qs(g); });
      const double d1 = angle(a, g), d2 = angle(g, b);
      c.check(std::fabs(d1 - u * d) < 4e-7, str(f, "-progress"), [&] { return str(qs(a), " -> ", qs(b), " at ", t, ": ", d1, " of ", d); });
      c.check(std::fabs(d2 - (1 - u) * d) < 4e-7, str(f, "-remaining"), [&] { return str(qs(a), " -> ", qs(b), " at ", t, ": ", d2, " of ", d); });
      if (t <= 0) c.check(d1 < 1e-7, str(f, "-start"), [&] { return qs(g); });
      if (t >= 1) c.check(d2 < 1e-7, str(f, "-end"), [&] { return qs(g); });
    };
    judge(EH::Interpolate(a, b, t), "quaternion");
    Eigen::Isometry3d ta = Eigen::Isometry3d::Identity(), tb = ta;
    const Eigen::Vector3d pa = eg::vec(r, 5), pb = r.chance(0.1) ? pa : eg::vec(r, 5);
    ta.linear() = a.toRotationMatrix(), tb.linear() = b.toRotationMatrix();
    ta.translation() = pa, tb.translation() = pb;
    const Eigen::Isometry3d g = EH::Interpolate(ta, tb, t);
    judge(Eigen::Quaterniond(g.linear()), "pose");
    c.check((g.linear() * g.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-12, "pose-rigid", [&] { return eg::show(g.matrix()); });
    c.check(g(3, 0) == 0 && g(3, 1) == 0 && g(3, 2) == 0 && g(3, 3) == 1, "pose-row", [&] { return eg::show(g.matrix()); });
    const Eigen::Vector3d want = pa * (1 - u) + pb * u;
    c.check((g.translation() - want).norm() < 1e-14, "pose-translation", [&] { return eg::show(g.matrix()); });
  });
  m.group("averages", 20000, 1000000, [](Case& c) {
    Rng& r = c.rng;
    const size_t n = 1 + r.below(12);
    const bool weighted = r.chance(0.7);
    std::vector<double> w = weighted ? weights(r, n) : std::vector<double>();
    const double scale = std::pow(10.0, (double)r.range(-3, 6));
    std::vector<double> v(n);
    const bool equal = r.chance(0.15);
    for (size_t i = 0; i < n; i++) v[i] = equal && i ? v[0] : scale * r.real(-1, 1);
    for (double x : v) c.note(x);
    for (double x : w) c.note(x);
    auto wt = [&](size_t i) { return weighted ? std::fabs(w[i]) : 1.0; };
    LD sw = 0, s = 0;
    double lo = INFINITY, hi = -INFINITY;
    for (size_t i = 0; i < n; i++) {
      sw += wt(i), s += (LD)wt(i) * v[i];
      if (wt(i) > 0) lo = std::min(lo, v[i]), hi = std::max(hi, v[i]);
    }
    const double want = (double)(s / sw), tol = 1e-14 * scale * (double)n;
    auto run = [&](const std::vector<double>& x, const std::vector<double>& y) { return EH::AverageStdVectorDouble(x, y); };
    const double g = run(v, w);
    c.check(std::fabs(g - want) <= tol, "mean", [&] { return str(g, " want ", want); });
    c.check(g >= lo - tol && g <= hi + tol, "between", [&] { return str(g); });
    if (equal) c.check(g == v[0], "mean-equal", [&] { return str(g, " want ", v[0]); });
    if (weighted && r.chance(0.3)) {
      // only magnitudes and proportions of weights matter
      std::vector<double> w2 = w;
      for (double& x : w2) x *= r.chance(0.5) ? -3.0 : 3.0;
      c.check(std::fabs(run(v, w2) - want) <= tol, "weight-scale", [&] { return str(run(v, w2), " want ", want); });
    }
    if (!weighted) {
      const double k = r.real(0.1, 3);
      c.check(std::fabs(run(v, std::vector<double>(n, k)) - want) <= tol, "equal-weights", "differs from the unweighted mean");
      c.check(EH::AverageContinuousRevolute(v) == g, "revolute", "differs from the plain mean");
    }
    const auto p = perm(r, v);
    std::vector<double> vp, wp;
    for (size_t i : p) {
      vp.push_back(v[i]);
      if (weighted) wp.push_back(w[i]);
    }
    c.check(std::fabs(run(vp, wp) - g) <= tol, "order", [&] { return str(run(vp, wp), " and ", g); });
    // deviation
    if (!weighted) {
      LD ss = 0;
      for (double x : v) ss += ((LD)x - want) * ((LD)x - want);
      const double sd = n == 1 ? 0 : (double)sqrtl(ss / (LD)(n - 1));
      c.check(std::fabs(EH::ComputeStdDevStdVectorDouble(v) - sd) <= 1e-13 * scale, "stddev", [&] { return str(EH::ComputeStdDevStdVectorDouble(v), " want ", sd); });
      c.check(std::fabs(EH::ComputeStdDevStdVectorDouble(v, want) - sd) <= 1e-13 * scale, "stddev-mean", "given mean");
    }
    // Eigen vectors of fixed and run-time size
    const int rows = (int)r.range(1, 5);
    std::vector<Eigen::VectorXd> vx;
    EH::VectorVector3d v3;
    for (size_t i = 0; i < n; i++) {
      Eigen::VectorXd e(rows);
      for (int k = 0; k < rows; k++) e(k) = scale * r.real(-1, 1);
      if (equal && i) e = vx[0];
      vx.push_back(e);
      v3.push_back(equal && i ? v3[0] : Eigen::Vector3d(eg::vec(r, scale)));
    }
    const Eigen::VectorXd gx = EH::AverageEigenVectorXd(vx, w);
    const Eigen::Vector3d g3 = EH::AverageEigenVector3d(v3, w);
    const Eigen::VectorXd gg = EH::AverageEigenVector(vx, w);
    c.check(gg.size() == gx.size() && gg == gx, "eigen-general", "variants disagree");
    c.check(gx.size() == rows, "eigen-size", str(gx.size()));
    for (int k = 0; k < rows + 3 && gx.size() == rows; k++) {
      LD q = 0;
      for (size_t i = 0; i < n; i++) q += (LD)wt(i) * (k < rows ? vx[i](k) : v3[i](k - rows));
      const double got = k < rows ? gx(k) : g3(k - rows);
      c.check(std::fabs(got - (double)(q / sw)) <= tol, k < rows ? "eigenX" : "eigen3", [&] { return str(got, " want ", (double)(q / sw)); });
    }
    if (equal) c.check(gx == vx[0] && g3 == v3[0], "eigen-equal", "not the common value");
    c.nontrivial(n > 1);
  });
  m.group("rotation-averages", 12000, 600000, [](Case& c) {
    Rng& r = c.rng;
    const size_t n = 1 + r.below(6);
    const bool weighted = r.chance(0.6);
    const std::vector<double> w = weighted ? weights(r, n) : std::vector<double>();
    EH::VectorQuaterniond q;
    const int kind = (int)r.below(6);
    const Eigen::Quaterniond base = eg::rot(r);
    for (size_t i = 0; i < n; i++) {
      if (kind == 0) q.push_back(base);
      else if (kind == 1) q.push_back(r.chance(0.5) ? neg(base) : base);
      else if (kind == 2) q.push_back(base * Eigen::Quaterniond(Eigen::AngleAxisd(r.real(-0.3, 0.3), eg::unit(r))));
      else if (kind == 3) q.push_back(partner(r, base));
      else if (kind == 4) {
        Eigen::Quaterniond e(0, 0, 0, 0);
        const size_t k = r.below(4);
        (k == 0 ? e.w() : k == 1 ? e.x() : k == 2 ? e.y() : e.z()) = r.chance(0.5) ? 1 : -1;
        q.push_back(e);
      } else q.push_back(eg::rot(r));
    }
    for (const auto& x : q)
      for (int i = 0; i < 4; i++) c.note(x.coeffs()(i));
    for (double x : w) c.note(x);
    auto all = [&] {
      std::string s;
      for (size_t i = 0; i < n; i++) s += qs(q[i]) + (weighted ? str("*", w[i]) : "") + " ";
      return s;
    };
    // A one-element set needs a non-zero weight; weights() guarantees one.
    const Eigen::Quaterniond g = EH::AverageEigenQuaterniond(q, w);
    c.check(std::fabs(g.norm() - 1) < 1e-9, "rotation-unit", [&] { return qs(g) + " of " + all(); });
    if (kind <= 1) c.check(angle(g, base) < 1e-6, "rotation-equal", [&] { return qs(g) + " of " + all(); });
    // Is the average unique? Compare the two largest eigenvalues of the weighted scatter.
    Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
    for (size_t i = 0; i < n; i++) {
      const double k = weighted ? w[i] : 1.0;
      M += k * k * q[i].coeffs() * q[i].coeffs().transpose();
    }
    const Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(M);
    const double gap = (es.eigenvalues()(3) - es.eigenvalues()(2)) / es.eigenvalues()(3);
    const bool unique = gap > 1e-3;
    c.count(unique ? "unique average" : "degenerate set");
    if (unique) {
      const auto p = perm(r, q);
      EH::VectorQuaterniond q2;
      std::vector<double> w2;
      for (size_t i : p) {
        q2.push_back(r.chance(0.5) ? q[i] : neg(q[i]));
        if (weighted) w2.push_back(w[i] * (r.chance(0.5) ? 2.0 : -2.0));
      }
      const Eigen::Quaterniond h = EH::AverageEigenQuaterniond(q2, w2);
      c.check(angle(g, h) < 1e-6, "rotation-order-sign-scale", [&] { return qs(g) + " and " + qs(h) + " of " + all(); });
      if (!weighted) {
        const Eigen::Quaterniond e = EH::AverageEigenQuaterniond(q, std::vector<double>(n, r.real(0.1, 4)));
        c.check(angle(g, e) < 1e-6, "rotation-equal-weights", [&] { return qs(g) + " and " + qs(e) + " of " + all(); });
      }
      // A value of weight zero has no say.
      EH::VectorQuaterniond q3 = q;
      std::vector<double> w3 = weighted ? w : std::vector<double>(n, 1.0);
      const size_t at = r.below(n + 1);
      q3.insert(q3.begin() + (long)at, eg::rot(r));
      w3.insert(w3.begin() + (long)at, 0.0);
      const Eigen::Quaterniond z = EH::AverageEigenQuaterniond(q3, w3);
      c.check(angle(g, z) < 1e-6, "rotation-zero-weight", [&] { return qs(g) + " and " + qs(z) + " of " + all(); });
      // The average moves with the frame.
      const Eigen::Quaterniond f = eg::rot(r);
      EH::VectorQuaterniond q4;
      for (const auto& x : q) q4.push_back(f * x);
      const Eigen::Quaterniond m4 = EH::AverageEigenQuaterniond(q4, w);
      c.check(angle(f * g, m4) < 1e-6, "rotation-frame", [&] { return qs(g) + " of " + all(); });
    }
    // Two rotations: on the shortest arc, closer to the heavier one, in the middle if equally heavy.
    if (n == 2 && angle(q[0], q[1]) < M_PI - 0.05) {
      const double w0 = weighted ? std::fabs(w[0]) : 1, w1 = weighted ? std::fabs(w[1]) : 1;
      const double d0 = angle(q[0], g), d1 = angle(g, q[1]), d = angle(q[0], q[1]);
      c.check(std::fabs(d0 + d1 - d) < 1e-6, "rotation-arc", [&] { return str(d0, "+", d1, " on ", d, " ", all()); });
      if (w0 == w1) c.check(std::fabs(d0 - d1) < 1e-6, "rotation-middle", [&] { return str(d0, " ", d1, " ", all()); });
      if (w0 > w1) c.check(d0 <= d1 + 1e-6, "rotation-heavier", [&] { return str(d0, " ", d1, " ", all()); });
      if (w0 < w1) c.check(d1 <= d0 + 1e-6, "rotation-heavier", [&] { return str(d0, " ", d1, " ", all()); });
      if (w0 > 1.2 * w1 && d > 0.1) c.check(d0 < d1 - 1e-4, "rotation-strictly-heavier", [&] { return str(d0, " ", d1, " ", all()); });
      if (w1 > 1.2 * w0 && d > 0.1) c.check(d1 < d0 - 1e-4, "rotation-strictly-heavier", [&] { return str(d0, " ", d1, " ", all()); });
    }
    // Poses: translation and rotation averaged separately.
    EH::VectorIsometry3d T;
    EH::VectorVector3d V;
    for (size_t i = 0; i < n; i++) {
      Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
      t.linear() = q[i].toRotationMatrix();
      const bool same = kind == 0 && i;
      if (same) t.translation() = T[0].translation();
      else t.translation() = eg::vec(r, 3);
      T.push_back(t), V.push_back(t.translation());
    }
    const Eigen::Isometry3d P = EH::AverageEigenIsometry3d(T, w);
    const Eigen::Vector3d pv = EH::AverageEigenVector3d(V, w);
    c.check((P.translation() - pv).norm() < 1e-12, "pose-translation", [&] { return eg::show(P.matrix()); });
    c.check((P.linear() * P.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-8 && P.linear().determinant() > 0, "pose-rigid", [&] { return eg::show(P.matrix()) + " of " + all(); });
    if (unique) c.check(angle(Eigen::Quaterniond(P.linear()), g) < 1e-6, "pose-rotation", [&] { return eg::show(P.matrix()); });
    if (kind == 0) c.check((P.matrix() - T[0].matrix()).norm() < 1e-6, "pose-equal", [&] { return eg::show(P.matrix()); });
    c.nontrivial(n > 1);
  });
  return m.finish();
}
