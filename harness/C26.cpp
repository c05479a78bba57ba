// MON-variants: asan
// MON-rule: 2-D and 3-D control sets of 1-20 points (random, grids, on a line or plane, fewer than the dimension, scaled and shifted), arbitrary, affine, identity and constant targets, dynamic and fixed-size inputs, histories of control/target changes, solves, evaluations, mismatched counts and copies; judged against a long double solve of the defining equations; distinct by controls and targets
#include <Eigen/LU>
#include "arc_utilities/thin_plate_spline.hpp"
#include "eig.hpp"
#include "mon.hpp"
using namespace mon;
typedef long double LD;
typedef Eigen::MatrixXd MX;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> ML;
using arc_utilities::ThinPlateSpline;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static std::string ms(const MX& m) {
  std::ostringstream o;
  o << "[" << m.format(Eigen::IOFormat(17, Eigen::DontAlignCols, ",", "; ")) << "]";
  return o.str();
}
static void note(Case& c, const MX& m) {
  c.note(m.cols());
  for (int i = 0; i < m.size(); i++) c.note(m(i));
}
enum Shape { RANDOM, GRID, FLAT, FEW };
template <int D>
static MX controls(Rng& r, Shape s) {
  const int n = s == FEW ? (int)r.range(1, D) : (int)r.range(D + 1, r.chance(0.01) ? 70 : r.chance(0.2) ? 20 : 10);
  MX p(D, n);
  MX dirs = MX::Zero(D, D);
  for (int i = 0; i < dirs.size(); i++) dirs(i) = r.real(-1, 1);
  for (int k = 0; k < n; k++) {
    Eigen::VectorXd x(D);
    bool ok;
    int tries = 0;
    do {
      if (s == GRID)
        for (int i = 0; i < D; i++) x(i) = (double)r.range(0, 3);
      else if (s == FLAT) {
        // on a line through the first two directions' first, axis-parallel half of the time
        x.setZero();
        const double a = r.real(-2, 2);
        if (n % 2) x(n % D) = a; else x = a * dirs.col(0);
        x(0) += 0.5;
      } else
        for (int i = 0; i < D; i++) x(i) = r.real(-1, 1);
      ok = true;
      for (int j = 0; j < k; j++) ok = ok && (p.col(j) - x).norm() > 0.05;
      if (++tries > 200) return p.leftCols(std::max(k, 1)).eval();
    } while (!ok);
    p.col(k) = x;
  }
  return p;
}
template <int D>
static LD kernel(LD r2) { return r2 == 0 ? 0 : D == 2 ? r2 * logl(r2) : -sqrtl(r2); }
// defining equations in long double: value at the columns of x; cond reports how well posed they are
template <int D>
static bool reference(const MX& p, const MX& t, const MX& x, ML& out, double& cond) {
  const int n = (int)p.cols();
  ML A = ML::Zero(n + D + 1, n + D + 1), B = ML::Zero(n + D + 1, D);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) A(i, j) = kernel<D>((p.col(i) - p.col(j)).cast<LD>().squaredNorm());
    for (int d = 0; d < D; d++) A(i, n + d) = A(n + d, i) = p(d, i), B(i, d) = t(d, i);
    A(i, n + D) = A(n + D, i) = 1;
  }
  const Eigen::FullPivLU<ML> lu(A);
  const auto sv = Eigen::JacobiSVD<MX>(A.cast<double>()).singularValues();
  cond = sv(0) / std::max(sv(sv.size() - 1), 1e-300);
  if (cond > 1e9) return false;
  const ML w = lu.solve(B);
  out.resize(D, x.cols());
  for (int k = 0; k < x.cols(); k++)
    for (int d = 0; d < D; d++) {
      LD v = w(n + D, d);
      for (int e = 0; e < D; e++) v += w(n + e, d) * (LD)x(e, k);
      for (int i = 0; i < n; i++) v += w(i, d) * kernel<D>((x.col(k) - p.col(i)).cast<LD>().squaredNorm());
      out(d, k) = v;
    }
  return true;
}
template <int D>
static MX rnd(Rng& r, int n, double s) {
  MX m(D, n);
  for (int i = 0; i < m.size(); i++) m(i) = s * r.real(-1, 1);
  return m;
}

template <int D>
static void fit(Case& c) {
  Quiet q;
  Rng& r = c.rng;
  const Shape s = r.chance(0.15) ? FEW : r.chance(0.2) ? FLAT : r.chance(0.3) ? GRID : RANDOM;
  MX p = controls<D>(r, s);
  const double sc = std::pow(10.0, r.real(-1.5, 1.5));
  const bool scaled = r.chance(0.4), moved = r.chance(0.3);
  if (scaled) p *= sc;
  const double ext = scaled ? sc : 1;
  if (moved) p.colwise() += (Eigen::VectorXd)rnd<D>(r, 1, 3 * ext);
  const int n = (int)p.cols();
  MX aff = rnd<D>(r, D, 2), sh = rnd<D>(r, 1, 2 * ext);
  const int kind = (int)r.below(5);
  MX t = rnd<D>(r, n, 2 * ext);
  if (kind == 0) t = (aff * p).colwise() + sh.col(0);
  if (kind == 1) t = p, aff.setIdentity(), sh.setZero();
  if (kind == 2) t = sh.replicate(1, n), aff.setZero();
  const bool affine = kind <= 2;
  note(c, p), note(c, t), c.note(D);
  c.nontrivial(n > 1);
  c.count(s == FEW ? "fewer controls than needed for a plane/space" : s == FLAT ? "controls on a line" : s == GRID ? "grid" : "random");
  auto show = [&] { return str(D) + "-D controls " + ms(p) + " targets " + ms(t); };
  MX x = rnd<D>(r, (int)r.range(0, 6), 3 * ext);
  if (moved) x.colwise() += p.col(0);
  ThinPlateSpline<D> sp(p, t);
  MX atc, atx;
  if (r.chance(0.3)) {
    const typename ThinPlateSpline<D>::PointSet fp = p;
    atc = sp.interpolate(fp);
  } else
    atc = sp.interpolate(p);
  ML ref;
  double cond = 0;
  const bool posed = reference<D>(p, t, x, ref, cond);
  const double ts = t.cwiseAbs().maxCoeff() + 1e-3 * ext, tol = ts * (1e-9 + (posed ? 1e-14 * cond : 1e-7));
  if (!c.check(atc.rows() == D && atc.cols() == n && atc.allFinite(), "the spline is not finite at its controls", show)) return;
  c.check((atc - t).cwiseAbs().maxCoeff() <= tol, "a control point is not mapped to its target", [&] { return show() + " -> " + ms(atc); });
  if (x.cols() == 0) {
    const MX e = sp.interpolate(x);
    c.check(e.cols() == 0, "no points in, but points out", show);
    return;
  }
  if (r.chance(0.3)) atx = sp.interpolate(x.leftCols(x.cols())); else atx = sp.interpolate(x);
  if (!c.check(atx.rows() == D && atx.cols() == x.cols() && atx.allFinite(), "the spline is not finite", [&] { return show() + " at " + ms(x); })) return;
  if (posed) {
    c.count("well posed");
    c.check((atx - ref.template cast<double>()).cwiseAbs().maxCoeff() <= tol * 30, "the fitted map is not the thin-plate spline through the control points", [&] {
      return show() + " at " + ms(x) + ": " + ms(atx) + " instead of " + ms(ref.template cast<double>()); });
    if (affine) {
      const MX w = (aff * x).colwise() + sh.col(0);
      c.count("affine");
      c.check((atx - w).cwiseAbs().maxCoeff() <= tol * 30, "an affine image of the controls does not give that affine map", [&] { return show() + " at " + ms(x) + ": " + ms(atx) + " instead of " + ms(w); });
    }
  }
  // one point at a time gives the same values
  const int k = (int)r.below(x.cols());
  const MX one = sp.interpolate(x.col(k));
  c.check((one - atx.col(k)).norm() <= 1e-12 * (ts + atx.col(k).norm()) * (1 + (posed ? cond * 1e-3 : 1e5)), "a point's value depends on the points evaluated with it", [&] { return show() + " at " + ms(x.col(k)); });
}

template <int D>
static void history(Case& c) {
  Quiet q;
  Rng& r = c.rng;
  ThinPlateSpline<D> sp;
  MX P(D, 0), T(D, 0);
  std::string log;
  c.nontrivial(true), c.note(D);
  const int ops = (int)r.range(4, 25);
  MX pool[3];
  const int n = (int)r.range(D + 2, 8);
  for (auto& m : pool) {
    do m = controls<D>(r, RANDOM); while (m.cols() < n);
    m = m.leftCols(n).eval();
  }
  for (int k = 0; k < ops; k++) {
    switch (r.below(7)) {
      case 0: case 1: P = pool[r.below(3)], sp.setTemplatePoints(P), log += " controls " + ms(P); break;
      case 2: case 3: T = rnd<D>(r, r.chance(0.1) ? n + 1 : n, 2), sp.setTargetPoints(T), log += " targets " + ms(T); break;
      case 4: {
        log += " solve";
        bool threw = false;
        try { sp.solveForCoeffs(); } catch (const std::invalid_argument&) { threw = true; }
        const bool bad = P.cols() < 1 || T.cols() < 1 || P.cols() != T.cols();
        c.check(threw == bad, bad ? "solving with missing or mismatched points was not refused" : "solving with matched points was refused", log);
        break;
      }
      case 5: {
        ThinPlateSpline<D> copy(sp);
        sp = ThinPlateSpline<D>();
        sp = copy;
        log += " copied";
        break;
      }
      default: {
        const MX x = rnd<D>(r, 3, 1.5);
        log += " at " + ms(x);
        const bool bad = P.cols() < 1 || T.cols() < 1 || P.cols() != T.cols();
        bool threw = false;
        MX y;
        try { y = sp.interpolate(x); } catch (const std::invalid_argument&) { threw = true; }
        c.note(k), note(c, x);
        if (bad) {
          c.count("refused");
          c.check(threw, "evaluating with missing or mismatched points was not refused", log);
          break;
        }
        c.check(!threw, "evaluating with matched points was refused", log);
        ThinPlateSpline<D> fresh(P, T);
        const MX w = fresh.interpolate(x);
        c.count("compared with a fresh fit");
        c.check((y - w).norm() <= 1e-9 * (1 + w.norm()), "a refitted spline differs from a fresh fit", [&] { return log + ": " + ms(y) + " instead of " + ms(w); });
      }
    }
  }
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("fit-2d", 6000, 200000, fit<2>);
  m.group("fit-3d", 6000, 200000, fit<3>);
  m.group("history-2d", 1500, 50000, history<2>);
  m.group("history-3d", 1500, 50000, history<3>);
  return m.finish();
}
