// MON-variants: asan
// MON-rule: matrices of 1-8 rows and columns built from random orthogonal factors and chosen singular values (any rank, zero and sub-tolerance values, repeated values, scales 1e-3..1e3), tolerances 1e-6..0.3, flipping on and off, positive and zero weights, damping that does and does not engage; judged by the factors the matrix was built from and by long double normal equations; distinct by matrix and right-hand side
#include "arc_utilities/eigen_helpers.hpp"
#include "eig.hpp"
#include "mon.hpp"
using namespace mon;
typedef long double LD;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> ML;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VL;
namespace EH = EigenHelpers;

// orthogonal matrix by Gram-Schmidt (twice) in long double
static ML ortho(Rng& r, int n) {
  ML q(n, n);
  for (int j = 0; j < n; j++) {
    while (true) {
      VL v(n);
      for (int i = 0; i < n; i++) v(i) = r.normal();
      for (int pass = 0; pass < 2; pass++)
        for (int k = 0; k < j; k++) v -= q.col(k) * q.col(k).dot(v);
      const LD nn = v.norm();
      if (nn < 1e-2L) continue;
      q.col(j) = v / nn;
      break;
    }
  }
  return q;
}
struct Built {
  ML a, pinv;
  std::vector<double> s;
  int rank;
  double smax, smin;
};
// singular values: kept ones in [lo,hi], `small` ones strictly below; pinv inverts the kept ones only
static Built build(Rng& r, int m, int n, int rank, double lo, double hi, double tiny) {
  Built b;
  const ML U = ortho(r, m), V = ortho(r, n);
  b.a = ML::Zero(m, n), b.pinv = ML::Zero(n, m);
  b.rank = rank, b.smax = 0, b.smin = 1e300;
  const int k = std::min(m, n);
  double last = 0;
  for (int i = 0; i < k; i++) {
    double s;
    if (i < rank) {
      s = (last > 0 && r.chance(0.2)) ? last : lo * std::pow(hi / lo, r.real(0, 1));
      last = s;
      b.pinv += V.col(i) * U.col(i).transpose() / (LD)s;
      b.smax = std::max(b.smax, s), b.smin = std::min(b.smin, s);
    } else
      s = r.chance(0.5) ? 0.0 : tiny * r.real(0, 1);
    b.s.push_back(s);
    b.a += U.col(i) * V.col(i).transpose() * (LD)s;
  }
  return b;
}
static double rel(const ML& got, const ML& want) { return (double)((got - want).norm() / (want.norm() + 1e-300L)); }
static void note(Case& c, const MX& m) {
  c.note(m.rows()), c.note(m.cols());
  for (int i = 0; i < m.size(); i++) c.note(m(i));
}
static VX rhs(Rng& r, int n, double s) {
  VX b(n);
  for (int i = 0; i < n; i++) b(i) = r.chance(0.1) ? 0.0 : s * r.real(-1, 1);
  return b;
}
static std::string ms(const MX& m) {
  std::ostringstream o;
  o.precision(17);
  o << m.rows() << "x" << m.cols() << " [" << m.format(Eigen::IOFormat(17, 0, ",", "; ")) << "]";
  return o.str();
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("pseudo-inverse", 9000, 400000, [](Case& c) {
    Rng& r = c.rng;
    const int R = (int)r.range(1, 8), C = (int)r.range(1, 8), k = std::min(R, C);
    const int rank = r.chance(0.4) ? k : (int)r.range(0, k);
    const double rcond = std::pow(10.0, r.real(-6, -0.5));
    const double tol = r.chance(0.3) ? EH::SuggestedRcond() : rcond;
    // kept singular values are at least 3x the tolerance, dropped ones at most a third of it
    const double lo = tol * std::pow(10.0, r.real(0.5, 3)), hi = lo * std::pow(10.0, r.real(0, 3));
    const bool exact = r.chance(0.5);
    const Built b = build(r, R, C, rank, lo, hi, exact ? 0.0 : tol * 0.3);
    const MX A = b.a.cast<double>();
    const bool flip = r.chance(0.6);
    note(c, A), c.note(tol), c.note(flip);
    c.nontrivial(rank > 0);
    if (rank < k) c.count("rank-deficient");
    if (R < C) c.count(flip ? "wide, flipped" : "wide, not flipped");
    if (!exact && rank < k) c.count("sub-tolerance singular values");
    const MX P = flip && r.chance(0.5) ? EH::Pinv(A, tol) : EH::Pinv(A, tol, flip);
    c.check(P.rows() == C && P.cols() == R, "the pseudo-inverse has the wrong shape", [&] { return ms(A) + " -> " + ms(P); });
    if (rank == 0) {
      c.check(P.norm() == 0, "the pseudo-inverse of a zero matrix is not zero", [&] { return ms(A) + " -> " + ms(P); });
      return;
    }
    const double cond = b.smax / b.smin, e = 1e-12 * cond * 10;
    const ML p = P.cast<LD>(), a = A.cast<LD>();
    c.check(rel(p, b.pinv) < e, "the pseudo-inverse does not invert the singular values above the tolerance and drop the others", [&] {
      return ms(A) + " tolerance " + str(tol) + " -> " + ms(P) + ", expected " + ms(b.pinv.cast<double>()) + ", relative error " + str(rel(p, b.pinv)); });
    if (exact || rank == k) {
      c.check(rel(a * p * a, a) < e, "A P A is not A", [&] { return ms(A) + " -> " + ms(P); });
      c.check(rel(p * a * p, p) < e, "P A P is not P", [&] { return ms(A) + " -> " + ms(P); });
    }
    const ML ap = a * p, pa = p * a;
    c.check((double)(ap - ap.transpose()).norm() < e, "A P is not symmetric", [&] { return ms(A) + " -> " + ms(P); });
    c.check((double)(pa - pa.transpose()).norm() < e, "P A is not symmetric", [&] { return ms(A) + " -> " + ms(P); });
  });
  m.group("weighted", 12000, 500000, [](Case& c) {
    Rng& r = c.rng;
    const int N = (int)r.range(1, 6), M = N + (int)r.range(0, 6);
    const bool full = r.chance(0.6);
    const int rank = full ? N : (int)r.range(0, N);
    const double sc = std::pow(10.0, r.real(-2, 2));
    const Built bb = build(r, M, N, rank, sc, sc * std::pow(10.0, r.real(0, 2)), 0.0);
    const MX A = bb.a.cast<double>();
    VX w(M);
    const int wk = (int)r.below(3);
    for (int i = 0; i < M; i++) w(i) = wk == 0 ? 1.0 : wk == 1 ? r.real(0.1, 5) : r.chance(0.3) ? 0.0 : r.real(0.1, 5);
    const VX b = rhs(r, M, std::pow(10.0, r.real(-2, 2)));
    const ML a = A.cast<LD>();
    const ML W = w.cast<LD>().asDiagonal();
    ML lhs = a.transpose() * W * a;
    const VL rh = a.transpose() * W * b.cast<LD>();
    const VL ev = Eigen::SelfAdjointEigenSolver<ML>(lhs).eigenvalues();
    const double emin = (double)std::max((LD)0, ev.minCoeff()), emax = (double)ev.maxCoeff();
    // a threshold and a damping for which the outcome does not depend on rounding
    double thr, damp = 0;
    bool damped;
    const bool singular = emin < 1e-9 * emax || emax == 0;
    if (singular || r.chance(0.4)) {
      thr = singular ? std::max(emax, 1e-6) * std::pow(10.0, r.real(-4, 0)) : emin * r.real(1.5, 10);
      damped = true;
      damp = std::max(thr, std::max(emax, 1e-6) * 1e-6) * r.real(0.5, 3);
    } else {
      thr = r.chance(0.2) ? 0.0 : emin * r.real(0, 0.7);
      damped = false;
      damp = emax * r.real(0, 3);
    }
    note(c, A), note(c, b), note(c, w), c.note(thr), c.note(damp);
    c.nontrivial(N > 1);
    c.count(damped ? (singular ? "damped, singular" : "damped, regular") : "undamped");
    if (M == N) c.count("square");
    if (damped) lhs += (LD)damp * ML::Identity(N, N);
    const VX x = EH::WeightedLeastSquaresSolver(A, b, w, thr, damp);
    auto show = [&] { return "A " + ms(A) + " b " + ms(b) + " w " + ms(w) + " threshold " + str(thr) + " damping " + str(damp) + " -> x " + ms(x); };
    if (!c.check(x.size() == N && x.allFinite(), "the weighted solution is not a finite vector of the right length", show)) return;
    const VL xl = x.cast<LD>();
    const double res = (double)(lhs * xl - rh).norm(), mag = (double)(lhs.norm() * xl.norm() + rh.norm() + (a.transpose() * W).norm() * b.cast<LD>().norm());
    c.check(res <= 1e-12 * mag, damped ? "the damped weighted solution does not satisfy its normal equations" : "the weighted solution does not satisfy its normal equations",
            [&] { return show() + ", residual " + str(res) + " against " + str(mag); });
    if (!damped && emin > 1e-6 * emax) {
      // no direction lowers the weighted residual
      auto cost = [&](const VL& y) -> LD { const VL d = a * y - b.cast<LD>(); return (d.transpose() * W * d)(0); };
      const LD c0 = cost(xl);
      for (int t = 0; t < 4; t++) {
        VL d(N);
        for (int i = 0; i < N; i++) d(i) = r.normal();
        d *= (LD)std::pow(10.0, r.real(-3, 0)) * (xl.norm() + 1e-3L) / d.norm();
        c.check(cost(xl + d) >= c0 * (1 - 1e-9L) - 1e-18L * (LD)mag, "a different vector has a smaller weighted residual", [&] { return show() + ", better " + ms((xl + d).cast<double>()); });
      }
      if (wk == 0 && emin > 0.05 * 1e-4 * emax) {
        const double rc = 0.3 * bb.smin;
        const VX y = EH::Pinv(A, rc) * b;
        c.check((x - y).norm() <= 1e-9 * (emax / emin) * (x.norm() + b.norm() / bb.smin), "the pseudo-inverse and the unit-weight solver disagree on a full-rank system", [&] { return show() + ", pseudo-inverse " + ms(y); });
        c.count("compared with the pseudo-inverse");
      }
    }
  });
  m.group("underdetermined", 12000, 500000, [](Case& c) {
    Rng& r = c.rng;
    const int M = (int)r.range(1, 6), N = M + (int)r.range(1, 5);
    const int rank = r.chance(0.65) ? M : (int)r.range(0, M);
    const double sc = std::pow(10.0, r.real(-2, 2));
    const Built bb = build(r, M, N, rank, sc, sc * std::pow(10.0, r.real(0, 2)), 0.0);
    const MX A = bb.a.cast<double>();
    const VX b = rhs(r, M, std::pow(10.0, r.real(-2, 2)));
    const ML a = A.cast<LD>();
    const double smax2 = rank ? bb.smax * bb.smax : 0, smin2 = rank == M ? bb.smin * bb.smin : 0;
    const bool damped = rank < M || r.chance(0.4);
    const double thr = damped ? (rank < M ? std::max(smax2, 1e-6) * std::pow(10.0, r.real(-4, 0)) : smin2 * r.real(1.5, 10)) : (r.chance(0.2) ? 0.0 : smin2 * r.real(0, 0.7));
    const double damp = damped ? std::max(thr, std::max(smax2, 1e-6) * 1e-6) * r.real(0.5, 3) : smax2 * r.real(0, 3);
    note(c, A), note(c, b), c.note(thr), c.note(damp);
    c.nontrivial(M > 1);
    c.count(damped ? (rank < M ? "damped, deficient" : "damped, full rank") : "undamped");
    const VX x = EH::UnderdeterminedSolver(A, b, thr, damp);
    auto show = [&] { return "A " + ms(A) + " b " + ms(b) + " threshold " + str(thr) + " damping " + str(damp) + " -> x " + ms(x); };
    if (!c.check(x.size() == N && x.allFinite(), "the solution is not a finite vector of the right length", show)) return;
    const VL xl = x.cast<LD>(), bl = b.cast<LD>();
    if (damped) {
      // x minimises |Ax-b|^2 + damping |x|^2
      ML l = a.transpose() * a + (LD)damp * ML::Identity(N, N);
      const double res = (double)(l * xl - a.transpose() * bl).norm(), mag = (double)(l.norm() * xl.norm() + a.norm() * bl.norm());
      c.check(res <= 1e-10 * mag, "the damped solution does not satisfy its normal equations", [&] { return show() + ", residual " + str(res) + " against " + str(mag); });
    } else {
      const double k = bb.smax / bb.smin;
      const double mag = (double)(a.norm() * xl.norm() + bl.norm());
      c.check((double)(a * xl - bl).norm() <= 1e-13 * k * k * mag, "the solution of an underdetermined system does not satisfy it", [&] { return show() + ", error " + str((double)(a * xl - bl).norm()); });
      const VL want = bb.pinv * bl;
      c.check((double)(xl - want).norm() <= 1e-12 * k * k * (double)(bl.norm() / bb.smin + want.norm()), "the solution is not the one of minimum norm", [&] { return show() + ", expected " + ms(want.cast<double>()); });
      const VX y = EH::Pinv(A, 0.3 * bb.smin) * b;
      c.check((x - y).norm() <= 1e-12 * k * k * (b.norm() / bb.smin + y.norm()), "the pseudo-inverse and the underdetermined solver disagree on a full-rank system", [&] { return show() + ", pseudo-inverse " + ms(y); });
    }
  });
  return m.finish();
}
