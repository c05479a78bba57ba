// MON-variants: asan
// MON-rule: vectors of 1-6 dimensions over 20 decades, parallel, orthogonal, equal, nearly equal and zero ones; lines far from the origin; rotations up to a half turn; cones along axes and diagonals; planes with unit and other normals; point sets with ties, on a plane, on a line; judged by long double geometry; distinct by the arguments
#include "arc_utilities/eigen_helpers.hpp"
#include "eig.hpp"
#include "mon.hpp"
using namespace mon;
typedef long double LD;
typedef Eigen::VectorXd VX;
namespace EH = EigenHelpers;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static VX vecx(Rng& r, int n, double s) {
  VX v(n);
  for (int i = 0; i < n; i++) v(i) = r.chance(0.15) ? 0.0 : s * r.real(-1, 1);
  return v;
}
static double scale(Rng& r) { return r.chance(0.5) ? 1.0 : std::pow(10.0, (double)r.range(-10, 10)); }
static LD dot(const VX& a, const VX& b) {
  LD s = 0;
  for (int i = 0; i < a.size(); i++) s += (LD)a(i) * b(i);
  return s;
}
static double norm(const VX& a) { return (double)sqrtl(dot(a, a)); }
static double dist(const VX& a, const VX& b) {
  LD s = 0;
  for (int i = 0; i < a.size(); i++) s += ((LD)a(i) - b(i)) * ((LD)a(i) - b(i));
  return (double)sqrtl(s);
}
// accurate angle between two non-zero vectors
static double ang(const VX& a, const VX& b) {
  const LD na = sqrtl(dot(a, a)), nb = sqrtl(dot(b, b));
  LD p = 0, m = 0;
  for (int i = 0; i < a.size(); i++) {
    const LD x = (LD)a(i) / na, y = (LD)b(i) / nb;
    p += (x + y) * (x + y), m += (x - y) * (x - y);
  }
  return (double)(2 * atan2l(sqrtl(m), sqrtl(p)));
}
static void note(Case& c, const VX& v) {
  c.note(v.size());
  for (int i = 0; i < v.size(); i++) c.note(v(i));
}
template <typename F>
static bool refuses(F f) {
  try { f(); } catch (const std::invalid_argument&) { return true; }
  return false;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("projection", 25000, 1200000, [](Case& c) {
    Rng& r = c.rng;
    const int n = (int)r.range(1, 6);
    const double sb = scale(r), sv = scale(r);
    VX b = r.chance(0.05) ? VX(VX::Zero(n)) : vecx(r, n, sb);
    VX v = r.chance(0.1) ? VX(b * r.real(-2, 2)) : vecx(r, n, sv);
    note(c, b), note(c, v);
    c.nontrivial(n > 1 && norm(b) > 0);
    auto say = [&] { return eg::show(b) + " / " + eg::show(v); };
    const VX p = EH::VectorProjection(b, v), q = EH::VectorRejection(b, v);
    const double nv = norm(v), tol = 1e-13 * nv;
    if (!c.check(p.size() == n && q.size() == n, "size", say)) return;
    c.check(dist(p + q, v) <= tol, "sum", say);
    const LD bb = dot(b, b);
    if (bb == 0) {
      c.check(norm(p) == 0 && dist(q, v) == 0, "zero-base", say);
    } else {
      VX want(n);
      for (int i = 0; i < n; i++) want(i) = (double)(dot(b, v) / bb * b(i));
      c.check(dist(p, want) <= tol, "projection", say);
      c.check(fabsl(dot(q, b)) <= tol * norm(b), "orthogonal", say);
    }
    if (n == 3 && bb > 0) {
      const Eigen::Vector3d b3 = b, v3 = v;
      c.check(dist(EH::VectorProjection(b3, v3), p) <= tol, "fixed-size", say);
      const Eigen::Vector3d o = r.chance(0.15) ? Eigen::Vector3d(b3 * r.real(-2, 2)) : Eigen::Vector3d(vecx(r, 3, sb));
      note(c, VX(o));
      const LD no = sqrtl(dot(o, o));
      if (no > 0) {
        const double a = ang(b3, o);
        auto say3 = [&] { return say() + " / " + eg::show(o); };
        if (std::sin(a) > 1e-3) {
          const Eigen::Vector3d g = EH::VectorProjectionToPlane(b3, o, v3);
          c.check(std::fabs(g.dot(b3.cross(o).normalized())) <= 1e-11 * nv, "in-plane", say3);
          c.check(fabsl(dot(VX(v3 - g), b)) <= 1e-11 * nv * norm(b) && fabsl(dot(VX(v3 - g), VX(o))) <= 1e-11 * nv * norm(VX(o)), "plane-nearest", say3);
        } else if (std::sin(a) < 1e-9)
          c.check(refuses([&] { EH::VectorProjectionToPlane(b3, o, v3); }), "parallel-plane-accepted", say3);
      } else
        c.count("zero plane vector");
    }
    // norms
    const double cap = r.chance(0.3) ? nv : scale(r);
    if (cap > 0) {
      const VX k = EH::ClampNorm(v, cap);
      c.check(norm(k) <= cap * (1 + 1e-14), "clamp-bound", say);
      if (nv <= cap * (1 - 1e-14)) c.check(dist(k, v) == 0, "clamp-keeps", say);
      else if (nv > cap * (1 + 1e-14)) c.check(std::fabs(norm(k) - cap) <= 1e-14 * cap && dist(k * (nv / cap), v) <= 1e-13 * nv, "clamp-direction", say);
    }
    const VX u = EH::SafeNormal(v);
    if (nv > 1e-15) c.check(std::fabs(norm(u) - 1) <= 1e-14 && dist(u * nv, v) <= tol, "normal", say);
    else c.check(norm(u) <= 1.0 + 1e-14, "normal-tiny", say);
    const std::vector<double> sv2(v.data(), v.data() + n), sb2(b.data(), b.data() + n);
    c.check(std::fabs(EH::Norm(sv2) - nv) <= 1e-14 * nv && std::fabs(EH::SquaredNorm(sv2) - (double)dot(v, v)) <= 1e-14 * nv * nv, "norm", say);
    const double d = dist(b, v), td = 1e-14 * d + 1e-300;
    c.check(std::fabs(EH::Distance(b, v) - d) <= td && std::fabs(EH::SquaredDistance(b, v) - d * d) <= 1e-14 * d * d + 1e-300, "distance", say);
    c.check(std::fabs(EH::Distance(sb2, sv2) - d) <= td && std::fabs(EH::SquaredDistance(sb2, sv2) - d * d) <= 1e-14 * d * d + 1e-300, "std-distance", say);
    if (n == 2) c.check(std::fabs(EH::Distance(Eigen::Vector2d(b), Eigen::Vector2d(v)) - d) <= td, "distance2", say);
    if (n == 3) c.check(std::fabs(EH::Distance(Eigen::Vector3d(b), Eigen::Vector3d(v)) - d) <= td, "distance3", say);
    std::vector<double> longer = sv2;
    longer.push_back(0);
    c.check(std::isinf(EH::Distance(sb2, longer)) && std::isinf(EH::SquaredDistance(longer, sb2)), "std-distance-mismatch", say);
  });
  m.group("angles", 25000, 1200000, [](Case& c) {
    Rng& r = c.rng;
    Quiet q;
    const int n = (int)r.range(2, 5);
    const double s = scale(r);
    VX x = vecx(r, n, s), y = r.chance(0.2) ? VX(x * r.real(-2, 2)) : r.chance(0.2) ? VX(x + vecx(r, n, 1e-9 * s)) : vecx(r, n, scale(r));
    note(c, x), note(c, y);
    auto say = [&] { return eg::show(x) + " / " + eg::show(y); };
    const VX w = (vecx(r, n, 1).cwiseAbs().array() + 0.01).matrix();
    LD xw = 0, yw = 0, xy = 0;
    for (int i = 0; i < n; i++) xw += (LD)w(i) * x(i) * x(i), yw += (LD)w(i) * y(i) * y(i), xy += (LD)w(i) * x(i) * y(i);
    const double nx = (double)sqrtl(xw), ny = (double)sqrtl(yw);
    c.check(std::fabs(EH::WeightedDotProduct(x, y, w) - (double)xy) <= 1e-14 * nx * ny + 1e-300, "weighted-dot", say);
    c.check(std::fabs(EH::WeightedNorm(x, w) - nx) <= 1e-14 * nx, "weighted-norm", say);
    c.check(std::fabs(EH::WeightedSquaredNorm(x, w) - (double)xw) <= 1e-14 * (double)xw, "weighted-squared-norm", say);
    if (nx > 1e-100 && ny > 1e-100) {
      c.nontrivial(true);
      VX xs(n), ys(n);
      for (int i = 0; i < n; i++) xs(i) = x(i) * std::sqrt(w(i)), ys(i) = y(i) * std::sqrt(w(i));
      const double a = ang(xs, ys);
      const double g = EH::WeightedAngleBetweenVectors(x, y, w), cs = EH::WeightedCosineAngleBetweenVectors(x, y, w);
      c.check(std::fabs(g - a) <= 1e-7, "weighted-angle", [&] { return str(g, " want ", a, " ") + say(); });
      c.check(std::fabs(cs - std::cos(a)) <= 1e-13 && std::fabs(cs) <= 1, "weighted-cosine", [&] { return str(cs, " want ", std::cos(a), " ") + say(); });
      c.check(std::fabs(std::sin(a)) < 1e-4 || std::fabs(g - a) < 1e-10, "weighted-angle-fine", say);
    }
    // angle at b between a and c
    const VX b = vecx(r, n, r.chance(0.3) ? 1e3 * s : s), a = b + x, d = b + y;
    note(c, b);
    const VX va = a - b, vd = d - b;
    const double g = EH::AngleDefinedByPoints(a, b, d);
    auto say3 = [&] { return str("angle ", g, " at ") + eg::show(b) + " from " + eg::show(a) + " to " + eg::show(d); };
    c.check(g >= 0 && g <= M_PI, "angle-range", say3);
    if (norm(va) > 1e-150 && norm(vd) > 1e-150) c.check(std::fabs(g - ang(va, vd)) <= 1e-7, "angle", say3);
    // rotations
    const Eigen::Quaterniond q1 = eg::rot(r);
    Eigen::Quaterniond q2 = eg::rot(r);
    double want = -1;
    if (r.chance(0.6)) {
      want = r.chance(0.2) ? 0 : r.chance(0.2) ? M_PI : r.chance(0.3) ? r.real(0, 1e-7) : r.chance(0.3) ? M_PI - r.real(0, 1e-7) : r.real(0, M_PI);
      q2 = q1 * Eigen::Quaterniond(Eigen::AngleAxisd(want, eg::unit(r)));
      if (r.chance(0.5)) q2.coeffs() *= -1;
    }
    note(c, VX(q1.coeffs())), note(c, VX(q2.coeffs()));
    const double dq = EH::Distance(q1, q2);
    // rows built in different ways, so that rounding differs
    const Eigen::Matrix3d m1 = q1.toRotationMatrix();
    const Eigen::Matrix3d m2 = want == 0 ? m1 : q2.toRotationMatrix();
    const double dm = EH::Distance(m1, m2), dr = EH::Distance(m2, m1);
    auto sayq = [&] { return str("quaternions ", dq, " matrices ", dm, ", ", dr, " built ", want, " ") + eg::show(m1) + eg::show(m2); };
    c.check(dq >= 0 && dq <= M_PI && dm >= 0 && dm <= M_PI && dr >= 0 && dr <= M_PI, "rotation-distance-range", sayq);
    c.check(std::fabs(dq - dm) < 2e-7 && std::fabs(dm - dr) < 2e-7, "rotation-distance-agree", sayq);
    if (want >= 0) c.check(std::fabs(dq - want) < 1e-7, "rotation-distance", sayq);
    c.check(std::fabs(dq - ang(VX(q1.coeffs()), VX(q1.dot(q2) < 0 ? -q2.coeffs() : q2.coeffs())) * 2) < 1e-7, "rotation-distance-ref", sayq);
    Eigen::Isometry3d t1 = Eigen::Isometry3d::Identity(), t2 = t1;
    t1.linear() = m1, t2.linear() = m2, t1.translation() = eg::vec(r, 3), t2.translation() = eg::vec(r, 3);
    const double al = r.chance(0.2) ? 0 : r.chance(0.2) ? 1 : r.real(), di = EH::Distance(t1, t2, al);
    c.check(std::fabs(di - ((1 - al) * (t1.translation() - t2.translation()).norm() + al * dq)) < 3e-7, "pose-distance", sayq);
    c.check(std::fabs(EH::Distance(t1, t2) - EH::Distance(t1, t2, 0.5)) < 1e-15, "pose-distance-default", sayq);
  });
  m.group("lines-and-cones", 25000, 1200000, [](Case& c) {
    Rng& r = c.rng;
    Quiet q;
    const double far = r.chance(0.4) ? std::pow(10.0, (double)r.range(0, 7)) : 1.0;
    const Eigen::Vector3d p = eg::vec(r, far), u = r.chance(0.2) ? Eigen::Vector3d(Eigen::Vector3d::Unit((int)r.below(3)) * (r.chance(0.5) ? 1 : -1)) : eg::unit(r);
    const double near = r.chance(0.3) ? std::pow(10.0, (double)r.range(-9, 0)) : far;
    Eigen::Vector3d x = p + eg::vec(r, near);
    if (r.chance(0.15)) x = p + u * r.real(-near, near);
    if (r.chance(0.05)) x = p;
    const Eigen::Vector3d uu = r.chance(0.2) ? Eigen::Vector3d(u * r.real(0.5, 4)) : u;
    note(c, VX(p)), note(c, VX(uu)), note(c, VX(x));
    c.nontrivial(true);
    const auto g = EH::DistanceToLine(p, uu, x);
    auto say = [&] { return str("(", g.first, ", ", g.second, ") line ") + eg::show(p) + eg::show(uu) + " point " + eg::show(x); };
    LD dl = 0, along = 0, nu = sqrtl(dot(uu, uu));
    for (int i = 0; i < 3; i++) along += ((LD)x(i) - p(i)) * uu(i) / nu;
    for (int i = 0; i < 3; i++) {
      const LD k = (LD)x(i) - p(i) - along * uu(i) / nu;
      dl += k * k;
    }
    const double size = (x - p).norm(), tol = 4e-15 * size + 4e-16 * far;
    c.check(std::fabs(g.first - (double)sqrtl(dl)) <= tol, "line-distance", say);
    c.check(std::fabs(g.second - (double)along) <= tol, "line-displacement", say);
    // cone
    Eigen::Vector3d k = eg::unit(r);
    switch (r.below(5)) {
      case 0: k = Eigen::Vector3d(1, 1, 1) * (r.chance(0.5) ? 1 : -1); break;
      case 1: k = Eigen::Vector3d(1, 1, 1) + eg::vec(r, std::pow(10.0, (double)r.range(-12, -1))); break;
      case 2: k = Eigen::Vector3d(r.chance(0.5) ? 1 : -1, r.chance(0.5) ? 1 : -1, r.chance(0.5) ? 1 : -1); break;
      case 3: k = Eigen::Vector3d::Unit((int)r.below(3)) * (r.chance(0.5) ? 1 : -1); break;
    }
    k.normalize();
    const double half = r.real(0.02, 1.5);
    note(c, VX(k)), c.note(half);
    const EH::VectorVector3d nrm = EH::ConvertConeToPyramid(k, std::cos(half));
    auto sayk = [&] {
      std::string s = str("cone ", half, " ") + eg::show(k);
      for (const auto& z : nrm) s += " " + eg::show(z);
      return s;
    };
    c.check(nrm.size() == 4, "pyramid-sides", sayk);
    for (const auto& z : nrm) c.check(std::fabs(z.norm() - 1) < 1e-12 && z.dot(k) < 0, "pyramid-normal", sayk);
    // Corner rays lie on the cone, every ray inside the pyramid lies inside the cone, and the axis is strictly inside.
    for (int i = 0; i < 4; i++) {
      Eigen::Vector3d ray = nrm[(size_t)i].cross(nrm[(size_t)((i + 1) % 4)]).normalized();
      if (ray.dot(k) < 0) ray = -ray;
      c.check(std::fabs(ang(ray, k) - half) < 1e-6, "pyramid-corner", sayk);
      for (const auto& z : nrm) c.check(z.dot(ray) < 1e-7, "pyramid-corner-side", sayk);
    }
    for (int t = 0; t < 6; t++) {
      const Eigen::Vector3d ray = (k + eg::unit(r) * r.real(0, 2)).normalized();
      bool in = true;
      for (const auto& z : nrm) in &= z.dot(ray) <= 0;
      if (in) c.check(ang(ray, k) <= half + 1e-7, "pyramid-inside-cone", sayk), c.count("rays inside pyramid");
    }
  });
  m.group("planes", 15000, 800000, [](Case& c) {
    Rng& r = c.rng;
    const int n = (int)r.range(1, 5);
    const double s = scale(r);
    const VX o = vecx(r, n, s), p = r.chance(0.05) ? o : vecx(r, n, s);
    VX k;
    do k = vecx(r, n, 1); while (norm(k) < 1e-2);
    if (r.chance(0.6)) k /= norm(k);
    note(c, o), note(c, p), note(c, k);
    c.nontrivial(n > 1);
    const EH::Hyperplane h(o, k);
    const VX v = p - o;
    const LD kk = dot(k, k);
    LD h0 = 0;
    for (int i = 0; i < n; i++) h0 += ((LD)p(i) - o(i)) * k(i);
    const double height = (double)(h0 / sqrtl(kk)), tol = 1e-14 * (norm(o) + norm(p));
    auto say = [&] { return "plane " + eg::show(o) + eg::show(k) + " point " + eg::show(p); };
    c.check(h.GetDimensionality() == (size_t)n && h.GetOrigin() == o && h.GetNormal() == k, "plane-accessors", say);
    c.check(std::fabs(h.GetDistanceToPlane(p) - std::fabs(height)) <= tol, "plane-distance", say);
    c.check(std::fabs(h.GetSquaredDistanceToPlane(p) - height * height) <= 4 * tol * (std::fabs(height) + tol), "plane-squared-distance", say);
    c.check(std::fabs(h.GetRawDotProduct(p) - (double)h0) <= tol * norm(k), "plane-raw-dot", say);
    const double nv = norm(v);
    if (nv > 1e-9 * s) c.check(nv <= 1e-15 || std::fabs(h.GetNormedDotProduct(p) - (double)(dot(v, k) / nv)) <= 1e-13 * norm(k), "plane-normed-dot", say);
    const VX f = h.ProjectPointOntoPlane(p);
    c.check(f.size() == n && h.GetDistanceToPlane(f) <= 4 * tol, "plane-point", say);
    c.check(std::fabs(dist(p, f) - std::fabs(height)) <= 4 * tol, "plane-point-nearest", say);
    const VX w = vecx(r, n, s), wp = h.ProjectVectorOntoPlane(w), wr = h.RejectVectorOntoPlane(w);
    c.check(fabsl(dot(wp, k)) <= 1e-13 * norm(w) * norm(k), "plane-vector-in", say);
    c.check(dist(wp + wr, w) <= 1e-13 * norm(w), "plane-vector-sum", say);
    // fit
    const int d = (int)r.range(2, 4);
    const int np = (int)r.range(1, 12);
    std::vector<VX> pts;
    VX axis;
    do axis = vecx(r, d, 1); while (norm(axis) < 0.1);
    axis /= norm(axis);
    const VX base = vecx(r, d, s);
    const int kind = (int)r.below(4);
    for (int i = 0; i < np; i++) {
      VX z = vecx(r, d, s);
      if (kind <= 1) z -= axis * axis.dot(z);
      if (kind == 1) z += axis * (1e-3 * s * r.real(-1, 1));
      if (kind == 2) z = VX::Unit(d, 0) * s * r.real(-1, 1);
      pts.push_back(base + z);
      note(c, pts.back());
    }
    const EH::Hyperplane fit = EH::FitPlaneToPoints(pts);
    VX mean = VX::Zero(d);
    for (int j = 0; j < d; j++) {
      LD t = 0;
      for (const auto& z : pts) t += z(j);
      mean(j) = (double)(t / np);
    }
    auto sayf = [&] {
      std::string t = str("fit of ", np, " points, kind ", kind, ":");
      for (const auto& z : pts) t += " " + eg::show(z);
      return t + " is " + eg::show(fit.GetOrigin()) + eg::show(fit.GetNormal());
    };
    c.check(fit.GetDimensionality() == (size_t)d && dist(fit.GetOrigin(), mean) <= 1e-13 * 3 * s, "fit-centroid", sayf);
    c.check(std::fabs(norm(fit.GetNormal()) - 1) < 1e-9, "fit-normal", sayf);
    auto cost = [&](const VX& nn) {
      LD t = 0;
      for (const auto& z : pts) {
        LD e = 0;
        for (int j = 0; j < d; j++) e += ((LD)z(j) - mean(j)) * nn(j);
        t += e * e;
      }
      return (double)t;
    };
    const double mine = cost(fit.GetNormal());
    auto worse = [&](VX nn) {
      const double l = norm(nn);
      if (l < 1e-6) return;
      c.check(mine <= cost(nn / l) + 1e-12 * s * s * np, "fit-optimal", sayf);
    };
    worse(axis);
    for (int j = 0; j < d; j++) worse(VX::Unit(d, j));
    for (int t = 0; t < 8; t++) worse(fit.GetNormal() + vecx(r, d, std::pow(10.0, (double)r.range(-4, 0))));
    c.count(str("fit kind ", kind));
  });
  m.group("point-sets", 12000, 600000, [](Case& c) {
    Rng& r = c.rng;
    const int d = (int)r.range(1, 4), n = (int)r.range(1, 9), k = (int)r.range(1, 6);
    const bool grid = r.chance(0.5);
    auto draw = [&](int cols) {
      Eigen::MatrixXd a(d, cols);
      for (int i = 0; i < d; i++)
        for (int j = 0; j < cols; j++) a(i, j) = grid ? (double)r.range(-2, 2) : r.real(-5, 5);
      return a;
    };
    const Eigen::MatrixXd A = draw(n), B = draw(k);
    const VX p = draw(1);
    for (int i = 0; i < A.size(); i++) c.note(A(i));
    for (int i = 0; i < B.size(); i++) c.note(B(i));
    note(c, p);
    c.nontrivial(n > 1);
    auto say = [&] { return eg::show(A) + eg::show(B) + eg::show(p); };
    const Eigen::MatrixXd D2 = EH::CalculateSquaredDistanceMatrix(A), D = EH::CalculateDistanceMatrix(A);
    c.check(D.rows() == n && D.cols() == n && D2.rows() == n && D2.cols() == n, "matrix-size", say);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        const double w = dist(A.col(i), A.col(j));
        c.check(std::fabs(D(i, j) - w) <= 1e-14 * w && std::fabs(D2(i, j) - w * w) <= 1e-14 * w * w, "matrix-entry", say);
      }
    const VX s2 = EH::CalculateSquaredDistanceToSet(A, p), s1 = EH::CalculateDistanceToSet(A, p);
    c.check(s1.size() == n && s2.size() == n, "to-set-size", say);
    const auto near = EH::ClosestPointInSet(A, p);
    c.check(near >= 0 && near < n, "closest-range", say);
    for (int i = 0; i < n; i++) {
      const double w = dist(A.col(i), p);
      c.check(std::fabs(s1(i) - w) <= 1e-14 * w && std::fabs(s2(i) - w * w) <= 1e-14 * w * w, "to-set", say);
      c.check(dist(A.col(near), p) <= w * (1 + 1e-14), "closest", say);
    }
    const Eigen::MatrixXd X = EH::SquaredDistancesBetweenPointSets(A, B);
    c.check(X.rows() == n && X.cols() == k, "between-size", say);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++) {
        const double w = dist(A.col(i), B.col(j));
        c.check(std::fabs(X(i, j) - w * w) <= 1e-14 * w * w, "between", say);
      }
    const Eigen::Matrix<double, 3, Eigen::Dynamic> A3 = Eigen::Matrix<double, 3, Eigen::Dynamic>::Random(3, n);
    const Eigen::Matrix<double, 3, 4> B3 = Eigen::Matrix<double, 3, 4>::Random();
    const Eigen::MatrixXd X3 = EH::SquaredDistancesBetweenPointSets(B3, A3);
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < n; j++) c.check(X3.rows() == 4 && X3.cols() == n && std::fabs(X3(i, j) - (B3.col(i) - A3.col(j)).squaredNorm()) < 1e-14, "between-fixed", say);
    // sequences of points
    EH::VectorVector3d path;
    const int len = (int)r.below(8);
    for (int i = 0; i < len; i++) path.push_back(i && r.chance(0.2) ? path.back() : Eigen::Vector3d(eg::vec(r, 3)));
    const std::vector<double> each = EH::CalculateIndividualDistances(path), sum = EH::CalculateCumulativeDistances(path);
    c.check(each.size() == path.size() && sum.size() == path.size(), "path-size", say);
    double t = 0;
    for (int i = 0; i < len; i++) {
      const double step = i ? dist(path[(size_t)i], path[(size_t)i - 1]) : 0;
      t += step;
      c.check(std::fabs(each[(size_t)i] - step) < 1e-13 && std::fabs(sum[(size_t)i] - t) < 1e-13, "path-distance", str(i));
    }
    c.check(std::fabs(EH::CalculateTotalDistance(path) - t) < 1e-13, "path-total", say);
    // closeness predicates
    const double th = r.chance(0.2) ? 0 : r.real(0, 1);
    const Eigen::Vector3d v1 = eg::vec(r, 2), v2 = r.chance(0.3) ? v1 : r.chance(0.3) ? Eigen::Vector3d(v1 + Eigen::Vector3d::Unit((int)r.below(3)) * (r.chance(0.5) ? th * 1.01 + 1e-9 : -th * 0.99)) : Eigen::Vector3d(v1 + eg::vec(r, 1));
    const double mx = (v1 - v2).cwiseAbs().maxCoeff(), m2 = (v1 - v2).head(2).cwiseAbs().maxCoeff();
    if (std::fabs(mx - th) > 1e-12 || th == 0) {
      c.check(EH::CloseEnough(v1, v2, th) == (mx <= th) && EH::CloseEnough(v2, v1, -th) == (mx <= th), "close3", [&] { return eg::show(v1) + eg::show(v2) + str(th); });
      EH::VectorVector3d l1 = path, l2 = path;
      l1.push_back(v1), l2.push_back(v2);
      c.check(EH::CloseEnough(l1, l2, th) == (mx <= th) && !EH::CloseEnough(l1, path, 1e9), "close-list", [&] { return eg::show(v1) + eg::show(v2) + str(th); });
      c.check(EH::CloseEnough(std::vector<double>(v1.data(), v1.data() + 3), std::vector<double>(v2.data(), v2.data() + 3), th) == (mx <= th), "close-std", [&] { return eg::show(v1) + eg::show(v2) + str(th); });
    }
    if (std::fabs(m2 - th) > 1e-12 || th == 0) c.check(EH::CloseEnough(Eigen::Vector2d(v1.head(2)), Eigen::Vector2d(v2.head(2)), th) == (m2 <= th), "close2", [&] { return eg::show(v1) + eg::show(v2) + str(th); });
    c.check(EH::Equal3d(v1, v2) == (mx == 0), "equal3", [&] { return eg::show(v1) + eg::show(v2); });
    Eigen::Vector4d e4(v1(0), v1(1), v1(2), r.real()), f4 = e4;
    if (r.chance(0.7)) f4((int)r.below(4)) += 1e-9;
    c.check(EH::Equal4d(e4, f4) == ((e4 - f4).norm() == 0), "equal4", [&] { return eg::show(e4) + eg::show(f4); });
  });
  return m.finish();
}
