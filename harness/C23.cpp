// MON-variants: asan
// MON-rule: rotation vectors of length 0, 1e-90..1e-3, up to 3 rad and several turns, translations of length 0..1e3, durations of either sign, rigid and affine-mode transforms, Euler angles over several turns including gimbal lock; judged by long double closed forms and series; distinct by the arguments
#include "arc_utilities/eigen_helpers.hpp"
#include "eig.hpp"
#include "mon.hpp"
using namespace mon;
typedef long double LD;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<LD, 3, 1> W3;
typedef Eigen::Matrix<LD, 3, 3> M3;
namespace EH = EigenHelpers;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static M3 hat(const W3& w) {
  M3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
// exp of (v, w) as a 4x4 matrix
static Eigen::Matrix4d refexp(const V6& t, double dt) {
  const W3 v = t.head<3>().cast<LD>() * (LD)dt, w = t.tail<3>().cast<LD>() * (LD)dt;
  const LD th = sqrtl(w.dot(w));
  LD A, B, C;
  if (th < 1e-3L) {
    const LD q = th * th;
    A = 1 - q / 6 + q * q / 120, B = 0.5L - q / 24 + q * q / 720, C = 1 / 6.0L - q / 120 + q * q / 5040;
  } else
    A = sinl(th) / th, B = (1 - cosl(th)) / (th * th), C = (1 - A) / (th * th);
  const M3 K = hat(w), R = M3::Identity() + A * K + B * K * K, V = M3::Identity() + B * K + C * K * K;
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = R.cast<double>();
  m.block<3, 1>(0, 3) = (V * v).eval().cast<double>();
  return m;
}
static M3 axis(int k, double a) {
  const LD c = cosl(a), s = sinl(a);
  M3 m = M3::Identity();
  const int i = (k + 1) % 3, j = (k + 2) % 3;
  m(i, i) = c, m(i, j) = -s, m(j, i) = s, m(j, j) = c;
  return m;
}
static double euler(Rng& r) {
  switch (r.below(5)) {
    case 0: return (double)r.range(-4, 4) * M_PI_2;
    case 1: return (double)r.range(-4, 4) * M_PI_2 + 1e-7 * r.normal();
    case 2: return r.real(-20, 20);
    default: return r.real(-M_PI, M_PI);
  }
}
static void note(Case& c, const Eigen::MatrixXd& m) {
  for (int i = 0; i < m.size(); i++) c.note(m(i));
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("hats", 20000, 1000000, [](Case& c) {
    Rng& r = c.rng;
    const double s = std::pow(10.0, (double)r.range(-6, 6));
    const Eigen::Vector3d a = eg::vec(r, s), b = eg::vec(r, 3);
    note(c, a), note(c, b), c.nontrivial(true);
    auto say = [&] { return eg::show(a) + eg::show(b); };
    const Eigen::Matrix3d S = EH::Skew(a);
    c.check((S + S.transpose()).norm() == 0, "skew-antisymmetric", say);
    c.check((S * b - a.cross(b)).norm() <= 1e-14 * a.norm() * b.norm(), "skew-cross", say);
    c.check(EH::Unskew(S) == a, "unskew", say);
    // the symmetric part is ignored
    Eigen::Matrix3d sym;
    sym << 1, 2, 3, 2, 5, 6, 3, 6, 9;
    c.check((EH::Unskew(S + s * sym) - a).norm() <= 1e-13 * s * 10, "unskew-symmetric", say);
    V6 t;
    t << eg::vec(r, 3), a;
    const Eigen::Matrix4d H = EH::TwistHat(t);
    c.check(EH::TwistUnhat(H) == t, "twist-unhat", say);
    c.check((H.block<3, 3>(0, 0) - S).norm() == 0 && (H.block<3, 1>(0, 3) - t.head<3>()).norm() == 0 && H.row(3).norm() == 0, "twist-hat", say);
  });
  m.group("exponentials", 20000, 1000000, [](Case& c) {
    Rng& r = c.rng;
    Quiet q;
    V6 t;
    const double dt = r.chance(0.2) ? 1.0 : r.chance(0.1) ? 0.0 : r.real(-3, 3);
    double th;
    switch (r.below(7)) {
      case 0: th = 0; break;
      case 1: th = std::pow(10.0, r.real(-90, -3)); break;
      case 2: th = std::pow(10.0, r.real(-12, -3)); break;
      case 3: th = M_PI; break;
      case 4: th = r.real(0, 30); break;
      default: th = r.real(0, 3);
    }
    const Eigen::Vector3d v = r.chance(0.15) ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(eg::vec(r, r.chance(0.2) ? 1e3 : 1));
    const Eigen::Vector3d w = eg::unit(r) * th;
    t << v, w;
    note(c, t), c.note(dt), c.nontrivial(dt != 0 && t.norm() > 0);
    c.count(th == 0 ? "no rotation" : th < 1e-3 ? "small rotation" : th <= 3 ? "rotation" : "half turn or more");
    const Eigen::Isometry3d g = EH::ExpTwist(t, dt);
    const Eigen::Matrix4d want = refexp(t, dt);
    auto say = [&] { return str("dt ", dt, " twist ") + eg::show(t) + " got " + eg::show(g.matrix()) + " want " + eg::show(want); };
    c.check((g.linear() * g.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-13 && std::fabs(g.linear().determinant() - 1) < 1e-13, "exp-rigid", say);
    c.check(g(3, 0) == 0 && g(3, 1) == 0 && g(3, 2) == 0 && g(3, 3) == 1, "exp-row", say);
    c.check((g.matrix() - want).block<3, 3>(0, 0).norm() < 1e-13 * (1 + th * std::fabs(dt)), "exp-rotation", say);
    c.check((g.translation() - want.block<3, 1>(0, 3)).norm() <= 1e-7 * std::fabs(dt) * v.norm() + 1e-300, "exp-translation", say);
    if (th > 1e-3 && th <= 31) c.check((g.translation() - want.block<3, 1>(0, 3)).norm() <= 1e-11 * std::fabs(dt) * v.norm(), "exp-translation-fine", say);
    // one parameter group
    const double a = r.real(-1, 2);
    const Eigen::Isometry3d h = EH::ExpTwist(t, a * dt) * EH::ExpTwist(t, (1 - a) * dt);
    c.check((h.matrix() - g.matrix()).norm() <= 1e-6 * (1 + std::fabs(dt) * v.norm()), "exp-composes", say);
    if (th > 0 && w.norm() > 1e-50) {
      const Eigen::Matrix3d K = EH::Skew(w / w.norm());
      const Eigen::Matrix3d R = EH::ExpMatrixExact(K, th * dt);
      c.check((R - want.block<3, 3>(0, 0)).norm() < 1e-13 * (1 + th * std::fabs(dt)), "rodrigues", say);
    }
    // log is inverse on the principal domain
    if (th * std::fabs(dt) <= 3.0) {
      const V6 back = EH::TwistBetweenTransforms<Eigen::Isometry>(Eigen::Isometry3d::Identity(), g);
      c.check((back - t * dt).norm() <= 1e-6 * (1 + std::fabs(dt) * v.norm()), "log-exp", [&] { return say() + " log " + eg::show(back); });
      const Eigen::Isometry3d s = eg::iso(r);
      const V6 rel = EH::TwistBetweenTransforms<Eigen::Isometry>(s, s * g);
      c.check((rel - t * dt).norm() <= 1e-6 * (1 + std::fabs(dt) * v.norm()), "log-relative", [&] { return say() + " log " + eg::show(rel); });
      const Eigen::Affine3d sa(s.matrix()), ea((s * g).matrix());
      const V6 ra = EH::TwistBetweenTransforms<Eigen::Affine>(sa, ea);
      c.check((ra - rel).norm() <= 1e-6 * (1 + std::fabs(dt) * v.norm()), "log-affine", say);
    }
  });
  m.group("frames", 15000, 800000, [](Case& c) {
    Rng& r = c.rng;
    const Eigen::Isometry3d A = eg::iso(r), B = eg::iso(r);
    V6 t;
    t << eg::vec(r, 2), eg::vec(r, 2);
    note(c, A.matrix()), note(c, B.matrix()), note(c, t), c.nontrivial(true);
    auto say = [&] { return eg::show(A.matrix()) + eg::show(B.matrix()) + eg::show(t); };
    const Eigen::Matrix<double, 6, 6> a = EH::AdjointFromTransform<Eigen::Isometry>(A), b = EH::AdjointFromTransform<Eigen::Isometry>(B);
    // hat(Ad_A t) = A hat(t) A^-1
    const V6 moved = EH::TransformTwist<Eigen::Isometry>(A, t);
    const Eigen::Matrix4d want = A.matrix() * EH::TwistHat(t) * A.inverse().matrix();
    c.check((EH::TwistHat(moved) - want).norm() < 1e-12, "adjoint", say);
    c.check((a * t - moved).norm() < 1e-13, "adjoint-matrix", say);
    c.check((EH::AdjointFromTransform<Eigen::Isometry>(A * B) - a * b).norm() < 1e-11, "adjoint-composes", say);
    c.check((EH::AdjointFromTransform<Eigen::Isometry>(A.inverse()) * a - Eigen::Matrix<double, 6, 6>::Identity()).norm() < 1e-11, "adjoint-inverse", say);
    const Eigen::Affine3d Aa(A.matrix());
    c.check((EH::AdjointFromTransform<Eigen::Affine>(Aa) - a).norm() < 1e-11 && (EH::TransformTwist<Eigen::Affine>(Aa, t) - moved).norm() < 1e-11, "adjoint-affine", say);
    // exp of the moved twist is the conjugated motion
    c.check((EH::ExpTwist(moved, 0.7).matrix() - (A * EH::ExpTwist(t, 0.7) * A.inverse()).matrix()).norm() < 1e-9, "adjoint-exp", say);
    // vectors
    const Eigen::Quaterniond q(A.linear());
    const Eigen::Vector3d v = eg::vec(r, 5);
    c.check((EH::RotateVector(q, v) - A.linear() * v).norm() < 1e-13 * 10, "rotate", say);
    c.check((EH::RotateVectorReverse(q, v) - A.linear().transpose() * v).norm() < 1e-13 * 10, "rotate-reverse", say);
    EH::VectorVector3d pts;
    const size_t n = r.below(5);
    for (size_t i = 0; i < n; i++) pts.push_back(eg::vec(r, 5));
    const EH::VectorVector3d out = EH::TransformData(A, pts);
    c.check(out.size() == n, "transform-data-size", say);
    for (size_t i = 0; i < n; i++) c.check((out[i] - (A.linear() * pts[i] + A.translation())).norm() < 1e-13 * 20, "transform-data", say);
    EH::VectorIsometry3d its(n, B);
    for (const auto& x : EH::TransformData(A, its)) c.check((x.matrix() - A.matrix() * B.matrix()).norm() < 1e-12, "transform-poses", say);
  });
  m.group("euler", 20000, 1000000, [](Case& c) {
    Rng& r = c.rng;
    const double R = euler(r), P = euler(r), Y = euler(r);
    c.note(R), c.note(P), c.note(Y), c.nontrivial(true);
    const Eigen::Vector3d p = eg::vec(r, 4);
    auto say = [&] { return str("roll ", R, " pitch ", P, " yaw ", Y, " at ") + eg::show(p); };
    const Eigen::Matrix3d xyz = (axis(0, R) * axis(1, P) * axis(2, Y)).eval().cast<double>();
    const Eigen::Matrix3d zyx = (axis(2, Y) * axis(1, P) * axis(0, R)).eval().cast<double>();
    const double tol = 1e-13;
    const Eigen::Quaterniond q = EH::QuaternionFromRPY(R, P, Y), u = EH::QuaternionFromUrdfRPY(R, P, Y);
    c.check(std::fabs(q.norm() - 1) < tol && std::fabs(u.norm() - 1) < tol, "quaternion-unit", say);
    c.check((q.toRotationMatrix() - xyz).norm() < tol, "rpy", say);
    c.check((u.toRotationMatrix() - zyx).norm() < tol, "urdf-rpy", say);
    const Eigen::Isometry3d t1 = EH::TransformFromRPY(p.x(), p.y(), p.z(), R, P, Y), t2 = EH::TransformFromRPY(p, Eigen::Vector3d(R, P, Y));
    Eigen::VectorXd six(6);
    six << p, R, P, Y;
    const Eigen::Isometry3d t3 = EH::TransformFromRPY(six);
    for (const auto* t : {&t1, &t2, &t3}) {
      c.check((t->linear() - xyz).norm() < tol && t->translation() == p && t->matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "transform-from-rpy", say);
    }
    // Angles read back describe the same rotation.
    auto back = [&](const Eigen::Vector3d& e) { return (axis(0, e(0)) * axis(1, e(1)) * axis(2, e(2))).eval().cast<double>().eval(); };
    c.check((back(EH::EulerAnglesFromRotationMatrix(xyz)) - xyz).norm() < 1e-7, "euler-matrix", say);
    c.check((back(EH::EulerAnglesFromQuaternion(q)) - xyz).norm() < 1e-7, "euler-quaternion", say);
    c.check((back(EH::EulerAnglesFromIsometry3d(t1)) - xyz).norm() < 1e-7, "euler-transform", say);
    const Eigen::VectorXd k = EH::TransformToRPY(t1);
    c.check(k.size() == 6 && k.head<3>() == p && (EH::TransformFromRPY(k).matrix() - t1.matrix()).norm() < 1e-7, "transform-to-rpy", say);
    c.count(std::fabs(std::cos(P)) < 1e-6 ? "gimbal lock" : "regular");
  });
  return m.finish();
}
