// MON-variants: asan
// MON-flags: -I$ROOT/stubs/cpp -I$REPO/include/arc_utilities
// MON-extra: C34_second.cc
// MON-rule: values with full mantissas, signed zeros, infinities, denormals and NaN for the field-by-field conversions; unit quaternions of every sign and near-half-turn rotations for the pose conversions; list lengths 0..40; distinct by the converted values
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/eigen_helpers_conversions.hpp"
#include "arc_utilities/eigen_ros_conversions.hpp"
#include "arc_utilities/eigen_std_conversions.hpp"
#include "arc_utilities/geometry_msgs_builders.hpp"
#include "arc_utilities/shape_msgs_builders.hpp"
#include "arc_utilities/eigen_transforms.hpp"
#include "mon.hpp"
using namespace mon;
using namespace Eigen;
namespace EC = EigenHelpersConversions;
namespace EH = EigenHelpers;
namespace gm = geometry_msgs;
namespace rmb = arc_utilities::rmb;
std::vector<double> secondConvert(const Eigen::VectorXd& v);
shape_msgs::MeshTriangle secondTriangle(uint32_t a, uint32_t b, uint32_t c);
std::pair<Pose, Pose> secondTransform(const Pose& t, const std::pair<Translation3d, Translation3d>& p);

static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <typename T>
static bool same3(const T& m, double x, double y, double z) { return same(m.x, x) && same(m.y, y) && same(m.z, z); }
static bool sameV(const Vector3d& v, double x, double y, double z) { return same(v[0], x) && same(v[1], y) && same(v[2], z); }
static double wild(Rng& r) {
  switch (r.below(12)) {
    case 0: return r.pick(std::vector<double>{0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308, -1.0});
    case 1: return (double)r.range(-3, 3);
    case 2: return r.normal() * 1e-200;
    case 3: return r.normal() * 1e200;
    default: return r.normal();
  }
}
static Quaterniond unit(Rng& r) {
  Quaterniond q;
  do q = Quaterniond(r.normal() * (r.chance(0.3) ? 1e-3 : 1), r.normal(), r.normal() * (r.chance(0.2) ? 0 : 1), r.normal() * (r.chance(0.2) ? 0 : 1));
  while (q.norm() < 1e-3);
  q.normalize();
  if (r.chance(0.05)) q = Quaterniond(r.chance(0.5) ? 1 : -1, 0, 0, 0);
  return q;
}
static Matrix3d rotOf(const Quaterniond& q) {  // independent of Eigen's conversion
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Matrix3d m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
struct P {
  Vector3d t;
  Quaterniond q;
  P(Rng& r) : t(r.normal() * 10, r.normal(), r.chance(0.1) ? 0 : r.normal() * 1e3), q(unit(r)) {}
  gm::Pose pose() const {
    gm::Pose p;
    p.position.x = t[0], p.position.y = t[1], p.position.z = t[2];
    p.orientation.x = q.x(), p.orientation.y = q.y(), p.orientation.z = q.z(), p.orientation.w = q.w();
    return p;
  }
  gm::Transform tf() const {
    gm::Transform p;
    p.translation.x = t[0], p.translation.y = t[1], p.translation.z = t[2];
    p.rotation.x = q.x(), p.rotation.y = q.y(), p.rotation.z = q.z(), p.rotation.w = q.w();
    return p;
  }
  Isometry3d iso() const {
    Isometry3d i = Isometry3d::Identity();
    i.linear() = rotOf(q);
    i.translation() = t;
    return i;
  }
  std::string s() const { return "t=(" + str(t[0]) + "," + str(t[1]) + "," + str(t[2]) + ") q=(" + str(q.w()) + "," + str(q.x()) + "," + str(q.y()) + "," + str(q.z()) + ")"; }
};
template <typename M>
static bool is(const M& m, const P& p, double tol = 1e-12) {
  const Matrix4d a = m.matrix().template cast<double>(), b = p.iso().matrix();
  return (a.topLeftCorner(3, 3) - b.topLeftCorner(3, 3)).cwiseAbs().maxCoeff() <= tol && (a.topRightCorner(3, 1) - b.topRightCorner(3, 1)).cwiseAbs().maxCoeff() <= tol * (1 + p.t.norm()) && a(3, 0) == 0 && a(3, 1) == 0 && a(3, 2) == 0 && a(3, 3) == 1;
}
template <typename Q>
static bool isq(const Q& q, const P& p, double tol = 1e-9) {
  const double s = q.w * p.q.w() + q.x * p.q.x() + q.y * p.q.y() + q.z * p.q.z() < 0 ? -1 : 1;
  return std::abs(s * q.w - p.q.w()) <= tol && std::abs(s * q.x - p.q.x()) <= tol && std::abs(s * q.y - p.q.y()) <= tol && std::abs(s * q.z - p.q.z()) <= tol;
}
static bool isp(const gm::Pose& m, const P& p, double tol = 1e-9) { return (Vector3d(m.position.x, m.position.y, m.position.z) - p.t).norm() <= tol * (1 + p.t.norm()) && isq(m.orientation, p, tol); }
static bool ist(const gm::Transform& m, const P& p) { return (Vector3d(m.translation.x, m.translation.y, m.translation.z) - p.t).norm() <= 1e-12 * (1 + p.t.norm()) && isq(m.rotation, p); }

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("fields", 30000, 600000, [](Case& c) {
    c.nontrivial(true);
    const double x = wild(c.rng), y = wild(c.rng), z = wild(c.rng), w = wild(c.rng);
    const std::string s = str(x) + "," + str(y) + "," + str(z) + "," + str(w);
    c.note(s);
    const Vector3d v(x, y, z);
    gm::Point p;
    p.x = x, p.y = y, p.z = z;
    gm::Vector3 g;
    g.x = x, g.y = y, g.z = z;
    c.check(sameV(EC::GeometryPointToEigenVector3d(p), x, y, z) && sameV(EC::GeometryVector3ToEigenVector3d(g), x, y, z) && sameV(ConvertTo<Vector3d>(p), x, y, z) && sameV(ConvertTo<Vector3d>(g), x, y, z), "to_eigen", s);
    c.check(same3(EC::EigenVector3dToGeometryPoint(v), x, y, z) && same3(EC::EigenVector3dToGeometryVector3(v), x, y, z) && same3(ConvertTo<gm::Point>(v), x, y, z) && same3(ConvertTo<gm::Vector3>(v), x, y, z), "to_message", s);
    const Vector4d hp = EC::GeometryPointToEigenVector4d(p), hv = EC::GeometryVector3ToEigenVector4d(g);
    c.check(sameV(hp.head<3>(), x, y, z) && hp[3] == 1.0 && sameV(hv.head<3>(), x, y, z) && hv[3] == 0.0, "homogeneous", s);
    c.check(same3(EC::EigenVector4dToGeometryPoint(Vector4d(x, y, z, w)), x, y, z) && same3(EC::EigenVector4dToGeometryVector3(Vector4d(x, y, z, w)), x, y, z), "homogeneous", s);
    const gm::PointStamped ps = EC::EigenVector3dToGeometryPointStamped(v, "frame" + s);
    c.check(same3(ps.point, x, y, z) && ps.header.frame_id == "frame" + s && ps.header.seq == 0 && ps.header.stamp.sec == 0, "stamped", s);
    gm::Quaternion q;
    q.x = x, q.y = y, q.z = z, q.w = w;
    auto qs = [&](const Quaterniond& e) { return same(e.x(), x) && same(e.y(), y) && same(e.z(), z) && same(e.w(), w); };
    auto ms = [&](const gm::Quaternion& e) { return same(e.x, x) && same(e.y, y) && same(e.z, z) && same(e.w, w); };
    c.check(qs(EC::GeometryQuaternionToEigenQuaterniond(q)) && qs(ConvertTo<Quaterniond>(q)), "quaternion", s);
    c.check(ms(EC::EigenQuaterniondToGeometryQuaternion(Quaterniond(w, x, y, z))) && ms(ConvertTo<gm::Quaternion>(Quaterniond(w, x, y, z))), "quaternion", s);
    const std::vector<double> qv = EH::EigenQuaterniondToStdVectorDouble(Quaterniond(w, x, y, z));
    c.check(qv.size() == 4 && same(qv[0], x) && same(qv[1], y) && same(qv[2], z) && same(qv[3], w) && qs(EH::StdVectorDoubleToEigenQuaterniond(qv)), "quaternion", s);
    const Vector3f f((float)c.rng.normal(), (float)c.rng.normal(), (float)c.rng.normal());
    c.check(same3(ConvertTo<gm::Point>(f), f.x(), f.y(), f.z()) && same3(ConvertTo<gm::Vector3>(f), f.x(), f.y(), f.z()), "float", s);
    c.check(ConvertTo<Vector3f>(ConvertTo<gm::Point>(f)) == f && ConvertTo<Vector3f>(ConvertTo<gm::Vector3>(f)) == f, "float", s);
    const Quaternionf qf(f.x(), f.y(), f.z(), (float)c.rng.normal());
    c.check(ConvertTo<Quaternionf>(ConvertTo<gm::Quaternion>(qf)).coeffs() == qf.coeffs(), "float", s);
    gm::Wrench wr;
    wr.force = g, wr.torque.x = w, wr.torque.y = x, wr.torque.z = y;
    auto we = EC::GeometryWrenchToEigenPairVector(wr);
    c.check(sameV(we.first, x, y, z) && sameV(we.second, w, x, y), "wrench", s);
    // builders
    c.check(same3(rmb::MakePoint(x, y, z), x, y, z) && same3(rmb::MakeVector3(x, y, z), x, y, z) && ms(rmb::MakeQuaternion(x, y, z, w)), "builders", s);
    auto okT = [&](const gm::Transform& t) { return same3(t.translation, x, y, z) && ms(t.rotation); };
    auto okP = [&](const gm::Pose& t) { return same3(t.position, x, y, z) && ms(t.orientation); };
    c.check(okT(rmb::MakeTransform(g, q)) && okT(rmb::MakeTransform(p, q)) && okP(rmb::MakePose(p, q)) && okP(rmb::MakePose(g, q)), "builders", s);
    const uint32_t a = (uint32_t)c.rng.u64(), b = (uint32_t)c.rng.u64(), d = (uint32_t)c.rng.u64();
    auto t1 = rmb::MakeMeshTriangle(a, b, d), t2 = secondTriangle(a, b, d);
    c.check(t1.vertex_indices[0] == a && t1.vertex_indices[1] == b && t1.vertex_indices[2] == d && t2.vertex_indices == t1.vertex_indices, "builders", "mesh triangle");
    c.count("values", 4);
  });
  m.group("poses", 20000, 400000, [](Case& c) {
    c.nontrivial(true);
    const P p(c.rng);
    const std::string s = p.s();
    c.note(s);
    c.check(is(EC::GeometryPoseToEigenIsometry3d(p.pose()), p) && is(EC::GeometryPoseToEigenAffine3d(p.pose()), p) && is(ConvertTo<Isometry3d>(p.pose()), p) && is(ConvertTo<Affine3d>(p.pose()), p), "pose_to_eigen", s);
    c.check(is(EC::GeometryTransformToEigenIsometry3d(p.tf()), p) && is(EC::GeometryTransformToEigenAffine3d(p.tf()), p) && is(ConvertTo<Isometry3d>(p.tf()), p) && is(ConvertTo<Affine3d>(p.tf()), p), "transform_to_eigen", s);
    const Isometry3d i = p.iso();
    const Affine3d a(i);
    c.check(isp(EC::EigenIsometry3dToGeometryPose(i), p) && isp(EC::EigenAffine3dToGeometryPose(a), p), "eigen_to_pose", s);
    c.check(isp(EC::EigenAffine3fToGeometryPose(a.cast<float>()), p, 2e-3), "float_to_pose", s);
    c.check(ist(EC::EigenIsometry3dToGeometryTransform(i), p) && ist(EC::EigenAffine3dToGeometryTransform(a), p) && ist(ConvertTo<gm::Transform>(i), p) && ist(ConvertTo<gm::Transform>(a), p), "eigen_to_transform", s);
    auto sp = EC::EigenIsometry3dToGeometryPoseStamped(i, "f1"), sa = EC::EigenAffine3dToGeometryPoseStamped(a, "f2");
    auto st = EC::EigenIsometry3dToGeometryTransformStamped(i, "f3");
    c.check(sp.header.frame_id == "f1" && isp(sp.pose, p) && sa.header.frame_id == "f2" && isp(sa.pose, p) && st.header.frame_id == "f3" && st.child_frame_id.empty() && ist(st.transform, p), "stamped_pose", s);
    c.check(isq(ConvertTo<gm::Quaternion>(rotOf(p.q)), p) && isq(ConvertTo<gm::Quaternion>(Matrix3f(rotOf(p.q).cast<float>())), p, 2e-3), "rotation_to_quaternion", s);
    const gm::Transform tt = ConvertTo<gm::Transform>(Translation3d(p.t));
    c.check(same3(tt.translation, p.t[0], p.t[1], p.t[2]) && tt.rotation.x == 0 && tt.rotation.y == 0 && tt.rotation.z == 0 && tt.rotation.w == 1, "translation", s);
    // rigid motions applied to pairs and lists
    const P u(c.rng), v(c.rng);
    const Matrix4d mu = i.matrix() * u.iso().matrix(), mv = i.matrix() * v.iso().matrix();
    auto cl = [&](const Matrix4d& g, const Matrix4d& w) { return (g - w).cwiseAbs().maxCoeff() <= 1e-9 * (1 + w.cwiseAbs().maxCoeff()); };
    const Pose pose(i);
    auto r = ::Transform(pose, std::make_pair(Pose(u.iso()), Vector3d(v.t)));
    c.check(cl(r.first.matrix(), mu) && (r.second - (rotOf(p.q) * v.t + p.t)).norm() <= 1e-9 * (1 + v.t.norm() + p.t.norm()), "apply_pair", s);
    for (auto rr : {::Transform(pose, std::make_pair(Translation3d(u.t), Translation3d(v.t))), secondTransform(pose, std::make_pair(Translation3d(u.t), Translation3d(v.t)))}) {
      Matrix4d ut = Matrix4d::Identity(), vt = ut;
      ut.topRightCorner(3, 1) = u.t, vt.topRightCorner(3, 1) = v.t;
      c.check(cl(rr.first.matrix(), i.matrix() * ut) && cl(rr.second.matrix(), i.matrix() * vt), "apply_pair", s);
    }
    PoseSequence seq;
    PointSequence pts;
    for (size_t k = 0, n = c.rng.below(5); k < n; k++) {
      const P e(c.rng);
      seq.push_back(e.iso());
      pts.push_back(e.t);
    }
    auto sq = ::Transform(pose, seq);
    auto pq = ::Transform(pose, pts);
    c.check(sq.size() == seq.size() && pq.size() == pts.size(), "apply_list", "length");
    for (size_t k = 0; k < seq.size(); k++) c.check(cl(sq[k].matrix(), i.matrix() * seq[k].matrix()) && (pq[k] - (rotOf(p.q) * pts[k] + p.t)).norm() <= 1e-9 * (1 + pts[k].norm() + p.t.norm()), "apply_list", [&] { return s + " element " + std::to_string(k); });
    c.count("poses", 3 + seq.size());
  });
  m.group("lists", 4000, 100000, [](Case& c) {
    const size_t n = c.rng.chance(0.1) ? 0 : c.rng.below(41);
    c.nontrivial(n > 1);
    std::vector<double> flat(3 * n);
    for (auto& f : flat) f = wild(c.rng);
    c.note(std::to_string(n) + (n ? str(flat[0]) + str(flat.back()) : ""));
    std::vector<gm::Point> gp(n);
    std::vector<gm::Vector3> gv(n);
    EH::VectorVector3d ev(n);
    Matrix3Xd em(3, n);
    for (size_t i = 0; i < n; i++) {
      const double *f = &flat[3 * i];
      gp[i].x = f[0], gp[i].y = f[1], gp[i].z = f[2];
      gv[i].x = f[0], gv[i].y = f[1], gv[i].z = f[2];
      ev[i] = Vector3d(f[0], f[1], f[2]);
      em.col(i) = ev[i];
    }
    auto msg = [&](const auto& v, const char* what) {
      c.check(v.size() == n, what, "length " + std::to_string(v.size()) + " of " + std::to_string(n));
      for (size_t i = 0; i < n; i++) c.check(same3(v[i], flat[3 * i], flat[3 * i + 1], flat[3 * i + 2]), what, [&] { return "element " + std::to_string(i) + " of " + std::to_string(n); });
    };
    auto vec = [&](const auto& v, const char* what) {
      c.check((size_t)v.size() == n, what, "length " + std::to_string(v.size()) + " of " + std::to_string(n));
      for (size_t i = 0; i < n; i++) c.check(sameV(v[i], flat[3 * i], flat[3 * i + 1], flat[3 * i + 2]), what, [&] { return "element " + std::to_string(i) + " of " + std::to_string(n); });
    };
    auto mat = [&](const Matrix3Xd& v, const char* what) {
      c.check((size_t)v.cols() == n, what, "columns " + std::to_string(v.cols()) + " of " + std::to_string(n));
      for (size_t i = 0; i < n; i++) c.check(sameV(v.col(i), flat[3 * i], flat[3 * i + 1], flat[3 * i + 2]), what, [&] { return "column " + std::to_string(i) + " of " + std::to_string(n); });
    };
    mat(EC::VectorGeometryPointToEigenMatrix3Xd(gp), "points_to_matrix");
    msg(EC::EigenMatrix3XdToVectorGeometryPoint(em), "matrix_to_points");
    mat(EC::VectorEigenVector3dToEigenMatrix3Xd(ev), "vectors_to_matrix");
    vec(EC::EigenMatrix3XdToVectorEigenVector3d(em), "matrix_to_vectors");
    msg(EC::VectorEigenVector3dToVectorGeometryPoint(ev), "vectors_to_points");
    vec(EC::VectorGeometryPointToVectorEigenVector3d(gp), "points_to_vectors");
    vec(EC::VectorGeometryVector3ToEigenVector3d(gv), "vector3s_to_vectors");
    mat(EC::VectorGeometryVector3ToEigenMatrix3Xd(gv), "vector3s_to_matrix");
    vec(ConvertTo<gm::Point, Vector3d>(gp), "points_convert");
    vec(ConvertTo<gm::Vector3, Vector3d>(gv), "vector3s_convert");
    // flat lists
    VectorXd x(3 * n);
    for (size_t i = 0; i < 3 * n; i++) x[i] = flat[i];
    auto fl = [&](const std::vector<double>& v, const char* what) {
      c.check(v.size() == flat.size(), what, "length " + std::to_string(v.size()) + " of " + std::to_string(flat.size()));
      for (size_t i = 0; i < v.size(); i++) c.check(same(v[i], flat[i]), what, [&] { return "element " + std::to_string(i); });
    };
    auto fx = [&](const VectorXd& v, const char* what) { fl(std::vector<double>(v.data(), v.data() + v.size()), what); };
    fl(ConvertTo<std::vector<double>>(x), "vector_convert");
    fl(secondConvert(x), "vector_convert");
    fl(EH::EigenVectorXdToStdVectorDouble(x), "vector_to_std");
    fl(EH::EigenVectorXToStdVector<double>(x), "vector_to_std");
    fx(EH::StdVectorDoubleToEigenVectorXd(flat), "std_to_vector");
    fx(EH::StdVectorToEigenVectorX<double>(flat), "std_to_vector");
    vec(EH::EigenVectorXToVectorEigenVector<double, 3>(x), "split");
    vec(EH::StdVectorXToVectorEigenVector<double, 3>(flat), "split");
    if (n) {
      fx(EH::VectorEigenVectorToEigenVectorX(ev), "flatten");
      const size_t k = c.rng.chance(0.5) ? 3 : c.rng.pick(std::vector<size_t>{1, n, 3 * n});
      std::vector<VectorXd> dyn;
      for (size_t i = 0; i < 3 * n; i += k) dyn.push_back(x.segment(i, k));
      fx(EH::VectorEigenVectorToEigenVectorX(dyn), "flatten");
      const Vector3d b = EH::StdVectorDoubleToEigenVector3d(std::vector<double>(flat.begin(), flat.begin() + 3));
      const std::vector<double> bs = EH::EigenVector3dToStdVectorDouble(b);
      c.check(sameV(b, flat[0], flat[1], flat[2]) && bs.size() == 3 && sameV(b, bs[0], bs[1], bs[2]), "single", "first three");
      std::vector<int> iv(n);
      for (auto& e : iv) e = (int)c.rng.range(-100000, 100000);
      const Matrix<int, Dynamic, 1> im = EH::StdVectorToEigenVectorX<int>(iv);
      c.check(EH::EigenVectorXToStdVector<int>(im) == iv && im[n - 1] == iv[n - 1], "integers", "integer list");
    }
    // pose lists
    std::vector<gm::Pose> poses;
    std::vector<gm::Transform> tfs;
    EH::VectorIsometry3d is3;
    EH::VectorAffine3d af3;
    std::vector<P> ps;
    for (size_t i = 0; i < n; i++) {
      ps.emplace_back(c.rng);
      poses.push_back(ps[i].pose());
      tfs.push_back(ps[i].tf());
      is3.push_back(ps[i].iso());
      af3.push_back(Affine3d(ps[i].iso()));
    }
    auto all = [&](const auto& v, const char* what, auto f) {
      c.check(v.size() == n, what, "length " + std::to_string(v.size()) + " of " + std::to_string(n));
      for (size_t i = 0; i < n; i++) c.check(f(v[i], ps[i]), what, [&] { return "element " + std::to_string(i) + " of " + std::to_string(n) + ": " + ps[i].s(); });
    };
    auto e = [](const auto& x, const P& p) { return is(x, p); };
    all(EC::VectorGeometryPoseToVectorIsometry3d(poses), "poses_list", e);
    all(EC::VectorGeometryTransformToVectorIsometry3d(tfs), "poses_list", e);
    all(EC::VectorGeometryTransformToVectorAffine3d(tfs), "poses_list", e);
    all(ConvertTo<gm::Pose, Isometry3d>(poses), "poses_list", e);
    all(ConvertTo<gm::Transform, Affine3d>(tfs), "poses_list", e);
    all(EC::VectorIsometry3dToVectorGeometryPose(is3), "poses_list", [](const gm::Pose& x, const P& p) { return isp(x, p); });
    all(EC::VectorAffine3dToVectorGeometryPose(af3), "poses_list", [](const gm::Pose& x, const P& p) { return isp(x, p); });
    all(EC::VectorIsometry3dToVectorGeometryTransform(is3), "poses_list", [](const gm::Transform& x, const P& p) { return ist(x, p); });
    all(EC::VectorAffine3dToVectorGeometryTransform(af3), "poses_list", [](const gm::Transform& x, const P& p) { return ist(x, p); });
    c.count("elements", n);
  });
  return m.finish();
}
