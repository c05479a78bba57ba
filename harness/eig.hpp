// Random Eigen values shared by the geometry harnesses.
#pragma once
#include <Eigen/Geometry>

#include "mon.hpp"
namespace eg {
using mon::Rng;
typedef long double L;
inline Eigen::Vector3d vec(Rng& r, double s = 1.0) { return Eigen::Vector3d(r.real(-s, s), r.real(-s, s), r.real(-s, s)); }
inline Eigen::Vector3d unit(Rng& r) {
  Eigen::Vector3d v;
  do v = Eigen::Vector3d(r.normal(), r.normal(), r.normal());
  while (v.norm() < 1e-3);
  return v / v.norm();
}
inline Eigen::Quaterniond quat(Rng& r) {
  Eigen::Vector4d v;
  do v = Eigen::Vector4d(r.normal(), r.normal(), r.normal(), r.normal());
  while (v.norm() < 1e-3);
  v /= v.norm();
  return Eigen::Quaterniond(v(0), v(1), v(2), v(3));
}
// Rotations with exact multiples of 90 degrees, identity, small, near-half-turn and arbitrary ones.
inline Eigen::Quaterniond rot(Rng& r) {
  switch (r.below(6)) {
    case 0:
      return Eigen::Quaterniond::Identity();
    case 1: {
      Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
      const int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      const int* q = p[r.below(6)];
      for (int i = 0; i < 3; i++) m(i, q[i]) = r.chance(0.5) ? 1 : -1;
      if (m.determinant() < 0) m.row(0) *= -1;
      return Eigen::Quaterniond(m).normalized();
    }
    case 2:
      return Eigen::Quaterniond(Eigen::AngleAxisd(r.real(-1e-6, 1e-6), unit(r)));
    case 3:
      return Eigen::Quaterniond(Eigen::AngleAxisd(M_PI - r.real(0, 1e-3), unit(r)));
    default:
      return quat(r);
  }
}
inline Eigen::Isometry3d iso(Rng& r, double s = 3.0) {
  const Eigen::Vector3d t = r.chance(0.15) ? Eigen::Vector3d(0, 0, 0) : vec(r, s);
  Eigen::Isometry3d i = Eigen::Isometry3d::Identity();
  i.linear() = rot(r).toRotationMatrix();
  i.translation() = t;
  return i;
}
// p in the frame of t, in long double.
inline void into(const Eigen::Isometry3d& t, const Eigen::Vector3d& p, L out[3]) {
  for (int k = 0; k < 3; k++) {
    out[k] = 0;
    for (int j = 0; j < 3; j++) out[k] += (L)t(j, k) * ((L)p(j) - (L)t(j, 3));
  }
}
inline bool close(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  const double d = (a - b).cwiseAbs().maxCoeff();
  return d <= tol;
}
inline std::string show(const Eigen::MatrixXd& m) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < m.rows(); i++) {
    for (int j = 0; j < m.cols(); j++) o << (j ? " " : i ? "; " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}
}  // namespace eg
