// MON-variants: asan
// MON-rule: joint vectors drawn at random, at multiples of a quarter turn, tiny and many turns around; identity and arbitrary base poses; full, partial and over-full named maps, for each of the four arms; distinct by arm and joint values
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "arc_utilities/eigen_helpers.hpp"
#include "arc_utilities/abb_irb1600_145_fk_fast.hpp"
#include "arc_utilities/iiwa_14_fk_fast.hpp"
#include "arc_utilities/iiwa_7_fk_fast.hpp"
#include "arc_utilities/ur_10_fk_fast.hpp"
#include "eig.hpp"
using namespace mon;
typedef EigenHelpers::VectorIsometry3d Poses;
typedef EigenHelpers::MapStringIsometry3d Named;
typedef std::map<std::string, double> Map;

// One joint of an arm: offset of its frame (xyz, then roll-pitch-yaw in eighths of a turn x2, i.e. quarter turns) and axis (0 x, 1 y, 2 z, -1 none).
struct Step {
  double x, y, z;
  int roll, pitch, yaw, axis;
};
struct Arm {
  std::string name;
  std::vector<Step> steps;
  std::vector<std::string> joints, links;
  Poses (*vec)(const std::vector<double>&, const Eigen::Isometry3d&);
  Poses (*map)(const Map&, const Eigen::Isometry3d&);
  Named (*nvec)(const std::vector<double>&, const Eigen::Isometry3d&);
  Named (*nmap)(const Map&, const Eigen::Isometry3d&);
};
template <typename F>
static std::vector<std::string> names(int n, F f) {
  std::vector<std::string> v;
  for (int i = 0; i < n; i++) v.push_back(f(i));
  return v;
}
#define FUNCS(NS)                                                                                                             \
  [](const std::vector<double>& q, const Eigen::Isometry3d& b) { return NS::GetLinkTransforms(q, b); },                       \
      [](const Map& q, const Eigen::Isometry3d& b) { return NS::GetLinkTransforms(q, b); },                                   \
      [](const std::vector<double>& q, const Eigen::Isometry3d& b) { return NS::GetLinkTransformsMap(q, b); },                \
      [](const Map& q, const Eigen::Isometry3d& b) { return NS::GetLinkTransformsMap(q, b); }
static std::vector<Arm> arms() {
  auto iiwaj = [](int i) { return "iiwa_joint_" + std::to_string(i + 1); };
  auto iiwal = [](int i) { return "iiwa_link_" + std::to_string(i); };
  return {
      {"iiwa 7",
       {{0, 0, .15, 0, 0, 0, 2}, {0, 0, .19, 1, 0, 2, 2}, {0, .21, 0, 1, 0, 2, 2}, {0, 0, .19, 1, 0, 0, 2}, {0, .21, 0, -1, 2, 0, 2}, {0, .0607, .19, 1, 0, 0, 2}, {0, .081, .0607, -1, 2, 0, 2}},
       names(7, iiwaj), names(8, iiwal), FUNCS(IIWA_7_FK_FAST)},
      {"iiwa 14",
       {{0, 0, .1575, 0, 0, 0, 2}, {0, 0, .2025, 1, 0, 2, 2}, {0, .2045, 0, 1, 0, 2, 2}, {0, 0, .2155, 1, 0, 0, 2}, {0, .1845, 0, -1, 2, 0, 2}, {0, 0, .2155, 1, 0, 0, 2}, {0, .081, 0, -1, 2, 0, 2}},
       names(7, iiwaj), names(8, iiwal), FUNCS(IIWA_14_FK_FAST)},
      {"IRB 1600",
       {{0, 0, .1245, 0, 0, 0, 2}, {.15, -.1395, .362, 0, 0, 0, 1}, {0, .028, .7, 0, 0, 0, 1}, {.314, .107, 0, 0, 0, 0, 0}, {.286, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0}, {.065, 0, 0, 0, 1, 0, -1}},
       names(6, [](int i) { return "joint_" + std::to_string(i + 1); }), names(8, [](int i) { return "link_" + std::to_string(i); }), FUNCS(ABB_IRB1600_145_FK_FAST)},
      {"UR 10",
       {{0, 0, .1273, 0, 0, 0, 2}, {0, .220941, 0, 0, 1, 0, 1}, {0, -.1719, .612, 0, 0, 0, 1}, {0, 0, .5723, 0, 1, 0, 1}, {0, .1149, 0, 0, 0, 0, 2}, {0, 0, .1157, 0, 0, 0, 1}},
       {"shoulder_pan_joint", "shoulder_lift_joint", "elbow_joint", "wrist_1_joint", "wrist_2_joint", "wrist_3_joint"},
       {"base_link", "shoulder_link", "upper_arm_link", "forearm_link", "wrist_1_link", "wrist_2_link", "wrist_3_link"},
       FUNCS(UR_10_FK_FAST)},
  };
}
static Eigen::Matrix4d turn(int axis, double s, double co) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  const int a = (axis + 1) % 3, b = (axis + 2) % 3;
  m(a, a) = m(b, b) = co;
  m(a, b) = -s;
  m(b, a) = s;
  return m;
}
static Eigen::Matrix4d quarter(int axis, int n) {
  const int k = ((n % 4) + 4) % 4;
  return turn(axis, k == 1 ? 1 : k == 3 ? -1 : 0, k == 0 ? 1 : k == 2 ? -1 : 0);
}
static std::vector<Eigen::Matrix4d> reference(const Arm& a, const std::vector<double>& q, const Eigen::Isometry3d& base) {
  std::vector<Eigen::Matrix4d> out{base.matrix()};
  for (size_t i = 0; i < a.steps.size(); i++) {
    const Step& s = a.steps[i];
    Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
    t(0, 3) = s.x, t(1, 3) = s.y, t(2, 3) = s.z;
    t = t * quarter(2, s.yaw) * quarter(1, s.pitch) * quarter(0, s.roll);
    if (s.axis >= 0) t = t * turn(s.axis, std::sin(q[i]), std::cos(q[i]));
    out.push_back(out.back() * t);
  }
  return out;
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("arms", 20000, 400000, [](Case& c) {
    static const std::vector<Arm> all = arms();
    const Arm& a = all[c.rng.below(all.size())];
    std::vector<double> q(a.joints.size());
    for (double& v : q) v = c.rng.chance(0.2) ? M_PI_2 * (double)c.rng.range(-4, 4) : c.rng.chance(0.1) ? c.rng.real(-1e-8, 1e-8) : c.rng.chance(0.1) ? c.rng.real(-1000, 1000) : c.rng.real(-3.2, 3.2);
    const Eigen::Isometry3d base = c.rng.chance(0.2) ? Eigen::Isometry3d::Identity() : eg::iso(c.rng);
    c.note(a.name);
    for (double v : q) c.note(v);
    const std::string at = a.name + " at " + mon::show(q);
    const std::vector<Eigen::Matrix4d> want = reference(a, q, base);
    const Poses got = a.vec(q, base);
    c.check(got.size() == a.links.size() && want.size() == a.links.size(), "an arm has the wrong number of links", at);
    for (size_t l = 0; l < got.size(); l++) {
      c.check(eg::close(got[l].matrix(), want[l], 1e-8), "a link is not where the joint chain puts it", [&] { return at + ", " + a.links[l] + ": " + eg::show(got[l].matrix()) + ", not " + eg::show(want[l]); });
      const Eigen::Matrix3d r = got[l].matrix().block<3, 3>(0, 0);
      c.check(eg::close(r * r.transpose(), Eigen::Matrix3d::Identity(), 1e-8) && r.determinant() > 0 && got[l].matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "a link pose is not rigid", at + ", " + a.links[l]);
      c.count("link poses");
    }
    const Poses rel = a.vec(q, Eigen::Isometry3d::Identity());
    for (size_t l = 0; l < got.size(); l++) c.check(eg::close((base * rel[l]).matrix(), got[l].matrix(), 1e-8), "the arm does not move rigidly with its base", at);
    Map qm;
    for (size_t i = 0; i < q.size(); i++) qm[a.joints[i]] = q[i];
    if (c.rng.chance(0.5)) qm["some_other_joint"] = 1.25, qm["joint_0"] = -2.0;
    auto same = [&](const Poses& x, const Poses& y) {
      bool ok = x.size() == y.size();
      for (size_t l = 0; ok && l < x.size(); l++) ok = eg::close(x[l].matrix(), y[l].matrix(), 1e-12);
      return ok;
    };
    auto named = [&](const Named& n, const Poses& y) {
      bool ok = n.size() == a.links.size();
      for (size_t l = 0; ok && l < y.size(); l++) ok = n.count(a.links[l]) && eg::close(n.at(a.links[l]).matrix(), y[l].matrix(), 1e-12);
      return ok;
    };
    c.check(same(a.map(qm, base), got), "named joint values give other poses than a vector of them", at);
    c.check(named(a.nvec(q, base), got), "named link poses differ from listed ones", at);
    c.check(named(a.nmap(qm, base), got), "named link poses from named joint values differ", at);
    // joints left out of a named map are at zero
    std::vector<double> q0 = q;
    for (size_t i = 0; i < q.size(); i++)
      if (c.rng.chance(0.4)) q0[i] = 0, qm.erase(a.joints[i]);
    c.check(same(a.map(qm, base), a.vec(q0, base)) && named(a.nmap(qm, base), a.vec(q0, base)), "a joint left out of a named map is not at zero", at);
    c.count(a.name);
    c.nontrivial(true);
    c.sample(at);
  });
  return m.finish();
}
