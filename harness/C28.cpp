// MON-variants: asan asan-debugstl
// MON-rule: trees of 1-10 links with random link numbering (link 0 the root) and random joint listing order; fixed, revolute, continuous and prismatic joints with arbitrary offsets and axes; histories of configuration, base-pose and clone operations; well-formed lists and lists with one to two defects; distinct by model and configuration
#include <algorithm>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "arc_utilities/simple_robot_models.hpp"
#include "eig.hpp"
#include <set>
using namespace mon;
using namespace simple_linked_robot_model;
typedef SimpleJointModel J;
typedef SimpleLinkedConfiguration Cfg;
typedef std::vector<RobotLink> Links;
typedef std::vector<RobotJoint> Joints;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static double wrap(double v) {  // into [-pi, pi]
  return (double)std::remainder((long double)v, 2.0L * (long double)M_PI);
}
static double circ(double a, double b) { return std::abs(wrap(a - b)); }
static bool same_angle(double a, double b, double tol) { return circ(a, b) <= tol; }

static Eigen::Vector3d axis(Rng& r) {
  if (r.chance(0.3)) {
    Eigen::Vector3d v(0, 0, 0);
    v((int)r.below(3)) = r.chance(0.5) ? 1 : -1;
    return v;
  }
  for (;;) {
    const Eigen::Vector3d v = eg::unit(r);
    if (std::abs(v.norm() - 1.0) <= std::numeric_limits<double>::epsilon()) return v;
  }
}
static J joint(Rng& r) {
  static const J::JOINT_TYPE T[] = {J::FIXED, J::REVOLUTE, J::CONTINUOUS, J::PRISMATIC};
  const J::JOINT_TYPE t = T[r.below(4)];
  double a = r.real(-4, 4), b = r.chance(0.1) ? a : r.real(-4, 4);
  if (a > b) std::swap(a, b);
  return J(std::make_pair(a, b), r.real(-6, 6), t);
}
struct Model {
  Links links;
  Joints joints;
  std::vector<double> weights;
  Eigen::Isometry3d base;
  std::vector<int> active() const {
    std::vector<int> v;
    for (size_t i = 0; i < joints.size(); i++)
      if (joints[i].JointModel().GetType() != J::FIXED) v.push_back((int)i);
    return v;
  }
  Cfg initial() const {
    Cfg c;
    for (int i : active()) c.push_back(joints[i].JointModel());
    return c;
  }
};
static Model model(Rng& r, int maxlinks = 10) {
  Model m;
  const int n = (int)r.range(1, maxlinks);
  std::vector<int> id(n);  // id[k]: link number of the k-th link from the base outwards
  for (int i = 0; i < n; i++) id[i] = i;
  if (r.chance(0.7))
    for (int i = n - 1; i > 1; i--) std::swap(id[i], id[1 + r.below(i)]);
  for (int i = 0; i < n; i++) m.links.push_back(RobotLink("l" + std::to_string(i)));
  const bool chain = r.chance(0.4);
  for (int k = 1; k < n; k++) {
    const int parent = chain ? k - 1 : (int)r.below(k);
    m.joints.push_back(RobotJoint(eg::iso(r), axis(r), id[parent], id[k], joint(r), "j" + std::to_string(k)));
  }
  if (r.chance(0.7))
    for (int i = (int)m.joints.size() - 1; i > 0; i--) std::swap(m.joints[i], m.joints[r.below(i + 1)]);
  for (size_t i = 0; i < m.active().size(); i++) m.weights.push_back(r.chance(0.1) ? 0.0 : r.real(-3, 3));
  m.base = eg::iso(r);
  return m;
}
static std::string show(const Model& m) {
  std::string s = std::to_string(m.links.size()) + " links:";
  for (const RobotJoint& j : m.joints)
    s += " " + j.JointName() + "=" + std::to_string(j.ParentLinkIndex()) + "->" + std::to_string(j.ChildLinkIndex()) + "(" + std::to_string((int)j.JointModel().GetType()) + ")";
  return s;
}
static Eigen::Matrix4d motion(const RobotJoint& j, double v) {
  Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
  const Eigen::Vector3d a = j.JointAxis();
  if (j.JointModel().GetType() == J::PRISMATIC) {
    t.block<3, 1>(0, 3) = a * v;
  } else if (j.JointModel().GetType() != J::FIXED) {
    Eigen::Matrix3d k;
    k << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
    t.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity() + std::sin(v) * k + (1 - std::cos(v)) * k * k;
  }
  return t;
}
// Poses of all links for given values of the active joints.
static std::vector<Eigen::Matrix4d> poses(const Model& m, const std::vector<double>& q, const Eigen::Isometry3d& base) {
  std::vector<int> up(m.links.size(), -1), act(m.joints.size(), -1);
  int k = 0;
  for (size_t i = 0; i < m.joints.size(); i++) {
    up[m.joints[i].ChildLinkIndex()] = (int)i;
    if (m.joints[i].JointModel().GetType() != J::FIXED) act[i] = k++;
  }
  std::vector<Eigen::Matrix4d> out;
  for (size_t l = 0; l < m.links.size(); l++) {
    Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
    for (int at = (int)l; up[at] >= 0; at = (int)m.joints[up[at]].ParentLinkIndex()) {
      const int j = up[at];
      t = (m.joints[j].JointTransform().matrix() * motion(m.joints[j], act[j] < 0 ? 0.0 : q[act[j]]) * t).eval();
    }
    out.push_back(base.matrix() * t);
  }
  return out;
}
// The value a joint must hold after being asked to take v.
static double held(const J& j, double v) {
  if (j.GetType() == J::CONTINUOUS) return wrap(v);
  const auto l = j.GetLimits();
  return v < l.first ? l.first : v > l.second ? l.second : v;
}
static bool holds(const J& j, double got, double want) {
  if (j.GetType() == J::CONTINUOUS) return got >= -M_PI && got <= M_PI && same_angle(got, want, 1e-9);
  return got == want;
}
template <typename R>
static void poses_match(Case& c, const Model& m, const R& robot, const std::vector<double>& q, const Eigen::Isometry3d& base, const std::string& when) {
  const std::vector<Eigen::Matrix4d> want = poses(m, q, base);
  const EigenHelpers::VectorIsometry3d all = robot.GetLinkTransforms();
  const EigenHelpers::MapStringIsometry3d byname = robot.GetLinkTransformsMap();
  const std::vector<std::string> names = robot.GetLinkNames();
  c.check(all.size() == m.links.size() && byname.size() == m.links.size() && names.size() == m.links.size(), "a link has no pose", [&] { return show(m); });
  for (size_t l = 0; l < m.links.size(); l++) {
    const std::string& n = m.links[l].LinkName();
    c.eq(names[l], n, "links change names", n);
    c.check(eg::close(all[l].matrix(), want[l], 1e-8), "a link is not where its joints put it",
            [&] { return when + ", link " + std::to_string(l) + " at " + eg::show(all[l].matrix()) + ", not " + eg::show(want[l]) + "; " + show(m); });
    c.check(byname.count(n) == 1 && eg::close(byname.at(n).matrix(), all[l].matrix(), 0) && eg::close(robot.GetLinkTransform(n).matrix(), all[l].matrix(), 0),
            "link poses by name and by index differ", [&] { return when + ", link " + n + "; " + show(m); });
    const Eigen::Matrix3d rr = all[l].linear();
    c.check(eg::close(rr * rr.transpose(), Eigen::Matrix3d::Identity(), 1e-9) && rr.determinant() > 0, "a link pose is not a rigid motion", [&] { return when + ", link " + n; });
    c.count("link poses checked");
  }
}
static std::vector<double> values(const Cfg& c) {
  std::vector<double> v;
  for (const J& j : c) v.push_back(j.GetValue());
  return v;
}
// A configuration asking the active joints of m for values inside or outside their limits.
static Cfg ask(Rng& r, const Model& m, const std::vector<int>& act) {
  Cfg c;
  const bool foreign = r.chance(0.2);
  for (int i : act) {
    const J& j = m.joints[i].JointModel();
    if (foreign) c.push_back(J(std::make_pair(-100.0, 100.0), r.real(-20, 20), J::PRISMATIC));  // limits of its own
    else c.push_back(j.CopyWithNewValue(r.real(-8, 8)));
  }
  return c;
}
static void must_reject(Case& c, const std::string& key, const std::string& what, const std::function<void()>& f) {
  bool threw = false;
  try {
    f();
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  c.check(threw, key, what);
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);

  m.group("kinematics", 1500, 30000, [](Case& c) {
    Quiet q;
    const Model md = model(c.rng, c.index % 100 == 3 ? 140 : c.m.thorough ? 16 : 10);
    c.note(show(md));
    const std::vector<int> act = md.active();
    c.nontrivial(act.size() > 1);
    SimpleLinkedRobot robot(md.base, md.links, md.joints, md.initial(), md.weights);
    Eigen::Isometry3d base = md.base;
    std::vector<double> now = values(md.initial());
    std::string when = "as constructed";
    std::vector<std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<Cfg, SimpleLinkedConfigAlloc>>> clones;
    std::vector<std::pair<std::vector<double>, Eigen::Isometry3d>> cstate;
    auto verify = [&] {
      const Cfg& p = robot.GetPosition();
      c.check(p.size() == act.size(), "a position has no value for some joint", [&] { return when + "; " + show(md); });
      for (size_t i = 0; i < act.size(); i++) {
        const J& j = md.joints[act[i]].JointModel();
        c.check(holds(j, p[i].GetValue(), now[i]), "a joint does not hold the value it was given, within its limits", [&] {
          return when + ", joint " + md.joints[act[i]].JointName() + " holds " + str(p[i].GetValue()) + ", not " + str(now[i]);
        });
        c.check(p[i].GetType() == j.GetType() && p[i].GetLimits() == j.GetLimits(), "a joint changed its type or limits", when);
      }
      c.check(eg::close(robot.GetBaseTransform().matrix(), base.matrix(), 0), "the base is not where it was put", when);
      c.check(eg::close((robot.GetBaseTransform() * robot.GetInverseBaseTransform()).matrix(), Eigen::Matrix4d::Identity(), 1e-9), "the inverse base pose does not invert the base pose", when);
      poses_match(c, md, robot, values(p), base, when);
    };
    verify();
    const std::vector<std::string> an = robot.GetActiveJointNames();
    c.check(an.size() == act.size(), "active joints are not the joints that move", show(md));
    for (size_t i = 0; i < act.size(); i++) c.eq(an[i], md.joints[act[i]].JointName(), "active joints are not the joints that move", show(md));
    const int steps = (int)c.rng.range(2, 8);
    for (int s = 0; s < steps; s++) {
      const int op = (int)c.rng.below(7);
      if (op <= 2) {
        const Cfg a = ask(c.rng, md, act);
        for (size_t i = 0; i < act.size(); i++) now[i] = held(md.joints[act[i]].JointModel(), a[i].GetValue());
        const Cfg& got = robot.SetPosition(a);
        when = "after setting a position";
        c.check(&got == &robot.GetPosition(), "setting a position does not return the position", when);
        c.count("positions set");
      } else if (op == 3) {
        base = eg::iso(c.rng);
        robot.UpdateBaseTransform(base);
        when = "after moving the base";
        c.count("base moves");
      } else if (op == 4) {
        robot.SetPosition(robot.GetPosition());
        when = "after setting its own position";
        c.count("own positions set");
      } else if (op == 5) {
        clones.emplace_back(robot.Clone());
        cstate.emplace_back(values(robot.GetPosition()), base);
        if (c.rng.chance(0.5) && !act.empty()) {
          const Cfg a = ask(c.rng, md, act);
          clones.back()->SetPosition(a);
          cstate.back().first = values(clones.back()->GetPosition());
        }
        when = "after cloning";
        c.count("clones");
      } else {
        Cfg a = ask(c.rng, md, act);
        if (c.rng.chance(0.5) || a.empty()) a.push_back(J(std::make_pair(-1.0, 1.0), 0.5, J::REVOLUTE));
        else a.pop_back();
        must_reject(c, "a position of the wrong size is accepted", show(md), [&] { robot.SetPosition(a); });
        when = "after a rejected position";
        c.count("rejected positions");
      }
      verify();
    }
    for (size_t i = 0; i < clones.size(); i++) poses_match(c, md, *clones[i], cstate[i].first, cstate[i].second, "a clone, at the end");
    must_reject(c, "a link that does not exist has a pose", show(md), [&] { robot.GetLinkTransform("nope"); });
    c.sample(show(md));
  });

  m.group("jacobian", 1500, 30000, [](Case& c) {
    Quiet q;
    const Model md = model(c.rng);
    c.note(show(md));
    const std::vector<int> act = md.active();
    SimpleLinkedRobot robot(md.base, md.links, md.joints, md.initial(), md.weights);
    if (c.rng.chance(0.5)) robot.SetPosition(ask(c.rng, md, act));
    Eigen::Isometry3d base = md.base;
    if (c.rng.chance(0.4)) robot.UpdateBaseTransform(base = eg::iso(c.rng));
    const std::vector<double> at = values(robot.GetPosition());
    const size_t l = c.rng.below(md.links.size());
    const std::string& name = md.links[l].LinkName();
    Eigen::Vector4d p = Eigen::Vector4d::Ones();
    p.head<3>() = c.rng.chance(0.15) ? Eigen::Vector3d(0, 0, 0) : eg::vec(c.rng, 3);
    const Eigen::Matrix<double, 6, Eigen::Dynamic> jac = robot.ComputeLinkPointJacobian(name, p);
    const Eigen::Matrix<double, 3, Eigen::Dynamic> lin = robot.ComputeLinkPointTranslationJacobian(name, p);
    c.check(jac.cols() == (int)act.size() && lin.cols() == (int)act.size(), "a Jacobian lacks a column for some joint", show(md));
    bool moves = false;
    for (size_t k = 0; k < act.size(); k++) {
      const double h = 1e-4;
      // Richardson-extrapolated central difference of the reference kinematics
      Eigen::Vector3d d[2];
      Eigen::Matrix3d w[2];
      for (int e = 0; e < 2; e++) {
        const double s = e ? h / 2 : h;
        std::vector<double> a = at, b = at;
        a[k] -= s;
        b[k] += s;
        const Eigen::Matrix4d ta = poses(md, a, base)[l], tb = poses(md, b, base)[l];
        d[e] = ((tb - ta) * p).head<3>() / (2 * s);
        w[e] = (tb - ta).block<3, 3>(0, 0) / (2 * s);
      }
      const Eigen::Vector3d dd = (4 * d[1] - d[0]) / 3;
      const Eigen::Matrix3d ww = (4 * w[1] - w[0]) / 3 * poses(md, at, base)[l].block<3, 3>(0, 0).transpose();
      const Eigen::Vector3d om(ww(2, 1) - ww(1, 2), ww(0, 2) - ww(2, 0), ww(1, 0) - ww(0, 1));
      Eigen::VectorXd want(6);
      want << dd, om / 2;
      moves = moves || want.norm() > 1e-3;
      c.check(eg::close(jac.col(k), want, 1e-6), "a Jacobian is not the derivative of the kinematics", [&] {
        return "joint " + md.joints[act[k]].JointName() + ", link " + name + ": " + eg::show(jac.col(k).transpose()) + ", not " + eg::show(want.transpose()) + "; " + show(md);
      });
      c.check(eg::close(lin.col(k), jac.col(k).head<3>(), 1e-12), "the translation Jacobian is not the top of the Jacobian", show(md));
      c.count("Jacobian columns checked");
    }
    c.nontrivial(moves);
    must_reject(c, "a link that does not exist has a Jacobian", show(md), [&] { robot.ComputeLinkPointTranslationJacobian("nope", p); });
  });

  m.group("joint", 6000, 100000, [](Case& c) {
    Quiet q;
    J j = joint(c.rng);
    c.note(str((int)j.GetType()) + " " + str(j.GetValue()) + " " + str(j.GetLimits().first));
    const auto lim = j.GetLimits();
    c.check((int)j.IsFixed() + (int)j.IsPrismatic() + (int)j.IsRevolute() == 1 && (!j.IsContinuous() || j.IsRevolute()), "a joint has not exactly one type", "");
    for (int s = 0; s < 12; s++) {
      const double v = c.rng.chance(0.2) ? lim.first : c.rng.chance(0.2) ? lim.second : c.rng.chance(0.1) ? M_PI * c.rng.range(-3, 3) : c.rng.real(-1, 1) * std::pow(10.0, c.rng.real(-2, 3));
      if (std::isinf(v)) continue;
      const double want = held(j, v);
      c.check(holds(j, j.EnforceLimits(v), want), "limits are not enforced", [&] { return str(v) + " became " + str(j.EnforceLimits(v)); });
      const J cp = j.CopyWithNewValue(v);
      c.check(holds(j, cp.GetValue(), want) && cp.GetLimits() == lim && cp.GetType() == j.GetType(), "a copied joint differs beyond its value", [&] { return str(v); });
      const bool in = j.GetType() == J::CONTINUOUS || (v >= lim.first && v <= lim.second);
      c.check(j.InLimits(v) == in, "values are in limits when they should not be, or not when they should", [&] { return str(v); });
      const double before = j.GetValue();
      const double d = j.SignedDistance(v);
      c.check(j.GetType() == J::CONTINUOUS ? same_angle(before + d, v, 1e-9) && std::abs(d) <= M_PI + 1e-9 : d == v - before, "a joint distance is not the way from one value to the other",
              [&] { return str(before) + " to " + str(v) + ": " + str(d); });
      c.check(j.Distance(v) == std::abs(d) && j.SignedDistance(cp) == j.SignedDistance(cp.GetValue()) && j.Distance(cp) == std::abs(j.SignedDistance(cp)), "joint distances disagree", [&] { return str(v); });
      j.SetValue(v);
      c.check(holds(j, j.GetValue(), want), "a joint does not hold the value it was given, within its limits", [&] { return str(v) + " became " + str(j.GetValue()); });
      c.check(j.InLimits(j.GetValue()), "a joint is outside its limits", [&] { return str(v); });
      c.count(want == v ? "values kept" : "values brought within limits");
    }
    const double keep = j.GetValue();
    for (double bad : {std::nan(""), HUGE_VAL, -HUGE_VAL}) {
      must_reject(c, "a joint takes a value that is not a finite number", str(bad), [&] { j.SetValue(bad); });
      must_reject(c, "a joint takes a value that is not a finite number", str(bad), [&] { J(std::make_pair(-1.0, 1.0), bad, j.GetType()); });
    }
    c.check(j.GetValue() == keep, "a rejected value changes the joint", "");
    if (j.GetType() != J::CONTINUOUS) must_reject(c, "reversed limits are accepted", "", [&] { J(std::make_pair(1.0, 1.0 - 1e-9), 1.0, j.GetType()); });
    J other = joint(c.rng);
    if (other.GetType() != j.GetType()) {
      must_reject(c, "joints of different types have a distance", "", [&] { j.SignedDistance(other); });
      must_reject(c, "joints of different types have a distance", "", [&] { j.Distance(other); });
    }
    c.nontrivial(j.GetType() != J::FIXED);
  });

  m.group("between", 3000, 60000, [](Case& c) {
    Quiet q;
    const Model md = model(c.rng);
    c.note(show(md));
    const std::vector<int> act = md.active();
    c.nontrivial(!act.empty());
    SimpleLinkedRobot robot(md.base, md.links, md.joints, md.initial(), md.weights);
    auto legal = [&] {
      Cfg v;
      for (int i : act) v.push_back(md.joints[i].JointModel().CopyWithNewValue(c.rng.real(-8, 8)));
      return v;
    };
    const Cfg a = legal(), b = c.rng.chance(0.1) ? a : legal();
    const Eigen::VectorXd d = robot.ComputePerDimensionConfigurationSignedDistance(a, b), u = SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(a, b);
    c.check(d.size() == (int)act.size() && u.size() == (int)act.size(), "distances lack a dimension", show(md));
    double sq = 0;
    for (size_t i = 0; i < act.size(); i++) {
      const bool cont = a[i].GetType() == J::CONTINUOUS;
      const double x = a[i].GetValue(), y = b[i].GetValue();
      c.check(cont ? same_angle(x + u(i), y, 1e-9) && std::abs(u(i)) <= M_PI + 1e-9 : u(i) == y - x, "a per-joint distance is not the way from one value to the other",
              [&] { return str(x) + " to " + str(y) + ": " + str(u(i)); });
      c.check(std::abs(d(i) - u(i) * std::abs(md.weights[i])) <= 1e-12, "a joint distance is not weighted by its weight", [&] { return str(d(i)) + " vs " + str(u(i)) + " x " + str(md.weights[i]); });
      sq += d(i) * d(i);
      c.count("joint distances");
    }
    c.near(robot.ComputeConfigurationDistance(a, b), std::sqrt(sq), 1e-9, "the distance is not the length of the per-joint distances", show(md));
    c.near(robot.ComputeConfigurationDistance(b, a), std::sqrt(sq), 1e-9, "the distance is not symmetric", show(md));
    c.check(eg::close(robot.ComputePerDimensionConfigurationDistance(a, b), d.cwiseAbs(), 0), "per-joint distances disagree", show(md));
    robot.SetPosition(a);
    c.check(eg::close(robot.ComputePerDimensionConfigurationSignedDistanceTo(b), d, 1e-9) && std::abs(robot.ComputeConfigurationDistanceTo(b) - std::sqrt(sq)) <= 1e-9 &&
                eg::close(robot.ComputePerDimensionConfigurationDistanceTo(b), d.cwiseAbs(), 1e-9),
            "distances from the current position disagree", show(md));

    const double t = c.rng.chance(0.2) ? 0.0 : c.rng.chance(0.2) ? 1.0 : c.rng.real(0, 1);
    const Cfg mid = robot.InterpolateBetweenConfigurations(a, b, t);
    c.check(mid.size() == act.size(), "an interpolated configuration lacks a joint", show(md));
    for (size_t i = 0; i < act.size(); i++) {
      c.check(mid[i].GetType() == a[i].GetType() && mid[i].GetLimits() == a[i].GetLimits() && a[i].InLimits(mid[i].GetValue()), "an interpolated joint is not a joint within its limits", show(md));
      const double want = a[i].GetValue() + t * u(i);
      const bool half = a[i].GetType() == J::CONTINUOUS && std::abs(std::abs(u(i)) - M_PI) < 1e-6;
      c.check(half || (a[i].GetType() == J::CONTINUOUS ? same_angle(mid[i].GetValue(), want, 1e-9) : std::abs(mid[i].GetValue() - want) <= 1e-9), "interpolation leaves the straight way between the ends",
              [&] { return "ratio " + str(t) + " of " + str(a[i].GetValue()) + " to " + str(b[i].GetValue()) + ": " + str(mid[i].GetValue()); });
      c.count("joints interpolated");
    }
    std::vector<Cfg> many;
    const int n = (int)c.rng.range(0, 5);
    const double spread = c.rng.real(0, 1.4);
    Cfg centre = legal();
    for (int i = 0; i < n; i++) {
      Cfg v;
      for (const J& j : centre) v.push_back(j.CopyWithNewValue(j.GetValue() + c.rng.real(-spread, spread)));
      many.push_back(v);
    }
    const Cfg avg = robot.AverageConfigurations(many);
    c.check(avg.size() == (n ? act.size() : 0), "an average lacks a joint", show(md));
    for (size_t i = 0; i < avg.size(); i++) {
      long double s = 0;  // angles are averaged as plain numbers, as documented
      for (const Cfg& v : many) s += v[i].GetValue();
      const double got = avg[i].GetValue();
      c.check(avg[i].GetType() == a[i].GetType() && avg[i].InLimits(got), "an average joint is not a joint within its limits", show(md));
      c.check(std::abs(got - (double)(s / n)) <= 1e-9, "an average is not the average", [&] { return str(got); });
      c.count("joints averaged");
    }
    if (!act.empty()) {
      Cfg shorter(a.begin(), a.end() - 1), odd = b;
      const J& x = a[0];
      odd[0] = J(std::make_pair(-1.0, 1.0), 0.25, x.GetType() == J::PRISMATIC ? J::REVOLUTE : J::PRISMATIC);
      for (const Cfg& w : {shorter, odd}) {
        must_reject(c, "configurations that do not match are interpolated", show(md), [&] { robot.InterpolateBetweenConfigurations(a, w, 0.5); });
        must_reject(c, "configurations that do not match are averaged", show(md), [&] { robot.AverageConfigurations({a, w}); });
        must_reject(c, "configurations that do not match have a distance", show(md), [&] { robot.ComputeConfigurationDistance(a, w); });
        must_reject(c, "configurations that do not match have a distance", show(md), [&] { SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(a, w); });
      }
      std::vector<double> w = md.weights;
      w.pop_back();
      must_reject(c, "a robot lacks a joint weight", show(md), [&] { SimpleLinkedRobot(md.base, md.links, md.joints, md.initial(), w); });
    }
  });

  m.group("validation", 6000, 100000, [](Case& c) {
    Quiet q;
    Model md = model(c.rng, 7);
    const int defects = (int)c.rng.below(3);
    std::string what;
    for (int d = 0; d < defects; d++) {
      const int n = (int)md.links.size();
      const bool j = !md.joints.empty();
      switch (c.rng.below(11)) {
        case 0:
          md.links.push_back(RobotLink("extra"));
          break;
        case 1:
          if (c.rng.chance(0.3)) md.links.clear();
          else if (n) md.links.pop_back();
          break;
        case 2:
          if (n > 1) md.links[c.rng.below(n)].LinkName() = md.links[c.rng.below(n)].LinkName();
          break;
        case 3:
          if (j) md.joints[c.rng.below(md.joints.size())].JointName() = md.joints[c.rng.below(md.joints.size())].JointName();
          break;
        case 4:
          if (j) md.joints[c.rng.below(md.joints.size())].JointAxis() *= c.rng.chance(0.2) ? 0.0 : c.rng.chance(0.5) ? 1 + 1e-5 : 2.0;
          break;
        case 5:
          if (j) md.joints[c.rng.below(md.joints.size())].JointAxis()((int)c.rng.below(3)) = c.rng.chance(0.5) ? std::nan("") : HUGE_VAL;
          break;
        case 6:
          if (j) md.joints[c.rng.below(md.joints.size())].ChildLinkIndex() = c.rng.chance(0.3) ? (int64_t)n + (int64_t)c.rng.below(5) : c.rng.chance(0.2) ? -1 : c.rng.chance(0.2) ? (int64_t)1 << 60 : (int64_t)c.rng.below(n + 1);
          break;
        case 7:
          if (j) md.joints[c.rng.below(md.joints.size())].ParentLinkIndex() = c.rng.chance(0.3) ? (int64_t)n + (int64_t)c.rng.below(5) : c.rng.chance(0.2) ? -1 : c.rng.chance(0.2) ? -((int64_t)1 << 60) : (int64_t)c.rng.below(n + 1);
          break;
        case 8:
          if (j) {
            RobotJoint& x = md.joints[c.rng.below(md.joints.size())];
            std::swap(x.ParentLinkIndex(), x.ChildLinkIndex());
          }
          break;
        case 9:
          if (j) {
            RobotJoint copy = md.joints[c.rng.below(md.joints.size())];
            copy.JointName() += "'";
            if (c.rng.chance(0.5)) md.joints[c.rng.below(md.joints.size())] = copy;
            else {
              md.joints.push_back(copy);
              md.links.push_back(RobotLink("spare"));
            }
          }
          break;
        case 10:
          if (j) {  // detach a cycle from the root
            RobotJoint& x = md.joints[c.rng.below(md.joints.size())];
            x.ParentLinkIndex() = x.ChildLinkIndex();
          }
          break;
      }
    }
    // Independent judgement: n-1 edges, all in range, unique names, unit axes, and every link reached from link 0.
    bool good = md.links.size() == md.joints.size() + 1;
    std::set<std::string> ln, jn;
    for (const RobotLink& l : md.links) good = ln.insert(l.LinkName()).second && good;
    for (const RobotJoint& j : md.joints) {
      good = jn.insert(j.JointName()).second && good;
      const double e = std::abs(j.JointAxis().norm() - 1.0);
      good = good && e <= std::numeric_limits<double>::epsilon();
      for (int64_t x : {j.ParentLinkIndex(), j.ChildLinkIndex()}) good = good && x >= 0 && x < (int64_t)md.links.size();
    }
    if (good) {
      std::set<int64_t> seen{0};
      for (size_t k = 0; k < md.links.size(); k++)
        for (const RobotJoint& j : md.joints)
          if (seen.count(j.ParentLinkIndex())) seen.insert(j.ChildLinkIndex());
      good = seen.size() == md.links.size();
    }
    c.note(show(md) + str(good));
    c.nontrivial(!good);
    bool built = true, threw = false;
    md.weights.resize(md.active().size(), 1.0);
    try {
      SimpleLinkedRobot r(md.base, md.links, md.joints, md.initial(), md.weights);
    } catch (const std::invalid_argument&) {
      built = false;
      threw = true;
    }
    c.check(built == good, good ? "a well-formed tree is rejected" : "a malformed tree is accepted", [&] { return show(md); });
    const bool ok = SimpleLinkedRobot::SanityCheckRobotModel(md.links, md.joints).second;
    c.check(ok == good, good ? "a well-formed tree is rejected" : "a malformed tree is accepted", [&] { return show(md); });
    c.count(good ? "well-formed trees accepted" : "malformed trees rejected");
    (void)threw;
  });

  m.group("serialization", 2000, 40000, [](Case& c) {
    Quiet q;
    Cfg cfg;
    const int n = (int)c.rng.below(8);
    for (int i = 0; i < n; i++) cfg.push_back(joint(c.rng));
    std::vector<uint8_t> buf(c.rng.below(20), 0x5a), before = buf;
    const uint64_t wrote = SimpleLinkedConfigSerializer::Serialize(cfg, buf);
    c.note(std::string(buf.begin(), buf.end()));
    c.check(buf.size() == before.size() + wrote && std::equal(before.begin(), before.end(), buf.begin()), "serializing does not append the bytes it reports", str(wrote));
    buf.insert(buf.end(), c.rng.below(3), 0x77);
    const auto back = SimpleLinkedConfigSerializer::Deserialize(buf, before.size());
    c.eq(back.second, wrote, "reading does not consume the bytes written", "");
    c.check(back.first.size() == cfg.size(), "a configuration read back has other joints", "");
    for (int i = 0; i < n; i++) {
      const J &a = cfg[i], &b = back.first[i];
      c.check(a.GetType() == b.GetType() && a.GetValue() == b.GetValue() && a.GetLimits() == b.GetLimits() && a.GetTypeString() == b.GetTypeString(), "a joint read back differs", [&] { return str(a.GetValue()) + " vs " + str(b.GetValue()); });
      J used = joint(c.rng);  // into a joint that already holds something
      std::vector<uint8_t> one;
      const uint64_t len = J::Serialize(a, one);
      c.check(len == one.size() && used.DeserializeSelf(one, 0) == len, "reading does not consume the bytes written", "one joint");
      c.check(a.GetType() == used.GetType() && a.GetValue() == used.GetValue() && a.GetLimits() == used.GetLimits(), "a joint read back differs", "into a used joint");
      c.count("joints read back");
    }
    c.nontrivial(n > 0);
  });

  m.group("geometry", 2000, 30000, [](Case& c) {
    Quiet q;
    using namespace simple_robot_models;
    const Model md = model(c.rng);
    c.note(show(md));
    const size_t n = md.links.size();
    std::vector<std::pair<std::string, std::string>> geo;
    for (const RobotLink& l : md.links) geo.emplace_back(l.LinkName(), "mesh of " + l.LinkName());
    std::vector<std::pair<size_t, size_t>> allowed;
    std::set<std::pair<size_t, size_t>> want;
    const int k = (int)c.rng.below(8);
    bool bad = false;
    for (int i = 0; i < k; i++) {
      size_t a = c.rng.below(n), b = c.rng.below(n);
      if (c.rng.chance(0.03)) (c.rng.chance(0.5) ? a : b) = n + c.rng.below(3), bad = true;
      allowed.emplace_back(a, b);
      want.insert({a, b});
      want.insert({b, a});
    }
    auto make = [&] { return LinkedRobotWithGeometry<std::string>(md.base, md.links, md.joints, md.initial(), md.weights, geo, allowed); };
    if (bad) {
      must_reject(c, "collisions are allowed between links that do not exist", show(md), [&] { make(); });
      c.count("bad link pairs rejected");
      return;
    }
    const auto robot = make();
    for (size_t a = 0; a < n; a++)
      for (size_t b = 0; b < n; b++) {
        c.check(robot.CheckIfSelfCollisionAllowed(a, b) == (a == b || want.count({a, b})), "allowed self-collisions are not the ones listed", [&] { return str(a) + " " + str(b) + "; " + show(md); });
        c.count("link pairs");
      }
    must_reject(c, "a link that does not exist may collide", show(md), [&] { robot.CheckIfSelfCollisionAllowed(n, 0); });
    must_reject(c, "a link that does not exist may collide", show(md), [&] { robot.CheckIfSelfCollisionAllowed(0, n); });
    c.check(robot.GetLinkGeometries() == geo, "link geometries are not the ones given", show(md));
    std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<Cfg, SimpleLinkedConfigAlloc>> cl(robot.Clone());
    c.check(dynamic_cast<LinkedRobotWithGeometry<std::string>*>(cl.get()) && dynamic_cast<LinkedRobotWithGeometry<std::string>*>(cl.get())->GetLinkGeometries() == geo, "a clone loses its geometry", show(md));
    geo[c.rng.below(n)].first += "x";
    must_reject(c, "geometry for another link is accepted", show(md), [&] { make(); });
    geo.pop_back();
    must_reject(c, "a link has no geometry", show(md), [&] { make(); });
    c.nontrivial(n > 2 && k > 0);
  });
  return m.finish();
}
