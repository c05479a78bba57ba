// MON-variants: asan asan-debugstl
// MON-rule: planar and spatial robots with random weights (negative ones too) and names, histories of 3-25 set/clone operations with headings from wrapped to far outside and at the seams, orientations from identity to near half-turns; pairs, triples, ratios in and out of range, clusters, body points; distinct by configurations
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "arc_utilities/simple_robot_models.hpp"
#include "eig.hpp"
using namespace mon;
using namespace simple_robot_models;
using simple_se2_robot_model::SimpleSE2ConfigSerializer;
using simple_se2_robot_model::SimpleSE2Robot;
using simple_se3_robot_model::SimpleSE3ConfigSerializer;
using simple_se3_robot_model::SimpleSE3Robot;
typedef Eigen::Vector3d P;
typedef Eigen::Isometry3d S;
typedef std::vector<P, simple_se2_robot_model::SimpleSE2ConfigAlloc> VP;
typedef std::vector<S, simple_se3_robot_model::SimpleSE3ConfigAlloc> VS;
typedef simple_robot_model_interface::SimpleRobotModelInterface<P, simple_se2_robot_model::SimpleSE2ConfigAlloc> IP;
typedef simple_robot_model_interface::SimpleRobotModelInterface<S, simple_se3_robot_model::SimpleSE3ConfigAlloc> IS;
struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
static double rem(double v) { return (double)std::remainder((long double)v, 2.0L * 3.14159265358979323846264338327950288L); }
static double circ(double a, double b) { return std::abs(rem(a - b)); }
static double heading(Rng& r, bool wild) {
  switch (r.below(wild ? 6 : 4)) {
    case 0: return r.real(-0.1, 0.1);
    case 1: return (r.chance(0.5) ? 1 : -1) * (M_PI - r.real(0, 0.05));
    case 2: return (double)((int)r.below(5) - 2) * M_PI / 2;
    case 3: return r.real(-M_PI, M_PI);
    case 4: return r.real(-50, 50);
    default: return (double)((int)r.below(21) - 10) * M_PI;
  }
}
static P planar(Rng& r, bool wild) {
  const double s = r.chance(0.2) ? 1000 : 3;
  return r.chance(0.1) ? P(0, 0, heading(r, wild)) : P(r.real(-s, s), r.real(-s, s), heading(r, wild));
}
static std::string name(Rng& r) {
  const char* n[] = {"base", "link", "body link", "", "a/b"};
  return n[r.below(5)];
}
// The rotation angle between two orientations, accurate for small ones.
static double turn(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) {
  const Eigen::Matrix3d d = a.transpose() * b;
  const P v(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
  return std::atan2(v.norm(), d.trace() - 1.0);
}
static bool rigid(const S& s) {
  const Eigen::Matrix3d m = s.linear();
  return eg::close(m.transpose() * m, Eigen::Matrix3d::Identity(), 1e-9) && m.determinant() > 0 && s.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1);
}
template <typename M, typename C>
static void links(Case& c, const M& m, const std::string& n, const C& want_pose) {
  const std::vector<std::string> names = m.GetLinkNames();
  c.check(names == std::vector<std::string>{n}, "links", "link names differ from the given one");
  const S p = m.GetLinkTransform(n);
  want_pose(p, "GetLinkTransform");
  const auto all = m.GetLinkTransforms();
  c.check(all.size() == 1 && all[0].matrix() == p.matrix(), "links", "the list of link transforms differs");
  const auto map = m.GetLinkTransformsMap();
  c.check(map.size() == 1 && map.count(n) && map.at(n).matrix() == p.matrix(), "links", "the map of link transforms differs");
  for (const std::string bad : {n + "x", std::string("nope")}) {
    int thrown = 0;
    try {
      m.GetLinkTransform(bad);
    } catch (const std::invalid_argument&) {
      thrown++;
    }
    try {
      m.ComputeLinkPointTranslationJacobian(bad, Eigen::Vector4d(0, 0, 0, 1));
    } catch (const std::invalid_argument&) {
      thrown++;
    }
    c.check(thrown == 2, "links", "an unknown link was accepted");
  }
}
static void want_planar(Case& c, const S& p, const P& cfg, const char* what) {
  const double h = cfg(2), t = 1e-13 * (1 + std::abs(h));
  Eigen::Matrix4d w;
  w << std::cos(h), -std::sin(h), 0, cfg(0), std::sin(h), std::cos(h), 0, cfg(1), 0, 0, 1, 0, 0, 0, 0, 1;
  c.check(eg::close(p.matrix(), w, 1e-12 + t), "planar-pose", [&] { return std::string(what) + " is " + eg::show(p.matrix()) + " at " + eg::show(cfg.transpose()); });
}
static void planar_state(Case& c, const IP& m, const std::string& n, const P& set) {
  const P g = m.GetPosition();
  c.check(g(0) == set(0) && g(1) == set(1), "planar-set", "the position differs from the one set");
  c.check(g(2) >= -M_PI && g(2) <= M_PI, "planar-wrap", [&] { return str("heading ", g(2), " after setting ", set(2)); });
  c.check(circ(g(2), set(2)) <= 1e-14 * (1 + 10 * std::abs(set(2))), "planar-wrap", [&] { return str("heading ", g(2), " after setting ", set(2)); });
  links(c, m, n, [&](const S& p, const char* w) { want_planar(c, p, set, w); });
}
static void spatial_state(Case& c, const IS& m, const std::string& n, const S& set) {
  c.check(m.GetPosition().matrix() == set.matrix(), "spatial-set", "the configuration differs from the one set");
  links(c, m, n, [&](const S& p, const char* w) { c.check(p.matrix() == set.matrix(), "spatial-set", std::string(w) + " differs from the configuration"); });
}
template <typename Ser, typename Cfg, typename Eq>
static void wire(Case& c, Rng& r, const Cfg& cfg, Eq eq) {
  std::vector<uint8_t> b;
  for (size_t k = r.below(9); k > 0; k--) b.push_back((uint8_t)r.below(256));
  const size_t at = b.size();
  const std::vector<uint8_t> before = b;
  const uint64_t w = Ser::Serialize(cfg, b);
  c.check(w == b.size() - at, "wire", "wrong number of bytes reported");
  c.check(std::equal(before.begin(), before.end(), b.begin()), "wire", "earlier bytes changed");
  for (size_t k = r.below(9); k > 0; k--) b.push_back((uint8_t)r.below(256));
  b.shrink_to_fit();
  const std::pair<Cfg, uint64_t> back = Ser::Deserialize(b, at);
  c.check(back.second == w, "wire", "a different number of bytes read back");
  c.check(eq(back.first, cfg), "wire", "read back a different configuration");
  c.check(!Ser::TypeName().empty(), "wire", "no name");
}
template <typename I, typename Cfg, typename State>
static void history(Case& c, Rng& r, std::unique_ptr<I> first, const std::string& n, Cfg at, const std::function<Cfg()>& gen, State state) {
  std::vector<std::unique_ptr<I>> ms;
  std::vector<Cfg, Eigen::aligned_allocator<Cfg>> want;
  ms.push_back(std::move(first));
  want.push_back(at);
  state(*ms[0], want[0]);
  const size_t steps = 3 + r.below(23);
  for (size_t s = 0; s < steps; s++) {
    const size_t i = r.below(ms.size());
    if (r.chance(0.25) && ms.size() < 5) {
      ms.emplace_back(ms[i]->Clone());
      want.push_back(Cfg(want[i]));
      c.check(ms.back()->GetLinkNames() == std::vector<std::string>{n}, "clone", "a clone has another link name");
      c.count("clones");
    } else if (r.chance(0.15) && ms.size() > 1) {
      ms.erase(ms.begin() + i);
      want.erase(want.begin() + i);
    } else {
      want[i] = gen();
      const Cfg& ret = ms[i]->SetPosition(want[i]);
      c.check(&ret == &ms[i]->GetPosition(), "set-returns", "setting did not return the stored configuration");
      c.count("sets");
    }
    const size_t j = r.below(ms.size());
    state(*ms[j], want[j]);
  }
  for (size_t i = 0; i < ms.size(); i++) state(*ms[i], want[i]);
}
template <typename I, typename Cfg, typename Perturb>
static void jacobian(Case& c, Rng& r, I& m, const std::string& n, const Cfg& q, int dof, Perturb perturb) {
  const Eigen::Vector4d pt = r.chance(0.1) ? Eigen::Vector4d(0, 0, 0, 1) : Eigen::Vector4d(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2), 1);
  m.SetPosition(q);
  const Eigen::MatrixXd j = m.ComputeLinkPointTranslationJacobian(n, pt);
  c.check(j.rows() == 3 && j.cols() == dof, "jacobian", "wrong shape");
  if (j.rows() != 3 || j.cols() != dof) return;
  const double h = 1e-5;
  for (int k = 0; k < dof; k++) {
    m.SetPosition(perturb(q, k, h));
    const Eigen::Vector4d a = m.GetLinkTransform(n) * pt;
    m.SetPosition(perturb(q, k, -h));
    const Eigen::Vector4d b = m.GetLinkTransform(n) * pt;
    const P d = (a - b).head<3>() / (2 * h);
    c.check(eg::close(j.col(k), d, 2e-7 * (1 + q.matrix().cwiseAbs().maxCoeff())), "jacobian", [&] { return str("column ", k, " is ") + eg::show(j.col(k).transpose()) + ", the derivative is " + eg::show(d.transpose()); });
  }
  m.SetPosition(q);
  c.count("jacobian-columns", dof);
}
template <typename I, typename Cfg>
static void base_distance(Case& c, I& m, const Cfg& a, const Cfg& b) {
  m.SetPosition(a);
  const Cfg at = m.GetPosition();
  const Eigen::VectorXd s = m.ComputePerDimensionConfigurationSignedDistance(at, b), u = m.ComputePerDimensionConfigurationDistance(at, b);
  c.check(s.size() == u.size() && u == s.cwiseAbs(), "per-dimension", "absolute distances are not those of the signed ones");
  c.check(m.ComputeConfigurationDistanceTo(b) == m.ComputeConfigurationDistance(at, b), "distance-to", "distance from the current configuration differs");
  c.check(m.ComputePerDimensionConfigurationSignedDistanceTo(b) == s, "distance-to", "signed distances from the current configuration differ");
  c.check(m.ComputePerDimensionConfigurationDistanceTo(b) == u, "distance-to", "absolute distances from the current configuration differ");
}
static void notes(Case& c, const Eigen::MatrixXd& m) {
  for (int i = 0; i < m.size(); i++) c.note(m.data()[i]);
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("planar_histories", 2500, 80000, [](Case& c) {
    Rng& r = c.rng;
    const std::string n = name(r);
    const P q = planar(r, true);
    notes(c, q);
    c.nontrivial(true);
    std::unique_ptr<IP> f;
    auto geo = std::make_shared<EigenHelpers::VectorVector4d>(3, Eigen::Vector4d(1, 2, 3, 1));
    if (r.chance(0.5)) f.reset(new SimpleSE2Robot(q, 1, 1, n));
    else f.reset(new PointSphereBasicSE2Robot(q, 1, 1, n, PointSphereGeometry(PointSphereGeometry::SPHERES, geo)));
    history<IP, P>(c, r, std::move(f), n, q, [&] { return planar(r, true); }, [&](const IP& x, const P& s) {
      planar_state(c, x, n, s);
      if (auto g = dynamic_cast<const PointSphereBasicSE2Robot*>(&x)) {
        const auto& l = g->GetLinkGeometries();
        c.check(l.size() == 1 && l[0].first == n && l[0].second.Geometry() == geo && l[0].second.GeometryType() == PointSphereGeometry::SPHERES, "geometry", "the link geometry differs");
        c.check(g->CheckIfSelfCollisionAllowed(0, 0), "geometry", "a single link may not touch itself");
      }
    });
  });
  m.group("spatial_histories", 2500, 80000, [](Case& c) {
    Rng& r = c.rng;
    const std::string n = name(r);
    const S q = eg::iso(r);
    notes(c, q.matrix());
    c.nontrivial(true);
    std::unique_ptr<IS> f;
    const S origin = eg::iso(r);
    if (r.chance(0.5)) f.reset(new SimpleSE3Robot(q, 1, 1, n));
    else f.reset(new MeshFilenameBasicSE3Robot(q, 1, 1, n, MeshGeometry<std::string>(origin, P(1, 2, 3), "mesh.stl")));
    history<IS, S>(c, r, std::move(f), n, q, [&] { return eg::iso(r); }, [&](const IS& x, const S& s) {
      spatial_state(c, x, n, s);
      if (auto g = dynamic_cast<const MeshFilenameBasicSE3Robot*>(&x)) {
        const auto& l = g->GetLinkGeometries();
        c.check(l.size() == 1 && l[0].first == n && l[0].second.Mesh() == "mesh.stl" && l[0].second.Scale() == P(1, 2, 3) && l[0].second.OriginTransform().matrix() == origin.matrix(), "geometry", "the link geometry differs");
        c.check(g->CheckIfSelfCollisionAllowed(0, 0), "geometry", "a single link may not touch itself");
      }
    });
  });
  m.group("planar", 6000, 200000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    const std::string n = name(r);
    const double pw = r.real(-3, 3), rw = r.chance(0.2) ? 0 : r.real(-3, 3);
    SimpleSE2Robot m(P::Zero(), pw, rw, n);
    P x[3];
    for (auto& v : x) v = m.SetPosition(planar(r, true));
    const bool same = r.chance(0.15);
    if (same) x[1] = x[0];
    for (auto& v : x) notes(c, v);
    c.nontrivial(!same);
    auto dist = [&](const P& a, const P& b) { return m.ComputeConfigurationDistance(a, b); };
    const double ab = dist(x[0], x[1]), big = 1 + std::abs(ab);
    const double flat = std::hypot(x[1](0) - x[0](0), x[1](1) - x[0](1)), ang = circ(x[0](2), x[1](2));
    c.check(std::abs(ab - (std::abs(pw) * flat + std::abs(rw) * ang)) <= 1e-12 * big, "distance", [&] { return str(ab, " for ", flat, " and ", ang, " with ", pw, " ", rw); });
    c.check(std::abs(ab - dist(x[1], x[0])) <= 1e-12 * big, "symmetric", "distance differs the other way");
    if (same) c.check(ab == 0, "zero", "distance to itself");
    c.check(dist(x[0], x[2]) <= ab + dist(x[1], x[2]) + 1e-9 * (big + dist(x[1], x[2])), "triangle", "a detour is shorter");
    const Eigen::VectorXd s = m.ComputePerDimensionConfigurationSignedDistance(x[0], x[1]);
    c.check(s.size() == 3 && s(0) == x[1](0) - x[0](0) && s(1) == x[1](1) - x[0](1), "signed", "signed position differences");
    c.check(s.size() == 3 && std::abs(s(2)) <= M_PI + 1e-12 && circ(x[0](2) + s(2), x[1](2)) <= 1e-12, "signed", [&] { return str("turning ", s(2), " from ", x[0](2), " does not reach ", x[1](2)); });
    base_distance<IP>(c, m, x[0], x[1]);
    const bool seam = ang > M_PI - 1e-6;
    for (int k = 0; k < 6; k++) {
      const double t = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? r.real(-3, 0) : k == 3 ? r.real(1, 4) : r.real(0, 1), u = std::min(1.0, std::max(0.0, t));
      const P i = m.InterpolateBetweenConfigurations(x[0], x[1], t);
      for (int d = 0; d < 2; d++) c.check(std::abs(i(d) - (x[0](d) + u * (x[1](d) - x[0](d)))) <= 1e-12 * (1 + x[0].norm() + x[1].norm()), "interpolate", "position off the line");
      c.check(i(2) >= -M_PI && i(2) <= M_PI, "interpolate", "heading not wrapped");
      if (u == 0 || u == 1) c.check(circ(i(2), x[(int)u](2)) <= 1e-12, "interpolate-ends", [&] { return str("heading ", i(2), " at ratio ", t); });
      c.check(std::abs(circ(i(2), x[0](2)) - u * ang) <= 1e-9 && (seam || std::abs(circ(i(2), x[1](2)) - (1 - u) * ang) <= 1e-9), "interpolate", [&] { return str("heading ", i(2), " at ", t, " between ", x[0](2), " and ", x[1](2)); });
    }
    c.count("interpolations", 6);
    // averages
    const size_t k = 1 + r.below(8);
    const VP eq(k, x[0]);
    c.check(eg::close(m.AverageConfigurations(eq), x[0], 1e-12 * (1 + x[0].norm())), "average-equal", "equal configurations average to another");
    VP v;
    P lo = P::Constant(1e9), hi = -lo, sum = P::Zero();
    const double spread = r.real(0, 1.5), mid = r.real(-1.5, 1.5);
    for (size_t i = 0; i < k; i++) {
      v.push_back(P(r.real(-5, 5), r.real(-5, 5), mid + r.real(-spread, spread)));
      lo = lo.cwiseMin(v[i]), hi = hi.cwiseMax(v[i]), sum += v[i];
    }
    const P av = m.AverageConfigurations(v);
    c.check(eg::close(av, sum / (double)k, 1e-12), "average", [&] { return eg::show(av.transpose()) + " of " + std::to_string(k); });
    std::reverse(v.begin(), v.end());
    c.check(eg::close(m.AverageConfigurations(v), av, 1e-12), "average", "order matters");
    c.check(m.AverageConfigurations(VP()) == P::Zero(), "average", "of none");
    jacobian<IP>(c, r, m, n, P(r.real(-5, 5), r.real(-5, 5), heading(r, true)), 3, [](P q, int d, double h) {
      q(d) += h;
      return q;
    });
    wire<SimpleSE2ConfigSerializer>(c, r, x[2], [](const P& a, const P& b) { return a == b; });
  });
  m.group("spatial", 6000, 200000, [](Case& c) {
    Quiet q;
    Rng& r = c.rng;
    const std::string n = name(r);
    const double pw = r.real(-3, 3), rw = r.chance(0.2) ? 0 : r.real(-3, 3);
    SimpleSE3Robot m(S::Identity(), pw, rw, n);
    std::vector<S, Eigen::aligned_allocator<S>> x;
    for (int i = 0; i < 3; i++) x.push_back(eg::iso(r));
    const bool same = r.chance(0.15);
    if (same) x[1] = x[0];
    for (auto& v : x) notes(c, v.matrix());
    c.nontrivial(!same);
    auto dist = [&](const S& a, const S& b) { return m.ComputeConfigurationDistance(a, b); };
    const double ab = dist(x[0], x[1]);
    const double flat = (x[1].translation() - x[0].translation()).norm(), ang = turn(x[0].linear(), x[1].linear());
    c.check(std::abs(ab - (std::abs(pw) * flat + std::abs(rw) * ang)) <= 5e-7, "distance", [&] { return str(ab, " for ", flat, " and ", ang, " with ", pw, " ", rw); });
    c.check(std::abs(ab - dist(x[1], x[0])) <= 1e-12, "symmetric", "distance differs the other way");
    if (same) c.check(std::abs(ab) <= 1e-6, "zero", "distance to itself");
    c.check(dist(x[0], x[2]) <= ab + dist(x[1], x[2]) + 1e-6, "triangle", "a detour is shorter");
    const Eigen::VectorXd s = m.ComputePerDimensionConfigurationSignedDistance(x[0], x[1]);
    c.check(s.size() == 4 && eg::close(s.head<3>(), x[1].translation() - x[0].translation(), 0), "signed", "signed position differences");
    c.check(s.size() == 4 && std::abs(std::abs(s(3)) - ang) <= 2e-7, "signed", "rotation difference");
    base_distance<IS>(c, m, x[0], x[1]);
    const bool seam = ang > M_PI - 1e-3;
    for (int k = 0; k < 6; k++) {
      const double t = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? r.real(-3, 0) : k == 3 ? r.real(1, 4) : r.real(0, 1), u = std::min(1.0, std::max(0.0, t));
      const S i = m.InterpolateBetweenConfigurations(x[0], x[1], t);
      c.check(rigid(i), "interpolate", "not a rigid pose");
      c.check(eg::close(i.translation(), x[0].translation() + u * (x[1].translation() - x[0].translation()), 1e-12), "interpolate", "position off the line");
      if (u == 0 || u == 1) c.check(eg::close(i.matrix(), x[(size_t)u].matrix(), 1e-9), "interpolate-ends", "an end is not reached");
      c.check(std::abs(turn(x[0].linear(), i.linear()) - u * ang) <= 1e-6 && (seam || std::abs(turn(i.linear(), x[1].linear()) - (1 - u) * ang) <= 1e-6), "interpolate", [&] { return str("turned ", turn(x[0].linear(), i.linear()), " of ", ang, " at ", t); });
    }
    c.count("interpolations", 6);
    const size_t k = 1 + r.below(8);
    const VS eq(k, x[0]);
    c.check(eg::close(m.AverageConfigurations(eq).matrix(), x[0].matrix(), 1e-9), "average-equal", "equal configurations average to another");
    VS v;
    P sum = P::Zero();
    const Eigen::Quaterniond mid = eg::rot(r);
    const double spread = r.real(0, 0.7);
    for (size_t i = 0; i < k; i++) {
      S e = S::Identity();
      e.linear() = (mid * Eigen::Quaterniond(Eigen::AngleAxisd(r.real(0, spread), eg::unit(r)))).toRotationMatrix();
      e.translation() = eg::vec(r, 5);
      v.push_back(e);
      sum += e.translation();
    }
    const S av = m.AverageConfigurations(v);
    c.check(rigid(av), "average", "not a rigid pose");
    c.check(eg::close(av.translation(), sum / (double)k, 1e-12), "average", "position is not the mean");
    c.check(turn(mid.toRotationMatrix(), av.linear()) <= spread + 1e-7, "average", [&] { return str("orientation ", turn(mid.toRotationMatrix(), av.linear()), " outside a cluster of ", spread); });
    std::reverse(v.begin(), v.end());
    c.check(eg::close(m.AverageConfigurations(v).matrix(), av.matrix(), 1e-9), "average", "order matters");
    c.check(m.AverageConfigurations(VS()).matrix() == S::Identity().matrix(), "average", "of none");
    jacobian<IS>(c, r, m, n, eg::iso(r), 6, [](const S& q, int d, double h) {
      S p = q;
      if (d < 3) p.translation() += h * q.linear().col(d);
      else p.linear() = q.linear() * Eigen::AngleAxisd(h, P::Unit(d - 3)).toRotationMatrix();
      return p;
    });
    wire<SimpleSE3ConfigSerializer>(c, r, x[2], [](const S& a, const S& b) { return a.matrix() == b.matrix(); });
  });
  return m.finish();
}
