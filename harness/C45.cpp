// MON-variants: asan
// MON-flags: -I$ROOT/stubs/cpp
// MON-libs: trajectory_utils
// MON-rule: messages with wild doubles, any header and frame names of any bytes and length, preceded and followed by other data, every truncation of a sample; trajectories with equal, empty, shorter, longer, permuted and changed joint names, self-joining, chains of joins; parameters present, missing and of other types; distinct by bytes, names or parameters
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <Eigen/Geometry>
#include "ros/ros.h"
#include "arc_utilities/serialization_ros.hpp"
#include "arc_utilities/trajectory_utils.h"
#include "arc_utilities/ros_helpers.hpp"
#include "arc_utilities/moveit_ostream_operators.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_utilities;
namespace gm = geometry_msgs;

static double wild(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.pick(std::vector<double>{0.0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308});
    default: return r.normal() * r.pick(std::vector<double>{1, 1e-200, 1e200});
  }
}
static std::string name(Rng& r) {
  std::string s;
  for (size_t i = 0, n = r.chance(0.2) ? 0 : r.below(r.chance(0.1) ? 300 : 12); i < n; i++) s += (char)r.below(256);
  return s;
}
static gm::Point pt(Rng& r) { gm::Point p; p.x = wild(r), p.y = wild(r), p.z = wild(r); return p; }
static gm::Vector3 v3(Rng& r) { gm::Vector3 p; p.x = wild(r), p.y = wild(r), p.z = wild(r); return p; }
static gm::Quaternion qt(Rng& r) { gm::Quaternion p; p.x = wild(r), p.y = wild(r), p.z = wild(r), p.w = wild(r); return p; }
static gm::Pose ps(Rng& r) { gm::Pose p; p.position = pt(r), p.orientation = qt(r); return p; }
static gm::Transform tf(Rng& r) { gm::Transform p; p.translation = v3(r), p.rotation = qt(r); return p; }
static std_msgs::Header hd(Rng& r) {
  std_msgs::Header h;
  h.seq = (uint32_t)r.u64(), h.stamp.sec = (uint32_t)r.u64(), h.stamp.nsec = (uint32_t)r.u64(), h.frame_id = name(r);
  return h;
}
static trajectory_msgs::JointTrajectoryPoint jp(Rng& r, double t) {
  trajectory_msgs::JointTrajectoryPoint p;
  for (size_t i = 0, n = r.below(5); i < n; i++) p.positions.push_back(r.normal()), p.velocities.push_back(r.normal());
  if (r.chance(0.3)) p.effort.push_back(r.normal());
  if (r.chance(0.3)) p.accelerations.push_back(r.normal());
  p.time_from_start = ros::Duration(t);
  return p;
}
// two messages are the same when their independent wire images are
template <typename M>
static std::string image(const M& m) {
  const ros::SerializedMessage s = ros::serialization::serializeMessage(m);
  return std::string((const char*)s.buf.get(), s.num_bytes);
}
struct Noise {
  std::vector<uint8_t> before, after;
  Noise(Rng& r) {
    for (size_t i = 0, n = r.chance(0.3) ? 0 : r.below(20); i < n; i++) before.push_back((uint8_t)r.u64());
    for (size_t i = 0, n = r.chance(0.5) ? 0 : r.below(20); i < n; i++) after.push_back((uint8_t)r.u64());
  }
};
template <typename M, typename S, typename D>
static void trip(Case& c, const char* what, const M& m, S ser, D de) {
  Noise nz(c.rng);
  std::vector<uint8_t> buf = nz.before;
  const uint64_t w = ser(m, buf);
  c.check(buf.size() == nz.before.size() + w, what, [&] { return "reported " + std::to_string(w) + " bytes, wrote " + std::to_string(buf.size() - nz.before.size()); });
  c.check(std::equal(nz.before.begin(), nz.before.end(), buf.begin()), what, "earlier bytes were changed");
  std::vector<uint8_t> again;
  ser(m, again);
  c.check(again.size() == w && std::equal(again.begin(), again.end(), buf.begin() + nz.before.size()), what, "the same message gave different bytes");
  buf.insert(buf.end(), nz.after.begin(), nz.after.end());
  buf.shrink_to_fit();
  const auto r = de(buf, nz.before.size());
  c.check(r.second == w, what, [&] { return "wrote " + std::to_string(w) + " bytes, read " + std::to_string(r.second); });
  c.check(image(r.first) == image(m), what, [&] { return "read back differently at offset " + std::to_string(nz.before.size()) + " of " + std::to_string(buf.size()); });
  c.count("bytes", w);
}
template <typename D>
static void cut(Case& c, const char* what, const std::vector<uint8_t>& whole, size_t keep, D de) {
  const std::vector<uint8_t> part(whole.begin(), whole.begin() + keep);
  const Probe pr = Monitor::probe([&] {
    de(part, 0);
    return std::string();
  });
  c.check(pr.kind == Probe::THREW || pr.kind == Probe::ABORTED, what, [&] {
    return "the first " + std::to_string(keep) + " of " + std::to_string(whole.size()) + " bytes were " + (pr.kind == Probe::RETURNED ? "accepted" : "read past");
  });
  c.count("truncations");
}
typedef trajectory_msgs::JointTrajectory JT;
static std::string names(const JT& t) {
  std::string s;
  for (auto& n : t.joint_names) s += n + ",";
  return "[" + s + "]x" + std::to_string(t.points.size());
}
template <typename F>
static int outcome(F f) {
  try {
    f();
    return 0;
  } catch (const std::invalid_argument&) {
    return 2;
  } catch (const std::exception&) {
    return 1;
  }
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("messages", 6000, 150000, [](Case& c) {
    c.nontrivial(true);
    Rng& r = c.rng;
    gm::PoseStamped p;
    p.header = hd(r), p.pose = ps(r);
    gm::TransformStamped t;
    t.header = hd(r), t.transform = tf(r), t.child_frame_id = name(r);
    c.note(std::to_string(std::hash<std::string>()(image(p) + image(t))));
    auto B = [](auto f) { return [f](const std::vector<uint8_t>& b, uint64_t o) { return f(b, o); }; };
    trip(c, "header", p.header, SerializeHeader, B(DeserializeHeader));
    trip(c, "point", p.pose.position, SerializePoint, B(DeserializePoint));
    trip(c, "vector", t.transform.translation, SerializeVector3, B(DeserializeVector3));
    trip(c, "quaternion", p.pose.orientation, SerializeQuaternion, B(DeserializeQuaternion));
    trip(c, "pose", p.pose, SerializePose, B(DeserializePose));
    trip(c, "pose_stamped", p, SerializePoseStamped, B(DeserializePoseStamped));
    trip(c, "transform", t.transform, SerializeTransform, B(DeserializeTransform));
    trip(c, "transform_stamped", t, SerializeTransformStamped, B(DeserializeTransformStamped));
    trip(c, "whole_message", p, RosMessageSerializationWrapper<gm::PoseStamped>, B(RosMessageDeserializationWrapper<gm::PoseStamped>));
    trip(c, "whole_message", t, RosMessageSerializationWrapper<gm::TransformStamped>, B(RosMessageDeserializationWrapper<gm::TransformStamped>));
    JT j;
    j.header = hd(r);
    for (size_t i = 0, n = r.below(4); i < n; i++) j.joint_names.push_back(name(r)), j.points.push_back(jp(r, r.real(0, 9)));
    trip(c, "whole_message", j, RosMessageSerializationWrapper<JT>, B(RosMessageDeserializationWrapper<JT>));
  });
  m.group("sequences", 3000, 60000, [](Case& c) {
    Rng& r = c.rng;
    std::vector<uint8_t> buf;
    std::vector<gm::PoseStamped> seq(1 + r.below(6));
    std::vector<bool> wire;
    std::string h;
    for (auto& e : seq) {
      e.header = hd(r), e.pose = ps(r);
      wire.push_back(r.chance(0.5));
      if (wire.back())
        RosMessageSerializationWrapper(e, buf);
      else
        SerializePoseStamped(e, buf);
      h += image(e);
    }
    c.note(std::to_string(std::hash<std::string>()(h)));
    c.nontrivial(seq.size() > 1);
    uint64_t at = 0;
    for (size_t i = 0; i < seq.size(); i++) {
      auto got = wire[i] ? RosMessageDeserializationWrapper<gm::PoseStamped>(buf, at) : DeserializePoseStamped(buf, at);
      c.check(image(got.first) == image(seq[i]), "sequence", [&] { return "message " + std::to_string(i) + " of " + std::to_string(seq.size()) + " read back differently"; });
      at += got.second;
    }
    c.check(at == buf.size(), "sequence", [&] { return "read " + std::to_string(at) + " of " + std::to_string(buf.size()) + " bytes"; });
    c.count("messages", seq.size());
  });
  m.group("truncated", 100, 3000, [](Case& c) {
    c.nontrivial(true);
    Rng& r = c.rng;
    gm::PoseStamped p;
    p.header = hd(r), p.pose = ps(r);
    gm::TransformStamped t;
    t.header = hd(r), t.transform = tf(r), t.child_frame_id = name(r) + "c";
    std::vector<uint8_t> a, b, w;
    SerializePoseStamped(p, a);
    SerializeTransformStamped(t, b);
    RosMessageSerializationWrapper(t, w);
    c.note(std::to_string(std::hash<std::string>()(image(p) + image(t))));
    for (int i = 0; i < 2; i++) {
      cut(c, "pose_stamped", a, r.below(a.size()), DeserializePoseStamped);
      cut(c, "transform_stamped", b, r.below(b.size()), DeserializeTransformStamped);
      const size_t k = r.below(w.size() - 4);
      if (k) cut(c, "whole_message", w, k, RosMessageDeserializationWrapper<gm::TransformStamped>);
    }
    cut(c, "pose_stamped", a, a.size() - 1, DeserializePoseStamped);
    cut(c, "transform_stamped", b, b.size() - 1, DeserializeTransformStamped);
  });
  m.group("trajectories", 8000, 200000, [](Case& c) {
    Rng& r = c.rng;
    auto make = [&](const std::vector<std::string>& jn) {
      JT t;
      t.header.frame_id = r.chance(0.4) ? "" : "f" + std::to_string(r.below(3));
      t.joint_names = jn;
      double at = 0;
      for (size_t i = 0, n = r.below(6); i < n; i++) t.points.push_back(jp(r, at += r.real(0, 2)));
      t.joint_names.shrink_to_fit();
      return t;
    };
    std::vector<std::string> jn;
    for (size_t i = 0, n = r.below(5); i < n; i++) jn.push_back("joint" + std::to_string(i) + (r.chance(0.2) ? std::string(30, 'n') : ""));
    JT a = make(r.chance(0.15) ? std::vector<std::string>() : jn);
    std::string h = names(a);
    for (int step = 0, steps = 1 + (int)r.below(4); step < steps; step++) {
      const bool self = r.chance(0.1);
      std::vector<std::string> other = jn;
      if (r.chance(0.4)) switch (r.below(5)) {
          case 0: other.push_back("extra"); break;
          case 1: if (!other.empty()) other.pop_back(); break;
          case 2: std::reverse(other.begin(), other.end()); break;
          case 3: if (!other.empty()) other[r.below(other.size())] += "x"; break;
          default: other.clear();
        }
      JT b = make(other);
      if (self) b = a;
      h += (self ? "+self" : "+") + names(b);
      const JT before = a;
      const bool match = a.joint_names.empty() || a.joint_names == b.joint_names;
      const int res = outcome([&] { trajectory_utils::append(a, self ? a : b); });
      c.check((res == 0) == match, "names", [&] { return h + (res ? ": refused" : ": accepted"); });
      if (res) {
        c.check(image(a) == image(before), "untouched", [&] { return h + ": the refused trajectory was changed"; });
        continue;
      }
      JT want = before;
      if (want.joint_names.empty()) want.joint_names = b.joint_names;
      if (want.header.frame_id.empty()) want.header.frame_id = b.header.frame_id;
      const int64_t end = before.points.empty() ? 0 : before.points.back().time_from_start.toNSec();
      for (auto p : b.points) {
        p.time_from_start.set(p.time_from_start.toNSec() + end);
        want.points.push_back(p);
      }
      c.check(a.points.size() == want.points.size(), "points", [&] { return h + ": " + std::to_string(a.points.size()) + " points instead of " + std::to_string(want.points.size()); });
      c.check(image(a) == image(want), "points", [&] { return h + ": the joined trajectory differs from its parts"; });
      for (size_t i = 1; i < a.points.size(); i++) c.check(!(a.points[i].time_from_start < a.points[i - 1].time_from_start), "order", [&] { return h + ": time goes back at point " + std::to_string(i); });
      c.count("joined points", b.points.size());
    }
    c.note(h);
    c.nontrivial(a.points.size() > 1);
  });
  m.group("parameters", 5000, 100000, [](Case& c) {
    using namespace ROSHelpers;
    Rng& r = c.rng;
    ros::NodeHandle nh("/ns");
    typedef ros_stub::Param P;
    const std::string keys[4] = {"a", "b", "c", "d"};
    P stored[4];
    bool there[4];
    std::string h;
    for (int i = 0; i < 4; i++) {
      there[i] = r.chance(0.75);
      if (!there[i]) {
        h += "-";
        continue;
      }
      const int kind = (int)r.below(6);
      h += std::to_string(kind);
      if (kind == 0) nh.setParam(keys[i], r.chance(0.5)); 
      if (kind == 1) nh.setParam(keys[i], (int)r.range(-5, 5));
      if (kind == 2) nh.setParam(keys[i], r.normal());
      if (kind == 3) nh.setParam(keys[i], std::string("s") + std::to_string(r.below(9)));
      std::vector<double> v(r.below(4));
      for (auto& x : v) x = r.normal();
      if (kind == 4) nh.setParam(keys[i], v);
      if (kind == 5) nh.setParam(keys[i], std::vector<std::string>(r.below(3), "e"));
    }
    c.note(h + std::to_string(r.u64() % 100000));
    c.nontrivial(true);
    for (int i = 0; i < 4; i++) {
      const std::string& k = keys[i];
      auto one = [&](auto def, const char* what) {
        typedef decltype(def) T;
        T v = T();
        const bool have = nh.getParam(k, v);
        const T want = have ? v : def;
        c.check(GetParam<T>(nh, k, def) == want && GetParam<T>(nh, k, T(def)) == want && GetParamDebugLog<T>(nh, k, def) == want && GetParamDebugLog<T>(nh, k, T(def)) == want, "param", [&] { return std::string(what) + " parameter " + k + " of " + h; });
        auto o = GetParamOptional<T>(nh, k, "caller");
        c.check(o.Valid() == have && (!have || o.Get() == v), "optional", [&] { return std::string(what) + " parameter " + k + " of " + h; });
        T got = T();
        int e = outcome([&] { got = GetParamRequired<T>(nh, k, "caller"); });
        c.check(e == (have ? 0 : 2) && (!have || got == v), "required", [&] { return std::string(what) + " parameter " + k + " of " + h + " outcome " + std::to_string(e); });
        got = T();
        e = outcome([&] { got = GetParamRequiredDebugLog<T>(nh, k, "caller"); });
        c.check(e == (have ? 0 : 2) && (!have || got == v), "required", [&] { return std::string(what) + " parameter " + k + " of " + h + " outcome " + std::to_string(e); });
        c.count("lookups", 7);
      };
      one(true, "bool");
      one(-77, "int");
      one(3.25, "double");
      one(std::string("default"), "string");
      auto many = [&](auto def, const char* what) {
        typedef decltype(def) V;
        typedef typename V::value_type T;
        V v;
        const bool have = nh.getParam(k, v);
        c.check(GetVector<T>(nh, k, def) == (have ? v : def), "vector", [&] { return std::string(what) + " list " + k + " of " + h; });
        auto o = GetVectorOptional<T>(nh, k, "caller");
        c.check(o.Valid() == have && (!have || o.Get() == v), "vector", [&] { return std::string(what) + " optional list " + k + " of " + h; });
        V got;
        int e = outcome([&] { got = GetVectorRequired<T>(nh, k, "caller"); });
        c.check(e == (have ? 0 : 2) && (!have || got == v), "vector", [&] { return std::string(what) + " required list " + k + " of " + h; });
        got.clear();
        e = outcome([&] { got = GetVectorRequiredDebugLog<T>(nh, k, "caller"); });
        c.check(e == (have ? 0 : 2) && (!have || got == v), "vector", [&] { return std::string(what) + " required list " + k + " of " + h; });
        c.count("lookups", 4);
      };
      many(std::vector<double>{1, 2}, "double");
      many(std::vector<std::string>{"x"}, "string");
    }
    ros_stub::lines().clear();
  });
  m.group("collisions", 500, 5000, [](Case& c) {
    Rng& r = c.rng;
    collision_detection::CollisionResult cr;
    cr.collision = r.chance(0.7);
    for (size_t i = 0, n = r.below(4); i < n; i++) {
      const std::string a = "l" + std::to_string(r.below(5)), b = "o" + std::to_string(r.below(5));
      for (size_t j = 0, k = r.below(3); j < k; j++) {
        collision_detection::Contact ct;
        ct.body_name_1 = a, ct.body_name_2 = b;
        cr.contacts[{a, b}].push_back(ct);
      }
    }
    std::ostringstream o;
    o << cr;
    const std::string s = o.str();
    c.note(s + std::to_string(cr.contacts.size()));
    c.nontrivial(cr.collision);
    if (!cr.collision)
      c.check(s == "no collision", "collision", s);
    else if (cr.contacts.empty())
      c.check(s == "collision found but no contacts reported", "collision", s);
    else {
      auto& f = *cr.contacts.begin();
      const bool more = cr.contacts.size() > 1 || f.second.size() > 1;
      c.check(s == "collision between " + f.first.first + " and " + f.first.second + (more ? " among others...\n" : ""), "collision", s);
    }
  });
  return m.finish();
}
