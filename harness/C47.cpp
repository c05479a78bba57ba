// MON-variants: asan asan-debugstl
// MON-rule: values of 20 types (numbers, text, booleans, vectors, matrices, orientations, poses) and nested sequences, maps, sets and pairs of 0-6 elements with random separators, plain and delimited; numbers from 1e-300 to 1e300; distinct by printed text
#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "arc_utilities/pretty_print.hpp"
#include "arc_utilities/ostream_operators.hpp"
#include "eig.hpp"
using namespace mon;
template <typename T>
using AV = std::vector<T, Eigen::aligned_allocator<T>>;
// Every number in a text, after the given prefix is gone.
static std::vector<double> numbers(const std::string& s) {
  std::vector<double> v;
  for (size_t i = 0; i < s.size();) {
    const char ch = s[i];
    if (isdigit((unsigned char)ch) || ch == '-' || ch == '.') {
      char* e;
      v.push_back(strtod(s.c_str() + i, &e));
      const size_t n = (size_t)(e - s.c_str());
      if (n == i) i++, v.pop_back();
      else i = n;
    } else i++;
  }
  return v;
}
static bool digits12(double got, double want) { return std::abs(got - want) <= 5.1e-12 * std::abs(want); }
static double num(Rng& r) {
  switch (r.below(6)) {
    case 0: return (double)((int)r.below(21) - 10);
    case 1: return r.real(-1, 1) * std::pow(10.0, r.real(-300, 300));
    case 2: return r.real(-1, 1) * 1e-9;
    default: return r.real(-1000, 1000);
  }
}
static std::string word(Rng& r) {
  std::string s;
  for (size_t n = r.below(6); n > 0; n--) s += (char)('a' + r.below(26));
  return s;
}
static std::string separator(Rng& r) {
  const char* s[] = {", ", " ", "\n", ";", " | ", "", "::"};
  return s[r.below(7)];
}
// ---- random values
template <typename T>
struct Gen;
#define GEN(T, e) \
  template <>     \
  struct Gen<T> { \
    static T go(Rng& r) { e; } \
  };
GEN(int, return (int)r.below(200) - 100)
GEN(uint64_t, return r.u64())
GEN(double, return num(r))
GEN(bool, return r.chance(0.5))
GEN(std::string, return word(r))
GEN(Eigen::Vector2d, return Eigen::Vector2d(num(r), num(r)))
GEN(Eigen::Vector3d, return Eigen::Vector3d(num(r), num(r), num(r)))
GEN(Eigen::Vector4d, return Eigen::Vector4d(num(r), num(r), num(r), num(r)))
GEN(Eigen::VectorXd, Eigen::VectorXd v((int)r.below(7)); for (int i = 0; i < v.size(); i++) v(i) = num(r); return v)
GEN(Eigen::MatrixXd, Eigen::MatrixXd v(1 + (int)r.below(4), 1 + (int)r.below(4)); for (int i = 0; i < v.size(); i++) v.data()[i] = num(r); return v)
GEN(Eigen::Quaterniond, return eg::rot(r))
GEN(Eigen::Isometry3d, return eg::iso(r))
template <typename A, typename B>
struct Gen<std::pair<A, B>> {
  static std::pair<A, B> go(Rng& r) {
    A a = Gen<A>::go(r);
    return std::pair<A, B>(a, Gen<B>::go(r));
  }
};
template <typename T, size_t N>
struct Gen<std::array<T, N>> {
  static std::array<T, N> go(Rng& r) {
    std::array<T, N> a;
    for (auto& x : a) x = Gen<T>::go(r);
    return a;
  }
};
template <typename C, typename T>
static C seq(Rng& r) {
  std::vector<T, Eigen::aligned_allocator<T>> v;
  for (size_t n = r.below(7); n > 0; n--) v.push_back(Gen<T>::go(r));
  return C(v.begin(), v.end());
}
#define SEQ(C)                                            \
  template <typename T, typename A>                       \
  struct Gen<C<T, A>> {                                   \
    static C<T, A> go(Rng& r) { return seq<C<T, A>, T>(r); } \
  };
SEQ(std::vector)
SEQ(std::list)
SEQ(std::forward_list)
SEQ(std::deque)
#define SEQ3(C)                                                 \
  template <typename T, typename P, typename A>                 \
  struct Gen<C<T, P, A>> {                                      \
    static C<T, P, A> go(Rng& r) { return seq<C<T, P, A>, T>(r); } \
  };
SEQ3(std::set)
SEQ3(std::multiset)
#define SEQ4(C)                                                       \
  template <typename T, typename H, typename P, typename A>           \
  struct Gen<C<T, H, P, A>> {                                         \
    static C<T, H, P, A> go(Rng& r) { return seq<C<T, H, P, A>, T>(r); } \
  };
SEQ4(std::unordered_set)
SEQ4(std::unordered_multiset)
#define MAP4(C)                                             \
  template <typename K, typename V, typename P, typename A> \
  struct Gen<C<K, V, P, A>> {                               \
    static C<K, V, P, A> go(Rng& r) {                       \
      C<K, V, P, A> m;                                      \
      for (size_t n = r.below(7); n > 0; n--) m.insert(Gen<std::pair<K, V>>::go(r)); \
      return m;                                             \
    }                                                       \
  };
MAP4(std::map)
MAP4(std::multimap)
#define MAP5(C)                                                         \
  template <typename K, typename V, typename H, typename P, typename A> \
  struct Gen<C<K, V, H, P, A>> {                                        \
    static C<K, V, H, P, A> go(Rng& r) {                                \
      C<K, V, H, P, A> m;                                               \
      for (size_t n = r.below(7); n > 0; n--) m.insert(Gen<std::pair<K, V>>::go(r)); \
      return m;                                                         \
    }                                                                   \
  };
MAP5(std::unordered_map)
MAP5(std::unordered_multimap)
// ---- what the text should be; the leaves with coordinates are checked on their own
struct Fmt {
  Case* c;
  bool del;
  std::string sep;
};
static std::string ref(const int& v, Fmt&) { return std::to_string(v); }
static std::string ref(const uint64_t& v, Fmt&) { return std::to_string(v); }
static std::string ref(const bool& v, Fmt&) { return v ? "true" : "false"; }
static std::string ref(const std::string& v, Fmt&) { return v; }
static std::string ref(const double& v, Fmt& f) {
  const std::string s = PrettyPrint::PrettyPrint(v, f.del, f.sep);
  const auto n = numbers(s);
  f.c->check(n.size() == 1 && std::abs(n[0] - v) <= 5.1e-6 * std::abs(v), "number", [&] { return s + str(" for ", v); });
  return s;
}
static void coords(Fmt& f, const std::string& s, const std::vector<double>& want, const char* what, const char* join = ", ") {
  std::string body = s;
  const size_t at = s.find('<') == std::string::npos ? s.find('[') : s.find('<');
  if (f.del) {
    f.c->check(at != std::string::npos && (s.back() == '>' || s.back() == ']'), what, [&] { return "no delimiters in " + s; });
    if (at != std::string::npos) body = s.substr(at);
  } else {
    size_t seps = 0;
    for (size_t p = s.find(join); p != std::string::npos; p = s.find(join, p + 1)) seps++;
    f.c->check(want.empty() || join[0] == 0 || seps + 1 == want.size(), what, [&] { return s + " is not separated"; });
  }
  const auto n = numbers(body);
  bool ok = n.size() == want.size();
  for (size_t i = 0; ok && i < n.size(); i++) ok = digits12(n[i], want[i]);
  f.c->check(ok, what, [&] {
    std::string w;
    for (double x : want) w += str(x, " ");
    return s + " for " + w;
  });
  f.c->count("coordinates", (int64_t)want.size());
}
template <int N>
static std::string vref(const Eigen::Matrix<double, N, 1>& v, Fmt& f, const char* what) {
  const std::string s = PrettyPrint::PrettyPrint(v, f.del, f.sep);
  coords(f, s, std::vector<double>(v.data(), v.data() + v.size()), what);
  return s;
}
static std::string ref(const Eigen::Vector2d& v, Fmt& f) { return vref<2>(v, f, "vector2"); }
static std::string ref(const Eigen::Vector3d& v, Fmt& f) { return vref<3>(v, f, "vector3"); }
static std::string ref(const Eigen::Vector4d& v, Fmt& f) { return vref<4>(v, f, "vector4"); }
static std::string ref(const Eigen::VectorXd& v, Fmt& f) { return vref<-1>(v, f, "vectorx"); }
static std::string ref(const Eigen::MatrixXd& m, Fmt& f) {
  const std::string s = PrettyPrint::PrettyPrint(m, f.del, f.sep);
  std::vector<double> w;
  for (int i = 0; i < m.rows(); i++)
    for (int j = 0; j < m.cols(); j++) w.push_back(m(i, j));
  coords(f, s, w, "matrix", "");
  f.c->check(std::count(s.begin(), s.end(), '\n') >= m.rows() - 1, "matrix", "rows are not on separate lines");
  return s;
}
static std::string ref(const Eigen::Quaterniond& q, Fmt& f) {
  const std::string s = PrettyPrint::PrettyPrint(q, f.del, f.sep);
  coords(f, s, {q.x(), q.y(), q.z(), q.w()}, "quaternion");
  return s;
}
static std::string ref(const Eigen::Isometry3d& t, Fmt& f) {
  const std::string s = PrettyPrint::PrettyPrint(t, f.del, f.sep);
  const size_t at = s.find('<');
  const auto n = numbers(f.del && at != std::string::npos ? s.substr(at) : s);
  f.c->check(n.size() == 7, "pose", [&] { return s + " has not seven numbers"; });
  if (n.size() != 7) return s;
  for (int i = 0; i < 3; i++) f.c->check(digits12(n[i], t.translation()(i)), "pose", [&] { return s + " has another position"; });
  const Eigen::Quaterniond q(n[6], n[3], n[4], n[5]);
  f.c->check(eg::close(q.toRotationMatrix(), t.linear(), 1e-9), "pose", [&] { return s + " has another orientation"; });
  f.c->count("coordinates", 7);
  return s;
}
template <typename A, typename B>
static std::string ref(const std::pair<A, B>& p, Fmt& f);
template <typename I>
static std::string many(I b, I e, Fmt& f, const char* open, const char* close);
template <typename T, size_t N>
static std::string ref(const std::array<T, N>& v, Fmt& f) { return many(v.begin(), v.end(), f, "[", "]"); }
#define REF(C, o, x) \
  template <typename... T> \
  static std::string ref(const C<T...>& v, Fmt& f);
#define ALL \
  REF(std::vector, "[", "]") REF(std::list, "[", "]") REF(std::forward_list, "[", "]") REF(std::deque, "[", "]") REF(std::map, "{", "}") REF(std::multimap, "{", "}") REF(std::unordered_map, "{", "}") REF(std::unordered_multimap, "{", "}") REF(std::set, "(", ")") REF(std::multiset, "(", ")") REF(std::unordered_set, "(", ")") REF(std::unordered_multiset, "(", ")")
ALL
#undef REF
template <typename A, typename B>
static std::string ref(const std::pair<A, B>& p, Fmt& f) {
  const std::string s = ref(p.first, f) + ": " + ref(p.second, f);
  return f.del ? "<" + s + ">" : s;
}
template <typename I>
static std::string many(I b, I e, Fmt& f, const char* open, const char* close) {
  if (b == e) return "";
  std::string s;
  for (I i = b; i != e; ++i) s += (i == b ? "" : f.sep) + ref(*i, f);
  f.c->count("elements", (int64_t)std::distance(b, e));
  return f.del ? open + s + close : s;
}
#define REF(C, o, x) \
  template <typename... T> \
  static std::string ref(const C<T...>& v, Fmt& f) { return many(v.begin(), v.end(), f, o, x); }
ALL
template <typename T>
static void one(Case& c, const char* name) {
  const T v = Gen<T>::go(c.rng);
  bool some = false;
  for (int d = 0; d < 2; d++) {
    Fmt f{&c, d == 1, c.rng.chance(0.4) ? ", " : separator(c.rng)};
    const std::string got = PrettyPrint::PrettyPrint(v, f.del, f.sep), want = ref(v, f);
    c.check(got == want, name, [&] { return "printed " + show(got) + " instead of " + show(want); });
    if (f.sep == ", ") {
      c.check(PrettyPrint::PrettyPrint(v, f.del) == want, name, "the default separator differs");
      if (!f.del) c.check(PrettyPrint::PrettyPrint(v) == want, name, "the default delimiters differ");
    }
    some = some || want.size() > 1;
    c.note(got);
  }
  c.nontrivial(some);
  c.count(name);
}
typedef void (*Fn)(Case&, const char*);
#define F(...) {#__VA_ARGS__, &one<__VA_ARGS__>}
static const std::vector<std::pair<const char*, Fn>> kAll = {
    F(int), F(uint64_t), F(double), F(bool), F(std::string), F(Eigen::Vector2d), F(Eigen::Vector3d), F(Eigen::Vector4d), F(Eigen::VectorXd), F(Eigen::MatrixXd), F(Eigen::Quaterniond), F(Eigen::Isometry3d),
    F(std::pair<int, std::string>), F(std::pair<Eigen::Vector3d, std::vector<bool>>), F(std::array<int, 4>), F(std::array<std::pair<bool, double>, 3>), F(std::array<Eigen::Vector2d, 2>),
    F(std::vector<int>), F(std::vector<bool>), F(std::vector<std::string>), F(std::vector<std::vector<double>>), F(AV<Eigen::Isometry3d>), F(AV<Eigen::Vector4d>), F(std::vector<Eigen::VectorXd>), F(std::vector<std::pair<int, std::vector<std::string>>>),
    F(std::list<uint64_t>), F(std::list<std::list<bool>>), F(std::forward_list<int>), F(std::forward_list<std::string>), F(std::deque<double>), F(std::deque<std::vector<int>>),
    F(std::map<int, std::string>), F(std::map<std::string, std::vector<double>>), F(std::map<std::string, std::map<int, bool>>), F(std::multimap<int, int>), F(std::multimap<bool, std::pair<int, int>>),
    F(std::unordered_map<std::string, int>), F(std::unordered_map<int, Eigen::MatrixXd>), F(std::unordered_multimap<int, std::string>),
    F(std::set<int>), F(std::set<std::vector<int>>), F(std::multiset<bool>), F(std::multiset<std::pair<int, int>>), F(std::unordered_set<std::string>), F(std::unordered_multiset<int>)};
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("values", 27000, 900000, [](Case& c) {
    const auto& f = kAll[(size_t)c.index % kAll.size()];
    f.second(c, f.first);
  });
  m.group("streamed_vectors", 3000, 60000, [](Case& c) {
    Rng& r = c.rng;
    std::ostringstream o, w;
    if (r.chance(0.5)) {
      const auto v = Gen<std::vector<int>>::go(r);
      o << v;
      for (int x : v) w << x << " ";
    } else if (r.chance(0.5)) {
      const auto v = Gen<std::vector<std::string>>::go(r);
      o << v;
      for (auto& x : v) w << x << "\n";
    } else {
      const auto v = Gen<std::vector<std::vector<int>>>::go(r);
      o << v;
      for (auto& x : v) {
        for (int y : x) w << y << " ";
        w << " ";
      }
    }
    c.check(o.str() == w.str(), "streamed", [&] { return show(o.str()) + " instead of " + show(w.str()); });
    c.note(o.str());
    c.nontrivial(o.str().size() > 2);
  });
  return m.finish();
}
