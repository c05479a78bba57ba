// MON-variants: asan
// MON-rule: random nested values (POD, string, vector, vector-like, map, pair; host and network form; up to 140 thousand items) written as one stream after a random prefix; non-trivial when at least one value with payload was encoded; distinct by encoded bytes
#include <limits>
#include <map>
#include <string>
#include <vector>

#include "arc_utilities/serialization.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_utilities;
typedef std::vector<uint8_t> Bytes;

// Independent encoder: number as bytes, least significant first (host, x86) or most significant first (network).
template <typename T>
void refNum(const T& v, Bytes& out, bool net) {
  unsigned char b[sizeof(T)];
  memcpy(b, &v, sizeof(T));
  for (size_t i = 0; i < sizeof(T); i++) out.push_back(net ? b[sizeof(T) - 1 - i] : b[i]);
}

template <typename T>
bool bitEq(const T& a, const T& b) {
  return memcmp(&a, &b, sizeof(T)) == 0;
}

template <typename T>
T randPod(Rng& r) {
  T v;
  uint64_t x = r.u64();
  switch (r.below(6)) {
    case 0:
      x = 0;
      break;
    case 1:
      x = ~0ull;
      break;
    case 2:
      x &= 0xff;
      break;
    case 3: {
      if (std::is_same<T, double>::value) {
        const double ds[] = {-0.0, INFINITY, -INFINITY, 5e-324, 1.7976931348623157e308};
        memcpy(&x, &ds[r.below(5)], 8);
        if (r.chance(0.3)) x = 0x7ff0000000000000ull | (r.u64() >> 12) | 1;  // NaN payload (possibly signalling)
        x |= std::is_same<T, double>::value ? 0 : 0;
      }
      break;
    }
    default:
      break;
  }
  memcpy(&v, &x, sizeof(T));
  return v;
}
template <>
bool randPod<bool>(Rng& r) {
  return r.chance(0.5);
}
bool big = false;  // containers of counts around the limits of 8- and 16-bit lengths and beyond
size_t randSize(Rng& r, int depth) {
  if (big && depth == 0) {
    const size_t edge[] = {256, 32768, 65536};
    return r.chance(0.5) ? edge[r.below(3)] - 2 + r.below(5) : 60000 + r.below(80000);
  }
  if (r.chance(0.2)) return 0;
  if (depth == 0 && r.chance(0.1)) return 20 + r.below(300);
  return r.below(depth == 0 ? 9 : 4);
}

template <typename T, bool NET>
struct Pod {
  typedef T type;
  static T gen(Rng& r, int) { return randPod<T>(r); }
  static uint64_t ser(const T& v, Bytes& b) { return NET ? net(v, b) : SerializeFixedSizePOD<T>(v, b); }
  static uint64_t net(const T& v, Bytes& b) { return SerializeNetworkFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> de(const Bytes& b, const uint64_t c) { return DeserializeNetworkFixedSizePOD<T>(b, c); }
  static void ref(const T& v, Bytes& o) { refNum(v, o, NET); }
  static bool same(const T& a, const T& b) { return bitEq(a, b); }
};
template <typename T>
struct Pod<T, false> {
  typedef T type;
  static T gen(Rng& r, int) { return randPod<T>(r); }
  static uint64_t ser(const T& v, Bytes& b) { return SerializeFixedSizePOD<T>(v, b); }
  static std::pair<T, uint64_t> de(const Bytes& b, const uint64_t c) { return DeserializeFixedSizePOD<T>(b, c); }
  static void ref(const T& v, Bytes& o) { refNum(v, o, false); }
  static bool same(const T& a, const T& b) { return bitEq(a, b); }
};
// A composite fixed-size value (host form only).
struct Blob {
  uint32_t a;
  uint32_t b;
  double c;
  bool operator<(const Blob& o) const { return a < o.a; }
};
struct BlobC {
  typedef Blob type;
  static Blob gen(Rng& r, int) { return Blob{(uint32_t)r.u64(), (uint32_t)r.u64(), randPod<double>(r)}; }
  static uint64_t ser(const Blob& v, Bytes& b) { return SerializeFixedSizePOD<Blob>(v, b); }
  static std::pair<Blob, uint64_t> de(const Bytes& b, const uint64_t c) { return DeserializeFixedSizePOD<Blob>(b, c); }
  static void ref(const Blob& v, Bytes& o) {
    refNum(v.a, o, false);
    refNum(v.b, o, false);
    refNum(v.c, o, false);
  }
  static bool same(const Blob& x, const Blob& y) { return x.a == y.a && x.b == y.b && bitEq(x.c, y.c); }
};
template <typename C, bool NET>
struct Str {
  typedef std::basic_string<C> type;
  static type gen(Rng& r, int d) {
    type s;
    size_t n = randSize(r, d);
    for (size_t i = 0; i < n; i++) s.push_back(r.chance(0.15) ? C(0) : (C)r.u64());
    return s;
  }
  template <bool N>
  static typename std::enable_if<N, uint64_t>::type ser_(const type& v, Bytes& b) {
    return SerializeNetworkString<C>(v, b);
  }
  template <bool N>
  static typename std::enable_if<!N, uint64_t>::type ser_(const type& v, Bytes& b) {
    return SerializeString<C>(v, b);
  }
  template <bool N>
  static typename std::enable_if<N, std::pair<type, uint64_t>>::type de_(const Bytes& b, uint64_t c) {
    return DeserializeNetworkString<C>(b, c);
  }
  template <bool N>
  static typename std::enable_if<!N, std::pair<type, uint64_t>>::type de_(const Bytes& b, uint64_t c) {
    return DeserializeString<C>(b, c);
  }
  static uint64_t ser(const type& v, Bytes& b) { return ser_<NET>(v, b); }
  static std::pair<type, uint64_t> de(const Bytes& b, const uint64_t c) { return de_<NET>(b, c); }
  static void ref(const type& v, Bytes& o) {
    refNum((uint64_t)v.size(), o, NET);
    for (C c : v) refNum(c, o, NET);
  }
  static bool same(const type& a, const type& b) { return a == b; }
};
template <typename E, bool NET>
struct Vec {
  typedef typename E::type T;
  typedef std::vector<T> type;
  static type gen(Rng& r, int d) {
    type v;
    size_t n = randSize(r, d);
    for (size_t i = 0; i < n; i++) v.push_back(E::gen(r, d + 1));
    return v;
  }
  static uint64_t ser(const type& v, Bytes& b) {
    const std::function<uint64_t(const T&, Bytes&)> f = E::ser;
    return NET ? SerializeNetworkVector<T>(v, b, f) : SerializeVector<T>(v, b, f);
  }
  static std::pair<type, uint64_t> de(const Bytes& b, const uint64_t c) {
    const std::function<std::pair<T, uint64_t>(const Bytes&, const uint64_t)> f = E::de;
    return NET ? DeserializeNetworkVector<T>(b, c, f) : DeserializeVector<T>(b, c, f);
  }
  static void ref(const type& v, Bytes& o) {
    refNum((uint64_t)v.size(), o, NET);
    for (const T& x : v) E::ref(x, o);
  }
  static bool same(const type& a, const type& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
      if (!E::same(a[i], b[i])) return false;
    return true;
  }
};
template <typename T>
struct MyList {  // a vector-like container
  std::vector<T> v;
  void reserve(size_t n) { v.reserve(n); }
  void push_back(const T& t) { v.push_back(t); }
  void shrink_to_fit() {}
  size_t size() const { return v.size(); }
  const T& operator[](size_t i) const { return v[i]; }
};
template <typename E>
struct VecLike {
  typedef typename E::type T;
  typedef MyList<T> type;
  static type gen(Rng& r, int d) { return type{Vec<E, false>::gen(r, d)}; }
  static uint64_t ser(const type& v, Bytes& b) { return SerializeVectorLike<T, type>(v, b, E::ser); }
  static std::pair<type, uint64_t> de(const Bytes& b, const uint64_t c) {
    return DeserializeVectorLike<T, type>(b, c, E::de);
  }
  static void ref(const type& v, Bytes& o) { Vec<E, false>::ref(v.v, o); }
  static bool same(const type& a, const type& b) { return Vec<E, false>::same(a.v, b.v); }
};
template <typename K, typename V, bool NET>
struct Map {
  typedef typename K::type KT;
  typedef typename V::type VT;
  typedef std::map<KT, VT> type;
  static type gen(Rng& r, int d) {
    type m;
    size_t n = randSize(r, d);
    for (size_t i = 0; m.size() < n && i < (big ? 4 * n : n); i++) m.insert(std::make_pair(K::gen(r, d + 1), V::gen(r, d + 1)));
    return m;
  }
  static uint64_t ser(const type& v, Bytes& b) {
    return NET ? SerializeNetworkMap<KT, VT>(v, b, K::ser, V::ser) : SerializeMap<KT, VT>(v, b, K::ser, V::ser);
  }
  static std::pair<type, uint64_t> de(const Bytes& b, const uint64_t c) {
    return NET ? DeserializeNetworkMap<KT, VT>(b, c, K::de, V::de) : DeserializeMap<KT, VT>(b, c, K::de, V::de);
  }
  static void ref(const type& v, Bytes& o) {
    refNum((uint64_t)v.size(), o, NET);
    for (const auto& x : v) {
      K::ref(x.first, o);
      V::ref(x.second, o);
    }
  }
  static bool same(const type& a, const type& b) {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
      if (!K::same(i->first, j->first) || !V::same(i->second, j->second)) return false;
    return true;
  }
};
template <typename A, typename B, bool NET>
struct Pair {
  typedef typename A::type AT;
  typedef typename B::type BT;
  typedef std::pair<AT, BT> type;
  static type gen(Rng& r, int d) {
    AT a = A::gen(r, d + 1);
    BT b = B::gen(r, d + 1);
    return type(a, b);
  }
  static uint64_t ser(const type& v, Bytes& b) {
    return NET ? SerializeNetworkPair<AT, BT>(v, b, A::ser, B::ser) : SerializePair<AT, BT>(v, b, A::ser, B::ser);
  }
  static std::pair<type, uint64_t> de(const Bytes& b, const uint64_t c) {
    return NET ? DeserializeNetworkPair<AT, BT>(b, c, A::de, B::de) : DeserializePair<AT, BT>(b, c, A::de, B::de);
  }
  static void ref(const type& v, Bytes& o) {
    A::ref(v.first, o);
    B::ref(v.second, o);
  }
  static bool same(const type& a, const type& b) { return A::same(a.first, b.first) && B::same(a.second, b.second); }
};

struct Op {
  uint64_t at, len;
  std::function<void(const Bytes&)> readback;
  std::function<uint64_t(const Bytes&)> tryread;
};

template <typename C>
void put(Case& c, const std::string& name, Bytes& buf, Bytes& want, std::vector<Op>& ops) {
  const typename C::type v = C::gen(c.rng, 0);
  const Bytes before = buf;
  Bytes enc;
  C::ref(v, enc);
  const uint64_t n = C::ser(v, buf);
  c.check(buf.size() == before.size() + enc.size(), "size:" + name, [&] { return str("appended ", buf.size() - before.size(), " want ", enc.size()); });
  c.check(n == enc.size(), "returned-size:" + name, [&] { return str("returned ", n, " want ", enc.size()); });
  c.check(std::equal(before.begin(), before.end(), buf.begin()), "prefix-disturbed:" + name);
  c.check(std::equal(enc.begin(), enc.end(), buf.begin() + (long)before.size()), "bytes:" + name, [&] { return "encoded bytes differ from reference"; });
  c.count("encoded." + name);
  Op op;
  op.at = before.size();
  op.len = n;
  const uint64_t at = op.at, len = op.len;
  op.readback = [v, at, len, &c, name](const Bytes& b) {
    const std::pair<typename C::type, uint64_t> got = C::de(b, at);
    c.check(got.second == len, "read-size:" + name, [&] { return str("read ", got.second, " want ", len); });
    c.check(C::same(got.first, v), "value:" + name, "deserialized value differs");
  };
  op.tryread = [at](const Bytes& b) { return C::de(b, at).second; };
  ops.push_back(op);
  want.insert(want.end(), enc.begin(), enc.end());
}

#define N true
#define H false
typedef void (*Putter)(Case&, const std::string&, Bytes&, Bytes&, std::vector<Op>&);
static const std::vector<std::pair<std::string, Putter>> kPutters = {
    {"u8", put<Pod<uint8_t, H>>},
    {"i16", put<Pod<int16_t, H>>},
    {"u32", put<Pod<uint32_t, H>>},
    {"i64", put<Pod<int64_t, H>>},
    {"f32", put<Pod<float, H>>},
    {"f64", put<Pod<double, H>>},
    {"bool", put<Pod<bool, H>>},
    {"struct", put<BlobC>},
    {"string", put<Str<char, H>>},
    {"u16string", put<Str<char16_t, H>>},
    {"wstring", put<Str<wchar_t, H>>},
    {"vec<f64>", put<Vec<Pod<double, H>, H>>},
    {"vec<string>", put<Vec<Str<char, H>, H>>},
    {"vec<vec<i16>>", put<Vec<Vec<Pod<int16_t, H>, H>, H>>},
    {"veclike<f32>", put<VecLike<Pod<float, H>>>},
    {"veclike<string>", put<VecLike<Str<char, H>>>},
    {"map<i64,f64>", put<Map<Pod<int64_t, H>, Pod<double, H>, H>>},
    {"map<string,vec<u8>>", put<Map<Str<char, H>, Vec<Pod<uint8_t, H>, H>, H>>},
    {"map<u8,map<u8,string>>", put<Map<Pod<uint8_t, H>, Map<Pod<uint8_t, H>, Str<char, H>, H>, H>>},
    {"pair<string,f64>", put<Pair<Str<char, H>, Pod<double, H>, H>>},
    {"pair<vec<i64>,pair<u8,string>>", put<Pair<Vec<Pod<int64_t, H>, H>, Pair<Pod<uint8_t, H>, Str<char, H>, H>, H>>},
    {"vec<struct>", put<Vec<BlobC, H>>},
    {"net.u8", put<Pod<uint8_t, N>>},
    {"net.i8", put<Pod<int8_t, N>>},
    {"net.u16", put<Pod<uint16_t, N>>},
    {"net.i16", put<Pod<int16_t, N>>},
    {"net.u32", put<Pod<uint32_t, N>>},
    {"net.i32", put<Pod<int32_t, N>>},
    {"net.u64", put<Pod<uint64_t, N>>},
    {"net.i64", put<Pod<int64_t, N>>},
    {"net.f32", put<Pod<float, N>>},
    {"net.f64", put<Pod<double, N>>},
    {"net.string<u8>", put<Str<uint8_t, N>>},
    {"net.string<u16>", put<Str<uint16_t, N>>},
    {"net.string<u32>", put<Str<uint32_t, N>>},
    {"net.vec<f64>", put<Vec<Pod<double, N>, N>>},
    {"net.vec<vec<u32>>", put<Vec<Vec<Pod<uint32_t, N>, N>, N>>},
    {"net.map<i64,string<u8>>", put<Map<Pod<int64_t, N>, Str<uint8_t, N>, N>>},
    {"net.map<u16,vec<f32>>", put<Map<Pod<uint16_t, N>, Vec<Pod<float, N>, N>, N>>},
    {"net.pair<u64,string<u16>>", put<Pair<Pod<uint64_t, N>, Str<uint16_t, N>, N>>},
};

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("stream", 4000, 60000, [](Case& c) {
    Bytes buf;
    const size_t pre = c.rng.chance(0.5) ? 0 : c.rng.below(40);
    for (size_t i = 0; i < pre; i++) buf.push_back((uint8_t)c.rng.u64());
    if (c.rng.chance(0.3)) buf.reserve(10000);
    Bytes want = buf;
    std::vector<Op> ops;
    const size_t k = 1 + c.rng.below(8);
    std::string names;
    for (size_t i = 0; i < k; i++) {
      const auto& p = kPutters[c.rng.below(kPutters.size())];
      names += p.first + " ";
      p.second(c, p.first, buf, want, ops);
    }
    c.check(buf == want, "stream-bytes", "whole stream differs from reference encoding");
    // Exact-size copy: any read past the end is a heap overflow.
    const Bytes exact(buf);
    for (const Op& o : ops) o.readback(exact);
    // Read back in order from the running offset.
    uint64_t cur = pre;
    for (const Op& o : ops) {
      c.check(cur == o.at, "running-offset");
      cur += o.tryread(exact);
    }
    c.check(cur == exact.size(), "running-offset", "stream not consumed exactly");
    // Trailing garbage must not matter.
    Bytes longer = exact;
    longer.insert(longer.end(), 7, 0xEE);
    for (const Op& o : ops) o.readback(longer);
    c.count("values", (int64_t)ops.size());
    c.count("bytes", (int64_t)exact.size());
    for (uint8_t b : want) c.note(b);
    c.nontrivial(want.size() > pre + 8);
    c.sample("prefix " + str(pre) + "; " + names + "-> " + str(want.size()) + " bytes");
  });
  // Every single type on its own, many values.
  m.group("single", (int64_t)kPutters.size() * 40, (int64_t)kPutters.size() * 1500, [](Case& c) {
    const auto& p = kPutters[(size_t)c.index % kPutters.size()];
    Bytes buf, want;
    std::vector<Op> ops;
    p.second(c, p.first, buf, want, ops);
    const Bytes exact(buf);
    ops[0].readback(exact);
    for (uint8_t b : want) c.note(b);
    c.nontrivial(!want.empty());
  });
  // Large counts.
  m.group("large", (int64_t)kPutters.size() * 2, (int64_t)kPutters.size() * 12, [](Case& c) {
    const auto& p = kPutters[(size_t)c.index % kPutters.size()];
    Bytes buf((size_t)c.rng.below(3), 0x22), want;
    want = buf;
    std::vector<Op> ops;
    big = true;
    p.second(c, p.first, buf, want, ops);
    big = false;
    c.check(buf == want, "stream-bytes", "differs from reference encoding");
    put<Pod<uint32_t, false>>(c, "u32", buf, want, ops);
    const Bytes exact(buf);
    for (const Op& o : ops) o.readback(exact);
    c.note(want.size());
    c.note(p.first);
    c.nontrivial(want.size() > 1000);
    c.sample(p.first + " -> " + str(want.size()) + " bytes");
  });
  // A truncated value must be refused, never read from outside the buffer.
  m.group("truncated", 250, 6000, [](Case& c) {
    const auto& p = kPutters[(size_t)c.index % kPutters.size()];
    Bytes buf, want;
    const size_t pre = c.rng.below(3) * 5;
    buf.assign(pre, 0x11);
    want = buf;
    std::vector<Op> ops;
    p.second(c, p.first, buf, want, ops);
    const Op& o = ops[0];
    if (o.len == 0) return;
    const uint64_t keep = o.at + (c.rng.chance(0.3) ? o.len - 1 : c.rng.below(o.len));
    const Probe pr = Monitor::probe([&] {
      Bytes cut(buf.begin(), buf.begin() + (long)keep);
      return str(o.tryread(cut));
    });
    c.check(pr.kind == Probe::ABORTED || pr.kind == Probe::THREW, "truncated-accepted:" + p.first, [&] {
      return str("value of ", o.len, " bytes cut to ", keep - o.at, ": ",
                 pr.kind == Probe::RETURNED ? "returned reading " + pr.out : pr.kind == Probe::SANITIZER ? "read outside the buffer" : "died otherwise");
    });
    c.count("truncations-refused");
    c.note(keep);
    for (uint8_t b : want) c.note(b);
    c.nontrivial();
    c.sample(p.first + str(": ", o.len, " bytes cut to ", keep - o.at));
  });
  return m.finish();
}
