// MON-variants: asan-noglib
// MON-rule: random dimensions (incl. zero) and raw bit patterns for each supported Eigen type, written as one stream; non-trivial when coefficients were encoded; distinct by encoded bytes
#include "arc_utilities/serialization_eigen.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_utilities;
typedef std::vector<uint8_t> Bytes;

struct Op {
  uint64_t at, len;
  std::function<void(const Bytes&)> readback;
  std::function<uint64_t(const Bytes&)> tryread;
};

template <typename S>
S randScalar(Rng& r) {
  S s;
  uint64_t x = r.u64();
  if (r.chance(0.4)) {
    s = (S)r.real(-10, 10);
    return s;
  }
  memcpy(&s, &x, sizeof(S));
  return s;
}

template <typename M>
const void* dataOf(const M& m) { return m.data(); }
const void* dataOf(const Eigen::Isometry3d& m) { return m.matrix().data(); }

template <typename M>
void header(const M& m, bool dynR, bool dynC, Bytes& o) {
  uint64_t r = (uint64_t)m.rows(), k = (uint64_t)m.cols();
  for (int i = 0; dynR && i < 8; i++) o.push_back((uint8_t)(r >> (8 * i)));
  for (int i = 0; dynC && i < 8; i++) o.push_back((uint8_t)(k >> (8 * i)));
}

template <typename M>
void finishPut(Case& c, const std::string& name, const M& v, const Bytes& enc, bool canRead, Bytes& buf, std::vector<Op>& ops,
               const std::function<bool(const M&, const M&)>& same) {
  const Bytes before = buf;
  const uint64_t reported = SerializedSizeEigen(v);
  const uint64_t n = SerializeEigen(v, buf);
  c.check(reported == enc.size(), "reported-size:" + name, [&] { return str(reported, " want ", enc.size()); });
  c.check(n == enc.size(), "returned-size:" + name, [&] { return str(n, " want ", enc.size()); });
  c.check(buf.size() == before.size() + enc.size(), "appended-size:" + name);
  c.check(std::equal(before.begin(), before.end(), buf.begin()), "prefix-disturbed:" + name);
  c.check(std::equal(enc.begin(), enc.end(), buf.begin() + (long)before.size()), "bytes:" + name);
  c.count("encoded." + name);
  (void)canRead;
  Op op;
  const uint64_t at = before.size();
  op.at = at;
  op.len = n;
  op.readback = [&c, v, at, n, name, same](const Bytes& b) {
    const auto got = DeserializeEigen<M>(b, at);
    c.check(got.second == n, "read-size:" + name, [&] { return str(got.second, " want ", n); });
    c.check(same(got.first, v), "value:" + name);
  };
  op.tryread = [at](const Bytes& b) { return DeserializeEigen<M>(b, at).second; };
  ops.push_back(op);
}

// Mostly small; in the "large" group around the limits of 8- and 16-bit counts.
bool big = false;
int dim(Rng& r, bool may_be_huge) {
  if (!big) return r.chance(0.2) ? 0 : (int)r.below(12);
  if (may_be_huge && r.chance(0.5)) return r.chance(0.4) ? 70000 + (int)r.below(200000) : 65533 + (int)r.below(6);
  return r.chance(0.5) ? 126 + (int)r.below(6) : 253 + (int)r.below(50);
}

template <typename S, int R, int C_>
void put(Case& c, const std::string& name, Bytes& buf, std::vector<Op>& ops) {
  typedef Eigen::Matrix<S, R, C_> M;
  int rr = R == Eigen::Dynamic ? dim(c.rng, C_ != Eigen::Dynamic) : R;
  int cc = C_ == Eigen::Dynamic ? dim(c.rng, R != Eigen::Dynamic) : C_;
  if (big && R == Eigen::Dynamic && C_ == Eigen::Dynamic && c.rng.chance(0.6)) {  // one side huge, the other short
    rr = dim(c.rng, true), cc = 1 + (int)c.rng.below(3);
    if (c.rng.chance(0.5)) std::swap(rr, cc);
  }
  M v(rr, cc);
  for (int i = 0; i < rr; i++)
    for (int j = 0; j < cc; j++) v(i, j) = randScalar<S>(c.rng);
  Bytes enc;
  header(v, R == Eigen::Dynamic, C_ == Eigen::Dynamic, enc);
  for (int j = 0; j < cc; j++)
    for (int i = 0; i < rr; i++) {
      uint8_t b[sizeof(S)];
      const S s = v(i, j);
      memcpy(b, &s, sizeof(S));
      enc.insert(enc.end(), b, b + sizeof(S));
    }
  finishPut<M>(c, name, v, enc, true, buf, ops, [](const M& a, const M& b) {
    return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), (size_t)a.size() * sizeof(S)) == 0);
  });
}

template <typename M>
M fixedSize() { return M(); }
void putIso(Case& c, const std::string& name, Bytes& buf, std::vector<Op>& ops) {
  Eigen::Isometry3d v = Eigen::Isometry3d::Identity();
  if (c.rng.chance(0.8)) {
    v = Eigen::Translation3d(c.rng.normal(), c.rng.normal(), c.rng.normal()) *
        Eigen::Quaterniond(c.rng.normal(), c.rng.normal(), c.rng.normal(), c.rng.normal()).normalized();
  }
  Bytes enc;
  for (int j = 0; j < 4; j++)
    for (int i = 0; i < 4; i++) {
      uint8_t b[8];
      const double s = v.matrix()(i, j);
      memcpy(b, &s, 8);
      enc.insert(enc.end(), b, b + 8);
    }
  finishPut<Eigen::Isometry3d>(c, name, v, enc, true, buf, ops, [](const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) {
    return memcmp(a.matrix().data(), b.matrix().data(), 128) == 0;
  });
}

typedef void (*Putter)(Case&, const std::string&, Bytes&, std::vector<Op>&);
static const std::vector<std::pair<std::string, Putter>> kPutters = {
    {"Vector3d", put<double, 3, 1>},   {"Vector6d", put<double, 6, 1>},     {"Vector7d", put<double, 7, 1>},
    {"VectorXd", put<double, -1, 1>},  {"MatrixXd", put<double, -1, -1>},   {"Matrix3Xd", put<double, 3, -1>},
    {"Matrix3Xf", put<float, 3, -1>},  {"MatrixXf", put<float, -1, -1>},    {"Isometry3d", putIso},
};

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("stream", 6000, 120000, [](Case& c) {
    Bytes buf(c.rng.chance(0.5) ? 0 : c.rng.below(30), 0x5A);
    const size_t pre = buf.size();
    std::vector<Op> ops;
    const size_t k = 1 + c.rng.below(6);
    std::string names;
    for (size_t i = 0; i < k; i++) {
      const auto& p = kPutters[c.rng.below(kPutters.size())];
      names += p.first + " ";
      p.second(c, p.first, buf, ops);
    }
    const Bytes exact(buf);
    uint64_t cur = pre;
    for (const Op& o : ops) {
      o.readback(exact);
      c.check(cur == o.at, "running-offset");
      cur += o.tryread(exact);
    }
    c.check(cur == exact.size(), "running-offset", "stream not consumed exactly");
    for (uint8_t b : exact) c.note(b);
    c.count("values", (int64_t)ops.size());
    c.nontrivial(exact.size() > pre + 16);
    c.sample(names + str("-> ", exact.size(), " bytes"));
  });
  // Large dimensions.
  m.group("large", 100, 600, [](Case& c) {
    Bytes buf(c.rng.below(9), 0x5A);
    std::vector<Op> ops;
    const auto& p = kPutters[3 + (size_t)c.index % 5];
    big = true;
    p.second(c, p.first, buf, ops);
    big = false;
    const auto& q = kPutters[c.rng.below(kPutters.size())];
    q.second(c, q.first, buf, ops);
    for (const Op& o : ops) o.readback(buf);
    c.note(buf.size());
    c.nontrivial();
    c.sample(p.first + " -> " + str(buf.size()) + " bytes");
  });
  // Serialized-size report for types that only have the writer.
  m.group("sizes", 200, 2000, [](Case& c) {
    Bytes buf;
    std::vector<Op> ops;
    const int r = (int)c.rng.below(9);
    Eigen::Matrix<double, Eigen::Dynamic, 2> a(r, 2);
    a.setRandom();
    const uint64_t n = SerializeEigen(a, buf);
    c.check(n == buf.size() && n == SerializedSizeEigen(a) && n == 8 + (uint64_t)r * 16, "size:MatrixX2d");
    Eigen::Vector4d v = Eigen::Vector4d::Random();
    Bytes b2;
    c.check(SerializeEigen(v, b2) == 32 && b2.size() == 32 && memcmp(b2.data(), v.data(), 32) == 0, "size:Vector4d");
    c.note(r);
    c.nontrivial(r > 0);
  });
  m.group("truncated", 180, 4000, [](Case& c) {
    const auto& p = kPutters[(size_t)c.index % kPutters.size()];
    Bytes buf(c.rng.below(3) * 7, 1);
    std::vector<Op> ops;
    p.second(c, p.first, buf, ops);
    const Op& o = ops[0];
    const uint64_t keep = o.at + (c.rng.chance(0.4) ? o.len - 1 : c.rng.below(o.len));
    const Probe pr = Monitor::probe([&] {
      Bytes cut(buf.begin(), buf.begin() + (long)keep);
      return str(o.tryread(cut));
    });
    c.check(pr.kind == Probe::ABORTED || pr.kind == Probe::THREW, "truncated-accepted:" + p.first, [&] {
      return str("value of ", o.len, " bytes cut to ", keep - o.at, pr.kind == Probe::SANITIZER ? " read outside the buffer" : " accepted");
    });
    c.count("truncations-refused");
    c.note(keep);
    for (uint8_t b : buf) c.note(b);
    c.nontrivial();
  });
  return m.finish();
}
