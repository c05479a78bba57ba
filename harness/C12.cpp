// MON-variants: asan asan-debugstl
// MON-rule: grids of random geometry, a few with over 65 thousand cells (16 constructor forms, anisotropic cells, rotated and shifted frames), histories of up to 150 reads/writes/resets through every accessor with in-bounds, just-out, negative, huge and non-finite targets, compared with a map after every step and cell by cell at the end; distinct by geometry and history
#include "arc_utilities/voxel_grid.hpp"
#include "eig.hpp"
using namespace mon;
using eg::L;
typedef VoxelGrid::GRID_INDEX Ix;

template <typename T>
struct Val;
template <>
struct Val<int64_t> {
  static int64_t make(Rng& r) { return (int64_t)r.u64(); }
  static std::string show(int64_t v) { return std::to_string(v); }
  static uint64_t ser(const int64_t& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int64_t>(v, b); }
  static std::pair<int64_t, uint64_t> des(const std::vector<uint8_t>& b, uint64_t c) { return arc_utilities::DeserializeFixedSizePOD<int64_t>(b, c); }
};
template <>
struct Val<std::string> {
  static std::string make(Rng& r) { return "value-" + std::to_string(r.u64()) + std::string(r.below(30), 'x'); }
  static std::string show(const std::string& v) { return v; }
  static uint64_t ser(const std::string& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeString<char>(v, b); }
  static std::pair<std::string, uint64_t> des(const std::vector<uint8_t>& b, uint64_t c) { return arc_utilities::DeserializeString<char>(b, c); }
};

struct Geo {
  Eigen::Isometry3d origin;
  double cell[3];
  int64_t n[3];
  bool exact;  // boundaries are representable and the frame is axis aligned without rounding
};
// Cell that holds p, or false when p is too close to a boundary to say.
static bool cellOf(const Geo& g, const Eigen::Vector3d& p, Ix& out) {
  L q[3];
  eg::into(g.origin, p, q);
  const L scale = fabsl((L)p.norm()) + fabsl((L)g.origin.translation().norm());
  int64_t ix[3];
  for (int k = 0; k < 3; k++) {
    const L s = q[k] / (L)g.cell[k];
    const L f = floorl(s);
    const L tol = g.exact ? 0 : (scale * 1e-13L) / (L)g.cell[k] + fabsl(s) * 1e-13L + 1e-13L;
    if (s - f < tol || f + 1 - s < tol) return false;
    if (fabsl(f) > 1e15L) return false;
    ix[k] = (int64_t)f;
  }
  out = Ix(ix[0], ix[1], ix[2]);
  return true;
}
static std::string show(const Ix& i) { return str("(", i.x, ",", i.y, ",", i.z, ")"); }

template <typename T, typename B>
struct Run {
  typedef VoxelGrid::VoxelGrid<T, B> G;
  typedef Val<T> V;
  typedef std::map<std::array<int64_t, 3>, T> Model;
  Case& c;
  Geo g;
  G grid;
  Model m;
  T def, oob;
  explicit Run(Case& cc) : c(cc) {}

  bool in(const Ix& i) const { return i.x >= 0 && i.y >= 0 && i.z >= 0 && i.x < g.n[0] && i.y < g.n[1] && i.z < g.n[2]; }
  T& at(const Ix& i) { return m[{i.x, i.y, i.z}]; }
  void fill(const T& v) {
    m.clear();
    for (int64_t x = 0; x < g.n[0]; x++)
      for (int64_t y = 0; y < g.n[1]; y++)
        for (int64_t z = 0; z < g.n[2]; z++) m[{x, y, z}] = v;
  }

  void build() {
    Rng& r = c.rng;
    const bool uniform = r.chance(0.5), centred = r.chance(0.4), bySize = r.chance(0.5), sameOob = r.chance(0.5);
    g.exact = r.chance(0.3);
    for (int k = 0; k < 3; k++) {
      g.cell[k] = g.exact ? std::ldexp(1.0, (int)r.range(-4, 2)) : r.chance(0.3) ? std::vector<double>{0.1, 0.3, 0.01, 1e-3, 7.0}[r.below(5)] : r.real(0.01, 2.0);
      g.n[k] = r.chance(0.2) ? 1 : r.range(1, 9);
    }
    if (c.index % 150 == 2) {  // more cells than 8- or 16-bit numbers count
      const int64_t big[4][3] = {{300, 3, 2}, {2, 260, 3}, {1, 2, 270}, {45, 41, 39}};
      for (int k = 0; k < 3; k++) g.n[k] = big[c.index / 150 % 4][k] + r.range(0, 3);
    }
    if (uniform) g.cell[1] = g.cell[2] = g.cell[0];
    double size[3];
    for (int k = 0; k < 3; k++) size[k] = bySize ? (r.chance(0.4) ? (double)g.n[k] * g.cell[k] : ((double)g.n[k] - r.real(0.01, 0.99)) * g.cell[k]) : 0;
    Eigen::Isometry3d o = eg::iso(r, 5.0);
    if (g.exact) {
      o = Eigen::Isometry3d::Identity();
      for (int k = 0; k < 3; k++) o.translation()(k) = (double)r.range(-64, 64) / 16.0;
    }
    def = V::make(r);
    oob = sameOob ? def : V::make(r);
    const int form = (centred ? 8 : 0) + (bySize ? 4 : 0) + (uniform ? 2 : 0) + (sameOob ? 1 : 0);
    const double *k = g.cell, *s = size;
    const int64_t* n = g.n;
    switch (form) {
      case 0: grid = G(o, k[0], k[1], k[2], n[0], n[1], n[2], def, oob); break;
      case 1: grid = G(o, k[0], k[1], k[2], n[0], n[1], n[2], def); break;
      case 2: grid = G(o, k[0], n[0], n[1], n[2], def, oob); break;
      case 3: grid = G(o, k[0], n[0], n[1], n[2], def); break;
      case 4: grid = G(o, k[0], k[1], k[2], s[0], s[1], s[2], def, oob); break;
      case 5: grid = G(o, k[0], k[1], k[2], s[0], s[1], s[2], def); break;
      case 6: grid = G(o, k[0], s[0], s[1], s[2], def, oob); break;
      case 7: grid = G(o, k[0], s[0], s[1], s[2], def); break;
      case 8: grid = G(k[0], k[1], k[2], n[0], n[1], n[2], def, oob); break;
      case 9: grid = G(k[0], k[1], k[2], n[0], n[1], n[2], def); break;
      case 10: grid = G(k[0], n[0], n[1], n[2], def, oob); break;
      case 11: grid = G(k[0], n[0], n[1], n[2], def); break;
      case 12: grid = G(k[0], k[1], k[2], s[0], s[1], s[2], def, oob); break;
      case 13: grid = G(k[0], k[1], k[2], s[0], s[1], s[2], def); break;
      case 14: grid = G(k[0], s[0], s[1], s[2], def, oob); break;
      default: grid = G(k[0], s[0], s[1], s[2], def);
    }
    c.note(form);
    const int64_t got[3] = {grid.GetNumXCells(), grid.GetNumYCells(), grid.GetNumZCells()};
    for (int d = 0; d < 3; d++) {
      if (bySize) {
        // Enough cells to cover the size, and not one more than needed (up to rounding of size/cell).
        const double q = size[d] / g.cell[d];
        c.check((double)got[d] >= q - 1e-9 && (double)got[d] - 1 < q + 1e-9, "cell-count", str("size ", size[d], " cell ", g.cell[d], " cells ", got[d]));
        g.n[d] = got[d];
      } else
        c.eq(got[d], g.n[d], "cell-count");
    }
    const double sz[3] = {grid.GetXSize(), grid.GetYSize(), grid.GetZSize()};
    for (int d = 0; d < 3; d++) c.near(sz[d], (double)g.n[d] * g.cell[d], 1e-9 * sz[d], "grid-size");
    const Eigen::Vector3d cs = grid.GetCellSizes();
    for (int d = 0; d < 3; d++) c.eq(cs(d), g.cell[d], "cell-size");
    if (centred) {
      o = Eigen::Isometry3d::Identity();
      for (int d = 0; d < 3; d++) o.translation()(d) = -0.5 * (double)g.n[d] * g.cell[d];
    }
    c.check(eg::close(grid.GetOriginTransform().matrix(), o.matrix(), centred ? 1e-9 : 0.0), "origin");
    g.origin = grid.GetOriginTransform();
    c.check(eg::close((grid.GetOriginTransform() * grid.GetInverseOriginTransform()).matrix(), Eigen::Matrix4d::Identity(), 1e-9), "inverse-origin");
    c.check(grid.IsInitialized(), "initialized");
    c.check(grid.GetDefaultValue() == def && grid.GetOOBValue() == oob, "defaults");
    fill(def);
  }

  Ix pickIndex() {
    Rng& r = c.rng;
    int64_t v[3];
    for (int k = 0; k < 3; k++) v[k] = r.range(0, g.n[k] - 1);
    if (r.chance(0.3)) {
      const int k = (int)r.below(3);
      const int64_t odd[] = {-1, g.n[k], g.n[k] + 1, -g.n[k], INT64_MAX, INT64_MIN, (int64_t)1 << 40, r.range(-20, 20)};
      v[k] = odd[r.below(8)];
    }
    return Ix(v[0], v[1], v[2]);
  }
  // A location and the cell it is in; known=false when nothing can be said about the cell.
  Eigen::Vector3d pickLoc(Ix& ix, bool& known, bool& hostile) {
    Rng& r = c.rng;
    known = hostile = false;
    Eigen::Vector3d q;
    for (int k = 0; k < 3; k++) {
      q(k) = r.real(-0.25, 1.25) * (double)g.n[k] * g.cell[k];
      if (r.chance(0.4)) q(k) = r.real(0.02, 0.98) * (double)g.n[k] * g.cell[k];
      if (r.chance(0.1)) q(k) = -g.cell[k] * r.real(0.01, 0.99);
      if (g.exact && r.chance(0.3)) q(k) = (double)r.range(-1, g.n[k]) * g.cell[k];
      if (r.chance(0.02)) q(k) = (r.chance(0.5) ? 1 : -1) * std::pow(10.0, r.real(2, 12));
    }
    Eigen::Vector3d p = g.origin * q;
    if (r.chance(0.03)) {
      const double odd[] = {INFINITY, -INFINITY, NAN, 1e300, -1e300, 1e22, -1e22, 1.8e19};
      p(r.below(3)) = odd[r.below(8)];
      hostile = true;
      return p;
    }
    known = cellOf(g, p, ix);
    return p;
  }
  void checkAll(const G& gr, const std::string& where) {
    for (auto& kv : m) {
      const auto v = gr.GetImmutable(kv.first[0], kv.first[1], kv.first[2]);
      c.check(v.second && v.first == kv.second, "cell-value", [&] { return str(where, " cell (", kv.first[0], ",", kv.first[1], ",", kv.first[2], ") has ", V::show(v.first), " want ", V::show(kv.second)); });
    }
    c.eq(gr.GetImmutableRawData().size(), m.size(), "raw-size");
    c.check(gr.GetDefaultValue() == def && gr.GetOOBValue() == oob, "defaults-kept", where);
  }

  void step() {
    Rng& r = c.rng;
    const T v = V::make(r);
    const G& cg = grid;
    if (r.chance(0.45)) {  // by index
      const Ix i = pickIndex();
      const bool ok = in(i);
      const bool three = r.chance(0.5);
      switch (r.below(5)) {
        case 0: {
          const std::pair<const T&, bool> got = three ? cg.GetImmutable(i.x, i.y, i.z) : cg.GetImmutable(i);
          c.eq(got.second, ok, "get-flag", ::show(i));
          c.check(got.first == (ok ? at(i) : oob), "get-value", [&] { return ::show(i) + " got " + V::show(got.first); });
          break;
        }
        case 1: {
          std::pair<T&, bool> got = three ? grid.GetMutable(i.x, i.y, i.z) : grid.GetMutable(i);
          c.eq(got.second, ok, "mutable-flag", ::show(i));
          c.check(got.first == (ok ? at(i) : oob), "mutable-value", ::show(i));
          if (ok) got.first = v, at(i) = v;
          break;
        }
        case 2:
        case 3: {
          T t = v;
          const bool rv = r.chance(0.5);
          const bool did = three ? (rv ? grid.SetValue(i.x, i.y, i.z, std::move(t)) : grid.SetValue(i.x, i.y, i.z, v)) : (rv ? grid.SetValue(i, std::move(t)) : grid.SetValue(i, v));
          c.eq(did, ok, "set-flag", ::show(i));
          if (ok) {
            at(i) = v;
            c.check(cg.GetImmutable(i).first == v, "set-value", ::show(i));
          }
          break;
        }
        default:
          c.eq(three ? cg.IndexInBounds(i.x, i.y, i.z) : cg.IndexInBounds(i), ok, "in-bounds", ::show(i));
          if (ok) c.check(cg.GetImmutableRawData().at((size_t)cg.HashDataIndex(i.x, i.y, i.z)) == at(i), "raw-data", ::show(i));
          if (std::llabs(i.x) < 1000000 && std::llabs(i.y) < 1000000 && std::llabs(i.z) < 1000000 && i.x != INT64_MIN && i.y != INT64_MIN && i.z != INT64_MIN) centre(i);
      }
    } else {  // by location
      Ix i;
      bool known, hostile;
      const Eigen::Vector3d p = pickLoc(i, known, hostile);
      const Eigen::Vector4d p4(p(0), p(1), p(2), 1.0);
      if (!known && !hostile) return;
      const bool ok = known && in(i);
      const std::string w = eg::show(p) + " cell " + ::show(i);
      const int f = (int)r.below(3);
      switch (r.below(4)) {
        case 0: {
          const std::pair<const T&, bool> got = f == 0 ? cg.GetImmutable(p(0), p(1), p(2)) : f == 1 ? cg.GetImmutable3d(p) : cg.GetImmutable4d(p4);
          c.eq(got.second, ok, "loc-get-flag", w);
          c.check(got.first == (ok ? at(i) : oob), "loc-get-value", w);
          break;
        }
        case 1: {
          std::pair<T&, bool> got = f == 0 ? grid.GetMutable(p(0), p(1), p(2)) : f == 1 ? grid.GetMutable3d(p) : grid.GetMutable4d(p4);
          c.eq(got.second, ok, "loc-mutable-flag", w);
          c.check(got.first == (ok ? at(i) : oob), "loc-mutable-value", w);
          if (ok) got.first = v, at(i) = v;
          break;
        }
        case 2: {
          T t = v;
          const bool rv = r.chance(0.5);
          const bool did = f == 0   ? (rv ? grid.SetValue(p(0), p(1), p(2), std::move(t)) : grid.SetValue(p(0), p(1), p(2), v))
                           : f == 1 ? (rv ? grid.SetValue3d(p, std::move(t)) : grid.SetValue3d(p, v))
                                    : (rv ? grid.SetValue4d(p4, std::move(t)) : grid.SetValue4d(p4, v));
          c.eq(did, ok, "loc-set-flag", w);
          if (ok) {
            at(i) = v;
            c.check(cg.GetImmutable(i).first == v, "loc-set-value", w);
          }
          break;
        }
        default: {
          c.eq(f == 0 ? cg.LocationInBounds(p(0), p(1), p(2)) : f == 1 ? cg.LocationInBounds3d(p) : cg.LocationInBounds4d(p4), ok, "loc-in-bounds", w);
          const Ix got = f == 0 ? cg.LocationToGridIndex(p(0), p(1), p(2)) : f == 1 ? cg.LocationToGridIndex3d(p) : cg.LocationToGridIndex4d(p4);
          if (known) {
            c.check(got == i, "loc-index", [&] { return w + " got " + ::show(got); });
            const Eigen::Vector3d q = cg.GetInverseOriginTransform() * p;
            const Eigen::Vector4d q4(q(0), q(1), q(2), 1.0);
            c.check(cg.PointInFrameToGridIndex(q(0), q(1), q(2)) == i && cg.PointInFrameToGridIndex3d(q) == i && cg.PointInFrameToGridIndex4d(q4) == i, "frame-index", w);
          } else
            c.check(!cg.IndexInBounds(got), "hostile-index", w);
        }
      }
    }
  }
  void centre(const Ix& i) {
    const G& cg = grid;
    const bool f = c.rng.chance(0.5);
    const Eigen::Vector4d p = f ? cg.GridIndexToLocation(i) : cg.GridIndexToLocation(i.x, i.y, i.z), q = f ? cg.GridIndexToLocationGridFrame(i) : cg.GridIndexToLocationGridFrame(i.x, i.y, i.z);
    const int64_t v[3] = {i.x, i.y, i.z};
    for (int k = 0; k < 3; k++) c.near(q(k), g.cell[k] * ((double)v[k] + 0.5), 1e-9 * g.cell[k] * (1 + std::fabs((double)v[k])), "centre-frame", ::show(i));
    c.check(q(3) == 1.0 && p(3) == 1.0, "centre-w");
    const Eigen::Vector3d want = g.origin * Eigen::Vector3d(q.head<3>());
    c.check(eg::close(p.head<3>(), want, 1e-9 * (1 + want.norm())), "centre", ::show(i));
    c.check(cg.LocationToGridIndex4d(p) == i, "centre-maps-back", [&] { return ::show(i) + " -> " + eg::show(p) + " -> " + ::show(cg.LocationToGridIndex4d(p)); });
  }

  void run() {
    build();
    checkAll(grid, "new");
    const int n = (int)c.rng.range(5, 150);
    uint64_t h = 0;
    for (int k = 0; k < n; k++) {
      Rng& r = c.rng;
      if (!r.chance(0.06)) {
        step();
        continue;
      }
      const int what = (int)r.below(9);
      h = mix(h + (uint64_t)what);
      switch (what) {
        case 0: grid.ResetWithDefault(); fill(def); break;
        case 1: {
          const T v = V::make(r);
          grid.ResetWithNewValue(v);
          fill(v);
          break;
        }
        case 2:
          def = V::make(r);
          grid.ResetWithNewDefault(def);
          fill(def);
          break;
        case 3: def = V::make(r); grid.SetDefaultValue(def); break;
        case 4: oob = V::make(r); grid.SetOOBValue(oob); break;
        case 5:
          if (!g.exact) g.origin = eg::iso(r, 5.0);
          grid.UpdateOriginTransform(g.origin);
          break;
        case 6: {
          B raw = grid.GetImmutableRawData();
          for (auto& x : m)
            if (r.chance(0.3)) {
              const T v = V::make(r);
              raw[(size_t)grid.HashDataIndex(x.first[0], x.first[1], x.first[2])] = v;
              x.second = v;
            }
          c.check(grid.SetRawData(raw), "set-raw");
          std::ostringstream quiet;
          std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
          raw.push_back(def);
          const bool longer = grid.SetRawData(raw);
          raw.pop_back(), raw.pop_back();
          const bool shorter = grid.SetRawData(raw);
          std::cerr.rdbuf(old);
          c.check(!longer && !shorter, "set-raw-size");
          break;
        }
        case 7: {  // copies are independent
          std::unique_ptr<G> cl(grid.Clone());
          G cp = grid;
          checkAll(*cl, "clone");
          cl->ResetWithNewDefault(V::make(r));
          cp.ResetWithNewDefault(V::make(r));
          cp.SetOOBValue(V::make(r));
          checkAll(grid, "after changing a copy");
          if (r.chance(0.5)) {
            G keep = grid;
            grid.ResetWithNewDefault(V::make(r));
            grid.SetOOBValue(V::make(r));
            checkAll(keep, "copy after changing the original");
            grid = keep;
          }
          break;
        }
        default: serial();
      }
      checkAll(grid, "history");
    }
    checkAll(grid, "end");
    c.nontrivial();
    c.note(h);
    for (int k = 0; k < 3; k++) c.note(g.cell[k]), c.note(g.n[k]);
    c.count("steps", n);
    c.count("cells", (int64_t)m.size());
  }
  void serial() {
    std::vector<uint8_t> b((size_t)c.rng.below(5), 0xEE);
    const size_t off = b.size();
    const uint64_t w = G::Serialize(grid, b, V::ser);
    c.eq(w, (uint64_t)(b.size() - off), "ser-size");
    b.push_back(1);
    const auto back = G::Deserialize(b, off, V::des);
    c.eq(back.second, w, "des-size");
    const G& o = back.first;
    checkAll(o, "deserialized");
    {  // into a grid that already holds something
      const double oc = c.rng.real(0.1, 1);
      G used(eg::iso(c.rng, 3.0), oc, c.rng.range(1, 5), c.rng.range(1, 5), c.rng.range(1, 5), V::make(c.rng), V::make(c.rng));
      if (c.rng.chance(0.3)) used = grid, used.ResetWithNewValue(V::make(c.rng));
      c.eq(used.DeserializeSelf(b, off, V::des), w, "des-size");
      checkAll(used, "deserialized into a used grid");
      std::vector<uint8_t> b3;
      G::Serialize(used, b3, V::ser);
      c.check(b3.size() == w && std::equal(b3.begin(), b3.end(), b.begin() + (long)off), "des-bytes");
    }
    c.check(o.IsInitialized() == grid.IsInitialized() && o.GetNumXCells() == g.n[0] && o.GetNumYCells() == g.n[1] && o.GetNumZCells() == g.n[2], "des-shape");
    c.check(o.GetCellSizes() == grid.GetCellSizes() && o.GetXSize() == grid.GetXSize() && o.GetYSize() == grid.GetYSize() && o.GetZSize() == grid.GetZSize(), "des-sizes");
    c.check(o.GetOriginTransform().matrix() == grid.GetOriginTransform().matrix() && o.GetInverseOriginTransform().matrix() == grid.GetInverseOriginTransform().matrix(), "des-origin");
    std::vector<uint8_t> b2;
    G::Serialize(o, b2, V::ser);
    c.check(std::equal(b2.begin(), b2.end(), b.begin() + (long)off) && b2.size() == w, "des-bytes");
    if (c.rng.chance(0.5)) grid = o;  // carry on with the copy that was read back
    const Ix i(c.rng.range(0, g.n[0] - 1), c.rng.range(0, g.n[1] - 1), c.rng.range(0, g.n[2] - 1));
    c.check(o.LocationToGridIndex4d(o.GridIndexToLocation(i)) == i, "des-works");
  }
};

static void badSizes(Case& c) {
  Rng& r = c.rng;
  typedef VoxelGrid::VoxelGrid<int64_t> G;
  const double badv[] = {0.0, -0.0, -1.0, NAN, INFINITY, -INFINITY};
  double cell[3] = {0.5, 0.5, 0.5}, size[3] = {1, 2, 3};
  int64_t n[3] = {1, 2, 3};
  const bool bySize = r.chance(0.5), centred = r.chance(0.5), inCell = r.chance(0.5);
  const int k = (int)r.below(3);
  if (inCell)
    cell[k] = badv[r.below(6)];
  else if (bySize)
    size[k] = badv[r.below(6)];
  else
    n[k] = -(int64_t)r.below(3);
  bool threw = false;
  try {
    if (bySize && centred)
      G(cell[0], cell[1], cell[2], size[0], size[1], size[2], (int64_t)1, (int64_t)2);
    else if (bySize)
      G(Eigen::Isometry3d::Identity(), cell[0], cell[1], cell[2], size[0], size[1], size[2], (int64_t)1, (int64_t)2);
    else if (centred)
      G(cell[0], cell[1], cell[2], n[0], n[1], n[2], (int64_t)1, (int64_t)2);
    else
      G(Eigen::Isometry3d::Identity(), cell[0], cell[1], cell[2], n[0], n[1], n[2], (int64_t)1, (int64_t)2);
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  c.check(threw, "bad-size-accepted", str("cell ", cell[0], " ", cell[1], " ", cell[2], " size ", size[0], " ", size[1], " ", size[2], " n ", n[0], " ", n[1], " ", n[2]));
  G empty;
  c.check(!empty.IsInitialized() && !empty.IndexInBounds(0, 0, 0) && !empty.SetValue((int64_t)0, (int64_t)0, (int64_t)0, (int64_t)1), "empty-grid");
  std::unordered_map<Ix, int> um;
  for (int i = 0; i < 20; i++) um[Ix(i % 4, i % 3, i % 5)] = i;
  c.check(um.at(Ix(3, 1, 4)) == 19, "index-hash");
  c.nontrivial();
  c.note(k + 3 * bySize + 6 * centred + 12 * inCell);
  c.note(cell[k]), c.note(size[k]), c.note(n[k]);
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("ints", 900, 25000, [](Case& c) { Run<int64_t, std::vector<int64_t>>(c).run(); });
  m.group("strings", 400, 10000, [](Case& c) { Run<std::string, std::vector<std::string>>(c).run(); });
  m.group("aligned_store", 250, 6000, [](Case& c) { Run<int64_t, std::vector<int64_t, Eigen::aligned_allocator<int64_t>>>(c).run(); });
  m.group("bad_sizes", 200, 2000, badSizes);
  return m.finish();
}
