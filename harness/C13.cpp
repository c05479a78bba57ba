// MON-variants: asan asan-debugstl
// MON-rule: sparse grids of random geometry and frame; histories of up to 200 cell/chunk writes, reads and in-place updates at random, negative, far and boundary locations, compared with a map of chunk states after every step and chunk by chunk at the end; distinct by geometry and history
#include "arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp"
#include "eig.hpp"
using namespace mon;
using eg::L;
typedef std::array<int64_t, 3> I3;

template <typename T>
struct Val;
template <>
struct Val<int64_t> {
  static int64_t make(Rng& r) { return (int64_t)r.u64(); }
};
template <>
struct Val<std::string> {
  static std::string make(Rng& r) { return "value-" + std::to_string(r.u64()) + std::string(r.below(30), 'x'); }
};
static std::string show(const I3& i) { return str("(", i[0], ",", i[1], ",", i[2], ")"); }

template <typename T, typename A>
struct Run {
  typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<T, A> G;
  struct Chunk {
    bool cells;
    T whole;
    std::map<I3, T> v;
  };
  Case& c;
  G grid;
  Eigen::Isometry3d origin;
  double cell[3];
  int64_t n[3];
  bool exact;
  T def;
  std::map<I3, Chunk> m;
  explicit Run(Case& cc) : c(cc) {}

  void build() {
    Rng& r = c.rng;
    const bool uniform = r.chance(0.5), framed = r.chance(0.6);
    exact = r.chance(0.25);
    for (int k = 0; k < 3; k++) {
      cell[k] = exact ? std::ldexp(1.0, (int)r.range(-4, 2)) : r.chance(0.5) ? std::vector<double>{0.1, 0.2, 0.3, 0.01, 7.0}[r.below(5)] : r.real(0.01, 2.0);
      n[k] = r.chance(0.2) ? 1 : r.range(1, 5);
    }
    if (uniform) cell[1] = cell[2] = cell[0];
    origin = Eigen::Isometry3d::Identity();
    if (framed && !exact) origin = eg::iso(r, 5.0);
    if (framed && exact)
      for (int k = 0; k < 3; k++) origin.translation()(k) = (double)r.range(-64, 64) / 16.0;
    def = Val<T>::make(r);
    if (framed && uniform)
      grid = G(origin, cell[0], n[0], n[1], n[2], def);
    else if (framed)
      grid = G(origin, cell[0], cell[1], cell[2], n[0], n[1], n[2], def);
    else if (uniform)
      grid = G(cell[0], n[0], n[1], n[2], def);
    else
      grid = G(cell[0], cell[1], cell[2], n[0], n[1], n[2], def);
    c.check(grid.IsInitialized(), "initialized");
    c.check(grid.GetDefaultValue() == def, "default");
    c.check(grid.GetOriginTransform().matrix() == origin.matrix(), "origin");
    c.check(grid.GetCellSizes() == std::vector<double>({cell[0], cell[1], cell[2]}), "cell-sizes");
    c.check(grid.GetChunkNumCells() == std::vector<int64_t>({n[0], n[1], n[2]}), "chunk-cells");
    const auto cs = grid.GetChunkSizes();
    c.eq(cs.size(), (size_t)3, "chunk-sizes");
    for (int k = 0; k < 3; k++) c.near(cs[k], cell[k] * (double)n[k], 1e-12 * cs[k], "chunk-sizes");
  }
  // Global cell index and per-axis distance to a boundary; false if too close to say.
  bool cellOf(const Eigen::Vector3d& p, I3& out, I3& low, I3& high) const {
    L q[3];
    eg::into(origin, p, q);
    const L scale = fabsl((L)p.norm()) + fabsl((L)origin.translation().norm());
    bool sure = true;
    for (int k = 0; k < 3; k++) {
      const L s = q[k] / (L)cell[k];
      const L f = floorl(s);
      const L tol = exact ? 0 : (scale * 1e-13L) / (L)cell[k] + fabsl(s) * 1e-13L + 1e-13L;
      out[k] = low[k] = high[k] = (int64_t)f;
      if (!exact && s - f < tol) low[k]--, sure = false;
      if (!exact && f + 1 - s < tol) high[k]++, sure = false;
    }
    return sure;
  }
  static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
  I3 chunkOf(const I3& g) const { return I3{fdiv(g[0], n[0]), fdiv(g[1], n[1]), fdiv(g[2], n[2])}; }
  I3 inChunk(const I3& g) const {
    const I3 h = chunkOf(g);
    return I3{g[0] - h[0] * n[0], g[1] - h[1] * n[1], g[2] - h[2] * n[2]};
  }
  Eigen::Vector3d centre(const I3& g) const { return origin * Eigen::Vector3d(cell[0] * ((double)g[0] + 0.5), cell[1] * ((double)g[1] + 0.5), cell[2] * ((double)g[2] + 0.5)); }
  // The value and provenance the model gives for a cell.
  const T& expect(const I3& g, int& prov) const {
    auto it = m.find(chunkOf(g));
    if (it == m.end()) {
      prov = VoxelGrid::NOT_FOUND;
      return def;
    }
    if (!it->second.cells) {
      prov = VoxelGrid::FOUND_IN_CHUNK;
      return it->second.whole;
    }
    prov = VoxelGrid::FOUND_IN_CELL;
    auto jt = it->second.v.find(inChunk(g));
    return jt == it->second.v.end() ? it->second.whole : jt->second;
  }
  void setCell(const I3& g, const T& v) {
    auto it = m.find(chunkOf(g));
    if (it == m.end()) it = m.insert({chunkOf(g), Chunk{true, def, {}}}).first;
    it->second.cells = true;
    it->second.v[inChunk(g)] = v;
  }
  void setChunk(const I3& g, const T& v) { m[chunkOf(g)] = Chunk{false, v, {}}; }
  void judge(const Eigen::Vector3d& p, const I3& g, const std::string& where) {
    int prov;
    const T& want = expect(g, prov);
    const G& cg = grid;
    const bool three = c.rng.chance(0.5);
    const std::pair<const T&, VoxelGrid::FOUND_STATUS> got = three ? cg.GetImmutable(p(0), p(1), p(2)) : cg.GetImmutable(p);
    c.eq((int)got.second, prov, "provenance", where + " cell " + ::show(g));
    c.check(got.first == want, "value", [&] { return str(where, " at ", eg::show(p), " cell ", ::show(g), " got ", got.first, " want ", want); });
  }
  Eigen::Vector3d pick(bool& boundary) {
    Rng& r = c.rng;
    boundary = false;
    Eigen::Vector3d q;
    const double reach = r.chance(0.7) ? 2.5 : r.chance(0.8) ? 40 : 1e6;
    if (!m.empty() && r.chance(0.5)) {  // near something already there
      auto it = m.begin();
      std::advance(it, (long)r.below(m.size()));
      for (int k = 0; k < 3; k++) q(k) = cell[k] * (double)n[k] * ((double)it->first[k] + r.real(-0.2, 1.2));
    } else
      for (int k = 0; k < 3; k++) q(k) = r.real(-reach, reach) * cell[k] * (double)n[k];
    if (r.chance(0.2)) {
      boundary = true;
      for (int k = 0; k < 3; k++)
        if (r.chance(0.6)) q(k) = (double)r.range(-300, 300) * cell[k] * (r.chance(0.5) ? (double)n[k] : 1.0);
    }
    return origin * q;
  }
  void checkAll(const G& g, const std::string& where) {
    c.check(g.GetDefaultValue() == def, "default-kept", where);
    const auto& ch = g.GetInternalChunks();
    c.eq(ch.size(), m.size(), "chunk-count", where);
    for (auto& kv : ch) {
      I3 h;
      for (int k = 0; k < 3; k++) {
        const double q = kv.first.base(k) / (cell[k] * (double)n[k]);
        h[k] = (int64_t)std::llround(q);
        c.near(q, (double)h[k], 1e-9 * (1 + std::fabs(q)), "chunk-base", where);
      }
      auto it = m.find(h);
      c.check(it != m.end(), "chunk-unknown", where + ::show(h));
      const auto& chunk = kv.second;
      c.eq(chunk.IsCellInitialized(), it->second.cells, "chunk-kind", where);
      c.eq(chunk.IsChunkInitialized(), !it->second.cells, "chunk-kind", where);
      const auto es = chunk.GetElementSize();
      for (int k = 0; k < 3; k++) c.near(es.at(k), it->second.cells ? cell[k] : cell[k] * (double)n[k], 1e-9 * es[k], "element-size");
      const int64_t nx = chunk.GetNumXCells(), ny = chunk.GetNumYCells(), nz = chunk.GetNumZCells();
      if (it->second.cells)
        c.check(nx == n[0] && ny == n[1] && nz == n[2], "chunk-shape");
      else
        c.check(nx == 1 && ny == 1 && nz == 1, "chunk-shape");
      for (int64_t x = -1; x <= nx; x++)
        for (int64_t y = -1; y <= ny; y++)
          for (int64_t z = -1; z <= nz; z++) {
            const bool in = x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz;
            const auto got = chunk.GetImmutableByIndex(x, y, z);
            const auto loc = chunk.GetIndexLocationInGrid(x, y, z);
            c.eq(got.second, in, "index-flag");
            c.eq(chunk.IndexInBounds(x, y, z), in, "index-in-bounds");
            c.eq(loc.size(), (size_t)(in ? 3 : 0), "index-location-size");
            if (!in) continue;
            auto jt = it->second.v.find(I3{x, y, z});
            const T& want = !it->second.cells || jt == it->second.v.end() ? it->second.whole : jt->second;
            c.check(got.first == want, "stored-value", [&] { return str(where, " chunk ", ::show(h), " cell ", ::show(I3{x, y, z}), " got ", got.first, " want ", want); });
            const int64_t xyz[3] = {x, y, z};
            for (int k = 0; k < 3; k++) {
              const double ref = it->second.cells ? cell[k] * ((double)(h[k] * n[k] + xyz[k]) + 0.5) : cell[k] * (double)n[k] * ((double)h[k] + 0.5);
              c.near(loc[k], ref, 1e-6 * cell[k] + 1e-12 * std::fabs(ref), "index-location", where);
            }
          }
    }
  }
  void step() {
    Rng& r = c.rng;
    bool boundary;
    const Eigen::Vector3d p = pick(boundary);
    I3 g, lo, hi;
    const bool sure = cellOf(p, g, lo, hi);
    const T v = Val<T>::make(r);
    T rv = v;
    const bool three = r.chance(0.5), byRv = r.chance(0.5);
    const int what = (int)r.below(10);
    const std::string w = str("at ", eg::show(p), " cell ", ::show(g));
    if (what < 3) {  // read
      if (sure) judge(p, g, "query");
    } else if (what < 7) {
      const int s = three ? (byRv ? grid.SetCellValue(p(0), p(1), p(2), std::move(rv)) : grid.SetCellValue(p(0), p(1), p(2), v)) : (byRv ? grid.SetCellValue(p, std::move(rv)) : grid.SetCellValue(p, v));
      c.eq(s, (int)VoxelGrid::SET_CELL, "set-cell-status", w);
      if (!sure) {
        // On a boundary either neighbouring cell may take the value, but exactly one does.
        c.count("boundary_writes");
        const auto got = grid.GetImmutable(p);
        c.check(got.second == VoxelGrid::FOUND_IN_CELL && got.first == v, "boundary-read-back", w);
        int holders = 0;
        I3 who = g;
        for (int64_t x = lo[0]; x <= hi[0]; x++)
          for (int64_t y = lo[1]; y <= hi[1]; y++)
            for (int64_t z = lo[2]; z <= hi[2]; z++)
              if (grid.GetImmutable(centre(I3{x, y, z})).first == v) holders++, who = I3{x, y, z};
        c.eq(holders, 1, "boundary-holders", w);
        g = who;
      }
      setCell(g, v);
      judge(centre(g), g, "after cell write");
      if (sure) judge(p, g, "after cell write");
    } else if (what < 9) {
      if (!sure) {
        bool crosses = false;
        for (int k = 0; k < 3; k++) crosses |= fdiv(lo[k], n[k]) != fdiv(hi[k], n[k]);
        if (crosses) return;
      }
      const int s = three ? (byRv ? grid.SetChunkValue(p(0), p(1), p(2), std::move(rv)) : grid.SetChunkValue(p(0), p(1), p(2), v)) : (byRv ? grid.SetChunkValue(p, std::move(rv)) : grid.SetChunkValue(p, v));
      c.eq(s, (int)VoxelGrid::SET_CHUNK, "set-chunk-status", w);
      setChunk(g, v);
      judge(centre(g), g, "after chunk write");
    } else if (sure) {
      int prov;
      const T want = expect(g, prov);
      std::pair<T&, VoxelGrid::FOUND_STATUS> got = three ? grid.GetMutable(p(0), p(1), p(2)) : grid.GetMutable(p);
      c.eq((int)got.second, prov, "mutable-provenance", w);
      c.check(got.first == want, "mutable-value", w);
      if (prov == VoxelGrid::FOUND_IN_CELL) got.first = v, setCell(g, v);
      if (prov == VoxelGrid::FOUND_IN_CHUNK) got.first = v, setChunk(g, v);
    }
    if (sure) {
      const Eigen::Vector3d q = origin.inverse() * p;
      const VoxelGrid::CHUNK_REGION reg = grid.GetContainingChunkRegion(q);
      for (int k = 0; k < 3; k++) {
        const double sz = cell[k] * (double)n[k], slack = 1e-12 * (std::fabs(q(k)) + sz);
        c.check(reg.base(k) <= q(k) + slack && q(k) <= reg.base(k) + sz + slack, "region-contains", w);
        c.near(reg.base(k), sz * (double)chunkOf(g)[k], 1e-12 * (std::fabs(q(k)) + sz), "region-base", w);
      }
      // Every point of a cell shares its value.
      if (r.chance(0.3)) {
        const Eigen::Vector3d o = origin * Eigen::Vector3d(cell[0] * ((double)g[0] + r.real(0.01, 0.99)), cell[1] * ((double)g[1] + r.real(0.01, 0.99)), cell[2] * ((double)g[2] + r.real(0.01, 0.99)));
        I3 h, a, b;
        if (cellOf(o, h, a, b) && h == g) judge(o, g, "same cell");
      }
      // Neighbouring cells keep theirs.
      I3 nb = g;
      nb[r.below(3)] += r.chance(0.5) ? 1 : -1;
      judge(centre(nb), nb, "neighbour");
    }
  }
  void run() {
    build();
    const int steps = (int)c.rng.range(5, 200);
    for (int i = 0; i < steps; i++) {
      Rng& r = c.rng;
      if (r.chance(0.03)) {
        switch (r.below(3)) {
          case 0: def = Val<T>::make(r); grid.SetDefaultValue(def); break;
          case 1: {
            G cp = grid;
            bool b;
            for (int k = 0; k < 5; k++) cp.SetChunkValue(pick(b), Val<T>::make(r));
            for (int k = 0; k < 5; k++) cp.SetCellValue(pick(b), Val<T>::make(r));
            cp.SetDefaultValue(Val<T>::make(r));
            checkAll(grid, "after changing a copy");
            break;
          }
          default: {
            G keep = grid;
            bool b;
            for (int k = 0; k < 5; k++) grid.SetChunkValue(pick(b), Val<T>::make(r));
            checkAll(keep, "copy after changing the original");
            grid = keep;
          }
        }
        checkAll(grid, "history");
      } else
        step();
    }
    checkAll(grid, "end");
    if (!m.empty()) c.nontrivial();
    for (int k = 0; k < 3; k++) c.note(cell[k]), c.note(n[k]);
    c.note(c.rng.s);
    c.count("steps", steps);
    c.count("chunks", (int64_t)m.size());
  }
};

// A chunk on its own: in-region locations map to the containing cell, others are refused.
static void chunkAlone(Case& c) {
  Rng& r = c.rng;
  typedef VoxelGrid::DynamicSpatialHashedVoxelGridChunk<int64_t> K;
  double cell[3];
  int64_t n[3];
  Eigen::Vector3d base;
  for (int k = 0; k < 3; k++) {
    cell[k] = r.real(0.05, 1);
    n[k] = r.range(1, 4);
    base(k) = r.real(-5, 5);
  }
  const double badv[] = {0.0, -1.0, NAN, INFINITY};
  for (int k = 0; k < 3; k++) {
    double x[3] = {cell[0], cell[1], cell[2]};
    int64_t y[3] = {n[0], n[1], n[2]};
    const bool cnt = r.chance(0.3);
    if (cnt)
      y[k] = -(int64_t)r.below(2);
    else
      x[k] = badv[r.below(4)];
    bool t1 = false, t2 = cnt, t3 = false;
    try {
      K(VoxelGrid::CHUNK_REGION(base), x[0], x[1], x[2], y[0], y[1], y[2], (int64_t)1);
    } catch (const std::invalid_argument&) {
      t1 = true;
    }
    if (!cnt) try {
        K(VoxelGrid::CHUNK_REGION(base), x[0], x[1], x[2], (int64_t)1);
      } catch (const std::invalid_argument&) {
        t2 = true;
      }
    try {
      VoxelGrid::DynamicSpatialHashedVoxelGrid<int64_t>(x[0], x[1], x[2], y[0], y[1], y[2], (int64_t)1);
    } catch (const std::invalid_argument&) {
      t3 = true;
    }
    c.check(t1 && t2 && t3, "bad-sizes", str("axis ", k, " cell ", x[k], " n ", y[k]));
  }
  K ch(VoxelGrid::CHUNK_REGION(base), cell[0], cell[1], cell[2], n[0], n[1], n[2], (int64_t)-7);
  std::map<I3, int64_t> m;
  for (int i = 0; i < 40; i++) {
    Eigen::Vector3d q;
    I3 g;
    bool in = true, sure = true;
    for (int k = 0; k < 3; k++) {
      const double s = r.chance(0.8) ? r.real(0, 1) * (double)n[k] : r.real(-1, 2) * (double)n[k];
      q(k) = base(k) + s * cell[k];
      g[k] = (int64_t)std::floor(s);
      if (s - std::floor(s) < 1e-6 || s - std::floor(s) > 1 - 1e-6) sure = false;
      if (s < 0 || s >= (double)n[k]) in = false;
    }
    if (!sure) continue;
    const int64_t v = (int64_t)r.u64();
    int64_t cp = v;
    const int64_t old = m.count(g) ? m[g] : -7;
    const auto a = static_cast<const K&>(ch).GetCellImmutable(q);
    c.eq(a.second, in, "chunk-get-flag");
    c.eq(a.first, in ? old : (int64_t)-7, "chunk-get");
    if (r.chance(0.3)) {
      auto b = ch.GetCellMutable(q);
      c.eq(b.second, in, "chunk-mutable-flag");
      if (in) b.first = v, m[g] = v;
    } else {
      const bool did = r.chance(0.5) ? ch.SetCellValue(q, v) : ch.SetCellValue(q, std::move(cp));
      c.eq(did, in, "chunk-set-flag");
      if (in) m[g] = v;
    }
    if (in) {
      c.eq(ch.GetImmutableByIndex(g[0], g[1], g[2]).first, m[g], "chunk-by-index");
      if (r.chance(0.2)) ch.GetMutableByIndex(g[0], g[1], g[2]).first = m[g] = 5;
    }
  }
  for (int64_t x = 0; x < n[0]; x++)
    for (int64_t y = 0; y < n[1]; y++)
      for (int64_t z = 0; z < n[2]; z++) c.eq(ch.GetImmutableByIndex(x, y, z).first, m.count(I3{x, y, z}) ? m[I3{x, y, z}] : -7, "chunk-final");
  K whole(VoxelGrid::CHUNK_REGION(base), cell[0], cell[1], cell[2], (int64_t)3);
  whole.SetChunkValue((int64_t)9);
  c.eq(whole.GetChunkImmutable(), (int64_t)9, "chunk-whole");
  whole.GetChunkMutable() = 11;
  c.eq(whole.GetImmutableByIndex(0, 0, 0).first, (int64_t)11, "chunk-whole-index");
  c.nontrivial();
  c.note(base(0));
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("ints", 800, 25000, [](Case& c) { Run<int64_t, std::allocator<int64_t>>(c).run(); });
  m.group("strings", 300, 8000, [](Case& c) { Run<std::string, std::allocator<std::string>>(c).run(); });
  m.group("aligned", 150, 4000, [](Case& c) { Run<int64_t, Eigen::aligned_allocator<int64_t>>(c).run(); });
  m.group("chunk", 200, 4000, chunkAlone);
  return m.finish();
}
