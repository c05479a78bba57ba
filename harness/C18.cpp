// MON-variants: asan asan-debugstl
// MON-rule: for each generator, histories of up to 40 draws, discards, re-seeds and copies from random and extreme seeds, in lock-step with an independent transcription of the published algorithm (anchored by published test vectors); distinct by seed and history
#include "arc_utilities/arc_helpers.hpp"
#include "mon.hpp"
using namespace mon;

// Published references (S. Vigna), transcribed independently.
struct RefSplit {
  uint64_t x;
  void seed(uint64_t s) { x = s; }
  uint64_t next() {
    x += 0x9e3779b97f4a7c15ull;
    uint64_t z = x;
    z ^= z >> 30;
    z *= 0xbf58476d1ce4e5b9ull;
    z ^= z >> 27;
    z *= 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};
struct Ref128 {
  uint64_t a, b;
  void seed(uint64_t s) {
    RefSplit q;
    q.seed(s);
    a = q.next();
    b = q.next();
  }
  uint64_t next() {
    uint64_t s1 = a, s0 = b;
    a = s0;
    s1 = s1 ^ (s1 << 23);
    b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return b + s0;
  }
};
struct Ref1024 {
  uint64_t s[16];
  unsigned p;
  void seed(uint64_t v) {
    RefSplit q;
    q.seed(v);
    for (auto& k : s) k = q.next();
    p = 0;
  }
  uint64_t next() {
    const uint64_t s0 = s[p];
    p = (p + 1) % 16;
    uint64_t s1 = s[p];
    s1 ^= s1 << 31;
    s1 = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30);
    s[p] = s1;
    return s1 * 1181783497276652981ull;
  }
};

template <typename G, typename R>
static void history(Case& c, const std::string& name) {
  Rng& r = c.rng;
  auto any = [&]() -> uint64_t { return r.chance(0.2) ? r.pick(std::vector<uint64_t>{0, 1, ~0ull, 1ull << 63, 0x9e3779b97f4a7c15ull, -0x9e3779b97f4a7c15ull}) : r.u64(); };
  uint64_t s = any();
  c.note(s);
  G g(s);
  R f;
  f.seed(s);
  int64_t drawn = 0, reseeds = 0;
  auto draw = [&](const char* after) {
    const uint64_t got = g(), want = f.next();
    drawn++;
    c.check(got == want, name + ":" + after, [&] { return str(name, " output ", got, " published ", want, " after ", after); });
    c.check(got >= G::min() && got <= G::max(), name + ":range", "");
  };
  const char* after = "construction";
  const int steps = (int)r.range(1, 40);
  for (int i = 0; i < steps; i++) {
    const int op = (int)r.below(6);
    c.note(op);
    if (op <= 1) {
      const int n = (int)r.range(1, 40);
      for (int k = 0; k < n; k++) draw(after);
    } else if (op == 2) {
      const unsigned long long n = r.chance(0.2) ? 0 : r.below(100);
      g.discard(n);
      for (unsigned long long k = 0; k < n; k++) f.next();
      after = "discard";
      draw(after);
    } else if (op == 3) {
      s = r.chance(0.3) ? s : any();
      g.seed(s);
      f.seed(s);
      reseeds++;
      after = "re-seeding";
      draw(after);
    } else if (op == 4) {
      G h(g);
      R fh = f;
      const int n = (int)r.range(1, 20);
      for (int k = 0; k < n; k++) {
        const uint64_t got = h(), want = fh.next();
        c.check(got == want, name + ":copy", "a copy diverges");
      }
      draw("use of a copy");
    } else {
      G h(any());
      h();
      g = h = g;
      draw("assignment");
    }
  }
  for (int k = 0; k < 40; k++) draw(after);
  c.nontrivial(reseeds > 0 && drawn > 60);
  c.count("draws", drawn);
  if (c.index < 2) c.sample(str(name, " seed ", s, ": ", drawn, " outputs compared"));
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("vectors", 1, 1, [](Case& c) {
    const uint64_t split[5] = {6457827717110365317ull, 3203168211198807973ull, 9817491932198370423ull, 4593380528125082431ull, 16408922859458223821ull};
    arc_helpers::SplitMix64PRNG g(1234567);
    for (uint64_t v : split) c.check(g() == v, "splitmix-vector", "published SplitMix64 vector for seed 1234567");
    c.nontrivial();
  });
  m.group("splitmix", 1500, 60000, [](Case& c) { history<arc_helpers::SplitMix64PRNG, RefSplit>(c, "SplitMix64"); });
  m.group("xorshift128", 1500, 60000, [](Case& c) { history<arc_helpers::XorShift128PlusPRNG, Ref128>(c, "XorShift128+"); });
  m.group("xorshift1024", 1500, 60000, [](Case& c) { history<arc_helpers::XorShift1024StarPRNG, Ref1024>(c, "XorShift1024*"); });
  m.group("long", 6, 60, [](Case& c) {
    const uint64_t s = c.rng.u64(), n = 200000 + c.rng.below(200000);
    arc_helpers::SplitMix64PRNG a(s), a2(s);
    arc_helpers::XorShift128PlusPRNG b(s), b2(s);
    arc_helpers::XorShift1024StarPRNG d(s), d2(s);
    RefSplit ra;
    Ref128 rb;
    Ref1024 rd;
    ra.seed(s), rb.seed(s), rd.seed(s);
    bool ok = true;
    for (uint64_t i = 0; i < n; i++) ok = ok & (a() == ra.next()) & (b() == rb.next()) & (d() == rd.next());
    c.check(ok, "long-run", "diverges within a long run");
    a2.discard(n), b2.discard(n), d2.discard(n);
    c.check(a2() == ra.next() && b2() == rb.next() && d2() == rd.next(), "long-discard", [&] { return str("discard ", n); });
    c.note(s);
    c.nontrivial();
  });
  return m.finish();
}
