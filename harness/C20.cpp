// MON-variants: asan
// MON-rule: pairs and triples of angles drawn at random, at multiples of a quarter turn, within a few units in the last place of half turns, and up to 1e6 rad, plus whole turns added to them; judged by long double circular arithmetic; distinct by the angles
#include <algorithm>
#include "arc_utilities/math_helpers.hpp"
#include "mon.hpp"
using namespace mon;
using namespace EigenHelpers;
typedef long double LD;
static const LD TURN = 2.0L * (LD)M_PI;  // the turn the library works with

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
// representative in (-half, half]
static LD wrap(LD x) {
  LD r = fmodl(x, TURN);
  if (r > TURN / 2) r -= TURN;
  if (r <= -TURN / 2) r += TURN;
  return r;
}
static LD circ(LD a, LD b) { return fabsl(wrap(a - b)); }
// turn counter-clockwise from a to b in [0, turn)
static LD ccw(LD a, LD b) {
  LD r = fmodl(b - a, TURN);
  return r < 0 ? r + TURN : r;
}
static double angle(Rng& r) {
  double x;
  switch (r.below(7)) {
    case 0: x = (double)r.range(-9, 9) * M_PI_2; break;
    case 1: {
      x = (double)r.range(-3, 3) * M_PI;
      const int n = (int)r.range(0, 4);
      for (int i = 0; i < n; i++) x = std::nextafter(x, r.chance(0.5) ? 1e9 : -1e9);
      break;
    }
    case 2: x = r.real(-1e6, 1e6); break;
    case 3: x = (double)r.range(-12, 12) * M_PI / 6 + 1e-9 * r.normal(); break;
    case 4: x = r.chance(0.5) ? M_PI : -M_PI; break;
    default: x = r.real(-M_PI, M_PI);
  }
  return x;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("circle", 60000, 3000000, [](Case& c) {
    Rng& r = c.rng;
    const double a = angle(r), b = r.chance(0.05) ? a : angle(r), v = r.chance(0.1) ? a : r.chance(0.1) ? b : angle(r);
    c.note(a), c.note(b), c.note(v);
    const double tol = 1e-14 + 4e-16 * (std::fabs(a) + std::fabs(b) + std::fabs(v));
    auto say = [&](const char* f, double got) { return str(f, "(", a, ", ", b, ") = ", got); };
    // normalisation
    const double na = EnforceContinuousRevoluteBounds(a), nb = EnforceContinuousRevoluteBounds(b);
    c.check(na > -M_PI && na <= M_PI, "normalize-range", [&] { return say("normalize", na); });
    c.check(circ(na, a) <= tol, "normalize-turns", [&] { return say("normalize", na); });
    c.check(EnforceContinuousRevoluteBounds(na) == na, "normalize-idempotent", [&] { return say("normalize", na); });
    if (a > -M_PI && a <= M_PI) c.check(na == a, "normalize-in-range", [&] { return say("normalize", na); });
    // signed and unsigned distance
    const double s = ContinuousRevoluteSignedDistance(a, b), d = ContinuousRevoluteDistance(a, b);
    const LD want = wrap((LD)b - a);
    c.check(circ((LD)a + s, b) <= tol, "signed-takes-first-to-second", [&] { return say("signed distance", s); });
    c.check(s > -M_PI && s <= M_PI, "signed-shortest", [&] { return say("signed distance", s); });
    if (TURN / 2 - fabsl(want) > tol) c.check(fabsl(s - want) <= tol, "signed-direction", [&] { return str(say("signed distance", s), " want ", (double)want); });
    c.check(d == std::fabs(s), "unsigned-magnitude", [&] { return say("distance", d); });
    c.near(ContinuousRevoluteDistance(b, a), d, tol, "symmetric", say("distance", d));
    c.check(ContinuousRevoluteDistance(a, v) <= d + ContinuousRevoluteDistance(b, v) + tol, "triangle", [&] { return str(say("distance", d), " via ", v); });
    // adding turns
    const double k = (double)r.range(-5, 5) * 2.0 * M_PI, a2 = a + k, tol2 = tol + 4e-16 * std::fabs(k) * 8;
    c.near(ContinuousRevoluteDistance(a2, b), d, tol2, "turn-invariant", say("distance", d));
    c.check(circ(EnforceContinuousRevoluteBounds(a2), na) <= tol2, "normalize-turn-invariant", [&] { return say("normalize", na); });
    // addition and range
    const double sum = AddContinuousRevoluteValues(a, b);
    c.check(sum > -M_PI && sum <= M_PI && circ(sum, (LD)a + b) <= tol, "add", [&] { return say("add", sum); });
    const double range = GetContinuousRevoluteRange(a, b);
    c.check(range >= 0 && range <= 2 * M_PI + tol && circ((LD)a + range, b) <= tol, "range", [&] { return say("range", range); });
    const LD w = ccw(a, b);
    if (w > tol && TURN - w > tol) c.check(fabsl(range - w) <= tol, "range-direction", [&] { return str(say("range", range), " want ", (double)w); });
    if (na == nb) {
      c.check(s == 0 && d == 0 && range == 0, "same-angle", [&] { return str(say("range", range), " signed ", s); });
      if (circ(a, v) > 4 * tol) c.check(!CheckInContinuousRevoluteBounds(a, b, v), "in-empty-bounds", [&] { return str("bounds ", a, "..", b, " value ", v); });
      c.count("equal-angles");
    }
    // membership
    const double q = r.chance(0.3) ? range : r.real(0, 2 * M_PI);
    const LD off = ccw(a, v);
    if (fabsl(off - q) > 4 * tol && off > 4 * tol && TURN - off > 4 * tol)
      c.check(CheckInContinuousRevoluteRange(a, q, v) == (off <= q), "in-range", [&] { return str("start ", a, " range ", q, " value ", v); });
    if (w > 4 * tol && TURN - w > 4 * tol && off > 4 * tol && TURN - off > 4 * tol && fabsl(off - w) > 4 * tol)
      c.check(CheckInContinuousRevoluteBounds(a, b, v) == (off <= w), "in-bounds", [&] { return str("bounds ", a, "..", b, " value ", v); });
    c.check(CheckInContinuousRevoluteBounds(a, b, a), "start-in-bounds", [&] { return str("bounds ", a, "..", b); });
    c.check(CheckInContinuousRevoluteBounds(a, b, b), "end-in-bounds", [&] { return str("bounds ", a, "..", b); });
    c.check(CheckInContinuousRevoluteRange(a, q, a), "start-in-range", [&] { return str("start ", a, " range ", q); });
    // interpolation
    const double t = r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.real();
    const double i = InterpolateContinuousRevolute(a, b, t);
    c.check(std::fabs(i) <= M_PI + 1e-15, "interpolate-range", [&] { return str(say("interpolate", i), " ratio ", t); });
    c.near(ContinuousRevoluteDistance(a, i), t * d, 3 * tol, "interpolate-proportional", str(say("interpolate", i), " ratio ", t));
    c.near(ContinuousRevoluteDistance(i, b), (1 - t) * d, 3 * tol, "interpolate-proportional", str(say("interpolate", i), " ratio ", t));
    {
      Quiet quiet;
      c.check(circ(InterpolateContinuousRevolute(a, b, -r.real(1e-9, 3)), a) <= tol, "interpolate-clamped", "ratio below 0");
      c.check(circ(InterpolateContinuousRevolute(a, b, 1 + r.real(1e-9, 3)), b) <= tol, "interpolate-clamped", "ratio above 1");
    }
    c.nontrivial(std::fabs(b - a) > M_PI || std::fabs(a) > M_PI);
    if (c.index < 2) c.sample(str("a=", a, " b=", b, " signed ", s, " range ", range));
    (void)nb;
  });
  return m.finish();
}
