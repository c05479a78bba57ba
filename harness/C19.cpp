// MON-variants: asan plain
// MON-rule: truncated normals over means, deviations and bounds (straddling, one-sided, infinite, far tails to 1e4 deviations, narrow to a single point) with support checked on every sample and a Kolmogorov-Smirnov statistic against an independently computed distribution; density/distribution functions against quadrature; rotations and Euler angles against exact uniform-rotation laws; multivariate samples against their moments; distinct by parameters; statistics use margins with false-alarm probability below 1e-10 per case
#include "arc_utilities/arc_helpers.hpp"
#include "mon.hpp"
using namespace mon;
using namespace arc_helpers;

// log of the upper tail probability of a standard normal, accurate far out
static double logq(double z) {
  if (z < 30) return std::log(0.5 * std::erfc(z / std::sqrt(2.0)));
  const double i = 1.0 / (z * z);
  return -0.5 * z * z - std::log(z) - 0.5 * std::log(2 * M_PI) + std::log1p(-i + 3 * i * i - 15 * i * i * i);
}
// P(Z <= z | l <= Z <= u)
static double truth(double z, double l, double u) {
  if (z <= l) return 0;
  if (z >= u) return 1;
  if (u < 0 || (l < 0 && -l > u)) return 1 - truth(-z, -u, -l);
  if (u - l < 1e-6) {
    // the density is exp(-l t) over the tiny interval to first order
    const double a = l * (z - l), b = l * (u - l);
    return std::fabs(b) < 1e-9 ? (z - l) / (u - l) : std::expm1(-a) / std::expm1(-b);
  }
  const double L = logq(l), Z = logq(z), U = u == INFINITY ? -INFINITY : logq(u);
  return std::expm1(Z - L) / std::expm1(U - L);
}
static double ks(std::vector<double> v, const std::function<double(double)>& F) {
  std::sort(v.begin(), v.end());
  double d = 0;
  const double n = (double)v.size();
  for (size_t i = 0; i < v.size(); i++) {
    const double f = F(v[i]);
    d = std::max(d, std::max(std::fabs(f - i / n), std::fabs(f - (i + 1) / n)));
  }
  return d * std::sqrt(n);
}
static const double KS = 3.6;  // P(K > 3.6) ~ 1e-11

struct Par {
  double mean, sd, lo, hi, l, u;
};
static Par pick(Rng& r) {
  Par p;
  p.mean = r.chance(0.3) ? 0.0 : r.real(-50, 50);
  p.sd = r.chance(0.3) ? 1.0 : std::exp(r.real(-5, 4));
  auto at = [&](double z) { return p.mean + p.sd * z; };
  switch (r.below(11)) {
    case 0: p.lo = at(-std::exp(r.real(-3, 3))), p.hi = at(std::exp(r.real(-3, 3))); break;
    case 1: p.lo = at(r.real(-6, 8)), p.hi = INFINITY; break;
    case 2: p.lo = -INFINITY, p.hi = at(r.real(-8, 6)); break;
    case 3: p.lo = -INFINITY, p.hi = INFINITY; break;
    case 4: p.lo = at(r.real(0, 12)), p.hi = p.lo + p.sd * std::exp(r.real(-6, 4)); break;
    case 5: p.hi = at(-r.real(0, 12)), p.lo = p.hi - p.sd * std::exp(r.real(-6, 4)); break;
    case 6: {  // narrow, around or beside the mean
      const double w = p.sd * std::exp(r.real(-18, -2));
      p.lo = at(r.chance(0.5) ? 0.0 : r.real(-3, 3)) - w * r.real();
      p.hi = p.lo + w;
      break;
    }
    case 7: {  // far tail on either side
      const double z = std::exp(r.real(2.5, 9.2)), w = std::exp(r.real(-6, 12));
      if (r.chance(0.5))
        p.lo = at(z), p.hi = r.chance(0.3) ? INFINITY : at(z + w);
      else
        p.hi = at(-z), p.lo = r.chance(0.3) ? -INFINITY : at(-z - w);
      break;
    }
    case 9:  // bounds close to zero, mean away from it
      p.lo = p.mean == 0.0 ? 0.1 * r.real() : r.real(-1, 1) * 1e-3;
      p.hi = p.lo + (r.chance(0.5) ? 0.0 : std::exp(r.real(-30, -3)));
      if (std::fabs(p.lo - p.mean) > 1e4 * p.sd) p.sd = std::fabs(p.lo - p.mean) * 1e-3;
      break;
    case 8:  // touching the mean
      p.lo = r.chance(0.5) ? p.mean : at(-r.real(0, 3));
      p.hi = p.lo == p.mean ? at(std::exp(r.real(-4, 2))) : p.mean;
      break;
    default: p.lo = r.chance(0.3) ? p.mean : at(r.real(-4, 4)), p.hi = p.lo;  // a single point
  }
  p.l = (p.lo - p.mean) / p.sd;
  p.u = (p.hi - p.mean) / p.sd;
  return p;
}
static std::string show(const Par& p) { return str("mean ", p.mean, " sd ", p.sd, " bounds [", p.lo, ",", p.hi, "] standardized [", p.l, ",", p.u, "]"); }

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("support", 3000, 40000, [](Case& c) {
    c.m.arm(20);
    const Par p = pick(c.rng);
    c.note(p.l), c.note(p.u), c.note(p.mean), c.note(p.sd);
    const uint64_t seed = c.rng.u64();
    std::mt19937_64 g(seed), g2(seed);
    SplitMix64PRNG h(seed);
    TruncatedNormalDistribution d(p.mean, p.sd, p.lo, p.hi), d2(p.mean, p.sd, p.lo, p.hi);
    for (int i = 0; i < 40; i++) {
      const double x = d(g);
      c.check(x >= p.lo && x <= p.hi && std::isfinite(x), "in-bounds", [&] { return str("sample ", x, " from ", show(p)); });
      c.check(x == d2(g2), "replay", "equal seeds, different samples");
    }
    const double x = d2(h);
    c.check(x >= p.lo && x <= p.hi, "in-bounds", [&] { return str("sample ", x, " from ", show(p)); });
    c.count("samples", 41);
    c.nontrivial(p.lo < p.hi);
    if (c.index < 2) c.sample(show(p));
  });
  m.group("fit", 240, 4000, [](Case& c) {
    c.m.arm(60);
    Par p;
    do
      p = pick(c.rng);
    while (p.lo == p.hi || std::fabs(p.l) > 1e6 * (p.u - p.l));
    c.note(p.l), c.note(p.u), c.note(p.mean), c.note(p.sd);
    std::mt19937_64 g(c.rng.u64());
    TruncatedNormalDistribution d(p.mean, p.sd, p.lo, p.hi);
    std::vector<double> v;
    int at_bound = 0;
    for (int i = 0; i < 4000; i++) {
      const double x = d(g);
      at_bound += x == p.lo || x == p.hi;
      v.push_back((x - p.mean) / p.sd);
    }
    if (p.hi - p.lo > 1e-6 * (std::fabs(p.mean) + p.sd * (1 + std::min(std::fabs(p.l), std::fabs(p.u)))))
      c.check(at_bound <= 2, "atoms", [&] { return str(at_bound, " of 4000 samples exactly at a bound of ", show(p)); });
    const double k = ks(v, [&](double z) { return truth(z, p.l, p.u); });
    c.check(k < KS, "distribution", [&] { return str("Kolmogorov-Smirnov ", k, " for ", show(p)); });
    c.count("samples", 4000);
    c.nontrivial();
    if (c.index < 2) c.sample(str(show(p), " KS ", k));
  });
  m.group("functions", 1500, 30000, [](Case& c) {
    Rng& r = c.rng;
    const double mean = r.real(-5, 5), sd = std::exp(r.real(-2, 2)), lo = mean + sd * r.real(-4, 3), hi = lo + sd * r.real(0.1, 4);
    c.note(mean), c.note(sd), c.note(lo), c.note(hi);
    auto simpson = [&](double a, double b, const std::function<double(double)>& f) {
      double s = 0;
      const int n = 200;
      for (int i = 0; i < n; i++) {
        const double x = a + (b - a) * i / n, y = a + (b - a) * (i + 1) / n;
        s += (y - x) / 6 * (f(x) + 4 * f((x + y) / 2) + f(y));
      }
      return s;
    };
    const double a = r.real(lo, hi), b = r.real(a, hi);
    const double I = simpson(a, b, [&](double x) { return std::exp(-0.5 * (x - mean) * (x - mean) / sd / sd) / (sd * std::sqrt(2 * M_PI)); });
    const double all = simpson(lo, hi, [&](double x) { return std::exp(-0.5 * (x - mean) * (x - mean) / sd / sd) / (sd * std::sqrt(2 * M_PI)); });
    c.near(IntegrateGaussian(mean, sd, a, b), I, 1e-8, "integral");
    c.near(EvaluateGaussianCDF(mean, sd, b) - EvaluateGaussianCDF(mean, sd, a), I, 1e-8, "cdf");
    c.near(EvaluateGaussianCDF(mean, sd, mean), 0.5, 1e-12, "cdf-median");
    c.near(EvaluateGaussianPDF(mean, sd, a), std::exp(-0.5 * (a - mean) * (a - mean) / sd / sd) / (sd * std::sqrt(2 * M_PI)), 1e-12 / sd, "pdf");
    c.near(IntegrateTruncatedGaussian(mean, lo, hi, sd, a, b), I / all, 1e-6, "truncated-integral");
    c.near(EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, a) + IntegrateTruncatedGaussian(mean, lo, hi, sd, a, hi), 1.0, 1e-9, "truncated-cdf");
    if (a > lo && a < hi) c.near(EvaluateTruncatedGaussianPDF(mean, lo, hi, sd, a), EvaluateGaussianPDF(mean, sd, a) / all, 1e-6 / all / sd, "truncated-pdf");
    c.eq(EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, lo - r.real()), 0.0, "below");
    c.eq(EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, hi + r.real()), 1.0, "above");
    c.eq(EvaluateTruncatedGaussianPDF(mean, lo, hi, sd, lo - r.real(0.01, 1)), 0.0, "pdf-below");
    c.eq(EvaluateTruncatedGaussianPDF(mean, lo, hi, sd, hi + r.real(0.01, 1)), 0.0, "pdf-above");
    c.near(IntegrateTruncatedGaussian(mean, lo, hi, sd, lo - 1, hi + 1), 1.0, 1e-12, "whole");
    c.nontrivial();
  });
  m.group("rotations", 24, 300, [](Case& c) {
    Rng& r = c.rng;
    const uint64_t seed = r.u64();
    c.note(seed);
    std::mt19937_64 g(seed), g2(seed);
    RandomRotationGenerator gen, gen2;
    const bool euler = r.chance(0.5);
    c.note(euler);
    const Eigen::Vector3d probe = Eigen::Vector3d(r.normal(), r.normal(), r.normal()).normalized();
    std::vector<double> angle, z, az, sp;
    for (int i = 0; i < 6000; i++) {
      Eigen::Matrix3d R;
      if (!euler) {
        const Eigen::Quaterniond q = gen.GetQuaternion(g);
        c.near(q.norm(), 1.0, 1e-12, "unit");
        const std::vector<double> raw = gen2.GetRawQuaternion(g2);
        c.check(raw.size() == 4 && raw[0] == q.x() && raw[1] == q.y() && raw[2] == q.z() && raw[3] == q.w(), "raw-quaternion", "raw quaternion differs from quaternion with the same seed");
        R = q.toRotationMatrix();
      } else {
        const Eigen::Vector3d e = gen.GetEulerAngles(g);
        const std::vector<double> raw = gen2.GetRawEulerAngles(g2);
        c.check(raw.size() == 3 && raw[0] == e.x() && raw[1] == e.y() && raw[2] == e.z(), "raw-euler", "raw Euler angles differ with the same seed");
        c.check(std::fabs(e.x()) <= M_PI && std::fabs(e.z()) <= M_PI && e.y() >= -M_PI && e.y() <= 2 * M_PI, "euler-range", [&] { return str(e.x(), " ", e.y(), " ", e.z()); });
        R = (Eigen::AngleAxisd(e.z(), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(e.y(), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(e.x(), Eigen::Vector3d::UnitX())).toRotationMatrix();
      }
      angle.push_back(std::acos(std::max(-1.0, std::min(1.0, (R.trace() - 1) / 2))));
      const Eigen::Vector3d v = R * probe, w = R.transpose() * probe;
      z.push_back(v.z());
      az.push_back(std::atan2(v.y(), v.x()));
      sp.push_back(w.x());
    }
    auto flat = [](double x) { return (x + 1) / 2; };
    const double k1 = ks(angle, [](double t) { return (t - std::sin(t)) / M_PI; }), k2 = ks(z, flat), k3 = ks(az, [](double t) { return (t + M_PI) / (2 * M_PI); }), k4 = ks(sp, flat);
    c.check(k1 < KS, "angle-law", [&] { return str(euler ? "Euler" : "quaternion", " rotation angle KS ", k1); });
    c.check(k2 < KS && k3 < KS && k4 < KS, "uniform-direction", [&] { return str(euler ? "Euler" : "quaternion", " KS ", k2, " ", k3, " ", k4); });
    c.count("samples", 6000);
    c.nontrivial();
    if (c.index < 2) c.sample(str(euler ? "Euler" : "quaternion", " KS ", k1, " ", k2, " ", k3, " ", k4));
  });
  m.group("extremes", 400, 4000, [](Case& c) {
    // the generator's unit draws at their extremes
    Rng& r = c.rng;
    int n = 0;
    std::function<double()> u = [&] {
      n++;
      const double x = r.chance(0.3) ? 0.0 : r.chance(0.4) ? std::nextafter(1.0, 0.0) : r.chance(0.3) ? 0.5 : r.real();
      c.note(x);
      return x;
    };
    const Eigen::Quaterniond q = RandomRotationGenerator::GenerateUniformRandomQuaternion(u);
    c.near(q.norm(), 1.0, 1e-12, "unit");
    const Eigen::Vector3d e = RandomRotationGenerator::GenerateUniformRandomEulerAngles(u);
    c.check(std::fabs(e.x()) <= M_PI + 1e-12 && std::fabs(e.z()) <= M_PI + 1e-12 && e.y() >= -M_PI && e.y() <= 2 * M_PI + 1e-12, "euler-range", [&] { return str(e.x(), " ", e.y(), " ", e.z()); });
    c.nontrivial();
  });
  m.group("multivariate", 60, 800, [](Case& c) {
    Rng& r = c.rng;
    const int d = (int)r.range(1, 4), rank = r.chance(0.3) ? (int)r.range(0, d) : d, n = 8000;
    Eigen::MatrixXd A(d, rank);
    for (int i = 0; i < d; i++)
      for (int j = 0; j < rank; j++) A(i, j) = r.normal() * 2;
    const Eigen::MatrixXd S = rank ? Eigen::MatrixXd(A * A.transpose()) : Eigen::MatrixXd::Zero(d, d);
    Eigen::VectorXd mu(d);
    for (int i = 0; i < d; i++) mu(i) = r.real(-10, 10), c.note(mu(i));
    const uint64_t seed = r.u64();
    std::mt19937_64 g(seed), g2(seed);
    MultivariteGaussianDistribution dist(mu, S), dist2(mu, S);
    Eigen::VectorXd mean = Eigen::VectorXd::Zero(d);
    Eigen::MatrixXd cov = Eigen::MatrixXd::Zero(d, d);
    std::vector<double> first;
    const double scale = S.cwiseAbs().maxCoeff() + 1e-12;
    for (int k = 0; k < n; k++) {
      const Eigen::VectorXd x = dist(g);
      if (k < 50) c.check(x == dist2(g2), "replay", "equal seeds, different samples");
      mean += x - mu;
      cov += (x - mu) * (x - mu).transpose();
      if (S(0, 0) > 1e-9) first.push_back((x(0) - mu(0)) / std::sqrt(S(0, 0)));
    }
    mean /= n;
    cov /= n;
    for (int i = 0; i < d; i++) {
      c.near(mean(i), 0.0, 7.5 * std::sqrt(S(i, i) / n) + 1e-6 * scale, "mean");
      for (int j = 0; j < d; j++) c.near(cov(i, j), S(i, j), 9 * std::sqrt((S(i, i) * S(j, j) + S(i, j) * S(i, j)) / n) + 1e-6 * scale, "covariance", str("(", i, ",", j, ") d=", d, " rank=", rank));
    }
    if (!first.empty()) {
      const double k = ks(first, [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); });
      c.check(k < KS, "marginal", [&] { return str("KS ", k); });
    }
    c.note(rank);
    c.nontrivial(d >= 2);
    c.count("samples", n);
  });
  return m.finish();
}
