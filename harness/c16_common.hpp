#ifndef VERIF_C16_HPP
#define VERIF_C16_HPP
// C16: support and law of every sampler, with a scripted random source
#include "dist.hpp"
#include "c16_source.hpp"
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <algorithm>
using namespace aslam::calibration;
using ref::L;

namespace {
double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }

/// probability transforms of a sample: Kolmogorov-Smirnov distance and lag-1 correlation
void uniformity(mon::Ctx& c, std::vector<double> u, const char* sig) {
  const double n = u.size(); double r = 0;
  for (size_t i = 0; i + 1 < u.size(); ++i) r += (u[i] - 0.5) * (u[i + 1] - 0.5);
  c.check(std::fabs(12 * r / std::sqrt(n)) < 6.5, (std::string("dependent:") + sig).c_str(), "lag-1 correlation is %g sigma", 12 * r / std::sqrt(n));
  std::sort(u.begin(), u.end()); double D = 0;
  for (size_t i = 0; i < u.size(); ++i) D = std::max(D, std::max(std::fabs(u[i] - i / n), std::fabs(u[i] - (i + 1) / n)));
  c.check(D * std::sqrt(n) < 3.3, (std::string("law:") + sig).c_str(), "Kolmogorov-Smirnov distance %g (scaled %g) over %g draws", D, D * std::sqrt(n), n);
}
/// counts of each outcome against its probability
void cells(mon::Ctx& c, const std::vector<long>& k, const std::vector<double>& p, long n, const char* sig) {
  for (size_t i = 0; i < k.size(); ++i) {
    const double e = n * p[i], sd = std::sqrt(e * (1 - p[i]) + 1e-12);
    if (p[i] == 0) { c.check(k[i] == 0, (std::string("impossible:") + sig).c_str(), "outcome %zu of probability 0 came %ld times", i, k[i]); continue; }
    if (!c.check(std::fabs(k[i] - e) < 6.5 * sd + 12, (std::string("law:") + sig).c_str(), "outcome %zu: %ld of %ld draws, expected %.1f (%.1f sigma)", i, k[i], n, e, (k[i] - e) / sd)) return;
  }
}
long N(mon::Ctx& c) { return c.thorough ? 100000 : 20000; }

/// extremes first, an ordinary stream afterwards
void hostile(mon::Ctx& c) {
  src::reset(c.rng.next());
  static const long ext[] = {0, 1, 2, RAND_MAX, RAND_MAX - 1, RAND_MAX / 2, RAND_MAX / 2 + 1};
  const int k = 1 + c.rng.below(6);
  const bool same = c.rng.coin(); const long one = ext[c.rng.below(7)];
  for (int i = 0; i < k; ++i) src::script.push_back(same ? one : c.rng.coin(0.2) ? (long)(c.rng.next() >> 33) : ext[c.rng.below(7)]);
  c.noteAdd(" source:"); for (size_t i = src::script.size(); i-- > 0;) c.noteAdd(" %ld", src::script[i]);
}
void normalStream(mon::Ctx& c) { src::reset(c.rng.next()); }

template <class T> T value(mon::Ctx& c, bool isInt);
template <> double value<double>(mon::Ctx& c, bool) { const int k = c.rng.below(4); return k == 0 ? c.rng.uni(-1, 1) : k == 1 ? c.rng.signedLog(1e-9, 1e9) : k == 2 ? c.rng.range(-5, 5) : c.rng.signedLog(1e-300, 1e300); }
template <> float value<float>(mon::Ctx& c, bool) { return (float)c.rng.signedLog(1e-6, 1e6); }
template <> int value<int>(mon::Ctx& c, bool) { return c.rng.coin() ? c.rng.range(-10, 10) : c.rng.range(-1000000, 1000000); }
template <> long value<long>(mon::Ctx& c, bool) { return c.rng.coin() ? c.rng.range(-10, 10) : c.rng.range(-1000000000L, 1000000000L); }
template <> short value<short>(mon::Ctx& c, bool) { return c.rng.range(-15000, 15000); }

template <class T> void supportUniform(mon::Ctx& c, const char* tn) {
  T a = value<T>(c, true), b = value<T>(c, true); if (b < a) std::swap(a, b); if (!(a < b)) return;
  c.note("uniform<%s> [%.17g, %.17g]", tn, (double)a, (double)b); hostile(c);
  Randomizer<T> r;
  for (int i = 0; i < 8; ++i) { T x = r.sampleUniform(a, b); c.check(x >= a && x <= b, "support:uniform", "drew %.17g", (double)x); }
  hostile(c); UniformDistribution<T> d(a, b);
  for (int i = 0; i < 8; ++i) { T x = d.getSample(); c.check(x >= a && x <= b, "support:uniform-distribution", "drew %.17g", (double)x); c.check(d(x) > 0, "support:density", "density at the sample %.17g is zero", (double)x); }
  c.seen(mon::hcomb(mon::hd((double)a), mon::hd((double)b)));
}
template <int M> void supportCategorical(mon::Ctx& c) {
  Eigen::Matrix<double, M, 1> p; double s = 0;
  do { s = 0; for (int i = 0; i < M; ++i) { p(i) = c.rng.coin(0.35) ? 0 : c.rng.coin(0.2) ? 1e-12 : c.rng.u01(); s += p(i); } } while (!(s > 0.1));
  p /= s; if (!(std::fabs(p.sum() - 1) <= 1e-12)) return;
  c.note("categorical %d:", M); for (int i = 0; i < M; ++i) c.noteAdd(" %g", p(i));
  hostile(c); Randomizer<double, M> r;
  for (int i = 0; i < 10; ++i) { size_t k = r.sampleCategorical(p); c.check(k < (size_t)M && p((int)std::min<size_t>(k, M - 1)) > 0, "support:categorical", "drew outcome %zu", k); }
  uint64_t h = 0; for (int i = 0; i < M; ++i) h = mon::hcomb(h, mon::hd(p(i))); c.seen(h);
}
} // namespace

#endif
