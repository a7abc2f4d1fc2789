// C13: gamma and chi-square distributions
#include "dist.hpp"
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
using namespace aslam::calibration;
using ref::L;

template <class D> static void gammaLike(mon::Ctx& c, D& d, L s, L r) {
  const L inf = INFINITY;
  std::vector<double> xs;
  const double mean = (double)(s / r), sd = (double)(std::sqrt(s) / r);
  for (int i = 0; i < 30; ++i) {
    double x = i < 14 ? std::fabs(mean + sd * c.rng.normal() * 2) : i < 22 ? mean * c.rng.logu(1e-4, 1e2) : c.rng.logu(1e-30, 1e30) * mean;
    if (x > 0 && x < 1e300) xs.push_back(x);
  }
  std::sort(xs.begin(), xs.end());
  double last = 0;
  for (double x : xs) {
    const L lx = std::log((L)x), lp = s * std::log(r) - ref::lgam(s) + (s - 1) * lx - r * x;
    const double tol = 1e-12 * (double)(1 + std::fabs(s * std::log(r)) + std::fabs(ref::lgam(s)) + std::fabs((s - 1) * lx) + r * x);
    c.checkNear(d.logpdf(x), (double)lp, 0, tol, "gamma-logpdf", "log density");
    if (tol < 1e-2) c.checkNear(d.pdf(x), (double)std::exp(lp), 4 * tol, 1e-300, "gamma-pdf", "density");
    c.check(d.pdf(x) >= 0 && d(x) == d.pdf(x), "density-access", "pdf(%g)=%g operator() %g", x, d.pdf(x), d(x));
    L P, Q; ref::gammaPQ(s, r * x, P, Q);
    const double F = d.cdf(x);
    c.checkNear(F, (double)P, 1e-9, 1e-14, "gamma-cdf", "cumulative");
    c.check(F >= last * (1 - 1e-13) && F >= 0 && F <= 1, "cdf-not-monotone", "cdf(%g)=%.17g after %.17g", x, F, last);
    last = F;
  }
  for (double x : {-1e-300, -1.0, -1e30, -(double)INFINITY}) {
    c.check(d.pdf(x) == 0, "density-outside-support", "pdf(%g)=%g", x, d.pdf(x));
    c.check(d.logpdf(x) == -INFINITY, "logdensity-outside-support", "logpdf(%g)=%g", x, d.logpdf(x));
    c.check(d.cdf(x) == 0, "cdf-outside-support", "cdf(%g)=%g", x, d.cdf(x));
  }
  c.check(d.cdf(0) == 0 && d.cdf(INFINITY) == 1, "cdf-limits", "cdf(0)=%g cdf(inf)=%g", d.cdf(0), d.cdf(INFINITY));
  c.check(d.pdf(INFINITY) == 0, "density-at-infinity", "%g", d.pdf(INFINITY));
  const double at0 = s > 1 ? 0.0 : s == 1 ? (double)r : INFINITY;
  c.checkNear(d.pdf(0), at0, 1e-12, 0, "density-at-zero", "density at the border");
  // quantiles
  double lastq = 0;
  for (double p : {0.0, 1e-12, 1e-6, 0.01, 0.3, 0.5, 0.8, 0.99, 0.999999, 1.0}) {
    const double q = d.invcdf(p);
    if (q == 0 || q * (double)r > 1e-280) c.check(q >= lastq || lastq * (double)r < 1e-280, "quantile-not-monotone", "invcdf(%g)=%g after %g", p, q, lastq); lastq = q;
    if (p == 0) c.check(q == 0, "quantile-of-zero", "%g", q);
    else if (p == 1) c.check(q == INFINITY, "quantile-of-one", "%g", q);
    else if (q * (double)r > 1e-280) {
      L P, Q; ref::gammaPQ(s, r * q, P, Q);
      c.check(mon::Ctx::near((double)P, p, 1e-7, 0) && mon::Ctx::near((double)Q, 1 - p, 1e-5, 0), "quantile", "P(%.17g)=%.17Lg want %.17g", q, P, p);
    }
  }
  for (double p : {-1e-9, 1.0000001, -(double)INFINITY, (double)INFINITY, (double)NAN})
    c.check(ref::isBadArgument(ref::outcome([&]() { d.invcdf(p); })), "bad-probability-accepted", "invcdf(%g)", p);
  for (int i = 0; i < 6 && mean > 0; ++i) {
    const double x = std::fabs(mean + sd * c.rng.normal()); const double F = d.cdf(x);
    if (F > 1e-8 && F < 0.999) c.checkNear(d.invcdf(F), x, 1e-6, 0, "quantile-of-cdf", "quantile of the cumulative");
  }
}
SECTION(gammaReal, 4) {
  c.cases(2400, [&]() {
    const double s = c.rng.coin(0.15) ? 1 : c.rng.coin() ? c.rng.logu(1e-2, 50) : c.rng.logu(1e-3, 3e4), r = c.rng.coin(0.1) ? 1 : c.rng.logu(1e-9, 1e9);
    c.note("gamma shape %.17g rate %.17g", s, r);
    GammaDistribution<double> d(s, r);
    c.seen(mon::hcomb(mon::hd(s), mon::hd(r)));
    gammaLike(c, d, s, r);
    c.sample("gamma shape " + std::to_string(s) + " rate " + std::to_string(r));
  });
}
SECTION(gammaInteger, 1) {
  c.cases(600, [&]() {
    const size_t s = 1 + c.rng.below(c.rng.coin() ? 8 : 300); const double r = c.rng.logu(1e-3, 1e3);
    c.note("gamma (integer) shape %zu rate %.17g", s, r);
    GammaDistribution<size_t> d(s, r);
    c.seen(mon::hcomb(s, mon::hd(r)));
    gammaLike(c, d, s, r);
  });
}
SECTION(chiSquare, 2) {
  c.cases(1200, [&]() {
    const double k = c.rng.coin() ? 1 + (double)c.rng.below(60) : c.rng.logu(2e-2, 1e4);
    c.note("chi-square degrees %.17g", k);
    ChiSquareDistribution d(k);
    c.seen(mon::hd(k));
    gammaLike(c, d, (L)k / 2, 0.5L);
  });
}
/// rates and arguments over the whole floating-point range
SECTION(gammaWide, 2) {
  c.cases(4000, [&]() {
    const double s = c.rng.coin(0.3) ? 1 + c.rng.below(6) : c.rng.logu(1e-2, 60); const double r = c.rng.coin() ? c.rng.logu(1e-307, 1e-270) : c.rng.logu(1e-300, 1e300);
    GammaDistribution<double> d(s, r), e(1, 2); e = d; e.setInvScale(1); e.setInvScale(r);
    for (int i = 0; i < 6; ++i) {
      const double t = c.rng.coin(0.7) ? s * c.rng.logu(1e-2, 5) : c.rng.logu(1e-6, 300), x = t / r; // r x = t
      if (!(x > 1e-300 && x < 1.7e308)) continue;
      c.note("gamma shape %.17g rate %.17g at %.17g", s, r, x);
      L P, Q; ref::gammaPQ(s, (L)r * x, P, Q);
      c.checkNear(d.cdf(x), (double)P, 1e-9, 1e-14, "gamma-cdf", "cumulative"); c.checkNear(e.cdf(x), (double)P, 1e-9, 1e-14, "gamma-cdf", "cumulative");
      const L lx = std::log((L)x), lp = s * std::log((L)r) - ref::lgam(s) + (s - 1) * lx - (L)r * x;
      const double tol = 1e-12 * (double)(1 + std::fabs(s * std::log((L)r)) + std::fabs(ref::lgam(s)) + std::fabs((s - 1) * lx) + (L)r * x);
      c.checkNear(d.logpdf(x), (double)lp, 0, tol, "gamma-logpdf", "log density"); c.checkNear(e.logpdf(x), (double)lp, 0, tol, "gamma-logpdf", "log density");
      c.seen(mon::hcomb(mon::hd(s), mon::hd(r)));
    }
  });
}
