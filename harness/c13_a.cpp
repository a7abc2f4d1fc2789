// C13: normal and uniform distributions
#include "dist.hpp"
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
using namespace aslam::calibration;
using ref::L;

SECTION(normal1v, 1) {
  c.cases(3200, [&]() {
    const double m = c.rng.coin(0.2) ? 0 : c.rng.signedLog(1e-9, 1e9), v = c.rng.logu(1e-18, 1e18), sd = std::sqrt(v);
    c.note("normal mean %.17g variance %.17g", m, v);
    NormalDistribution<1> d(m, v);
    const ContinuousDistribution<double>& base = d;
    c.seen(mon::hcomb(mon::hd(m), mon::hd(v)));
    std::vector<double> xs;
    for (int i = 0; i < 40; ++i) {
      double z = i < 20 ? c.rng.normal() : i < 30 ? c.rng.uni(-40, 40) : c.rng.signedLog(1e-6, 1e6);
      xs.push_back(m + z * sd);
    }
    xs.push_back(m);
    std::sort(xs.begin(), xs.end());
    double last = 0;
    for (double x : xs) {
      const L z = ((L)x - m) / std::sqrt((L)v);
      const L lp = -z * z / 2 - std::log(2 * ref::PI * v) / 2;
      const double scale = 1e-13 * (double)(1 + std::fabs(z * z) + std::fabs(std::log((L)v)));
      c.checkNear(d.logpdf(x), (double)lp, 0, scale, "normal-logpdf", "log density");
      c.checkNear(d.pdf(x), (double)std::exp(lp), 4 * scale, 1e-300, "normal-pdf", "density");
      c.check(d.pdf(x) >= 0, "negative-density", "pdf(%g)", x);
      c.check(d(x) == d.pdf(x) && base.getValue(x) == d.pdf(x), "density-access", "operator() or getValue differs from pdf at %g", x);
      const double F = d.cdf(x);
      c.checkNear(F, (double)(erfcl(-z / std::sqrt(2.0L)) / 2), 1e-13, 1e-15, "normal-cdf", "cumulative");
      c.check(F >= last && F >= 0 && F <= 1, "cdf-not-monotone", "cdf(%g)=%g after %g", x, F, last);
      last = F;
    }
    c.check(d.cdf(-INFINITY) == 0 && d.cdf(INFINITY) == 1, "cdf-limits", "cdf(-inf)=%g cdf(inf)=%g", d.cdf(-INFINITY), d.cdf(INFINITY));
    c.check(d.pdf(INFINITY) == 0 && d.pdf(-INFINITY) == 0, "density-at-infinity", "not zero");
    // the cumulative is the integral of the density (Simpson, 4 sd)
    const double a = m + c.rng.uni(-4, 2) * sd, b = a + c.rng.uni(0.5, 3) * sd; const int n = 200;
    if (sd > 1e-6 * std::fabs(m)) {
      L s = 0; for (int i = 0; i <= n; ++i) s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * (L)d.pdf(a + (b - a) * i / n);
      c.checkNear(d.cdf(b) - d.cdf(a), (double)(s * (b - a) / n / 3), 1e-7, 1e-9, "cdf-not-integral", "integral of the density");
    }
    c.sample("normal mean " + std::to_string(m) + " variance " + std::to_string(v));
  });
}

template <int M> static void mv(mon::Ctx& c, double lo, double hi) {
  typedef NormalDistribution<M> D; typedef typename D::RandomVariable V;
  std::vector<double> sd;
  const auto C = gen::cov<M>(c, lo, hi, &sd);
  V mean; for (int i = 0; i < M; ++i) mean(i) = c.rng.coin(0.3) ? 0 : c.rng.normal() * 10 * sd[i];
  c.note("normal of dimension %d, scale %g mean0 %g", M, sd[0], mean(0));
  D d(mean, C); ref::Spd S(M, gen::rowMajor(C));
  c.seen(mon::hcomb(M, mon::hd(C(0, M - 1))));
  for (int i = 0; i < 12; ++i) {
    V x; const double w = i < 8 ? 1.5 : c.rng.logu(1, 100);
    for (int k = 0; k < M; ++k) x(k) = mean(k) + sd[k] * c.rng.normal() * w;
    const L q = S.quad(gen::diff(x, mean)), lp = -q / 2 - S.logdet / 2 - M * std::log(2 * ref::PI) / 2;
    const double tol = 1e-10 * (double)(1 + q + std::fabs(S.logdet));
    c.checkNear(d.logpdf(x), (double)lp, 0, tol, "normalmv-logpdf", "log density");
    c.checkNear(d.pdf(x), (double)std::exp(lp), 2 * tol, 1e-300, "normalmv-pdf", "density");
    c.check(d(x) == d.pdf(x), "density-access", "operator() differs");
  }
  V xi = mean; xi(0) = INFINITY;
  if (M > 1) { xi.setConstant(1e200); c.check(d.pdf(xi) == 0 , "density-far-away", "pdf %g", d.pdf(xi)); }
}
SECTION(normalMv, 2) {
  c.cases(2000, [&]() { mv<2>(c, 1e-6, 1e6); });
  c.cases(2000, [&]() { mv<3>(c, 1e-6, 1e6); });
  c.cases(800, [&]() { mv<4>(c, 1e-5, 1e5); });
  c.cases(480, [&]() { mv<12>(c, 1e-2, 1e2); });
  // determinant far outside the range of a double
  c.cases(160, [&]() { mv<12>(c, 1e-32, 1e-30); });
  c.cases(160, [&]() { mv<12>(c, 1e30, 1e31); });
}

template <class X> static void uni1(mon::Ctx& c) {
  const bool isInt = std::numeric_limits<X>::is_integer;
  X a, b;
  if (isInt) { a = (X)c.rng.range(-50, 50); b = (X)(a + 1 + (X)c.rng.below(c.rng.coin() ? 5 : 200)); if (!std::numeric_limits<X>::is_signed) { a = (X)c.rng.below(50); b = a + 1 + (X)c.rng.below(9); } }
  else { a = (X)(c.rng.coin(0.3) ? 0 : c.rng.signedLog(1e-6, 1e6)); b = (X)(a + c.rng.logu(1e-6, 1e6)); if (!(a < b)) return; }
  c.note("uniform on [%g, %g] (%s)", (double)a, (double)b, typeid(X).name());
  UniformDistribution<X> d(a, b);
  c.seen(mon::hcomb(mon::hd(a), mon::hd(b)));
  const L area = (L)b - (L)a + (isInt ? 1 : 0);
  auto at = [&](X x, bool in) {
    const double want = in ? (double)(1 / (L)(X)area) : 0.0;
    c.checkNear(d.pdf(x), want, 1e-6 * (sizeof(X) < 8 && !isInt) + 1e-13, 0, "uniform-pdf", "density");
    c.check(d.pmf(x) == d.pdf(x) && d(x) == d.pdf(x), "density-access", "pmf/operator() differ at %g", (double)x);
  };
  at(a, true); at(b, true);
  if (isInt) {
    L s = 0; for (X x = a; ; ++x) { s += d.pmf(x); at(x, true); if (x == b) break; }
    c.checkNear((double)s, 1, 1e-12, 0, "mass-not-one", "sum of masses");
    if (std::numeric_limits<X>::is_signed || a > 0) at((X)(a - 1), false);
    at((X)(b + 1), false); at(std::numeric_limits<X>::max(), false);
    if (std::numeric_limits<X>::is_signed) at(std::numeric_limits<X>::min(), false);
  } else {
    at(std::nextafter(a, b), true); at(std::nextafter(b, a), true); at((X)(a + (b - a) / 2), true);
    at(std::nextafter(a, -std::numeric_limits<X>::infinity()), false); at(std::nextafter(b, std::numeric_limits<X>::infinity()), false);
    at(std::numeric_limits<X>::infinity(), false); at(-std::numeric_limits<X>::infinity(), false); at(std::numeric_limits<X>::quiet_NaN(), false);
    const double r = d.pdf((X)(a + (b - a) / 2)) * (double)(b - a);
    c.checkNear(r, 1, 1e-5 * (sizeof(X) < 8) + 1e-12, 0, "mass-not-one", "density times length");
  }
}
SECTION(uniform1v, 1) {
  c.cases(1200, [&]() { uni1<double>(c); }); c.cases(1200, [&]() { uni1<float>(c); });
  c.cases(1200, [&]() { uni1<int>(c); }); c.cases(800, [&]() { uni1<long>(c); }); c.cases(400, [&]() { uni1<size_t>(c); });
}
template <class X, int M> static void uniM(mon::Ctx& c) {
  const bool isInt = std::numeric_limits<X>::is_integer;
  typedef Eigen::Matrix<X, M, 1> V; const int n = M > 0 ? M : 1 + (int)c.rng.below(4);
  V a(n), b(n); L area = 1; c.note("uniform dimension %d:", n);
  for (int i = 0; i < n; ++i) {
    if (isInt) { a(i) = (X)c.rng.range(-9, 9); b(i) = a(i) + 1 + (X)c.rng.below(5); }
    else { a(i) = (X)c.rng.signedLog(1e-2, 1e2); b(i) = (X)(a(i) + c.rng.logu(1e-2, 1e2)); }
    area *= (L)b(i) - (L)a(i) + (isInt ? 1 : 0); c.noteAdd(" [%g,%g]", (double)a(i), (double)b(i));
  }
  UniformDistribution<X, M> d(a, b);
  c.seen(mon::hcomb(mon::hd((double)area), n));
  const double eps = isInt ? 1e-13 : 1e-6 * (sizeof(X) < 8) + 1e-12;
  for (int t = 0; t < 20; ++t) {
    V x(n); bool in = true;
    for (int i = 0; i < n; ++i) {
      const int k = c.rng.below(t < 8 ? 3 : 6);
      X v = k == 0 ? a(i) : k == 1 ? b(i) : (X)(isInt ? a(i) + (X)c.rng.below((uint64_t)(b(i) - a(i)) + 1) : a(i) + (b(i) - a(i)) * (X)c.rng.uni(0.01, 0.99));
      if (k == 4) { v = isInt ? (X)(a(i) - 1) : (X)(a(i) - (X)0.5 * (b(i) - a(i))); in = false; }
      if (k == 5) { v = isInt ? (X)(b(i) + 1) : (X)(b(i) + (X)0.5 * (b(i) - a(i))); in = false; }
      x(i) = v;
    }
    c.checkNear(d.pdf(x), in ? (double)(1 / area) : 0.0, eps * 4, 0, "uniformmv-pdf", "density");
    c.check(d.pmf(x) == d.pdf(x) && d(x) == d.pdf(x), "density-access", "pmf/operator() differ");
  }
  if (isInt && area < 3000) { // total mass by enumeration
    V x = a; L s = 0;
    for (;;) { s += d.pmf(x); int i = 0; for (; i < n; ++i) { if (x(i) < b(i)) { ++x(i); break; } x(i) = a(i); } if (i == n) break; }
    c.checkNear((double)s, 1, 1e-11, 0, "mass-not-one", "sum of masses");
  }
}
SECTION(uniformMv, 1) {
  c.cases(800, [&]() { uniM<double, 2>(c); }); c.cases(800, [&]() { uniM<double, 3>(c); }); c.cases(800, [&]() { uniM<int, 2>(c); });
  c.cases(400, [&]() { uniM<int, 3>(c); }); c.cases(400, [&]() { uniM<float, 2>(c); });
}
