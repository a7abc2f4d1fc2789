#include "c16_common.hpp"

SECTION(law_discrete, 2) {
  auto cat = [&](auto tag) { const int M = decltype(tag)::value; Eigen::Matrix<double, M, 1> p; double s; do { s = 0; for (int i = 0; i < M; ++i) { p(i) = c.rng.coin(0.25) ? 0 : c.rng.u01(); s += p(i); } } while (!(s > 0.1)); p /= s; if (!(std::fabs(p.sum() - 1) <= 1e-12)) return;
    c.note("categorical:"); for (int i = 0; i < M; ++i) c.noteAdd(" %g", p(i)); normalStream(c); Randomizer<double, M> r; std::vector<long> k(M), k2(M); std::vector<double> q;
    for (int i = 0; i < M; ++i) q.push_back(p(i)); const long n = N(c);
    for (long i = 0; i < n; ++i) { size_t x = r.sampleCategorical(p), y = r.sampleCategorical(); if (x >= (size_t)M || y >= (size_t)M) { c.check(false, "support:categorical", "drew %zu, %zu", x, y); return; } ++k[x]; ++k2[y]; }
    cells(c, k, q, n, "categorical"); cells(c, k2, std::vector<double>(M, 1.0 / M), n, "categorical-default"); c.seen(mon::hcomb(M, mon::hd(p(0) + 7 * p(1)))); c.count("draws", 2 * n); };
  c.cases(4, [&] { cat(std::integral_constant<int, 2>()); });
  c.cases(6, [&] { cat(std::integral_constant<int, 4>()); });
  c.cases(4, [&] { cat(std::integral_constant<int, 7>()); });
  c.cases(4, [&] { // outcomes given at run time
    const int M = 2 + c.rng.below(8); Eigen::VectorXd p(M); for (int i = 0; i < M; ++i) p(i) = 0.01 + c.rng.u01(); p /= p.sum(); if (!(std::fabs(p.sum() - 1) <= 1e-12)) return; normalStream(c);
    Randomizer<double, Eigen::Dynamic> r; std::vector<long> k(M); std::vector<double> q; for (int i = 0; i < M; ++i) q.push_back(p(i));
    for (long i = 0; i < N(c); ++i) { size_t x = r.sampleCategorical(p); if (x >= (size_t)M) { c.check(false, "support:categorical", "drew %zu", x); return; } ++k[x]; }
    cells(c, k, q, N(c), "categorical-dynamic"); c.seen(mon::hcomb(M, mon::hd(p(0))));
  });
  auto counts = [&](const std::function<size_t()>& draw, const std::function<double(long)>& pmf, long lo, long hi, const char* sig) {
    const long n = N(c); std::vector<long> k(hi - lo + 3); std::vector<double> p(hi - lo + 3); double in = 0, below = 0;
    for (long i = lo; i <= hi; ++i) in += p[i - lo + 1] = pmf(i); for (long i = 0; i < lo; ++i) below += pmf(i); p[0] = below; p.back() = std::max(0.0, 1 - in - below); if (p.back() < 1e-9) p.back() = 1e-9; if (lo && p[0] < 1e-9) p[0] = 1e-9;
    double mean = 0; for (long i = 0; i < n; ++i) { const size_t x = draw(); ++k[x < (size_t)lo ? 0 : x > (size_t)hi ? hi - lo + 2 : x - lo + 1]; mean += x; }
    cells(c, k, p, n, sig); c.count("draws", n); return mean / n; };
  c.cases(8, [&] {
    const double m = c.rng.coin(0.3) ? c.rng.logu(30, 120) : c.rng.logu(0.05, 30); c.note("poisson(%g)", m); normalStream(c); Randomizer<double> r; Randomizer<int> ri; const bool i = c.rng.coin(0.3); const long w = 4 * std::sqrt(m) + 4;
    const double mean = counts([&] { return i ? ri.samplePoisson(m) : r.samplePoisson(m); }, [&](long k) { return (double)std::exp(k * std::log((L)m) - m - ref::lgam(k + 1)); }, std::max(0L, (long)m - w), (long)m + w, "poisson");
    c.check(std::fabs(mean - m) < 6.5 * std::sqrt(m / N(c)) + 1e-3, "mean:poisson", "mean %g", mean); c.seen(mon::hd(m));
  });
  c.cases(4, [&] { // large means: mean and variance
    const double m = c.rng.logu(400, 20000); const long n = c.thorough ? 4000 : 600; c.note("poisson(%g)", m); normalStream(c); Randomizer<double> r; double s = 0, q = 0;
    for (long i = 0; i < n; ++i) { const double x = (double)r.samplePoisson(m) - m; s += x; q += x * x; }
    s /= n; q = q / n / m; c.check(std::fabs(s) < 6.5 * std::sqrt(m / n), "mean:poisson-large", "mean is off by %g", s); c.check(std::fabs(q - 1) < 8 * std::sqrt(2.0 / n), "variance:poisson-large", "variance over mean %g", q); c.seen(mon::hd(m));
  });
  c.cases(8, [&] {
    const double p = c.rng.coin(0.3) ? 1 - c.rng.logu(1e-3, 0.3) : c.rng.logu(0.02, 0.9); c.note("geometric(%g)", p); normalStream(c); Randomizer<double> r; Randomizer<int> ri; const bool i = c.rng.coin(0.3);
    const double mean = counts([&] { return i ? ri.sampleGeometric(p) : r.sampleGeometric(p); }, [&](long k) { return p * std::pow(1 - p, (double)k); }, 0, std::max(2L, (long)(4 / p)), "geometric");
    c.check(std::fabs(mean - (1 - p) / p) < 8 * std::sqrt(1 - p) / p / std::sqrt((double)N(c)) + 1e-3, "mean:geometric", "mean %g want %g", mean, (1 - p) / p); c.seen(mon::hd(p));
  });
  c.cases(3, [&] { // small success probability, as a continuous law
    const double p = c.rng.logu(1e-7, 1e-4); c.note("geometric(%g)", p); normalStream(c); Randomizer<double> r; std::vector<double> u; for (long i = 0; i < N(c); ++i) u.push_back(-std::expm1(((double)r.sampleGeometric(p) + 0.5) * std::log1p(-p)));
    uniformity(c, u, "geometric-small"); c.seen(mon::hd(p));
  });
}

SECTION(law_positive, 4) {
  c.cases(8, [&] {
    const double rate = c.rng.logu(1e-6, 1e6); c.note("exponential(%g)", rate); normalStream(c); Randomizer<double> r; Randomizer<int> ri; const bool i = c.rng.coin(0.3); std::vector<double> u;
    for (long k = 0; k < N(c); ++k) u.push_back(-std::expm1(-rate * (i ? ri.sampleExponential(rate) : r.sampleExponential(rate)))); uniformity(c, u, "exponential"); c.seen(mon::hd(rate)); c.count("draws", N(c));
  });
  auto gam = [&](double a, double b, const std::function<double()>& draw, const char* sig, long n) {
    std::vector<double> u; for (long k = 0; k < n; ++k) { L P, Q; ref::gammaPQ(a, (L)draw() * b, P, Q); u.push_back((double)P); } uniformity(c, u, sig); c.seen(mon::hcomb(mon::hd(a), mon::hd(b))); c.count("draws", n); };
  c.cases(40, [&] {
    double a; switch (c.rng.below(4)) { case 0: a = c.rng.range(1, 12); break; case 1: a = c.rng.logu(0.05, 1); break; case 2: a = c.rng.uni(1, 8); break; default: a = c.rng.logu(8, c.rng.coin(0.3) ? 3000 : 200); }
    const double b = c.rng.logu(1e-3, 1e3); c.note("gamma(%.17g, %g)", a, b); normalStream(c);
    if (c.rng.coin()) { Randomizer<double> r; gam(a, b, [&] { return r.sampleGamma(a, b); }, "gamma", N(c) / 4); }
    else { GammaDistribution<double> d(1, 1); d.setShape(a); d.setInvScale(b); gam(a, b, [&] { return d.getSample(); }, "gamma-distribution", N(c) / 4); }
  });
  c.cases(12, [&] {
    const int k = c.rng.coin(0.3) ? c.rng.range(20, 200) : c.rng.range(1, 10); c.note("chi-square(%d)", k); normalStream(c); ChiSquareDistribution d(k); gam(k / 2.0, 0.5, [&] { return d.getSample(); }, "chi-square", N(c) / 4);
  });
  c.cases(2, [&] { // integer shape type
    const int k = c.rng.range(1, 30); c.note("gamma<int>(%d)", k); normalStream(c); GammaDistribution<int> d(k, 2.5); gam(k, 2.5, [&] { return d.getSample(); }, "gamma-int", N(c) / 4);
  });
}
