#include "c16_common.hpp"

SECTION(support, 4) {
  c.cases(3000, [&] { supportUniform<double>(c, "double"); });
  c.cases(2000, [&] { supportUniform<float>(c, "float"); });
  c.cases(3000, [&] { supportUniform<int>(c, "int"); });
  c.cases(1500, [&] { supportUniform<long>(c, "long"); });
  c.cases(1500, [&] { supportUniform<short>(c, "short"); });
  c.cases(1500, [&] { supportCategorical<2>(c); });
  c.cases(1500, [&] { supportCategorical<3>(c); });
  c.cases(1500, [&] { supportCategorical<6>(c); });
  c.cases(3000, [&] {
    const double m = c.rng.signedLog(1e-3, 1e6), v = c.rng.logu(1e-9, 1e9); c.note("normal(%g, %g)", m, v); hostile(c);
    Randomizer<double> r; NormalDistribution<1> d(m, v); const double sd = std::sqrt(v);
    for (int i = 0; i < 6; ++i) { double x = r.sampleNormal(m, v); c.check(std::isfinite(x) && std::fabs(x - m) < 12 * sd + 1e-9 * std::fabs(m), "support:normal", "drew %g", x); }
    hostile(c);
    for (int i = 0; i < 6; ++i) { double x = d.getSample(); c.check(std::isfinite(x) && std::fabs(x - m) < 12 * sd + 1e-9 * std::fabs(m), "support:normal-distribution", "drew %g", x); }
    c.seen(mon::hcomb(mon::hd(m), mon::hd(v)));
  });
  c.cases(1500, [&] {
    const int m = c.rng.range(-1000, 1000), v = c.rng.range(1, 1000000); c.note("normal<int>(%d, %d)", m, v); hostile(c);
    Randomizer<int> r; for (int i = 0; i < 6; ++i) { int x = r.sampleNormal(m, v); c.check(std::fabs((double)x - m) < 12 * std::sqrt((double)v) + 1, "support:normal-int", "drew %d", x); }
    c.seen(mon::hcomb(m, v));
  });
  c.cases(3000, [&] {
    const double rate = c.rng.logu(1e-9, 1e9); c.note("exponential(%g)", rate); hostile(c);
    Randomizer<double> r; Randomizer<int> ri;
    for (int i = 0; i < 6; ++i) { double x = c.rng.coin() ? r.sampleExponential(rate) : ri.sampleExponential(rate); c.check(std::isfinite(x) && x >= 0, "support:exponential", "drew %g", x); }
    c.seen(mon::hd(rate));
  });
  c.cases(3000, [&] {
    const double p = c.rng.coin(0.15) ? 1.0 : c.rng.coin() ? c.rng.logu(1e-12, 1) : 1 - c.rng.logu(1e-15, 0.9); if (!(p > 0)) return; c.note("geometric(%.17g)", p); hostile(c);
    Randomizer<double> r; Randomizer<int> ri;
    for (int i = 0; i < 6; ++i) { size_t x = c.rng.coin() ? r.sampleGeometric(p) : ri.sampleGeometric(p); const double bound = p == 1 ? 0 : 40 / p + 60; c.check((double)x <= bound, "support:geometric", "drew %zu", x); }
    c.seen(mon::hd(p));
  });
  c.cases(1500, [&] {
    const double m = c.rng.coin(0.1) ? c.rng.logu(100, 5000) : c.rng.logu(1e-6, 100); c.note("poisson(%g)", m); hostile(c);
    Randomizer<double> r; Randomizer<int> ri;
    for (int i = 0; i < 4; ++i) { const double x = c.rng.coin() ? r.samplePoisson(m) : ri.samplePoisson(m); c.check(x < m + 40 * std::sqrt(m) + 60, "support:poisson", "drew %g", x); }
    c.seen(mon::hd(m));
  });
  c.cases(3000, [&] {
    const double a = c.rng.coin(0.1) ? c.rng.logu(20, 20000) : c.rng.coin() ? c.rng.range(1, 20) : c.rng.logu(1e-3, 20), b = c.rng.logu(1e-6, 1e6); c.note("gamma(%.17g, %g)", a, b); hostile(c);
    Randomizer<double> r; GammaDistribution<double> d(a, b);
    for (int i = 0; i < 4; ++i) { double x = r.sampleGamma(a, b); c.check(std::isfinite(x) && x >= 0, "support:gamma", "drew %g", x); }
    hostile(c);
    for (int i = 0; i < 4; ++i) { double x = d.getSample(); c.check(std::isfinite(x) && x >= 0, "support:gamma-distribution", "drew %g", x); }
    hostile(c); ChiSquareDistribution q(1 + c.rng.below(40));
    for (int i = 0; i < 4; ++i) { double x = q.getSample(); c.check(std::isfinite(x) && x >= 0, "support:chi-square", "drew %g", x); }
    c.seen(mon::hcomb(mon::hd(a), mon::hd(b)));
  });
  c.cases(1500, [&] { // multivariate uniform, real and integer
    Eigen::Vector3d a, b; Eigen::Vector3i ia, ib; for (int i = 0; i < 3; ++i) { a(i) = c.rng.signedLog(1e-3, 1e3); b(i) = a(i) + c.rng.logu(1e-3, 1e3); ia(i) = c.rng.range(-5, 5); ib(i) = ia(i) + 1 + c.rng.below(4); }
    c.note("uniform3"); hostile(c); UniformDistribution<double, 3> d(a, b); UniformDistribution<int, 3> di(ia, ib);
    for (int k = 0; k < 4; ++k) { Eigen::Vector3d x = d.getSample(); c.check((x.array() >= a.array()).all() && (x.array() <= b.array()).all(), "support:uniform-mv", "outside"); }
    hostile(c); for (int k = 0; k < 4; ++k) { Eigen::Vector3i x = di.getSample(); c.check((x.array() >= ia.array()).all() && (x.array() <= ib.array()).all(), "support:uniform-mv-int", "outside"); }
    c.seen(mon::hcomb(mon::hd(a(0)), mon::hd(b(2))));
  });
}

