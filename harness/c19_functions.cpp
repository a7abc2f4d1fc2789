// C19: special functions against extended-precision references
#include "monitor.hpp"
#include "ref.hpp"
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <memory>
using namespace aslam::calibration;
using ref::L;
namespace {
/// the value through every way of calling
template <class F, class X> double call(mon::Ctx& c, const F& f, X x) {
  const double v = f.getValue(x), w = f(x); const Function<double, X>& b = f; const double u = b(x), t = b.getValue(x);
  auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
  c.check(eq(v, w) && eq(v, u) && eq(v, t), "ways-of-calling", "%.17g, %.17g, %.17g, %.17g", v, w, u, t);
  return v;
}
L logMultiGamma(L x, int d, L* mag) { L s = d * (d - 1) * 0.25L * std::log(ref::PI); *mag = std::fabs(s) + 1; for (int i = 0; i < d; ++i) { const L t = ref::lgam(x - 0.5L * i); s += t; *mag += std::fabs(t); } return s; }
L digammaAny(L x) { return x > 0 ? ref::digamma(x) : ref::digamma(1 - x) - ref::PI / std::tan(ref::PI * (x - std::floor(x))); }
}
SECTION(factorial, 2) {
  LogFactorialFunction f; LogGammaFunction<size_t> g; const DiscreteFunction<double, size_t>& df = f;
  c.check(df.getNumVariables() == 1, "number-of-variables", "not one");
  c.cases(700, [&] { // every small argument (the case number), then random large ones
    const size_t n = c.curCase < 400 ? c.curCase : (size_t)c.rng.logu(400, 300000); c.note("n = %zu", n);
    const double v = call(c, f, n); c.checkNear(v, (double)ref::lgam((L)n + 1), 1e-12, 1e-14, "log-factorial", "log n!");
    c.checkNear(call(c, f, n + 1) - v, std::log((double)n + 1), 1e-9, 1e-10 + 1e-14 * v, "recurrence:factorial", "log (n+1)! - log n!");
    if (n) c.checkNear(call(c, g, n), (double)ref::lgam((L)n), 1e-12, 1e-14, "log-gamma-integer", "log gamma(n)"); else c.check(ref::isBadArgument(ref::outcome([&] { g.getValue(0); })), "log-gamma-of-zero", "not refused as a bad argument");
    c.check(v >= 0, "log-factorial-negative", "%g", v); c.seen(n);
  }, false);
}
SECTION(gamma_fn, 2) {
  c.cases(6000, [&] {
    const int d = c.rng.coin(0.4) ? 1 : c.rng.coin(0.7) ? 1 + c.rng.below(8) : 1 + c.rng.below(60); const double lo = 0.5 * (d - 1);
    const double x = lo + (c.rng.coin(0.2) ? c.rng.logu(1e-9, 1e-2) : c.rng.coin(0.3) ? 0.5 * c.rng.range(1, 60) : c.rng.logu(1e-2, 1e7)); if (!(x > lo)) return; c.note("multivariate log gamma, dimension %d at %.17g", d, x);
    LogGammaFunction<double> f(d); L mag; const L want = logMultiGamma(x, d, &mag); const L dist = x - lo;
    c.checkNear(call(c, f, x), (double)want, 1e-13, (double)mag * 4e-15 + 4e-16 * (double)(x / dist), "log-gamma", "value");
    if (d == 1) c.checkNear(f(x + 1) - f(x), std::log(x), 1e-9, 1e-10 + 1e-14 * (double)mag, "recurrence:gamma", "log gamma(x+1) - log gamma(x)");
    LogGammaFunction<double> g(f), h(3); h = f; c.check(g.getDim() == (size_t)d && h.getDim() == (size_t)d && f.getDim() == (size_t)d, "dimension", "copy lost the dimension");
    const int e = 1 + c.rng.below(c.rng.coin() ? 6 : 40); const double y = 0.5 * e + 1 + c.rng.uni(0, 9); L m2; h.setDim(e); c.check(h.getDim() == (size_t)e && f.getDim() == (size_t)d, "dimension", "setting one copy reached the other, or nothing");
    c.checkNear(h(y), (double)logMultiGamma(y, e, &m2), 1e-13, (double)m2 * 4e-15, "log-gamma-after-set", "value"); c.checkNear(f(x), (double)want, 1e-13, (double)mag * 4e-15 + 4e-16 * (double)(x / dist), "log-gamma-after-set", "the other object");
    LogGammaFunction<double> u; c.check(u.getDim() == 1, "dimension", "default dimension %zu", u.getDim());
    c.seen(mon::hcomb(d, mon::hd(x)));
  });
  c.cases(500, [&] { const float x = (float)c.rng.logu(0.05, 1e4); const int d = x > 1 ? 1 + c.rng.below(2) : 1; c.note("log gamma<float>, dimension %d at %.9g", d, x); LogGammaFunction<float> f(d); L mag; const L w = logMultiGamma((L)x, d, &mag); c.checkNear(call(c, f, x), (double)w, 1e-12, 1e-12 * (double)mag, "log-gamma-float", "value"); c.seen(mon::hcomb(77, mon::hd(x))); });
}
SECTION(digamma, 2) {
  DigammaFunction<double> f; DigammaFunction<float> ff; c.check(f.getNumVariables() == 1, "number-of-variables", "not one");
  c.cases(6000, [&] {
    double x; switch (c.rng.below(6)) { case 0: x = c.rng.logu(1e-6, 1e-1); break; case 1: x = c.rng.uni(0.1, 3); break; case 2: x = 0.5 * c.rng.range(1, 100); break; case 3: x = c.rng.logu(3, 1e8); break; case 4: x = -c.rng.uni(0.01, 30); break; default: x = 1.4616321449683623 + c.rng.signedLog(1e-9, 1e-1); }
    if (x < 0 && std::fabs(x - std::round(x)) < 1e-3) return; c.note("digamma at %.17g", x);
    const L want = digammaAny(x); const L slope = std::fabs((digammaAny((L)x * (1 + 1e-9L)) - want) / (1e-9L)); // conditioning
    c.checkNear(call(c, f, x), (double)want, 1e-13, 1e-14 + 1e-15 * (double)slope, "digamma", "value");
    if (x > 0) { c.checkNear(f(x + 1) - f(x), 1 / x, 1e-9, 1e-12 * (1 + (double)std::fabs(want)), "recurrence:digamma", "digamma(x+1) - digamma(x)"); const float xf = (float)x; c.checkNear(ff(xf), (double)digammaAny((L)xf), 1e-5, 1e-5, "digamma-float", "value"); }
    c.seen(mon::hd(x));
  });
}
SECTION(incomplete, 4) {
  c.cases(12000, [&] {
    double a, x; switch (c.rng.below(5)) { case 0: a = c.rng.logu(1e-3, 1); break; case 1: a = c.rng.uni(0.5, 30); break; case 2: a = 0.5 * c.rng.range(1, 200); break; case 3: a = c.rng.logu(30, 1e4); break; default: a = c.rng.logu(0.1, 1e3); }
    switch (c.rng.below(5)) { case 0: x = c.rng.coin(0.2) ? 0 : a * c.rng.logu(1e-6, 1); break; case 1: x = a * c.rng.uni(0.5, 1.5); break; case 2: x = std::max(0.0, a + std::sqrt(a) * c.rng.uni(-6, 6)); break; case 3: x = c.rng.logu(1e-3, 1e4); break; default: x = a + c.rng.logu(1, 500); }
    c.note("incomplete gamma a = %.17g, x = %.17g", a, x);
    IncompleteGammaPFunction p(a); IncompleteGammaQFunction q(a); const double P = call(c, p, x), Q = call(c, q, x); L rp, rq; ref::gammaPQ(a, x, rp, rq);
    auto tol = [&](L v) { return 1e-11 + 1e-14 * std::sqrt(a) + 2e-14 * std::fabs((double)std::log(v > 0 ? v : 1e-300L)); };
    if (rp > 1e-290L) c.checkNear(P, (double)rp, tol(rp), 0, "incomplete-gamma-P", "P"); else c.check(P >= 0 && P < 1e-280, "incomplete-gamma-P", "P: got %g want %g", P, (double)rp);
    if (rq > 1e-290L) c.checkNear(Q, (double)rq, tol(rq), 0, "incomplete-gamma-Q", "Q"); else c.check(Q >= 0 && Q < 1e-280, "incomplete-gamma-Q", "Q: got %g want %g", Q, (double)rq);
    c.checkNear(P + Q, 1, 1e-12, 0, "complement", "P + Q");
    // parameters: get, set, copy, assign
    const double b = c.rng.logu(0.2, 50), y = b * c.rng.uni(0.2, 3); IncompleteGammaPFunction p2(p), p3(1); p3 = p; IncompleteGammaQFunction q2(q), q3(1); q3 = q;
    c.check(p2.getAlpha() == a && p3.getAlpha() == a && q2.getAlpha() == a && q3.getAlpha() == a && p2(x) == P && q3(x) == Q && p3(x) == P && q2(x) == Q, "copies", "a copy lost its parameter");
    p2.setAlpha(b); q2.setAlpha(b); c.check(p2.getAlpha() == b && q2.getAlpha() == b && p.getAlpha() == a && q.getAlpha() == a && p(x) == P && q(x) == Q, "set-alpha", "setting alpha reached another object, or nothing");
    ref::gammaPQ(b, y, rp, rq); c.checkNear(p2(y), (double)rp, 1e-10, 1e-300, "P-after-set", "P"); c.checkNear(q2(y), (double)rq, 1e-10, 1e-300, "Q-after-set", "Q");
    // recurrence P(a+1,x) = P(a,x) - x^a e^-x / gamma(a+1)
    if (x > 0) { p2.setAlpha(a + 1); c.checkNear(P - p2(x), (double)std::exp(ref::logPrefix(a, x)), 1e-9, 1e-12, "recurrence:incomplete", "P(a,x) - P(a+1,x)"); }
    c.seen(mon::hcomb(mon::hd(a), mon::hd(x)));
  });
}
