// C15: parameter validation and freshness of derived values, over histories
#include "dist.hpp"
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <memory>
#include <tuple>
using namespace aslam::calibration;
using ref::L;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();

/// Adapter: parameters P, object D
struct Normal1 {
  typedef NormalDistribution<1> D; struct P { double m, v; };
  static P valid(mon::Ctx& c) { return {c.rng.signedLog(1e-3, 1e3), c.rng.logu(1e-6, 1e6)}; }
  static P invalid(mon::Ctx& c, P p) { const double bad[] = {0, -0.0, -1, -1e-300, NaN, -Inf, -1e300}; p.v = bad[c.rng.below(7)]; return p; }
  static D* make(mon::Ctx& c, const P& p) { return c.rng.coin() ? new D(p.m, p.v) : new D(std::make_tuple(p.m, p.v)); }
  static int nset() { return 2; }
  static void set(D& d, int k, const P& to, P& now) { if (k == 0) { d.setMean(to.m); now.m = to.m; } else { d.setVariance(to.v); now.v = to.v; } }
  static bool validates(int k) { return k == 1; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    o = {d.getMean(), d.getVariance(), d.getPrecision(), d.getStandardDeviation(), d.getNormalizer(), d.getMedian(), d.getMode()};
    for (double z : {-3.0, 0.0, 1.5}) { const double x = p.m + z * std::sqrt(p.v); for (double y : {d.pdf(x), d.logpdf(x), d.cdf(x), d.mahalanobisDistance(x)}) o.push_back(y); }
    o.push_back(d.KLDivergence(NormalDistribution<1>(0.5, 2)));
    c.check(d.getMean() == p.m && d.getVariance() == p.v, "parameters", "(%g, %g) want (%g, %g)", d.getMean(), d.getVariance(), p.m, p.v);
    c.checkNear(d.getPrecision(), 1 / p.v, 1e-15, 0, "precision", "precision");
    c.checkNear(d.getStandardDeviation(), std::sqrt(p.v), 1e-15, 0, "standard-deviation", "standard deviation");
    c.checkNear(d.getNormalizer(), 0.5 * std::log(2 * M_PI * p.v), 1e-13, 1e-14, "normalizer", "normalizer");
  }
};
template <int M> struct NormalM {
  typedef NormalDistribution<M> D; typedef Eigen::Matrix<double, M, 1> V; typedef Eigen::Matrix<double, M, M> C;
  struct P { V m; C v; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
  static P valid(mon::Ctx& c) { P p; p.v = gen::cov<M>(c, 1e-2, 1e2); for (int i = 0; i < M; ++i) p.m(i) = c.rng.signedLog(1e-3, 1e3); return p; }
  static P invalid(mon::Ctx& c, P p) {
    const int i = c.rng.below(M), j = (i + 1) % M;
    switch (c.rng.below(9)) {
      case 0: p.v(i, j) += 1e-3 * (1 + std::fabs(p.v(i, j))); break;      // not symmetric
      case 1: p.v(i, i) = NaN; break;
      case 2: p.v(i, j) = p.v(j, i) = NaN; break;
      case 3: p.v = -p.v; break;                                          // negative definite
      case 4: p.v.setZero(); break;                                       // singular
      case 5: p.v.row(i).setZero(); p.v.col(i).setZero(); break;          // semi-definite
      case 6: p.v(i, i) = -p.v(i, i); break;
      case 7: p.v(i, j) = p.v(j, i) = 3 * std::sqrt(p.v(i, i) * p.v(j, j)); break; // indefinite
      default: p.v.setOnes(); p.v *= 4;                                   // exactly singular, positive diagonal
    }
    return p;
  }
  static D* make(mon::Ctx& c, const P& p) { return c.rng.coin() ? new D(p.m, p.v) : new D(std::make_tuple(p.m, p.v)); }
  static int nset() { return 2; }
  static void set(D& d, int k, const P& to, P& now) { if (k == 0) { d.setMean(to.m); now.m = to.m; } else { d.setCovariance(to.v); now.v = to.v; } }
  static bool validates(int k) { return k == 1; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    o.clear();
    const auto Pr = d.getPrecision(); const C Lm = d.getTransformation().matrixL();
    for (int i = 0; i < M; ++i) { o.push_back(d.getMean()(i)); o.push_back(d.getMode()(i)); for (int j = 0; j < M; ++j) { o.push_back(d.getCovariance()(i, j)); o.push_back(Pr(i, j)); o.push_back(Lm(i, j)); } }
    o.push_back(d.getDeterminant()); o.push_back(d.getNormalizer());
    V x = p.m; x(0) += std::sqrt(p.v(0, 0)); for (double y : {d.pdf(x), d.logpdf(x), d.mahalanobisDistance(x)}) o.push_back(y);
    ref::Spd S(M, gen::rowMajor(p.v));
    c.check(d.getMean() == p.m && d.getCovariance() == p.v, "parameters", "mean or covariance is not the one set");
    C I = Pr * p.v; double worst = 0; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) worst = std::max(worst, std::fabs(I(i, j) - (i == j)) * std::sqrt(p.v(i, i) / p.v(j, j)));
    c.check(worst < 1e-9, "precision", "precision times covariance is off by %g", worst);
    C LL = Lm * Lm.transpose(); worst = 0; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) worst = std::max(worst, std::fabs(LL(i, j) - p.v(i, j)) / std::sqrt(p.v(i, i) * p.v(j, j)));
    c.check(worst < 1e-12, "cholesky-factor", "factor times transpose is off by %g", worst);
    c.checkNear(d.getDeterminant(), (double)std::exp(S.logdet), 1e-9, 1e-300, "determinant", "determinant");
    c.checkNear(d.getNormalizer(), (double)(0.5L * M * std::log(2 * ref::PI) + S.logdet / 2), 1e-11, 1e-11, "normalizer", "normalizer");
  }
};
template <class X> struct Uni1 {
  typedef UniformDistribution<X> D; struct P { X a, b; }; static const bool isInt = std::numeric_limits<X>::is_integer;
  static P valid(mon::Ctx& c) { P p; if (isInt) { p.a = (X)c.rng.range(-40, 40); p.b = (X)(p.a + 1 + (X)c.rng.below(40)); } else { p.a = (X)c.rng.uni(-40, 40); p.b = (X)(p.a + c.rng.logu(1e-2, 1e2)); } return p; }
  static P invalid(mon::Ctx& c, P p) {
    switch (c.rng.below(isInt ? 2 : 4)) { case 0: p.b = p.a; break; case 1: std::swap(p.a, p.b); break; case 2: p.a = (X)NaN; break; default: p.b = (X)NaN; }
    return p;
  }
  static D* make(mon::Ctx&, const P& p) { return new D(p.a, p.b); }
  static int nset() { return 1; }
  static void set(D& d, int, const P& to, P& now) { d.setSupport(to.a, to.b); now = to; }
  static bool validates(int) { return true; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    o = {(double)d.getMinSupport(), (double)d.getMaxSupport(), (double)d.getSupportArea(), d.getMean(), d.getMedian(), d.getVariance(), d.pdf(p.a), d.pdf(p.b), d.pmf(p.a)};
    c.check(d.getMinSupport() == p.a && d.getMaxSupport() == p.b, "parameters", "support [%g, %g] want [%g, %g]", (double)d.getMinSupport(), (double)d.getMaxSupport(), (double)p.a, (double)p.b);
    const double area = (double)p.b - (double)p.a + isInt;
    c.checkNear((double)d.getSupportArea(), area, 1e-6, 0, "support-area", "area"); c.checkNear(d.pdf(p.a), 1 / area, 1e-6, 0, "density", "density");
  }
};
template <class X, int M> struct UniM {
  typedef UniformDistribution<X, M> D; typedef Eigen::Matrix<X, M, 1> V; struct P { V a, b; EIGEN_MAKE_ALIGNED_OPERATOR_NEW }; static const bool isInt = std::numeric_limits<X>::is_integer;
  static P valid(mon::Ctx& c) { P p; for (int i = 0; i < M; ++i) { auto q = Uni1<X>::valid(c); p.a(i) = q.a; p.b(i) = q.b; } return p; }
  static P invalid(mon::Ctx& c, P p) { const int i = c.rng.below(M); typename Uni1<X>::P q = {p.a(i), p.b(i)}; q = Uni1<X>::invalid(c, q); p.a(i) = q.a; p.b(i) = q.b; return p; }
  static D* make(mon::Ctx&, const P& p) { return new D(p.a, p.b); }
  static int nset() { return 1; }
  static void set(D& d, int, const P& to, P& now) { d.setSupport(to.a, to.b); now = to; }
  static bool validates(int) { return true; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    o = {(double)d.getSupportArea(), d.pdf(p.a), d.pdf(p.b)}; double area = 1;
    for (int i = 0; i < M; ++i) { area *= (double)p.b(i) - (double)p.a(i) + isInt; for (double y : {(double)d.getMinSupport()(i), (double)d.getMaxSupport()(i), d.getMean()(i), d.getMedian()(i), d.getCovariance()(i, i)}) o.push_back(y); }
    c.check(d.getMinSupport() == p.a && d.getMaxSupport() == p.b, "parameters", "support");
    c.checkNear((double)d.getSupportArea(), area, 1e-6, 0, "support-area", "area"); c.checkNear(d.pdf(p.a), 1 / area, 1e-6, 0, "density", "density");
  }
};
struct Gam {
  typedef GammaDistribution<double> D; struct P { double s, r; };
  static P valid(mon::Ctx& c) { return {c.rng.logu(1e-1, 1e2), c.rng.logu(1e-2, 1e2)}; }
  static P invalid(mon::Ctx& c, P p) { const double bad[] = {0, -0.0, -1, -1e-300, NaN, -Inf}; (c.rng.coin() ? p.s : p.r) = bad[c.rng.below(6)]; return p; }
  static D* make(mon::Ctx&, const P& p) { return new D(p.s, p.r); }
  static int nset() { return 2; }
  static void set(D& d, int k, const P& to, P& now) { if (k == 0) { d.setShape(to.s); now.s = to.s; } else { d.setInvScale(to.r); now.r = to.r; } }
  static bool validates(int) { return true; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    const double x = p.s / p.r * 1.3;
    o = {d.getShape(), d.getInvScale(), d.getNormalizer(), d.getMean(), d.getVariance(), d.pdf(x), d.logpdf(x), d.cdf(x), d.invcdf(0.3), d.KLDivergence(GammaDistribution<double>(2, 3))};
    c.check(d.getShape() == p.s && d.getInvScale() == p.r, "parameters", "(%g, %g) want (%g, %g)", d.getShape(), d.getInvScale(), p.s, p.r);
    c.checkNear(d.getNormalizer(), (double)(ref::lgam(p.s) - p.s * std::log((L)p.r)), 1e-12, 1e-12, "normalizer", "normalizer");
  }
};
struct Chi {
  typedef ChiSquareDistribution D; struct P { double k; };
  static P valid(mon::Ctx& c) { return {c.rng.coin() ? 1 + (double)c.rng.below(30) : c.rng.logu(0.1, 100)}; }
  static P invalid(mon::Ctx& c, P p) { const double bad[] = {0, -0.0, -1, -1e-300, NaN, -Inf}; p.k = bad[c.rng.below(6)]; return p; }
  static D* make(mon::Ctx&, const P& p) { return new D(p.k); }
  static int nset() { return 1; }
  static void set(D& d, int, const P& to, P& now) { d.setDegrees(to.k); now = to; }
  static bool validates(int) { return true; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    o = {d.getDegrees(), d.getShape(), d.getInvScale(), d.getNormalizer(), d.getMean(), d.getMedian(), d.getVariance(), d.pdf(p.k * 1.1), d.cdf(p.k * 1.1)};
    c.check(d.getDegrees() == p.k && d.getShape() == p.k / 2 && d.getInvScale() == 0.5, "parameters", "degrees %g want %g, rate %g", d.getDegrees(), p.k, d.getInvScale());
    c.checkNear(d.getNormalizer(), (double)(ref::lgam(p.k / 2) - p.k / 2 * std::log(0.5L)), 1e-12, 1e-12, "normalizer", "normalizer");
  }
};
struct GamInt {
  typedef GammaDistribution<size_t> D; struct P { size_t s; double r; };
  static P valid(mon::Ctx& c) { return {1 + c.rng.below(40), c.rng.logu(1e-2, 1e2)}; }
  static P invalid(mon::Ctx& c, P p) { const double bad[] = {0, -0.0, -1, -1e-300, NaN, -Inf}; if (c.rng.coin()) p.s = 0; else p.r = bad[c.rng.below(6)]; return p; }
  static D* make(mon::Ctx&, const P& p) { return new D(p.s, p.r); }
  static int nset() { return 2; }
  static void set(D& d, int k, const P& to, P& now) { if (k == 0) { d.setShape(to.s); now.s = to.s; } else { d.setInvScale(to.r); now.r = to.r; } }
  static bool validates(int) { return true; }
  static void observe(const D& d, const P& p, std::vector<double>& o, mon::Ctx& c) {
    const double x = p.s / p.r * 1.3;
    o = {(double)d.getShape(), d.getInvScale(), d.getNormalizer(), d.getMean(), d.getVariance(), d.pdf(x), d.logpdf(x), d.cdf(x)};
    c.check(d.getShape() == p.s && d.getInvScale() == p.r, "parameters", "(%zu, %g) want (%zu, %g)", d.getShape(), d.getInvScale(), p.s, p.r);
    c.checkNear(d.getNormalizer(), (double)(ref::lgam(p.s) - p.s * std::log((L)p.r)), 1e-12, 1e-12, "normalizer", "normalizer");
  }
};

/// whether parameter set q differs from p in a way setter k would see as invalid
template <class A> void history(mon::Ctx& c) {
  typedef typename A::D D; typedef typename A::P P;
  struct Slot { std::unique_ptr<D> d; P p; std::vector<double> last; bool unseen = false; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
  std::vector<Slot, Eigen::aligned_allocator<Slot>> s(3);
  uint64_t h = 7; std::string tr;
  auto verify = [&](Slot& x, const char* op, bool may = true) {
    x.unseen = may && c.rng.coin(0.3); if (x.unseen) return; // several changes without a look in between
    std::vector<double> o, f; A::observe(*x.d, x.p, o, c);
    std::unique_ptr<D> fresh(A::make(c, x.p)); A::observe(*fresh, x.p, f, c);
    for (size_t i = 0; i < o.size(); ++i)
      if (!c.check(mon::Ctx::near(o[i], f[i], 1e-12, 1e-300), "stale-derived-value", "value %zu is %.17g, of a fresh object %.17g, after %s", i, o[i], f[i], op)) break;
    x.last = o;
  };
  auto same = [&](Slot& x, const char* op) {
    if (x.unseen) return;
    std::vector<double> o; A::observe(*x.d, x.p, o, c);
    for (size_t i = 0; i < o.size(); ++i)
      if (!c.check(o[i] == x.last[i] || (std::isnan(o[i]) && std::isnan(x.last[i])), "refused-call-changed-object", "value %zu was %.17g now %.17g after %s", i, x.last[i], o[i], op)) break;
  };
  for (auto& x : s) { x.p = A::valid(c); x.d.reset(A::make(c, x.p)); verify(x, "construct"); }
  const int n = 4 + c.rng.below(12);
  for (int i = 0; i < n; ++i) {
    Slot &x = s[c.rng.below(3)], &y = s[c.rng.below(3)];
    const int op = c.rng.below(7); h = mon::hcomb(h, op);
    tr += " " + std::to_string(op); c.note("history:%s", tr.c_str());
    if (op <= 1) { // valid setter
      const int k = c.rng.below(A::nset()); A::set(*x.d, k, A::valid(c), x.p); verify(x, "a setter");
    } else if (op <= 3) { // invalid setter: only the invalid parameter goes in
      P bad = A::invalid(c, x.p), dummy = x.p; bool refused = false;
      for (int k = 0; k < A::nset(); ++k) {
        if (!A::validates(k)) continue;
        const std::string e = ref::outcome([&]() { A::set(*x.d, k, bad, dummy); });
        if (!e.empty()) { refused = true; c.check(ref::isBadArgument(e), "wrong-exception", "%s", e.c_str()); }
      }
      c.count("invalid setter"); c.check(refused, "invalid-parameter-accepted", "by a setter");
      if (!refused) return;
      if (x.unseen) verify(x, "a refused setter", false); else same(x, "a refused setter");
    } else if (op == 4) { // invalid constructor
      P bad = A::invalid(c, x.p);
      const std::string e = ref::outcome([&]() { std::unique_ptr<D> t(A::make(c, bad)); });
      c.count("invalid constructor"); c.check(ref::isBadArgument(e), "invalid-parameter-accepted", "by the constructor: %s", e.c_str());
    } else if (op == 5) { *x.d = *y.d; x.p = y.p; verify(x, "assignment"); if (&x != &y) { same(y, "being assigned from"); } }
    else { x.d.reset(new D(*y.d)); x.p = y.p; verify(x, "copy"); }
    for (auto& z : s) if (&z != &x) same(z, "a change to another object");
  }
  for (auto& z : s) verify(z, "the whole history", false);
  c.seen(h);
  c.sample("operations" + tr);
}
}
SECTION(normal1v, 1) { c.cases(1500, [&]() { history<Normal1>(c); }); }
SECTION(normalMv, 2) { c.cases(800, [&]() { history<NormalM<2>>(c); }); c.cases(800, [&]() { history<NormalM<3>>(c); }); c.cases(300, [&]() { history<NormalM<6>>(c); }); }
SECTION(uniform, 1) {
  c.cases(800, [&]() { history<Uni1<double>>(c); }); c.cases(500, [&]() { history<Uni1<int>>(c); }); c.cases(300, [&]() { history<Uni1<float>>(c); });
  c.cases(500, [&]() { history<UniM<double, 2>>(c); }); c.cases(500, [&]() { history<UniM<int, 3>>(c); });
  c.cases(300, [&]() { // one-sided setters
    const double a = c.rng.uni(-5, 5), b = a + c.rng.logu(0.1, 5); UniformDistribution<double> d(a, b); const double x = c.rng.uni(-12, 12);
    const bool lo = c.rng.coin(); const std::string e = ref::outcome([&]() { if (lo) d.setMinSupport(x); else d.setMaxSupport(x); });
    const bool ok = lo ? x < b : a < x; c.note("support [%g,%g] set %s to %g", a, b, lo ? "minimum" : "maximum", x);
    c.check(ok == e.empty() && (ok || ref::isBadArgument(e)), "one-sided-setter", "outcome %s", e.c_str());
    const double na = ok && lo ? x : a, nb = ok && !lo ? x : b;
    c.check(d.getMinSupport() == na && d.getMaxSupport() == nb && mon::Ctx::near(d.getSupportArea(), nb - na, 1e-12) && mon::Ctx::near(d.pdf(na), 1 / (nb - na), 1e-12), "one-sided-setter", "state");
    Eigen::Vector2i A(0, 0), B(4, 5); UniformDistribution<int, 2> m(A, B); Eigen::Vector2i X((int)c.rng.range(-3, 8), (int)c.rng.range(-3, 8));
    const std::string e2 = ref::outcome([&]() { if (lo) m.setMinSupport(X); else m.setMaxSupport(X); });
    const bool ok2 = lo ? (X(0) < 4 && X(1) < 5) : (X(0) > 0 && X(1) > 0); if (ok2) (lo ? A : B) = X;
    c.check(ok2 == e2.empty() && m.getMinSupport() == A && m.getMaxSupport() == B && m.getSupportArea() == (B(0) - A(0) + 1) * (B(1) - A(1) + 1), "one-sided-setter", "of two dimensions");
  });
}
SECTION(gamma, 1) { c.cases(1000, [&]() { history<Gam>(c); }); c.cases(500, [&]() { history<Chi>(c); }); c.cases(500, [&]() { history<GamInt>(c); }); }
SECTION(defaults, 1) {
  c.cases(1, [&]() {
    NormalDistribution<1> n; c.check(n.getMean() == 0 && n.getVariance() == 1 && n.getPrecision() == 1, "default", "normal");
    NormalDistribution<3> m; c.check(m.getMean().isZero() && m.getCovariance().isIdentity() && std::fabs(m.getDeterminant() - 1) < 1e-15, "default", "normal of dimension 3");
    UniformDistribution<double> u; c.check(u.getMinSupport() == 0 && u.getMaxSupport() == 1 && u.getSupportArea() == 1, "default", "uniform");
    UniformDistribution<double, 2> w; c.check(w.getMinSupport().isZero() && w.getMaxSupport().isOnes() && w.getSupportArea() == 1, "default", "uniform of dimension 2");
    GammaDistribution<double> g; c.check(g.getShape() == 1 && g.getInvScale() == 1, "default", "gamma");
    c.seen(1); c.sample("default constructed objects");
  }, false);
}
