// C22: hostile calls on distributions, samplers, functions, estimators, exceptions.
#include "c22_common.hpp"
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <memory>
using namespace aslam::calibration; using namespace hostile;
namespace {
template <class T, int M> void sampler(mon::Ctx& c) {
  auto& r = c.rng; Randomizer<T, M> g;
  for (int i = 0; i < 15; ++i) { const T a = value<T>(r), b = value<T>(r); c.seen(mon::hcomb(mon::hd((double)a), i));
    switch (r.below(11)) { case 0: call(c, "seed", [&] { g.setSeed(a); }); break; case 1: case 2: call(c, "uniform", [&] { use(c, (double)g.sampleUniform(a, b)); }); break; case 3: case 4: call(c, "normal", [&] { use(c, (double)g.sampleNormal(a, b)); }); break;
      case 5: call(c, "categorical", [&] { Eigen::Matrix<double, M, 1> p; for (int k = 0; k < M; ++k) p(k) = r.coin(0.2) ? real(r) : r.coin(0.3) ? 0 : r.u01(); if (r.coin(0.8)) p /= p.sum(); use(c, (double)g.sampleCategorical(p)); }); break;
      case 6: call(c, "poisson", [&] { double m = real(r); if (m > 2e3 && std::isfinite(m)) m = 2e3; use(c, (double)g.samplePoisson(m)); }); break; case 7: call(c, "exponential", [&] { use(c, g.sampleExponential(real(r))); }); break; case 8: call(c, "geometric", [&] { use(c, (double)g.sampleGeometric(r.coin() ? real(r) : r.u01())); }); break;
      case 9: call(c, "gamma", [&] { double s = real(r); if (s > 2e3 && std::isfinite(s)) s = 2e3; use(c, g.sampleGamma(s, real(r))); }); break; default: call(c, "copy", [&] { Randomizer<T, M> h(g); h = g; g = h; text(c, g); use(c, (double)h.getSeed()); }); } }
}
void normal1(mon::Ctx& c) {
  auto& r = c.rng; typedef NormalDistribution<1> D; std::vector<std::shared_ptr<D>> d; d.push_back(std::make_shared<D>());
  for (int i = 0; i < 20; ++i) { D& o = *d[r.below(d.size())]; const D& k = o; const double x = real(r), y = real(r); c.seen(mon::hcomb(mon::hd(x), mon::hd(y)));
    switch (r.below(9)) { case 0: call(c, "new", [&] { d.push_back(std::make_shared<D>(x, y)); }); break; case 1: call(c, "new", [&] { d.push_back(std::make_shared<D>(std::make_tuple(x, y))); }); break; case 2: call(c, "set", [&] { o.setMean(x); o.setVariance(y); }); break; case 3: call(c, "density", [&] { use(c, k.pdf(x)); use(c, k.logpdf(x)); use(c, k.cdf(x)); use(c, k(x)); use(c, k.mahalanobisDistance(x)); }); break; case 4: call(c, "get", [&] { use(c, k.getMean()); use(c, k.getVariance()); use(c, k.getPrecision()); use(c, k.getStandardDeviation()); use(c, k.getNormalizer()); use(c, k.getMedian()); use(c, k.getMode()); }); break; case 5: call(c, "sample", [&] { use(c, k.getSample()); std::vector<double> v; k.getSamples(v, r.below(4)); for (double q : v) use(c, q); }); break; case 6: call(c, "divergence", [&] { use(c, k.KLDivergence(*d[r.below(d.size())])); }); break; case 7: call(c, "copy", [&] { d.push_back(std::make_shared<D>(k)); *d[r.below(d.size())] = k; }); break; default: call(c, "text", [&] { text(c, k); }); } }
}
template <int M> void normalM(mon::Ctx& c) {
  auto& r = c.rng; typedef NormalDistribution<M> D; std::vector<std::shared_ptr<D>> d; d.push_back(std::make_shared<D>());
  for (int i = 0; i < 14; ++i) { D& o = *d[r.below(d.size())]; const D& k = o; const auto x = vec<double, M>(r); Eigen::Matrix<double, M, M> S; for (int q = 0; q < S.size(); ++q) S.data()[q] = tame(r); if (r.coin(0.8)) { S = (S * S.transpose()).eval(); if (r.coin(0.1)) S(0, M - 1) = real(r); } c.seen(mon::hcomb(mon::hd(x(0)), mon::hd(S(0, 0))));
    switch (r.below(8)) { case 0: call(c, "new", [&] { d.push_back(std::make_shared<D>(x, S)); }); break; case 1: call(c, "set", [&] { o.setMean(x); o.setCovariance(S); }); break; case 2: call(c, "density", [&] { use(c, k.pdf(x)); use(c, k.logpdf(x)); use(c, k(x)); use(c, k.mahalanobisDistance(x)); }); break; case 3: call(c, "get", [&] { useM(c, k.getMean()); useM(c, k.getCovariance()); useM(c, k.getPrecision()); use(c, k.getDeterminant()); use(c, k.getNormalizer()); useM(c, k.getMode()); }); break; case 4: call(c, "sample", [&] { useM(c, k.getSample()); }); break; case 5: call(c, "divergence", [&] { use(c, k.KLDivergence(*d[r.below(d.size())])); }); break; case 6: call(c, "copy", [&] { d.push_back(std::make_shared<D>(k)); *d[r.below(d.size())] = k; }); break; default: call(c, "text", [&] { text(c, k); }); } }
}
template <class T> double dens(const UniformDistribution<T>& d, T x) { return std::is_floating_point<T>::value ? d.pdf(x) : d.pmf(x); }
template <class T> void uniform(mon::Ctx& c) {
  auto& r = c.rng; typedef UniformDistribution<T> D; std::vector<std::shared_ptr<D>> d; d.push_back(std::make_shared<D>());
  for (int i = 0; i < 20; ++i) { D& o = *d[r.below(d.size())]; const D& k = o; const T x = value<T>(r), y = value<T>(r); c.seen(mon::hcomb(mon::hd((double)x), mon::hd((double)y)));
    switch (r.below(8)) { case 0: call(c, "new", [&] { d.push_back(std::make_shared<D>(x, y)); }); break; case 1: call(c, "set", [&] { if (r.coin()) o.setSupport(x, y); else if (r.coin()) o.setMinSupport(x); else o.setMaxSupport(x); }); break; case 2: call(c, "density", [&] { use(c, k.pdf(x)); }); call(c, "density", [&] { use(c, k.pmf(x)); }); call(c, "density", [&] { use(c, k(x)); }); break; case 3: call(c, "get", [&] { use(c, (double)k.getMinSupport()); use(c, (double)k.getMaxSupport()); use(c, (double)k.getSupportArea()); use(c, k.getMean()); use(c, k.getMedian()); use(c, k.getVariance()); }); call(c, "mode", [&] { use(c, (double)k.getMode()); }); break; case 4: case 5: call(c, "sample", [&] { use(c, (double)k.getSample()); }); break; case 6: call(c, "copy", [&] { d.push_back(std::make_shared<D>(k)); *d[r.below(d.size())] = k; }); break; default: call(c, "text", [&] { text(c, k); }); } }
}
template <class T, int M> void uniformM(mon::Ctx& c) {
  auto& r = c.rng; typedef UniformDistribution<T, M> D; std::vector<std::shared_ptr<D>> d; d.push_back(std::make_shared<D>());
  for (int i = 0; i < 14; ++i) { D& o = *d[r.below(d.size())]; const D& k = o; auto x = vec<T, M>(r), y = vec<T, M>(r); if (r.coin()) for (int q = 0; q < M; ++q) if (x(q) > y(q)) std::swap(x(q), y(q)); c.seen(mon::hcomb(mon::hd((double)x(0)), mon::hd((double)y(0))));
    switch (r.below(8)) { case 0: call(c, "new", [&] { d.push_back(std::make_shared<D>(x, y)); }); break; case 1: call(c, "set", [&] { if (r.coin()) o.setSupport(x, y); else if (r.coin()) o.setMinSupport(x); else o.setMaxSupport(x); }); break; case 2: call(c, "density", [&] { use(c, k.pdf(x)); }); call(c, "density", [&] { use(c, k.pmf(x)); }); break; case 3: call(c, "get", [&] { useM(c, k.getMinSupport()); useM(c, k.getMaxSupport()); use(c, (double)k.getSupportArea()); useM(c, k.getMean()); useM(c, k.getMedian()); useM(c, k.getCovariance()); }); call(c, "mode", [&] { useM(c, k.getMode()); }); break; case 4: case 5: call(c, "sample", [&] { useM(c, k.getSample()); }); break; case 6: call(c, "copy", [&] { d.push_back(std::make_shared<D>(k)); *d[r.below(d.size())] = k; }); break; default: call(c, "text", [&] { text(c, k); }); } }
}
template <class T> void gamma(mon::Ctx& c) {
  auto& r = c.rng; typedef GammaDistribution<T> D; std::vector<std::shared_ptr<D>> d; d.push_back(std::make_shared<D>());
  for (int i = 0; i < 14; ++i) { D& o = *d[r.below(d.size())]; const D& k = o; const T s = value<T>(r); const double y = real(r), x = real(r); if ((double)s > 3e3 && std::isfinite((double)s)) continue; c.seen(mon::hcomb(mon::hd((double)s), mon::hd(y)));
    switch (r.below(9)) { case 0: case 1: call(c, "new", [&] { d.push_back(std::make_shared<D>(s, y)); }); break; case 2: call(c, "set", [&] { if (r.coin()) o.setShape(s); else o.setInvScale(y); }); break; case 3: call(c, "density", [&] { use(c, k.pdf(x)); use(c, k.logpdf(x)); }); call(c, "cumulative", [&] { use(c, k.cdf(x)); }); break; case 4: call(c, "inverse", [&] { use(c, k.invcdf(r.coin() ? r.u01() : x)); }); break; case 5: call(c, "get", [&] { use(c, (double)k.getShape()); use(c, k.getInvScale()); use(c, k.getNormalizer()); use(c, k.getMean()); use(c, k.getVariance()); }); call(c, "mode", [&] { use(c, k.getMode()); }); break; case 6: call(c, "sample", [&] { use(c, k.getSample()); }); break; case 7: call(c, "divergence", [&] { use(c, k.KLDivergence(*d[r.below(d.size())])); }); break; default: call(c, "copy", [&] { d.push_back(std::make_shared<D>(k)); *d[r.below(d.size())] = k; text(c, k); }); } }
}
void chi(mon::Ctx& c) {
  auto& r = c.rng; ChiSquareDistribution d; for (int i = 0; i < 12; ++i) { double x = real(r); if (x > 3e3 && std::isfinite(x)) x = 3e3; c.seen(mon::hd(x)); switch (r.below(5)) { case 0: call(c, "degrees", [&] { d.setDegrees(x); }); break; case 1: call(c, "new", [&] { d = ChiSquareDistribution(x); }); break; case 2: call(c, "density", [&] { use(c, d.pdf(x)); use(c, d.cdf(x)); }); break; case 3: call(c, "median", [&] { use(c, d.getMedian()); use(c, d.getDegrees()); use(c, d.getMode()); }); break; default: call(c, "sample", [&] { use(c, d.getSample()); text(c, d); }); } }
}
void functions(mon::Ctx& c) {
  auto& r = c.rng; const double x = real(r), a = real(r); c.seen(mon::hcomb(mon::hd(x), mon::hd(a))); const size_t n = r.below(5000);
  call(c, "digamma", [&] { DigammaFunction<double> f; use(c, f(x)); }); call(c, "digamma", [&] { DigammaFunction<size_t> f; use(c, f(integer<size_t>(r))); }); call(c, "factorial", [&] { LogFactorialFunction f; use(c, f(n)); use(c, f.getNumVariables()); }); call(c, "loggamma", [&] { LogGammaFunction<size_t> f; use(c, f(n)); use(c, f(0)); }); call(c, "loggamma", [&] { LogGammaFunction<double> f(r.below(9)); use(c, f(x)); f.setDim(r.below(50)); use(c, f(x)); LogGammaFunction<double> g(f); g = f; use(c, (double)g.getDim()); text(c, g); });
  call(c, "P", [&] { IncompleteGammaPFunction f(a); use(c, f.getAlpha()); use(c, f(x)); }); call(c, "Q", [&] { IncompleteGammaQFunction f(1); f.setAlpha(a); IncompleteGammaQFunction g(f); g = f; text(c, g); use(c, g(x)); });
}
void est1(mon::Ctx& c) {
  auto& r = c.rng; typedef EstimatorML<NormalDistribution<1>> E; std::vector<std::shared_ptr<E>> e; e.push_back(std::make_shared<E>());
  for (int i = 0; i < 16; ++i) { E& o = *e[r.below(e.size())]; std::vector<double> p; for (int k = r.below(5); k-- > 0;) p.push_back(r.coin(0.7) ? tame(r) : real(r)); Eigen::VectorXd w((r.coin(0.7) ? (int)p.size() : (int)r.below(6))); for (int k = 0; k < w.size(); ++k) w(k) = r.coin(0.8) ? r.u01() : real(r); c.seen(mon::hcomb(p.size() * 8 + w.size(), p.empty() ? 0 : mon::hd(p[0])));
    switch (r.below(7)) { case 0: call(c, "point", [&] { o.addPoint(real(r)); }); break; case 1: call(c, "points", [&] { o.addPoints(p); }); break; case 2: call(c, "range", [&] { o.addPoints(p.begin(), p.end()); }); break; case 3: call(c, "weighted", [&] { o.addPoints(p.begin(), p.end(), w); }); break; case 4: call(c, "get", [&] { use(c, (double)o.getNumPoints()); use(c, o.getValid()); use(c, o.getDistribution().getMean()); use(c, o.getDistribution().getVariance()); use(c, o.getDistribution().pdf(0.5)); text(c, o); }); break; case 5: call(c, "copy", [&] { e.push_back(std::make_shared<E>(o)); *e[r.below(e.size())] = o; }); break; default: call(c, "reset", [&] { o.reset(); }); } }
}
template <int M> void estM(mon::Ctx& c) {
  auto& r = c.rng; typedef EstimatorML<NormalDistribution<M>> E; std::vector<std::shared_ptr<E>> e; e.push_back(std::make_shared<E>());
  for (int i = 0; i < 12; ++i) { E& o = *e[r.below(e.size())]; typename E::Container p; for (int k = r.below(6); k-- > 0;) { typename E::Point q; for (int m = 0; m < M; ++m) q(m) = r.coin(0.9) ? r.normal() : real(r); p.push_back(q); } Eigen::VectorXd w((r.coin(0.7) ? (int)p.size() : (int)r.below(6))); for (int k = 0; k < w.size(); ++k) w(k) = r.coin(0.9) ? r.u01() : real(r); c.seen(mon::hcomb(p.size() * 8 + w.size(), p.empty() ? 0 : mon::hd(p[0](0))));
    switch (r.below(7)) { case 0: call(c, "point", [&] { o.addPoint(p.empty() ? E::Point::Zero().eval() : p[0]); }); break; case 1: call(c, "points", [&] { o.addPoints(p); }); break; case 2: call(c, "range", [&] { o.addPoints(p.begin(), p.end()); }); break; case 3: call(c, "weighted", [&] { o.addPoints(p.begin(), p.end(), w); }); break; case 4: call(c, "get", [&] { use(c, (double)o.getNumPoints()); use(c, o.getValid()); useM(c, o.getDistribution().getMean()); useM(c, o.getDistribution().getCovariance()); use(c, o.getDistribution().pdf(E::Point::Zero())); text(c, o); }); break; case 5: call(c, "copy", [&] { e.push_back(std::make_shared<E>(o)); *e[r.below(e.size())] = o; }); break; default: call(c, "reset", [&] { o.reset(); }); } }
}
template <class X> void thrown(mon::Ctx& c, const std::function<void()>& f) { std::shared_ptr<X> keep; call(c, "throw", [&] { try { f(); } catch (const X& x) { keep = std::make_shared<X>(x); X y(x); y = *keep; y = y; long h = 0; for (const char* p = y.what(); *p; ++p) h += *p; use(c, h); throw; } }); if (keep) use(c, (double)std::strlen(keep->what())); }
void exceptions(mon::Ctx& c) {
  auto& r = c.rng; std::string m; for (int n = r.coin(0.1) ? 5000 : r.below(60); n-- > 0;) m += (char)(1 + r.below(255)); const size_t line = integer<size_t>(r); const std::string file = r.coin() ? m : " ", fn = r.coin() ? "f" : " "; const double x = real(r); const int k = integer<int>(r); c.seen(mon::hashStr(m));
  thrown<BadArgumentException<double>>(c, [&] { throw BadArgumentException<double>(x, m, file, line, fn); }); thrown<OutOfBoundException<int>>(c, [&] { throw OutOfBoundException<int>(k, m, file, line, fn); }); thrown<OutOfBoundException<int>>(c, [&] { throw OutOfBoundException<int>(k, 7, m); }); thrown<InvalidOperationException>(c, [&] { throw InvalidOperationException(m, file, line); }); thrown<NullPointerException>(c, [&] { throw NullPointerException(m, file, line); });
}
}
SECTION(sampling, 8) { c.cases(3000, [&] { switch (c.rng.below(6)) { case 0: sampler<double, 1>(c); break; case 1: sampler<int, 2>(c); break; case 2: sampler<size_t, 5>(c); break; case 3: sampler<long, 3>(c); break; case 4: sampler<float, 4>(c); break; default: sampler<double, 2>(c); } }); }
SECTION(distributions, 8) { c.cases(4000, [&] { switch (c.rng.below(14)) { case 0: normal1(c); break; case 1: normalM<2>(c); break; case 2: normalM<5>(c); break; case 3: uniform<double>(c); break; case 4: uniform<int>(c); break; case 5: uniform<long>(c); break; case 6: uniform<float>(c); break; case 7: uniform<size_t>(c); break; case 8: uniformM<double, 2>(c); break; case 9: uniformM<int, 3>(c); break; case 10: uniformM<long, 2>(c); break; case 11: gamma<double>(c); break; case 12: gamma<int>(c); break; default: chi(c); } }); }
SECTION(others, 8) { c.cases(4000, [&] { switch (c.rng.below(5)) { case 0: functions(c); break; case 1: est1(c); break; case 2: estM<2>(c); break; case 3: estM<4>(c); break; default: exceptions(c); } }); }
