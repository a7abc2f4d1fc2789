// C23: several threads reading the same objects; random draws of several threads from the one source.
#include "c22_common.hpp"
#include <aslam/calibration/algorithms/matrixOperations.h>
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/geometry/Transformation.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/Histogram.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <algorithm>
#include <atomic>
#include <memory>
#include <sched.h>
#include <thread>
using namespace aslam::calibration;
namespace {
const int T = 4;
typedef std::vector<double> Log; typedef mon::Rng Rng;
struct Op { std::string name; std::function<void(Rng&, Log&)> f; bool draws; };
template <class V> void put(Log& l, const V& v) { for (int i = 0; i < v.size(); ++i) l.push_back((double)v.data()[i]); }
template <class X> void print(Log& l, const X& x) { std::ostringstream s; s << x; uint64_t h = mon::hashStr(s.str()); l.push_back((double)(h >> 12)); }
void pause(Rng& d) { const uint64_t k = d.below(48); if (k < 5) sched_yield(); else if (k == 5) usleep(d.below(30)); else if (k == 6) for (volatile int i = d.below(1500); i > 0; --i) {} }
template <int M> Eigen::Matrix<double, M, 1> nv(Rng& r) { Eigen::Matrix<double, M, 1> v; for (int i = 0; i < M; ++i) v(i) = r.normal(); return v; }
#define OP(n, ...) ops.push_back({n, [=](Rng& r, Log& l) { (void)r; __VA_ARGS__; }, false})
#define DRAW(n, ...) ops.push_back({n, [=](Rng& r, Log& l) { (void)r; __VA_ARGS__; }, true})
template <int M> void normalM(Rng& r, std::vector<Op>& ops) {
  Eigen::Matrix<double, M, M> A; for (int i = 0; i < A.size(); ++i) A.data()[i] = r.normal(); const Eigen::Matrix<double, M, M> S = A * A.transpose() + Eigen::Matrix<double, M, M>::Identity();
  auto d = std::make_shared<const NormalDistribution<M>>(nv<M>(r), S), e = std::make_shared<const NormalDistribution<M>>(nv<M>(r), (S * 2).eval());
  OP("mv normal density", auto x = nv<M>(r); l.push_back(d->pdf(x)); l.push_back(d->logpdf(x)); l.push_back(d->mahalanobisDistance(x)); l.push_back((*d)(x)));
  OP("mv normal moments", put(l, d->getMean()); put(l, d->getCovariance()); put(l, d->getPrecision()); put(l, d->getMode()); l.push_back(d->getDeterminant()); l.push_back(d->getNormalizer())); 
  OP("mv normal divergence", l.push_back(d->KLDivergence(*e))); OP("mv normal copy", NormalDistribution<M> c(*d); c.setMean(nv<M>(r)); put(l, c.getMean()); NormalDistribution<M> b; b = *e; put(l, b.getCovariance())); OP("mv normal text", print(l, *d));
  DRAW("mv normal draw", put(l, d->getSample()));
}
template <class X> void uniform1(Rng& r, std::vector<Op>& ops, bool real) {
  const X a = (X)(1 + r.below(20)), b = (X)(25 + r.below(50)); auto d = std::make_shared<const UniformDistribution<X>>(a, b);
  if (real) OP("uniform density", l.push_back(d->pdf((X)r.below(90)))); else OP("uniform density", l.push_back(d->pmf((X)r.below(90))));
  OP("uniform cumulative", l.push_back((*d)((X)r.below(90)))); OP("uniform moments", l.push_back(d->getMean()); l.push_back(d->getMedian()); l.push_back(d->getVariance()); l.push_back((double)d->getMinSupport()); l.push_back((double)d->getSupportArea()));
  OP("uniform text", print(l, *d)); DRAW("uniform draw", const double x = d->getSample(); l.push_back(x >= (double)a && x <= (double)b ? 1 : 0));
}
template <class X> void gammaD(Rng& r, std::vector<Op>& ops) {
  auto d = std::make_shared<const GammaDistribution<X>>((X)(2 + r.below(9)), r.uni(0.3, 3)), e = std::make_shared<const GammaDistribution<X>>((X)(1 + r.below(5)), 1.5);
  OP("gamma density", const double x = r.uni(-1, 20); l.push_back(d->pdf(x)); l.push_back(d->logpdf(x))); OP("gamma cumulative", l.push_back(d->cdf(r.uni(-1, 20)))); OP("gamma quantile", l.push_back(d->invcdf(r.uni(0.01, 0.99))));
  OP("gamma moments", l.push_back(d->getMean()); l.push_back(d->getVariance()); l.push_back(d->getMode()); l.push_back(d->getNormalizer())); OP("gamma divergence", l.push_back(d->KLDivergence(*e))); OP("gamma text", print(l, *d)); DRAW("gamma draw", l.push_back(d->getSample() >= 0));
}
template <class X, int M> void gridOps(Rng& r, std::vector<Op>& ops) {
  typedef Grid<X, double, M> G; typename G::Coordinate a, b, s; for (int i = 0; i < M; ++i) { a(i) = (X)(long)r.below(10); b(i) = a(i) + (X)(10 + r.below(20)); s(i) = (X)(1 + r.below(4)); }
  auto g = std::make_shared<G>(a, b, s); double v = 0; for (auto it = g->getCellBegin(); it != g->getCellEnd(); ++it) *it = v += 0.5; std::shared_ptr<const G> k = g;
  auto point = [=](Rng& r) { typename G::Coordinate p; for (int i = 0; i < M; ++i) p(i) = k->getMinimum()(i) + (X)(r.u01() * (double)(k->getMaximum()(i) - k->getMinimum()(i))); return p; };
  OP("grid cell", l.push_back((*k)(point(r)))); OP("grid index", auto i = k->getIndex(point(r)); put(l, i); put(l, k->getCoordinates(i)); l.push_back(k->getCell(i)); l.push_back((*k)[i])); OP("grid range", l.push_back(k->isInRange(point(r)))); OP("grid walk", double s = 0; for (auto it = k->getCellBegin(); it != k->getCellEnd(); ++it) s += *it; l.push_back(s));
  OP("grid next", typename G::Index i = G::Index::Zero(); for (int n = r.below(20); n-- > 0 && k->isValidIndex(i);) k->incrementIndex(i); put(l, i)); OP("grid text", print(l, *k)); OP("grid copy", G c(*k); c.reset(); l.push_back(c.getNumCellsTot()));
  OP("grid refusal", auto p = point(r); p(0) = k->getMaximum()(0) + 1; try { k->getIndex(p); l.push_back(0); } catch (const OutOfBoundException<typename G::Coordinate>& x) { l.push_back((double)(mon::hashStr(x.what()) >> 12)); });
}
std::vector<Op> build(Rng& r) {
  std::vector<Op> ops;
  for (int n = 3; n-- > 0;) switch (r.below(14)) {
    case 0: { auto d = std::make_shared<const NormalDistribution<1>>(r.normal(), r.uni(0.1, 3)), e = std::make_shared<const NormalDistribution<1>>(r.normal(), 2);
      OP("normal density", const double x = r.normal(); l.push_back(d->pdf(x)); l.push_back(d->logpdf(x)); l.push_back(d->cdf(x)); l.push_back(d->mahalanobisDistance(x))); OP("normal moments", l.push_back(d->getMean()); l.push_back(d->getMedian()); l.push_back(d->getMode()); l.push_back(d->getVariance()); l.push_back(d->getStandardDeviation()); l.push_back(d->getPrecision()); l.push_back(d->getNormalizer())); OP("normal divergence", l.push_back(d->KLDivergence(*e))); OP("normal text", print(l, *d)); OP("normal copy", NormalDistribution<1> c(*d); c = *e; c.setVariance(r.uni(1, 2)); l.push_back(c.pdf(0))); DRAW("normal draw", l.push_back(d->getSample()); std::vector<double> v; d->getSamples(v, 3); l.push_back(v.size())); break; }
    case 1: normalM<2>(r, ops); break; case 2: normalM<4>(r, ops); break; case 3: uniform1<double>(r, ops, true); break; case 4: uniform1<int>(r, ops, false); break; case 5: gammaD<double>(r, ops); break; case 6: gammaD<int>(r, ops); break;
    case 7: { auto d = std::make_shared<const ChiSquareDistribution>(1 + r.below(9)); OP("chi-square", const double x = r.uni(0, 20); l.push_back(d->pdf(x)); l.push_back(d->cdf(x)); l.push_back(d->invcdf(r.uni(0.01, 0.99))); l.push_back(d->getDegrees()); l.push_back(d->getMedian())); OP("chi-square text", print(l, *d)); DRAW("chi-square draw", l.push_back(d->getSample() >= 0)); break; }
    case 8: { auto a = std::make_shared<const DigammaFunction<double>>(); auto b = std::make_shared<const LogFactorialFunction>(); auto f = std::make_shared<const LogGammaFunction<double>>(1 + r.below(3)); auto g = std::make_shared<const LogGammaFunction<size_t>>(); auto p = std::make_shared<const IncompleteGammaPFunction>(r.uni(0.5, 9)); auto q = std::make_shared<const IncompleteGammaQFunction>(r.uni(0.5, 9));
      OP("digamma", l.push_back((*a)(r.uni(0.1, 30)))); OP("factorial", l.push_back((*b)(r.below(500)))); OP("log gamma", l.push_back((*f)(r.uni(2, 60)))); OP("log gamma", l.push_back((*g)(3 + r.below(60)))); OP("P", l.push_back((*p)(r.uni(0, 20)))); OP("Q", l.push_back((*q)(r.uni(0, 20)))); OP("function text", print(l, *p); print(l, *q)); break; }
    case 9: gridOps<double, 2>(r, ops); break; case 10: gridOps<int, 3>(r, ops); break;
    case 11: { auto h = std::make_shared<Histogram<double>>(0, 10, 0.5); for (int i = 0; i < 30; ++i) h->addSample(r.uni(0, 10)); std::shared_ptr<const Histogram<double>> k = h; auto m = std::make_shared<Histogram<double, 2>>(Eigen::Vector2d(0, 0), Eigen::Vector2d(5, 5), Eigen::Vector2d(1, 0.5)); for (int i = 0; i < 30; ++i) m->addSample(Eigen::Vector2d(r.uni(0, 5), r.uni(0, 5))); std::shared_ptr<const Histogram<double, 2>> w = m;
      OP("histogram statistics", l.push_back(k->getSum()); l.push_back(k->getMean()); l.push_back(k->getMedian()); l.push_back(k->getMode()); l.push_back(k->getVariance())); OP("histogram normalized", const auto q = k->getNormalized(); l.push_back(q.getMean())); OP("histogram text", print(l, *k)); OP("mv histogram", put(l, w->getMean()); put(l, w->getMode()); put(l, w->getCovariance()); l.push_back(w->getSum())); break; }
    case 12: { auto e = std::make_shared<EstimatorML<NormalDistribution<1>>>(); for (int i = 0; i < 9; ++i) e->addPoint(r.normal()); std::shared_ptr<const EstimatorML<NormalDistribution<1>>> k = e; auto f = std::make_shared<EstimatorML<NormalDistribution<3>>>(); for (int i = 0; i < 9; ++i) f->addPoint(nv<3>(r)); std::shared_ptr<const EstimatorML<NormalDistribution<3>>> m = f;
      OP("estimate", const auto d = k->getDistribution(); l.push_back(d.getMean()); l.push_back(d.getVariance()); l.push_back(k->getNumPoints()); l.push_back(k->getValid())); OP("mv estimate", const auto d = m->getDistribution(); put(l, d.getMean()); put(l, d.getCovariance()); l.push_back(m->getValid())); OP("estimator copy", EstimatorML<NormalDistribution<3>> c(*m); c.addPoint(nv<3>(r)); put(l, c.getDistribution().getMean())); OP("estimator text", print(l, *k); print(l, *m)); break; }
    default: { auto t = std::make_shared<const Transformation<double, 3>>(r.normal(), r.normal(), r.normal(), 0.3, 0.2, r.uni(-3, 3)); auto s = std::make_shared<const Transformation<double, 2>>(r.normal(), r.normal(), r.uni(-3, 3)); auto ts = std::make_shared<const Timestamp>(r.uni(0, 2e9));
      OP("transform", put(l, (*t)(nv<3>(r).eval())); Eigen::Vector2d d; s->transform(nv<2>(r), d); put(l, d)); OP("inverse", put(l, t->getInverse()(nv<3>(r).eval()))); OP("transformation text", print(l, *t); print(l, *s));
      OP("time", l.push_back(ts->getSeconds()); l.push_back(*ts - 5.0); l.push_back(*ts < 1e9); const timespec q = *ts; l.push_back(q.tv_nsec)); OP("date", l.push_back((double)(mon::hashStr(Timestamp::getDate(r.uni(0, 2e9))) >> 12))); OP("time text", print(l, *ts)); OP("clock", l.push_back(Timestamp::now() > 1e9); l.push_back(Timestamp::getDate().size() > 5));
      auto R = std::make_shared<const Eigen::MatrixXd>(Eigen::MatrixXd::Identity(6, 6) * r.uni(1, 3)); OP("log diagonal", l.push_back(computeSumLogDiagR(*R, 1, 4))); break; }
  }
  return ops;
}
template <class F> void threads(F f) { std::atomic<int> ready(0); std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) sched_yield(); f(t); }); for (auto& x : th) x.join(); }
}
SECTION(shared, 16) {
  std::atomic<uint64_t> ticket(0);
  c.cases(1200, [&] {
    const uint64_t s = c.rng.next(); Rng b1(s), b2(s); const std::vector<Op> ops = build(b1), solo = build(b2); std::vector<Log> got(T); std::vector<std::vector<size_t>> cuts(T); std::vector<uint64_t> order(T);
    std::vector<Rng> rng; for (int t = 0; t < T; ++t) rng.push_back(Rng(mon::hcomb(s, t)));
    auto run = [&](int t, const std::vector<Op>& o, Log& l, std::vector<size_t>* cut, bool delays) { Rng r = rng[t], d(mon::hcomb(s, 99 + t)); for (int i = 0; i < 25; ++i) { const Op& op = o[r.below(o.size())]; const size_t before = l.size(); op.f(r, l); if (op.draws && op.name != "uniform draw") for (size_t k = before; k < l.size(); ++k) l[k] = 0; if (cut) cut->push_back(l.size()); if (delays) { order[t] = mon::hcomb(order[t], ticket.fetch_add(1, std::memory_order_relaxed)); pause(d); } } };
    ticket = 0; threads([&](int t) { run(t, ops, got[t], &cuts[t], true); });
    uint64_t h = 0; for (auto o : order) h = mon::hcomb(h, o); c.seen(h);
    for (int t = 0; t < T; ++t) { Log want; run(t, solo, want, nullptr, false); bool same = want.size() == got[t].size(); size_t at = 0; while (same && at < want.size()) { if (std::memcmp(&want[at], &got[t][at], 8) && !(std::isnan(want[at]) && std::isnan(got[t][at]))) same = false; else ++at; }
      if (!same) { Rng r = rng[t]; (void)r; size_t k = 0; while (k + 1 < cuts[t].size() && cuts[t][k] <= at) ++k; c.check(false, "result-differs-from-alone", "thread %d, operation %zu: got %.17g, alone %.17g", t, k, at < got[t].size() ? got[t][at] : NAN, at < want.size() ? want[at] : NAN); } else c.check(true, "result"); c.count("results compared", want.size()); }
  });
}
SECTION(draws, 8) {
  c.cases(200, [&] { // every value of the source goes to exactly one thread
    const unsigned seed = 2 + c.rng.below(2000000000); const int n = 20 + c.rng.below(200); Randomizer<double> own; own.setSeed(seed); std::vector<Log> got(T); const uint64_t s = c.rng.next();
    threads([&](int t) { Randomizer<double> g; Rng d(mon::hcomb(s, t)); for (int i = 0; i < n; ++i) { got[t].push_back(g.sampleUniform(0, 1)); if (d.coin(0.1)) { Randomizer<int> other; Randomizer<double>::getSeed(); } pause(d); } });
    Log all, want; uint64_t h = 0; for (auto& l : got) { all.insert(all.end(), l.begin(), l.end()); h = mon::hcomb(h, mon::hd(l[3])); } c.seen(h); own.setSeed(seed); for (int i = 0; i < n * T; ++i) want.push_back(own.sampleUniform(0, 1));
    std::sort(all.begin(), all.end()); std::sort(want.begin(), want.end()); size_t i = 0; while (i < all.size() && all[i] == want[i]) ++i; c.check(i == all.size(), "draw-lost-or-repeated", "value %zu of %zu: %.17g, the source gives %.17g", i, all.size(), i < all.size() ? all[i] : 0, i < all.size() ? want[i] : 0); c.count("draws accounted for", all.size());
  });
  c.cases(100, [&] { // seeding and drawing at once
    const uint64_t s = c.rng.next(); std::vector<long> bad(T); threads([&](int t) { Rng d(mon::hcomb(s, t)); Randomizer<double> g; Randomizer<int> k; Randomizer<double, 3> m; for (int i = 0; i < 40; ++i) { switch (d.below(8)) { case 0: g.setSeed(2 + d.below(1000)); break; case 1: bad[t] += !(g.sampleGamma(2.5, 1) >= 0); break; case 2: bad[t] += !(k.sampleUniform(0, 9) <= 9); break; case 3: bad[t] += !std::isfinite(g.sampleNormal(0, 1)); break; case 4: bad[t] += g.samplePoisson(4) > 1000; break; case 5: bad[t] += m.sampleCategorical(Eigen::Vector3d(0.2, 0.3, 0.5)) > 2; break; case 6: bad[t] += !(g.sampleExponential(1) >= 0); break; default: Randomizer<double>::getSeed(); } pause(d); } }); c.seen(s); for (long b : bad) c.check(b == 0, "draw-impossible");
  });
}
