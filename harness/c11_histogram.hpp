// C11: histograms against a reference count per bin.
#include "monitor.hpp"
#include <aslam/calibration/statistics/Histogram.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
using namespace aslam::calibration;
namespace {
template <class T> struct Spec { std::vector<T> mn, mx, bs; };
template <class T> T pickMin(mon::Rng& r) { return std::numeric_limits<T>::is_integer ? (T)r.range(-20, 20) : (T)(r.range(-20, 20) * 0.5); }
template <class T> T pickBin(mon::Rng& r) { return std::numeric_limits<T>::is_integer ? (T)r.range(1, 4) : (T)(r.coin() ? 0.25 * r.range(1, 8) : r.uni(0.05, 3)); }
template <class T> T sampleIn(mon::Rng& r, T mn, T mx, T bs, long nb) {
  if (std::numeric_limits<T>::is_integer) return (T)r.range((long)mn - (r.coin(0.2) ? 3 : 0), (long)mx + (r.coin(0.2) ? 3 : 0));
  switch (r.below(8)) {
    case 0: return mn; case 1: return mx; case 2: return (T)(mn + r.below(nb + 1) * bs);
    case 3: return (T)r.uni((double)mn - 2, (double)mx + 2);
    case 4: return r.coin(0.2) ? (T)NAN : r.coin(0.2) ? (T)INFINITY : (T)r.uni(mn, mx);
    default: return (T)(mn + (mx - mn) * r.u01() * r.u01());
  }
}
// independent statistic over (centre, count)
template <class T, int M, class H> void common(mon::Ctx& c, const H& h, const std::map<size_t, double>& want, double total) {
  for (size_t i = 0; i < h.getCells().size(); ++i) {
    auto it = want.find(i); double w = it == want.end() ? 0 : it->second;
    if (!c.check(h.getCells()[i] == w, "wrong-bin-count", "bin %zu holds %g want %g", i, h.getCells()[i], w)) break;
  }
  c.check(h.getSum() == total, "wrong-sum", "%g want %g", h.getSum(), total);
}
template <class T> void judge1(mon::Ctx& c, const Histogram<T, 1>& h, const std::map<size_t, double>& want, double total, T mn, T mx) {
  typedef Histogram<T, 1> H;
  typedef typename H::Index Ix; common<T, 1>(c, h, want, total);
  // statistics from the definition
  std::vector<double> ctr, cnt; int nb = h.getNumCells()(0);
  for (int i = 0; i < nb; ++i) { Ix ix; ix << i; ctr.push_back((double)h.getCoordinates(ix)(0)); cnt.push_back(h.getCell(ix)); }
  long double m = 0, v = 0; for (int i = 0; i < nb; ++i) m += (long double)ctr[i] * cnt[i]; 
  double sc = std::max(std::fabs((double)mn), std::fabs((double)mx)) + 1;
  if (total > 0) {
    m /= total; for (int i = 0; i < nb; ++i) v += (ctr[i] - m) * (ctr[i] - m) * cnt[i];
    if (c.rng.coin()) h.getVariance(); if (c.rng.coin()) h.getMedian();
    c.checkNear(h.getMean(), (double)m, 1e-10, 1e-10 * sc, "wrong-mean", "mean");
    if (total > 1) c.checkNear(h.getVariance(), (double)(v / (total - 1)), 1e-9, 1e-10 * sc * sc, "wrong-variance", "variance");
    double acc = 0; int med = 0; for (; med < nb; ++med) { acc += cnt[med]; if (acc >= total * 0.5) break; }
    c.checkNear(h.getMedian(), ctr[med], 1e-12, 0, "wrong-median", "median");
    double best = *std::max_element(cnt.begin(), cnt.end()); bool okm = false;
    for (int i = 0; i < nb; ++i) if (cnt[i] == best && ctr[i] == h.getMode()) okm = true;
    c.check(okm, "wrong-mode", "mode %g", h.getMode());
    H nh = h.getNormalized(); double s1 = 0;
    for (int i = 0; i < nb; ++i) { c.checkNear(nh.getCells()[i], h.getCells()[i] / total, 1e-12, 0, "wrong-normalized", "bin"); s1 += nh.getCells()[i]; }
    c.checkNear(s1, 1, 1e-9, 0, "normalized-not-one", "sum");
    c.checkNear(nh.getMean(), (double)m, 1e-9, 1e-10 * sc, "normalized-mean", "mean");
    if (total > 3) c.seen(mon::hcomb(mon::hd((double)m), mon::hd((double)v)));
  }
  common<T, 1>(c, h, want, total); // statistics change nothing
}
template <class T> void one1(mon::Ctx& c) {
  typedef Histogram<T, 1> H; auto& r = c.rng;
  T mn = pickMin<T>(r), bs = pickBin<T>(r), mx = (T)(mn + bs * (1 + r.below(12)));
  if (!std::numeric_limits<T>::is_integer && r.coin(0.3)) mx = (T)(mx + bs * 0.37); else if (r.coin(0.3)) mx = (T)(mx + (bs > 1 ? 1 : 0));
  while (!(bs <= mx - mn)) mx = (T)(mx + bs / 8 + 1e-3);
  c.note("1d %s min=%.17g max=%.17g bin=%.17g", std::numeric_limits<T>::is_integer ? "int" : "real", (double)mn, (double)mx, (double)bs);
  H h(mn, mx, bs); typedef typename H::Coordinate Co; typedef typename H::Index Ix;
  std::map<size_t, double> want; double total = 0; size_t n = r.below(200), fed = 0;
  auto expect = [&](T x) {
    Co p; p << x; if (!(x >= mn && x <= mx)) return; // outside or nan: ignored
    want[h.computeLinearIndex(h.getIndex(p))]++; ++total; };
  while (fed < n) {
    if (r.coin(0.6)) { T x = sampleIn<T>(r, mn, mx, bs, h.getNumCells()(0)); expect(x); h.addSample(x); ++fed; }
    else { std::vector<T> v; size_t k = r.below(10); for (size_t i = 0; i < k; ++i) { v.push_back(sampleIn<T>(r, mn, mx, bs, h.getNumCells()(0))); expect(v.back()); } h.addSamples(v); fed += k; if (!k) ++fed; }
  }
  c.count("samples", (long)fed); c.count("samples counted", (long)total);
  judge1<T>(c, h, want, total, mn, mx);
  // a life after the first look: more samples, copies going their own way, direct writes, resets
  H cp(h), as; as = h; as = *&as; if (r.coin()) { H other(mn, mx, bs); other.addSample(mn); other.getMean(); as = other; as = h; }
  struct Life { H* h; std::map<size_t, double> want; double total; }; std::vector<Life> l = {{&h, want, total}, {&cp, want, total}, {&as, want, total}};
  for (int k = 2 + (int)r.below(10); k-- > 0;) {
    Life& x = l[r.below(3)]; auto put = [&](T v) { Co p; p << v; if (v >= mn && v <= mx) { x.want[h.computeLinearIndex(h.getIndex(p))]++; ++x.total; } };
    switch (r.below(7)) {
      case 0: case 1: { T v = sampleIn<T>(r, mn, mx, bs, h.getNumCells()(0)); put(v); x.h->addSample(v); break; }
      case 2: { std::vector<T> v; for (size_t i = r.below(6); i-- > 0;) { v.push_back(sampleIn<T>(r, mn, mx, bs, h.getNumCells()(0))); put(v.back()); } x.h->addSamples(v); break; }
      case 3: if (r.coin(0.4)) { x.h->reset(); x.want.clear(); x.total = 0; } break;
      case 4: { Ix ix; ix << (int)r.below(h.getNumCells()(0)); const double n = (double)r.below(9); const size_t i = h.computeLinearIndex(ix); x.total += n - x.want[i]; x.want[i] = n; if (r.coin()) x.h->getCell(ix) = n; else (*x.h)[ix] = n; break; }
      case 5: { Life& y = l[r.below(3)]; *x.h = *y.h; x.want = y.want; x.total = y.total; break; }
      default: judge1<T>(c, *x.h, x.want, x.total, mn, mx);
    }
    c.count("operations after the first look");
  }
  for (auto& x : l) judge1<T>(c, *x.h, x.want, x.total, mn, mx);
  c.sample(c.crumb);
}
template <class T, int M> void judgeM(mon::Ctx& c, const Histogram<T, M>& h, const std::map<size_t, double>& want, double total, const typename Histogram<T, M>::Coordinate& mn, const typename Histogram<T, M>::Coordinate& mx) {
  typedef Histogram<T, M> H; typedef typename H::Index Ix;
  common<T, M>(c, h, want, total);
  if (total > 0) {
    typedef Eigen::Matrix<long double, M, 1> V; V m = V::Zero(); Eigen::Matrix<long double, M, M> cov; cov.setZero();
    std::vector<std::pair<V, double>> bins; Ix ix = Ix::Zero(); 
    // own walk over the indices
    for (size_t lin = 0; lin < h.getNumCellsTot(); ++lin) {
      bins.push_back({h.getCoordinates(ix).template cast<long double>(), h.getCell(ix)});
      for (int i = 0; i < M; ++i) { if (++ix(i) < h.getNumCells()(i)) break; ix(i) = 0; }
    }
    for (auto& b : bins) m += b.first * b.second;
    m /= total; for (auto& b : bins) cov += (b.first - m) * (b.first - m).transpose() * (long double)b.second;
    double sc = 1 + (double)std::max(mn.template cast<double>().cwiseAbs().maxCoeff(), mx.template cast<double>().cwiseAbs().maxCoeff());
    if (c.rng.coin()) h.getMode(); if (c.rng.coin()) h.getCovariance();
    auto gm = h.getMean(); for (int i = 0; i < M; ++i) c.checkNear(gm(i), (double)m(i), 1e-10, 1e-10 * sc, "wrong-mean", "mean");
    if (total > 1) { auto gc = h.getCovariance(); for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) c.checkNear(gc(i, j), (double)(cov(i, j) / (total - 1)), 1e-9, 1e-10 * sc * sc, "wrong-covariance", "covariance"); }
    double best = -1; for (auto& b : bins) best = std::max(best, b.second);
    auto md = h.getMode(); bool okm = false; for (auto& b : bins) if (b.second == best && (b.first.template cast<double>() - md).norm() == 0) okm = true;
    c.check(okm, "wrong-mode");
    H nh = h.getNormalized(); double s1 = 0; for (size_t i = 0; i < h.getCells().size(); ++i) { c.checkNear(nh.getCells()[i], h.getCells()[i] / total, 1e-12, 0, "wrong-normalized", "bin"); s1 += nh.getCells()[i]; }
    c.checkNear(s1, 1, 1e-9, 0, "normalized-not-one", "sum");
    if (total > 3) c.seen(mon::hcomb(mon::hd((double)m(0)), mon::hd((double)cov(0, 0))));
  }
  common<T, M>(c, h, want, total);
}
template <class T, int M> void oneM(mon::Ctx& c) {
  typedef Histogram<T, M> H; typedef typename H::Coordinate Co; typedef typename H::Index Ix; auto& r = c.rng;
  Co mn, mx, bs; std::ostringstream o; o.precision(17);
  for (int i = 0; i < M; ++i) { mn(i) = pickMin<T>(r); bs(i) = pickBin<T>(r); mx(i) = (T)(mn(i) + bs(i) * (1 + r.below(M == 2 ? 7 : M == 3 ? 4 : 2))); if (!std::numeric_limits<T>::is_integer && r.coin(0.3)) mx(i) = (T)(mx(i) + bs(i) * 0.4);
    while (!(bs(i) <= mx(i) - mn(i))) mx(i) = (T)(mx(i) + bs(i) / 8 + 1e-3); }
  o << M << "d min=" << mn.transpose() << " max=" << mx.transpose() << " bin=" << bs.transpose(); c.note("%s", o.str().c_str());
  H h(mn, mx, bs); std::map<size_t, double> want; double total = 0; size_t n = r.below(300), fed = 0;
  auto draw = [&] { Co p; for (int i = 0; i < M; ++i) p(i) = sampleIn<T>(r, mn(i), mx(i), bs(i), h.getNumCells()(i)); return p; };
  auto expect = [&](const Co& p) { for (int i = 0; i < M; ++i) if (!(p(i) >= mn(i) && p(i) <= mx(i))) return; want[h.computeLinearIndex(h.getIndex(p))]++; ++total; };
  while (fed < n) {
    if (r.coin(0.6)) { Co p = draw(); expect(p); h.addSample(p); ++fed; }
    else { std::vector<Co> v; size_t k = r.below(8); for (size_t i = 0; i < k; ++i) { v.push_back(draw()); expect(v.back()); } h.addSamples(v); fed += k + !k; }
  }
  c.count("samples", (long)fed); c.count("samples counted", (long)total);
  judgeM<T, M>(c, h, want, total, mn, mx);
  H cp(h), as(mn, mx, bs); as = h; struct Life { H* h; std::map<size_t, double> want; double total; }; std::vector<Life> l = {{&h, want, total}, {&cp, want, total}, {&as, want, total}};
  for (int k = 2 + (int)r.below(8); k-- > 0;) {
    Life& x = l[r.below(3)]; auto put = [&](const Co& p) { for (int i = 0; i < M; ++i) if (!(p(i) >= mn(i) && p(i) <= mx(i))) return; x.want[h.computeLinearIndex(h.getIndex(p))]++; ++x.total; };
    switch (r.below(7)) {
      case 0: case 1: { Co p = draw(); put(p); x.h->addSample(p); break; }
      case 2: { std::vector<Co> v; for (size_t i = r.below(6); i-- > 0;) { v.push_back(draw()); put(v.back()); } x.h->addSamples(v); break; }
      case 3: if (r.coin(0.4)) { x.h->reset(); x.want.clear(); x.total = 0; } break;
      case 4: { Ix ix; for (int i = 0; i < M; ++i) ix(i) = (int)r.below(h.getNumCells()(i)); const double n = (double)r.below(9); const size_t i = h.computeLinearIndex(ix); x.total += n - x.want[i]; x.want[i] = n; if (r.coin()) x.h->getCell(ix) = n; else (*x.h)[ix] = n; break; }
      case 5: { Life& y = l[r.below(3)]; *x.h = *y.h; x.want = y.want; x.total = y.total; break; }
      default: judgeM<T, M>(c, *x.h, x.want, x.total, mn, mx);
    }
    c.count("operations after the first look");
  }
  for (auto& x : l) judgeM<T, M>(c, *x.h, x.want, x.total, mn, mx);
  c.sample(c.crumb);
}
}
#if PART == 1
SECTION(real1, 2) { c.cases(1500, [&] { one1<double>(c); }); }
SECTION(int1, 2) { c.cases(1500, [&] { one1<int>(c); }); }
SECTION(float1, 1) { c.cases(600, [&] { one1<float>(c); }); }
#else
SECTION(real5, 1) { c.cases(150, [&] { oneM<double, 5>(c); }); }
SECTION(int4, 1) { c.cases(150, [&] { oneM<int, 4>(c); }); }
SECTION(real2, 2) { c.cases(700, [&] { oneM<double, 2>(c); }); }
SECTION(real3, 2) { c.cases(400, [&] { oneM<double, 3>(c); }); }
SECTION(int2, 2) { c.cases(700, [&] { oneM<int, 2>(c); }); }
#endif
