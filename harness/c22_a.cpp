// C22: hostile calls on grids, histograms, permute, matrix operations, timestamps, transformations.
#include "c22_common.hpp"
#include <aslam/calibration/algorithms/matrixOperations.h>
#include <aslam/calibration/algorithms/permute.h>
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/geometry/Transformation.h>
#include <aslam/calibration/statistics/Histogram.h>
#include <Eigen/Geometry>
#include <memory>
using namespace aslam::calibration; using namespace hostile;
namespace {
template <class T> bool fits(T a, T b, T s) { const double n = ((double)b - (double)a) / (double)s; return !(n > 3e4); }
template <class T, class C, int M> void grid(mon::Ctx& c) {
  typedef Grid<T, C, M> G; typedef typename G::Coordinate X; typedef typename G::Index I; auto& r = c.rng; std::vector<std::shared_ptr<G>> g;
  for (int step = 0; step < 25; ++step) {
    if (g.empty() || r.coin(0.1)) {
      X a = vec<T, M>(r), b = vec<T, M>(r), s = vec<T, M>(r); if (r.coin(0.7)) for (int i = 0; i < M; ++i) { if (a(i) > b(i)) std::swap(a(i), b(i)); const double w = (double)b(i) - (double)a(i); if (w > 0 && w < 1e300) s(i) = to<T>(std::max(w / (1 + r.below(6)), 1.0 * std::is_integral<T>::value)); }
      bool ok = true; double n = 1; for (int i = 0; i < M; ++i) { ok &= fits(a(i), b(i), s(i)); const double k = ((double)b(i) - (double)a(i)) / (double)s(i); if (k > 1) n *= k; } if (!ok || n > 1e5) continue;
      c.seen(mon::hcomb(mon::hd((double)a(0)), mon::hd((double)s(0)))); call(c, "grid", [&] { g.push_back(std::make_shared<G>(a, b, s)); }); continue;
    }
    G& o = *g[r.below(g.size())]; const G& k = o; I id; for (int i = 0; i < M; ++i) id(i) = r.coin(0.6) ? (int)r.below((uint64_t)o.getNumCells()(i)) : r.coin() ? integer<int>(r) : o.getNumCells()(i); X p = vec<T, M>(r); if (r.coin(0.6)) for (int i = 0; i < M; ++i) { const double u = r.u01(); p(i) = to<T>((1 - u) * (double)o.getMinimum()(i) + u * (double)o.getMaximum()(i)); if (r.coin(0.2)) p(i) = r.coin() ? o.getMinimum()(i) : o.getMaximum()(i); }
    switch (r.below(12)) {
      case 0: call(c, "cell", [&] { use(c, (double)k.getCell(id)); o[id] = C(step); }); break;
      case 1: call(c, "point", [&] { use(c, (double)k(p)); o(p) = C(step); }); break;
      case 2: call(c, "index", [&] { useM(c, k.getIndex(p)); }); break;
      case 3: call(c, "coordinates", [&] { useM(c, k.getCoordinates(id)); }); break;
      case 4: call(c, "range", [&] { use(c, k.isInRange(p)); use(c, k.isValidIndex(id)); }); break;
      case 5: call(c, "next", [&] { I i = I::Zero(); if (k.isValidIndex(id)) i = id; for (int n = 0; n < 50 && k.isValidIndex(i); ++n) { use(c, (double)k.getCell(i)); k.incrementIndex(i); } useM(c, i); }); break;
      case 6: call(c, "reset", [&] { o.reset(); }); break;
      case 7: call(c, "text", [&] { if (k.getNumCellsTot() < 200) text(c, k); }); break;
      case 8: call(c, "copy", [&] { g.push_back(std::make_shared<G>(k)); }); break;
      case 9: call(c, "assign", [&] { o = *g[r.below(g.size())]; }); break;
      case 10: call(c, "walk", [&] { double s = 0; for (auto it = k.getCellBegin(); it != k.getCellEnd(); ++it) s += (double)*it; use(c, s); use(c, (double)k.getCells().size()); }); break;
      default: if (g.size() > 1) g.erase(g.begin() + r.below(g.size()));
    }
  }
}
template <class T> void hist(mon::Ctx& c) {
  typedef Histogram<T> H; auto& r = c.rng; std::vector<std::shared_ptr<H>> h; h.push_back(std::make_shared<H>());
  for (int step = 0; step < 30; ++step) {
    H& o = *h[r.below(h.size())]; const H& k = o; T x = r.coin() ? value<T>(r) : to<T>((double)o.getMinimum()(0) + r.u01() * ((double)o.getMaximum()(0) - (double)o.getMinimum()(0)));
    switch (r.below(9)) {
      case 0: { T a = value<T>(r), b = value<T>(r), s = value<T>(r); if (a > b) std::swap(a, b); if (r.coin(0.8)) { const double w = (double)b - (double)a; if (w > 0 && w < 1e300) s = to<T>(std::max(w / (1 + r.below(9)), 1.0 * std::is_integral<T>::value)); } if (!fits(a, b, s)) break; c.seen(mon::hcomb(mon::hd((double)a), mon::hd((double)s))); call(c, "histogram", [&] { h.push_back(std::make_shared<H>(a, b, s)); }); break; }
      case 1: case 2: call(c, "sample", [&] { o.addSample(x); }); break;
      case 3: call(c, "samples", [&] { std::vector<T> v; for (int i = r.below(5); i-- > 0;) v.push_back(value<T>(r)); o.addSamples(v); }); break;
      case 4: call(c, "statistics", [&] { use(c, k.getSum()); use(c, k.getMean()); }); call(c, "statistics", [&] { use(c, k.getMedian()); }); call(c, "statistics", [&] { use(c, k.getMode()); }); call(c, "statistics", [&] { use(c, k.getVariance()); }); break;
      case 5: call(c, "normalized", [&] { h.push_back(std::make_shared<H>(k.getNormalized())); }); break;
      case 6: call(c, "copy", [&] { h.push_back(std::make_shared<H>(k)); *h[r.below(h.size())] = k; }); break;
      case 7: call(c, "reset", [&] { o.reset(); }); break;
      default: if (r.coin(0.3)) { for (auto it = o.getCellBegin(); it != o.getCellEnd(); ++it) *it = real(r); } else if (h.size() > 1) h.erase(h.begin() + r.below(h.size()));
    }
  }
}
template <class T, int M> void histMv(mon::Ctx& c) {
  typedef Histogram<T, M> H; typedef typename H::Coordinate X; auto& r = c.rng; std::vector<std::shared_ptr<H>> h; h.push_back(std::make_shared<H>());
  for (int step = 0; step < 20; ++step) {
    H& o = *h[r.below(h.size())]; const H& k = o; X x = vec<T, M>(r); if (r.coin()) for (int i = 0; i < M; ++i) x(i) = to<T>((double)o.getMinimum()(i) + r.u01() * ((double)o.getMaximum()(i) - (double)o.getMinimum()(i)));
    switch (r.below(8)) {
      case 0: { X a = vec<T, M>(r), b = vec<T, M>(r), s = vec<T, M>(r); double n = 1; bool ok = true; for (int i = 0; i < M; ++i) { if (a(i) > b(i)) std::swap(a(i), b(i)); const double w = (double)b(i) - (double)a(i); if (w > 0 && w < 1e300 && r.coin(0.9)) s(i) = to<T>(std::max(w / (1 + r.below(4)), 1.0 * std::is_integral<T>::value)); ok &= fits(a(i), b(i), s(i)); if (w / (double)s(i) > 1) n *= w / (double)s(i); } if (!ok || n > 1e5) break; c.seen(mon::hcomb(mon::hd((double)a(0)), mon::hd((double)s(1)))); call(c, "histogram", [&] { h.push_back(std::make_shared<H>(a, b, s)); }); break; }
      case 1: case 2: call(c, "sample", [&] { o.addSample(x); }); break;
      case 3: call(c, "samples", [&] { std::vector<X> v; for (int i = r.below(4); i-- > 0;) v.push_back(vec<T, M>(r)); o.addSamples(v); }); break;
      case 4: call(c, "statistics", [&] { use(c, k.getSum()); useM(c, k.getMean()); useM(c, k.getCovariance()); }); call(c, "statistics", [&] { useM(c, k.getMode()); }); break;
      case 5: call(c, "normalized", [&] { h.push_back(std::make_shared<H>(k.getNormalized())); }); break;
      case 6: call(c, "copy", [&] { h.push_back(std::make_shared<H>(k)); *h[r.below(h.size())] = k; }); break;
      default: call(c, "reset", [&] { o.reset(); });
    }
  }
}
template <class I> void perm(mon::Ctx& c) {
  auto& r = c.rng; const size_t n = r.below(12); std::vector<std::string> v; for (size_t i = 0; i < n; ++i) v.push_back(std::string(20 + i, 'a')); std::vector<I> p; for (size_t i = 0; i < n; ++i) p.push_back((I)i); r.shuffle(p);
  for (int k = r.below(3); k-- > 0;) switch (r.below(4)) { case 0: p.push_back(integer<I>(r)); break; case 1: if (!p.empty()) p.pop_back(); break; default: if (!p.empty()) p[r.below(p.size())] = integer<I>(r); }
  c.seen(mon::hcomb(n, p.empty() ? 0 : (uint64_t)p[0] * 31 + (uint64_t)p.back())); call(c, "permute", [&] { permute(v, p); }); for (auto& s : v) use(c, (double)s.size());
}
void matrices(mon::Ctx& c) {
  auto& r = c.rng; const int m = (int)r.below(6), n = (int)r.below(6); Eigen::MatrixXd R(m, n); for (int i = 0; i < m; ++i) for (int k = 0; k < n; ++k) R(i, k) = real(r);
  for (int q = 0; q < 4; ++q) { const std::ptrdiff_t a = r.coin(0.7) ? r.range(-1, 6) : integer<long>(r), b = r.coin(0.7) ? r.range(-1, 6) : integer<long>(r); c.seen(mon::hcomb((uint64_t)a * 64 + (uint64_t)b, m * 8 + n)); call(c, "dense", [&] { use(c, computeSumLogDiagR(R, a, b)); }); }
}
void times(mon::Ctx& c) {
  auto& r = c.rng; Timestamp t(real(r)); for (int i = 0; i < 12; ++i) { const double x = real(r); c.seen(mon::hd(x)); const Timestamp o(tame(r) * 1e9);
    switch (r.below(8)) { case 0: call(c, "timespec", [&] { const timespec s = t; use(c, (double)s.tv_sec); use(c, (double)s.tv_nsec); }); break; case 1: call(c, "date", [&] { use(c, (double)Timestamp::getDate(x).size()); }); break; case 2: call(c, "text", [&] { text(c, t); }); break; case 3: call(c, "sum", [&] { t += x; use(c, t + o); use(c, t - x); }); break; case 4: call(c, "compare", [&] { use(c, t < o); use(c, t >= x); use(c, t == o); use(c, t != x); }); break; case 5: call(c, "assign", [&] { t = o; Timestamp q(t); use(c, q.getSeconds()); }); break; case 6: call(c, "date", [&] { use(c, (double)Timestamp::getDate().size()); use(c, Timestamp::now()); }); break; default: call(c, "stamp", [&] { t = Timestamp(x); use(c, (double)t); }); } }
}
template <class T, int N> void trans(mon::Ctx& c) {
  typedef Transformation<T, N> X; typedef Eigen::Matrix<double, N + 1, N + 1> M; typedef Eigen::Matrix<T, N, 1> V; auto& r = c.rng; std::vector<std::shared_ptr<X>> t; t.push_back(std::make_shared<X>());
  for (int i = 0; i < 20; ++i) { X& o = *t[r.below(t.size())]; const X& k = o; V p = vec<T, N>(r);
    switch (r.below(9)) { case 0: call(c, "matrix", [&] { M m; for (int q = 0; q < m.size(); ++q) m.data()[q] = tame(r); if (r.coin()) m.setIdentity(); c.seen(mon::hd(m(0, 1))); o.setTransformationMatrix(m); }); break; case 1: call(c, "new", [&] { M m = M::Identity(); m(0, N) = real(r); t.push_back(std::make_shared<X>(m)); }); break; case 2: call(c, "inverse", [&] { t.push_back(std::make_shared<X>(k.getInverse())); }); break; case 3: call(c, "invert", [&] { o.inverse(); }); break; case 4: call(c, "apply", [&] { V d; k.transform(p, d); useM(c, d); k.transform(p, p); useM(c, k(p)); }); break; case 5: call(c, "copy", [&] { t.push_back(std::make_shared<X>(k)); *t[r.below(t.size())] = k; o = o; }); break; case 6: call(c, "get", [&] { useM(c, o.getTransformationMatrix()); }); break; case 7: call(c, "text", [&] { text(c, k); }); break; default: if (t.size() > 1) t.pop_back(); }
    if (t.size() > 6) t.erase(t.begin()); }
}
}
SECTION(grids, 8) { c.cases(1600, [&] { switch (c.rng.below(8)) { case 0: grid<double, int, 1>(c); break; case 1: grid<double, double, 2>(c); break; case 2: grid<int, int, 1>(c); break; case 3: grid<int, double, 3>(c); break; case 4: grid<float, long, 2>(c); break; case 5: grid<double, int, 4>(c); break; case 6: grid<long, int, 2>(c); break; default: grid<size_t, int, 2>(c); } }); }
SECTION(histograms, 8) { c.cases(1600, [&] { switch (c.rng.below(6)) { case 0: hist<double>(c); break; case 1: hist<int>(c); break; case 2: hist<float>(c); break; case 3: hist<size_t>(c); break; case 4: histMv<double, 2>(c); break; default: histMv<int, 3>(c); } }); }
SECTION(small, 8) { c.cases(6000, [&] { switch (c.rng.below(8)) { case 0: perm<size_t>(c); break; case 1: perm<int>(c); break; case 2: perm<long>(c); break; case 3: perm<unsigned>(c); break; case 4: matrices(c); break; case 5: times(c); break; case 6: trans<double, 2>(c); break; default: trans<double, 3>(c); } }); }
