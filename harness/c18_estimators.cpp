// C18: maximum-likelihood estimators of the normal distribution against a two-pass model
#include "dist.hpp"
#include <memory>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
using namespace aslam::calibration;
using ref::L;
namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
template <int M> struct T {
  typedef NormalDistribution<M> D; typedef EstimatorML<D> E; typedef typename E::Point P; typedef typename E::Container V;
  static P mk() { return P(P::Zero()); }
  static double& at(P& p, int i) { return p(i); }
  static double at(const P& p, int i) { return p(i); }
  static double mean(const D& d, int i) { return d.getMean()(i); }
  static double cov(const D& d, int i, int j) { return d.getCovariance()(i, j); }
};
template <> struct T<1> {
  typedef NormalDistribution<1> D; typedef EstimatorML<D> E; typedef E::Point P; typedef E::Container V;
  static P mk() { return 0; }
  static double& at(P& p, int) { return p; }
  static double at(const P& p, int) { return p; }
  static double mean(const D& d, int) { return d.getMean(); }
  static double cov(const D& d, int, int) { return d.getVariance(); }
};
/// what the estimator has seen since its last reset
template <int M> struct Model {
  typename T<M>::V pts;              // unweighted points
  typename T<M>::V wpts; std::vector<double> w; // the weighted batch, when it was the last call
  bool weighted = false;
};
template <int M> struct Ref { std::vector<L> m, c; bool finite, proper, degenerate; L spread; };
template <int M> Ref<M> estimate(const typename T<M>::V& p, const std::vector<double>* w) {
  Ref<M> r; r.m.assign(M, 0); r.c.assign(M * M, 0); L W = 0; r.finite = true;
  for (size_t k = 0; k < p.size(); ++k) { const L q = w ? (*w)[k] : 1; W += q; for (int i = 0; i < M; ++i) { r.m[i] += q * T<M>::at(p[k], i); if (!std::isfinite(T<M>::at(p[k], i))) r.finite = false; } if (!std::isfinite((double)q)) r.finite = false; }
  for (int i = 0; i < M; ++i) r.m[i] /= W;
  for (size_t k = 0; k < p.size(); ++k) { const L q = w ? (*w)[k] : 1; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) r.c[i * M + j] += q * (T<M>::at(p[k], i) - r.m[i]) * (T<M>::at(p[k], j) - r.m[j]); }
  for (auto& x : r.c) x /= W;
  if (p.empty() || !(W > 0)) r.finite = false;
  r.proper = false; r.degenerate = !r.finite;
  if (r.finite) {
    ref::Spd S(M, r.c); L mx = 0, big = 0; for (int i = 0; i < M; ++i) { mx = std::max(mx, r.c[i * M + i]); big = std::max(big, std::fabs(r.m[i])); }
    if (S.ok) { // proper with margin: every conditional deviation clear of rounding at this offset
      r.proper = true; for (int i = 0; i < M; ++i) { const L l = S.l[i * M + i]; if (l * l < 1e-9L * r.c[i * M + i] || l < 1e-11L * big) r.proper = false; } }
    r.spread = std::sqrt(mx);
  }
  return r;
}
template <int M> void observe(mon::Ctx& c, const typename T<M>::E& e, const Model<M>& m, bool exactSmall) {
  if (c.rng.coin()) e.getValid();
  c.check(e.getNumPoints() == m.pts.size(), "number-of-points", "%zu, want %zu", e.getNumPoints(), m.pts.size());
  const auto& D = e.getDistribution();
  const typename T<M>::V& p = m.weighted ? m.wpts : m.pts;
  Ref<M> r = estimate<M>(p, m.weighted ? &m.w : 0);
  if (e.getValid()) {
    bool ok = true; for (int i = 0; i < M; ++i) { ok = ok && std::isfinite(T<M>::mean(D, i)) && T<M>::cov(D, i, i) > 0; for (int j = 0; j < M; ++j) ok = ok && std::isfinite(T<M>::cov(D, i, j)); }
    c.check(ok, "valid-but-improper", "flagged valid with mean %g variance %g", T<M>::mean(D, 0), T<M>::cov(D, 0, 0));
    if (c.check(r.finite, "valid-of-nothing", "flagged valid for empty, zero-weight or not finite input")) {
      L scale = 0; for (int i = 0; i < M; ++i) scale = std::max(scale, std::fabs(r.m[i]));
      L n = p.size();
      for (int i = 0; i < M; ++i) {
        const L sd = std::sqrt(r.c[i * M + i]);
        c.check(std::fabs(T<M>::mean(D, i) - r.m[i]) <= 1e-13L * (n + 10) * (std::fabs(r.m[i]) + sd), "mean", "component %d: %.17g want %.17g (%zu points)", i, T<M>::mean(D, i), (double)r.m[i], p.size());
        for (int j = 0; j < M; ++j) { const L sj = std::sqrt(r.c[j * M + j]), eps = 1e-14L * (n + 10);
          const L tol = 1e-11L * sd * sj + eps * (std::fabs(r.m[i]) * sj + std::fabs(r.m[j]) * sd) + eps * eps * std::fabs(r.m[i] * r.m[j]) * 10;
          c.check(std::fabs(T<M>::cov(D, i, j) - r.c[i * M + j]) <= tol, "covariance", "(%d,%d): %.17g want %.17g (%zu points, %s)", i, j, T<M>::cov(D, i, j), (double)r.c[i * M + j], p.size(), m.weighted ? "weighted" : "plain"); }
      }
    }
    if (exactSmall && p.size() && !m.weighted) { bool same = true; for (auto& q : p) for (int i = 0; i < M; ++i) same = same && T<M>::at(q, i) == T<M>::at(p[0], i); c.check(!same, "valid-of-one-point", "flagged valid although all %zu points are the same", p.size()); }
  } else c.check(!r.proper, "not-valid-though-proper", "%zu points define a proper distribution (variance %g)", p.size(), (double)(r.c.empty() ? 0 : r.c[0]));
}
template <int M> void history(mon::Ctx& c) {
  typedef typename T<M>::E E; typedef typename T<M>::P P; typedef typename T<M>::V V;
  const int style = c.rng.below(6); // small integers, ordinary, far offset, tiny spread, mixed scales, dirty
  double off = 0, sc = 1; switch (style) { case 1: sc = c.rng.logu(1e-3, 1e3); off = c.rng.signedLog(1e-3, 1e3); break; case 2: off = c.rng.signedLog(1e5, 1e9); sc = c.rng.logu(1, 1e3); break; case 3: off = c.rng.uni(-1, 1); sc = 1e-6; break; case 4: sc = 50; break; case 5: sc = 3; }
  std::vector<double> ax(M, 1); if (style == 4) for (auto& x : ax) x = c.rng.logu(1e-3, 1e3);
  const bool same = style == 0 && c.rng.coin(0.3); P fixed = T<M>::mk(); for (int i = 0; i < M; ++i) T<M>::at(fixed, i) = c.rng.range(-9, 9);
  auto pt = [&] { P p = T<M>::mk(); for (int i = 0; i < M; ++i) T<M>::at(p, i) = style == 0 ? (double)c.rng.range(-3, 3) : off + sc * ax[i] * c.rng.normal(); if (style == 5 && c.rng.coin(0.03)) T<M>::at(p, c.rng.below(M)) = c.rng.coin() ? NaN : c.rng.coin() ? Inf : -Inf; return same ? fixed : p; };
  auto many = [&](int n) { V v; for (int i = 0; i < n; ++i) v.push_back(pt()); return v; };
  std::unique_ptr<E> e[2] = {std::unique_ptr<E>(new E), std::unique_ptr<E>(new E)}; Model<M> m[2]; uint64_t h = style;
  c.note("M=%d style %d off %g sc %g:", M, style, off, sc);
  observe<M>(c, *e[0], m[0], style == 0);
  for (int step = 3 + c.rng.below(10); step-- > 0;) {
    const int k = c.rng.below(2), op = c.rng.below(9); h = mon::hcomb(h, op * 2 + k);
    switch (op) {
      case 0: { int n = 1 + c.rng.below(5); c.noteAdd(" pt%dx%d", k, n); while (n--) { P p = pt(); e[k]->addPoint(p); m[k].pts.push_back(p); m[k].weighted = false; observe<M>(c, *e[k], m[k], style == 0); } break; }
      case 1: { V v = many(c.rng.below(8)); c.noteAdd(" all%d:%zu", k, v.size()); e[k]->addPoints(v); m[k].pts.insert(m[k].pts.end(), v.begin(), v.end()); if (!v.empty()) m[k].weighted = false; break; }
      case 2: { V v = many(c.rng.below(40)); const size_t a = c.rng.below(v.size() + 1), b = a + c.rng.below(v.size() - a + 1); c.noteAdd(" range%d:%zu", k, b - a); e[k]->addPoints(v.begin() + a, v.begin() + b); m[k].pts.insert(m[k].pts.end(), v.begin() + a, v.begin() + b); if (b > a) m[k].weighted = false; break; }
      case 3: case 4: {
        V v = many(c.rng.below(25)); std::vector<double> w; for (size_t i = 0; i < v.size(); ++i) w.push_back(c.rng.coin(0.2) ? 0 : c.rng.coin(0.2) ? 1 : c.rng.u01());
        const int bad = c.rng.below(12); if (bad == 0) w.assign(v.size(), 0.0); if (bad == 1 && !w.empty()) w[0] = NaN; if (bad == 2 && !w.empty()) w[0] = Inf; if (bad == 3) { double g = c.rng.logu(1e-6, 1e6); for (auto& x : w) x *= g; }
        Eigen::VectorXd R(w.size()); for (size_t i = 0; i < w.size(); ++i) R(i) = w[i];
        c.noteAdd(" w%d:%zu/%d", k, v.size(), bad);
        if (bad == 4) { Eigen::VectorXd wrong = Eigen::VectorXd::Ones(v.size() + 1); const bool val = e[k]->getValid(); try { e[k]->addPoints(v.begin(), v.end(), wrong); } catch (const std::exception&) {} c.check(e[k]->getValid() == val, "ill-sized-weights", "weights of another length changed the estimate"); break; }
        e[k]->addPoints(v.begin(), v.end(), R); m[k].wpts = v; m[k].w = w; m[k].weighted = true; break; }
      case 5: e[k]->reset(); c.noteAdd(" reset%d", k); m[k] = Model<M>(); break;
      case 6: e[k].reset(new E(*e[1 - k])); m[k] = m[1 - k]; c.noteAdd(" copy%d", k); break;
      case 7: *e[k] = *e[1 - k]; m[k] = m[1 - k]; c.noteAdd(" assign%d", k); break;
      default: { V v = many(3 * M + 5); c.noteAdd(" all%d:%zu", k, v.size()); e[k]->addPoints(v); m[k].pts.insert(m[k].pts.end(), v.begin(), v.end()); m[k].weighted = false; }
    }
    for (int q = 0; q < 2; ++q) if (step == 0 || c.rng.coin(0.7)) observe<M>(c, *e[q], m[q], style == 0);
  }
  c.seen(h); c.count("points", m[0].pts.size() + m[1].pts.size());
  { // order and feeding do not matter
    V v = many(2 * M + 3 + c.rng.below(20)), u = v; c.rng.shuffle(u); E a, b, d; a.addPoints(v); b.addPoints(u.begin(), u.begin() + u.size() / 2); for (size_t i = u.size() / 2; i < u.size(); ++i) b.addPoint(u[i]);
    Eigen::VectorXd one = Eigen::VectorXd::Constant(v.size(), 0.25); d.addPoints(v.begin(), v.end(), one); Model<M> x; x.pts = v; observe<M>(c, a, x, style == 0); x.pts = u; observe<M>(c, b, x, style == 0); x.pts.clear(); x.wpts = v; x.w.assign(v.size(), 0.25); x.weighted = true; observe<M>(c, d, x, false);
  }
}
} // namespace
SECTION(histories_1, 2) { c.cases(4000, [&] { history<1>(c); }); }
SECTION(histories_2, 2) { c.cases(2500, [&] { history<2>(c); }); }
SECTION(histories_3, 2) { c.cases(2000, [&] { history<3>(c); }); }
SECTION(histories_5, 2) { c.cases(800, [&] { history<5>(c); }); }
SECTION(long_streams, 1) {
  c.cases(4, [&] { const double off = c.rng.signedLog(1, 1e6); c.note("long stream at %g", off); EstimatorML<NormalDistribution<1>> e; Model<1> m; for (int i = 0; i < 60000; ++i) { double x = off + c.rng.normal(); e.addPoint(x); m.pts.push_back(x); } observe<1>(c, e, m, false); c.seen(mon::hd(off)); });
}
