// C14: moments, divergences and distances against their definitions
#include "dist.hpp"
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
using namespace aslam::calibration;
using ref::L;

SECTION(normal1v, 1) {
  c.cases(4000, [&]() {
    const double m1 = c.rng.coin(0.2) ? 0 : c.rng.signedLog(1e-9, 1e9), v1 = c.rng.logu(1e-12, 1e12);
    const double m2 = c.rng.coin(0.2) ? m1 : m1 + c.rng.signedLog(1e-3, 1e3) * std::sqrt(v1), v2 = c.rng.coin(0.2) ? v1 : v1 * c.rng.logu(1e-6, 1e6);
    c.note("normals (%.17g, %.17g) (%.17g, %.17g)", m1, v1, m2, v2);
    NormalDistribution<1> p(m1, v1), q(m2, v2);
    c.seen(mon::hcomb(mon::hd(m1), mon::hd(v2)));
    c.check(p.getMean() == m1 && p.getMedian() == m1 && p.getMode() == m1 && p.getVariance() == v1, "normal-moments", "%g %g %g %g", p.getMean(), p.getMedian(), p.getMode(), p.getVariance());
    const L d = (L)m1 - m2, t1 = std::log((L)v2 / v1), t2 = (L)v1 / v2, t3 = d * d / v2, kl = (t1 + t2 - 1 + t3) / 2;
    const double tol = 1e-14 * (double)(1 + std::fabs(t1) + t2 + t3) * 20;
    c.checkNear(p.KLDivergence(q), (double)kl, 0, tol, "normal-kl", "divergence");
    c.check(p.KLDivergence(q) >= -tol && std::fabs(p.KLDivergence(p)) < 1e-13, "kl-negative", "%g self %g", p.KLDivergence(q), p.KLDivergence(p));
    c.checkNear(p.mahalanobisDistance(m2), (double)(d * d / v1), 1e-14, 0, "normal-distance", "squared distance");
    c.check(p.mahalanobisDistance(m1) == 0, "distance-of-mean", "not zero");
  });
}
template <int M> static void mv(mon::Ctx& c) {
  typedef NormalDistribution<M> D; typedef typename D::RandomVariable V;
  std::vector<double> s1;
  const auto C1 = gen::cov<M>(c, 1e-5, 1e5, &s1);
  auto C2 = C1; V m1, m2;
  if (!c.rng.coin(0.2)) {
    auto R = gen::cov<M>(c, 0.99, 1.01);
    for (int i = 0; i < M; ++i) for (int j = 0; j <= i; ++j) C2(i, j) = C2(j, i) = R(i, j) * s1[i] * s1[j] * 4;
  }
  for (int i = 0; i < M; ++i) { m1(i) = 10 * s1[i] * c.rng.normal(); m2(i) = m1(i) + s1[i] * c.rng.normal() * c.rng.logu(0.1, 100); }
  if (c.rng.coin(0.2)) m2 = m1;
  c.note("normals of dimension %d, first mean %g, sd %g", M, m1(0), s1[0]);
  D p(m1, C1), q(m2, C2);
  c.seen(mon::hcomb(M, mon::hd(C2(0, 0))));
  c.check(p.getMean() == m1 && p.getMode() == m1 && p.getCovariance() == C1, "normal-moments", "mean, mode or covariance");
  ref::Spd S1(M, gen::rowMajor(C1)), S2(M, gen::rowMajor(C2));
  L tr = 0; for (int j = 0; j < M; ++j) { std::vector<L> col; for (int i = 0; i < M; ++i) col.push_back(C1(i, j)); tr += S2.solve(col)[j]; }
  const L quad = S2.quad(gen::diff(m1, m2)), kl = (S2.logdet - S1.logdet + tr - M + quad) / 2;
  const double tol = 1e-10 * (double)(1 + std::fabs(S1.logdet) + std::fabs(S2.logdet) + tr + quad);
  c.checkNear(p.KLDivergence(q), (double)kl, 0, tol, "normal-kl", "divergence");
  c.check(p.KLDivergence(q) >= -tol && std::fabs(p.KLDivergence(p)) < 1e-9, "kl-negative", "%g self %g", p.KLDivergence(q), p.KLDivergence(p));
  c.checkNear(q.mahalanobisDistance(m1), (double)quad, 1e-9, 1e-12, "normal-distance", "squared distance");
  c.check(q.mahalanobisDistance(m2) == 0, "distance-of-mean", "not zero");
}
SECTION(normalMv, 2) {
  c.cases(1200, [&]() { mv<2>(c); }); c.cases(1200, [&]() { mv<3>(c); }); c.cases(600, [&]() { mv<5>(c); });
}
template <class D> static void noMode(mon::Ctx& c, const D& d) {
  c.check(ref::outcome([&]() { (void)d.getMode(); }).find("InvalidOperation") != std::string::npos, "mode-of-uniform", "not refused");
}
template <class X> static void uni(mon::Ctx& c) {
  const bool isInt = std::numeric_limits<X>::is_integer; X a, b;
  const double eps = sizeof(X) < 8 && !isInt ? 3e-7 : 1e-13;
  if (isInt) {
    if (c.rng.coin(0.1)) { a = (X)c.rng.range(1000000000L, 1500000000L); b = a + 1 + (X)c.rng.below(600000000); }
    else { a = (X)c.rng.range(std::numeric_limits<X>::is_signed ? -100 : 0, 100); b = (X)(a + 1 + (X)c.rng.below(c.rng.coin() ? 4 : 300)); }
  } else { a = (X)(c.rng.coin(0.2) ? 0 : c.rng.signedLog(1e-6, 1e6)); b = (X)(a + c.rng.logu(1e-5, 1e7)); if (!(a < b)) return; if (c.rng.coin(0.1) && sizeof(X) == 8) { b = (X)1.7e308; a = (X)1.6e308; } }
  c.note("uniform on [%.17g, %.17g] (%s)", (double)a, (double)b, typeid(X).name());
  UniformDistribution<X> d(a, b);
  c.seen(mon::hcomb(mon::hd(a), mon::hd(b)));
  const L n = (L)b - a + 1, w = (L)b - a, scale = std::fabs((L)a) + std::fabs((L)b);
  c.checkNear(d.getMean(), (double)(((L)a + b) / 2), 0, 1e-15 * (double)scale, "uniform-mean", "mean");
  c.checkNear(d.getMedian(), (double)(((L)a + b) / 2), 0, 1e-15 * (double)scale, "uniform-median", "median");
  if (w < 1e150) c.checkNear(d.getVariance(), (double)(isInt ? (n * n - 1) / 12 : w * w / 12), eps * 4, 0, "uniform-variance", "variance");
  c.check(d.getMinSupport() == a && d.getMaxSupport() == b, "uniform-support", "support");
  c.checkNear(d.getSupportArea(), (double)(isInt ? n : w), eps, 0, "uniform-area", "support area");
  noMode(c, d);
}
template <class X, int M> static void uniM(mon::Ctx& c) {
  const bool isInt = std::numeric_limits<X>::is_integer;
  typedef Eigen::Matrix<X, M, 1> V; V a, b; L area = 1;
  const double eps = sizeof(X) < 8 && !isInt ? 1e-6 : 1e-13;
  c.note("uniform dimension %d:", M);
  for (int i = 0; i < M; ++i) {
    if (isInt) { a(i) = (X)c.rng.range(-30, 30); b(i) = a(i) + 1 + (X)c.rng.below(40); }
    else { a(i) = (X)c.rng.signedLog(1e-3, 1e3); b(i) = (X)(a(i) + c.rng.logu(1e-2, 1e3)); }
    area *= (L)b(i) - (L)a(i) + (isInt ? 1 : 0); c.noteAdd(" [%g,%g]", (double)a(i), (double)b(i));
  }
  UniformDistribution<X, M> d(a, b);
  c.seen(mon::hcomb(M, mon::hd((double)area)));
  const auto mean = d.getMean(), med = d.getMedian(); const auto C = d.getCovariance();
  c.check(C.rows() == M && C.cols() == M, "uniform-covariance-size", "%d x %d", (int)C.rows(), (int)C.cols());
  for (int i = 0; i < M; ++i) {
    const L mid = ((L)a(i) + b(i)) / 2, w = (L)b(i) - a(i), sc = std::fabs((L)a(i)) + std::fabs((L)b(i));
    c.checkNear(mean(i), (double)mid, 0, 1e-15 * (double)sc, "uniform-mean", "mean");
    c.checkNear(med(i), (double)mid, 0, 1e-15 * (double)sc, "uniform-median", "median");
    for (int j = 0; j < M; ++j) c.checkNear(C(i, j), i == j ? (double)(isInt ? ((w + 1) * (w + 1) - 1) / 12 : w * w / 12) : 0.0, eps * 4, 0, "uniform-covariance", i == j ? "variance" : "covariance");
  }
  c.check(d.getMinSupport() == a && d.getMaxSupport() == b, "uniform-support", "support");
  c.checkNear((double)d.getSupportArea(), (double)area, eps * 4, 0, "uniform-area", "support area");
  noMode(c, d);
}
SECTION(uniform, 1) {
  c.cases(800, [&]() { uni<double>(c); }); c.cases(800, [&]() { uni<float>(c); }); c.cases(800, [&]() { uni<int>(c); }); c.cases(400, [&]() { uni<long>(c); });
  c.cases(300, [&]() { uni<size_t>(c); });
  c.cases(800, [&]() { uniM<double, 2>(c); }); c.cases(400, [&]() { uniM<double, 3>(c); }); c.cases(400, [&]() { uniM<float, 2>(c); });
  c.cases(800, [&]() { uniM<int, 2>(c); }); c.cases(400, [&]() { uniM<int, 3>(c); });
}
template <class T> static void gam(mon::Ctx& c, T s1, T s2) {
  const double r1 = c.rng.logu(1e-6, 1e6), r2 = c.rng.coin(0.2) ? r1 : r1 * c.rng.logu(1e-3, 1e3);
  c.note("gammas (%.17g, %.17g) (%.17g, %.17g)", (double)s1, r1, (double)s2, r2);
  GammaDistribution<T> p(s1, r1), q(s2, r2);
  c.seen(mon::hcomb(mon::hd(s1), mon::hd(r2)));
  const L a = s1, b = s2;
  c.checkNear(p.getMean(), (double)(a / r1), 1e-14, 0, "gamma-mean", "mean");
  c.checkNear(p.getVariance(), (double)(a / r1 / r1), 1e-14, 0, "gamma-variance", "variance");
  if (s1 >= 1) c.checkNear(p.getMode(), (double)((a - 1) / r1), 1e-14, 0, "gamma-mode", "mode");
  else c.check(ref::outcome([&]() { (void)p.getMode(); }).find("InvalidOperation") != std::string::npos, "mode-of-gamma", "shape %g not refused", (double)s1);
  const L psi = ref::digamma(a), t1 = (a - b) * psi, t2 = ref::lgam(b) - ref::lgam(a), t3 = b * (std::log((L)r1) - std::log((L)r2)), t4 = a * ((L)r2 - r1) / r1;
  const double tol = 1e-13 * (double)(1 + std::fabs(a * psi) + std::fabs(b * psi) + std::fabs(ref::lgam(a)) + std::fabs(ref::lgam(b)) + b * (std::fabs(std::log((L)r1)) + std::fabs(std::log((L)r2))) + a * (1 + r2 / r1));
  c.checkNear(p.KLDivergence(q), (double)(t1 + t2 + t3 + t4), 0, tol, "gamma-kl", "divergence");
  c.check(p.KLDivergence(q) >= -tol && std::fabs(p.KLDivergence(p)) <= tol, "kl-negative", "%g self %g tol %g", p.KLDivergence(q), p.KLDivergence(p), tol);
}
SECTION(gamma, 1) {
  c.cases(3000, [&]() { const double s = c.rng.coin(0.1) ? 1 : c.rng.logu(1e-3, 1e4); gam<double>(c, s, c.rng.coin(0.2) ? s : s * c.rng.logu(1e-2, 1e2)); });
  c.cases(600, [&]() { gam<size_t>(c, 1 + c.rng.below(50), 1 + c.rng.below(50)); });
}
SECTION(chiSquare, 1) {
  c.cases(1500, [&]() {
    const double k = c.rng.coin(0.4) ? 1 + (double)c.rng.below(100) : c.rng.coin(0.15) ? c.rng.logu(1e5, 1e10) : c.rng.logu(2e-2, 1e5);
    c.note("chi-square degrees %.17g", k);
    ChiSquareDistribution d(1); d.setDegrees(k);
    c.seen(mon::hd(k));
    c.check(d.getDegrees() == k, "degrees", "%g", d.getDegrees());
    c.checkNear(d.getMean(), k, 1e-14, 0, "chi-mean", "mean");
    c.checkNear(d.getVariance(), 2 * k, 1e-14, 0, "chi-variance", "variance");
    if (k >= 2) c.checkNear(d.getMode(), k - 2, 1e-14, 1e-14, "chi-mode", "mode");
    const double med = d.getMedian();
    if (k > 1e5) { c.check(std::fabs(med - (k - 2.0 / 3)) <= 3e-6 * std::sqrt(k) + 1e-15 * k, "chi-median", "median %.17g of %.17g degrees", med, k); return; } // k - 2/3 + 8/(405 k) to here
    L P, Q; ref::gammaPQ((L)k / 2, (L)med / 2, P, Q);
    c.check(med > 0 && med < k && std::fabs((double)P - 0.5) < 1e-6, "chi-median", "median %g has cumulative %.9Lg", med, P);
  });
}
