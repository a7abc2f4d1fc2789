// C30: sine-wave path and landmark initialization of the 2d laser example
#include "monitor.hpp"
#include <aslam/calibration/2dlrf/utils.h>
using namespace aslam::calibration;
typedef Eigen::Matrix<double, 3, 1> V3; typedef Eigen::Matrix<double, 2, 1> V2;
SECTION(path, 4) {
  c.cases(4000, [&] {
    const size_t n = c.rng.coin(0.1) ? c.rng.below(3) : c.rng.coin(0.1) ? c.rng.below(6000) : c.rng.below(300);
    const double A = c.rng.coin(0.1) ? 0.0 : c.rng.signedLog(1e-3, 1e3), f = c.rng.coin(0.1) ? 0.0 : c.rng.signedLog(1e-4, 20);
    static const double tt[] = {0.1, 0.01, 0.05, 0.2, 1, 0.5, 0.3, 0.7, 1e-3}; const double T = c.rng.coin() ? tt[c.rng.below(9)] : c.rng.logu(1e-4, 10);
    std::vector<V3> u; if (c.rng.coin()) u.assign(c.rng.below(20), V3(1, 2, 3)); c.note("steps %zu amplitude %.17g frequency %.17g T %.17g", n, A, f, T);
    genSineWavePath(u, n, A, f, T);
    if (!c.check(u.size() == n, "length", "%zu control inputs", u.size())) return;
    if (n) c.check(u[0] == V3::Zero(), "first", "first input is not zero");
    long double th = 0;
    for (size_t i = 1; i < n; ++i) {
      const long double w = 2 * M_PIl * f, c0 = A * std::cos(w * (i - 1) * T), c1 = A * std::cos(w * i * T), v = w * (std::sqrt(1 + c1 * c1) + std::sqrt(1 + c0 * c0)) / 2, om = (std::atan(c1) - th) / T; th = std::atan(c1);
      const double slack = 1e-13 * (1 + std::fabs((double)w) * i * T * (1 + i * 1e-2)) * (1 + std::fabs(A));
      if (!(c.checkNear(u[i](0), v, 1e-12, std::fabs((double)w) * slack, "speed", "speed") & c.check(u[i](1) == 0, "sideways", "sideways speed %g", u[i](1)) & c.checkNear(u[i](2), om, 1e-12, 2 * slack / T, "turn-rate", "turn rate"))) break;
    }
    c.seen(mon::hcomb(mon::hcomb(n, mon::hd(A)), mon::hcomb(mon::hd(f), mon::hd(T))));
  });
}
SECTION(landmarks, 4) {
  c.cases(6000, [&] {
    const size_t n = 1 + c.rng.below(12), m = c.rng.below(10); const V3 th(c.rng.uni(-2, 2), c.rng.uni(-2, 2), c.rng.uni(-4, 4));
    std::vector<V3> x(n); std::vector<std::vector<double>> r(n, std::vector<double>(m, 0)), b = r; const double p = c.rng.u01();
    for (size_t i = 0; i < n; ++i) { x[i] = V3(c.rng.normal() * 10, c.rng.normal() * 10, c.rng.uni(-7, 7)); for (size_t j = 0; j < m; ++j) { r[i][j] = c.rng.coin(p) ? (c.rng.coin(0.05) ? 1e-12 : c.rng.logu(1e-2, 80)) : c.rng.coin(0.8) ? 0 : -c.rng.u01(); b[i][j] = c.rng.uni(-3.2, 3.2); } }
    if (c.rng.coin(0.2)) x.resize(c.rng.below(n + 1));
    std::vector<V2> l; if (c.rng.coin()) l.assign(c.rng.below(12), V2(7, 8)); c.note("%zu poses, %zu observed, %zu landmarks, chance %.3g", x.size(), n, m, p);
    initLandmarks(l, x, th, r, b);
    if (!c.check(l.size() == m, "count", "%zu landmarks", l.size())) return;
    uint64_t h = n * 100 + m;
    for (size_t j = 0; j < m; ++j) {
      V2 want(0, 0); size_t i = 0; for (; i < x.size(); ++i) if (r[i][j] > 0) break;
      if (i < x.size()) { // sensor pose in the world, then the observation
        const double c0 = std::cos(x[i](2)), s0 = std::sin(x[i](2)), sx = x[i](0) + c0 * th(0) - s0 * th(1), sy = x[i](1) + s0 * th(0) + c0 * th(1), a = x[i](2) + th(2) + b[i][j];
        want = V2(sx + r[i][j] * std::cos(a), sy + r[i][j] * std::sin(a)); h = mon::hcomb(h, i); c.count("landmarks seen"); }
      else c.check(l[j] == want, "unseen", "landmark %zu was never seen but was placed", j);
      c.check((l[j] - want).norm() <= 1e-12 * (1 + want.norm() + x.size()), "position", "landmark %zu at (%.15g %.15g), want (%.15g %.15g)", j, l[j](0), l[j](1), want(0), want(1));
    }
    c.seen(h);
  });
}
