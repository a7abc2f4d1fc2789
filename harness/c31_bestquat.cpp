// C31: bestQuat picks the representation nearest to the previous quaternion (one build per example, -DHDR, -DWHICH)
#include "monitor.hpp"
#include HDR
using aslam::calibration::bestQuat;
typedef Eigen::Vector4d Q;
namespace {
Q unit(mon::Ctx& c) { Q q; const int m = c.rng.below(5);
  do { for (int i = 0; i < 4; ++i) q(i) = m == 0 && c.rng.coin() ? 0.0 : m == 1 ? (double)c.rng.range(-1, 1) : m == 2 && i < 3 ? 1e-9 * c.rng.normal() : c.rng.normal(); } while (!(q.norm() > 0)); return q / q.norm(); }
/// quaternion at angle a from p on the unit sphere
Q away(mon::Ctx& c, const Q& p, double a) { Q d; do { for (int i = 0; i < 4; ++i) d(i) = c.rng.normal(); d -= d.dot(p) * p; } while (!(d.norm() > 1e-3)); d.normalize(); Q q = std::cos(a) * p + std::sin(a) * d; return q / q.norm(); }
}
SECTION(pairs, 4) {
  c.cases(60000, [&] {
    const Q p = unit(c); const int m = c.rng.below(8);
    Q q = m == 0 ? p : m == 1 ? Q(-p) : m == 2 ? unit(c) : away(c, p, m == 3 ? M_PI / 2 + c.rng.signedLog(1e-17, 1e-3) : m == 4 ? M_PI / 2 : m == 5 ? M_PI * c.rng.u01() : m == 6 ? c.rng.logu(1e-9, 1e-1) : M_PI - c.rng.logu(1e-9, 1e-1));
    if (c.rng.coin(0.1)) for (int i = 0; i < 4; ++i) q(i) += (c.rng.coin() ? 1 : -1) * 2e-16;
    c.note("p=(%.17g %.17g %.17g %.17g) q=(%.17g %.17g %.17g %.17g)", p(0), p(1), p(2), p(3), q(0), q(1), q(2), q(3));
    const Q p0 = p, q0 = q; const Q r = bestQuat(p, q);
    c.check(p == p0 && q == q0, "argument", "an argument changed");
    c.check(r == q || r == Q(-q), "same-rotation", "result (%.17g %.17g %.17g %.17g) is neither the current quaternion nor its negative", r(0), r(1), r(2), r(3));
    const double d = p.dot(r); c.check(d >= -4e-15, "nearest", "the other one is nearer: dot %.3g", d);
    c.check((p - r).norm() <= (p + r).norm() + 4e-15, "nearest", "distance %.17g against %.17g", (p - r).norm(), (p + r).norm());
    const double e = p.dot(q); if (e > 4e-15) c.check(r == q, "keeps", "flipped although nearer"); if (e < -4e-15) c.check(r == Q(-q), "flips", "kept although the negative is nearer");
    const Q s = bestQuat(p, Q(-q)); if (std::fabs(e) > 4e-15) c.check(s == r, "sign-invariant", "answer depends on the sign of the current quaternion");
    c.check(bestQuat(r, r) == r, "fixpoint", "a quaternion is nearest to itself");
    c.seen(mon::hcomb(mon::hcomb(mon::hd(p(0)), mon::hd(q(1))), mon::hd(q(2)))); c.count(e > 0 ? "same side" : "opposite side");
  });
}
SECTION(sequences, 2) {
  c.cases(600, [&] {
    Q prev = unit(c), last = prev; const int n = 5 + c.rng.below(60); const double big = c.rng.coin(0.3) ? M_PI : c.rng.logu(1e-6, 0.5);
    for (int i = 0; i < n; ++i) { const double half = 0.5 * big * c.rng.u01(); Q q = away(c, prev, half); prev = q; if (c.rng.coin()) q = -q;
      c.note("step %d of %d, half angle %.17g", i, n, half); const Q r = bestQuat(last, q); const double jump = (r - last).norm();
      c.check(jump <= 2 * std::sin(half / 2) + 1e-12, "jump", "jump %.17g for a rotation of %.17g", jump, 2 * half); c.check(r == q || r == Q(-q), "same-rotation", "in a sequence"); last = r; }
    c.seen(mon::hcomb(mon::hd(last(0)), n));
  });
}
