// C12: rigid transformations against an independent pose model.
#include "monitor.hpp"
#include <aslam/calibration/geometry/Transformation.h>
#include <Eigen/Geometry>
using namespace aslam::calibration;
namespace {
double angle(mon::Rng& r) {
  switch (r.below(6)) { case 0: return r.range(-8, 8) * M_PI / 2; case 1: return r.uni(-100, 100); case 2: return r.signedLog(1e-12, 1e-3);
    case 3: return (r.coin() ? 1 : -1) * (M_PI / 2 + r.signedLog(1e-10, 1e-3)); case 4: return 0; default: return r.uni(-M_PI, M_PI); }
}
double len(mon::Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return r.signedLog(1e-9, 1e-2); case 2: return r.signedLog(1e2, 1e7); default: return r.normal() * 10; } }

template <int D> struct Pose { // independent model: x -> R x + t
  Eigen::Matrix<double, D, D> R; Eigen::Matrix<double, D, 1> t;
  Pose() { R.setIdentity(); t.setZero(); }
  Pose inv() const { Pose p; p.R = R.transpose(); p.t = -(p.R * t); return p; }
  Eigen::Matrix<double, D, 1> operator()(const Eigen::Matrix<double, D, 1>& x) const { return R * x + t; }
  Eigen::Matrix<double, D + 1, D + 1> mat() const { Eigen::Matrix<double, D + 1, D + 1> m; m.setIdentity(); m.template topLeftCorner<D, D>() = R; m.template topRightCorner<D, 1>() = t; return m; }
};
template <int D> struct Ops;
template <> struct Ops<2> {
  typedef Transformation<double, 2> T;
  static void params(mon::Rng& r, std::vector<double>& p) { p = {len(r), len(r), angle(r)}; }
  static Pose<2> pose(const std::vector<double>& p) { Pose<2> q; q.R = Eigen::Rotation2Dd(p[2]).toRotationMatrix(); q.t << p[0], p[1]; return q; }
  static T make(const std::vector<double>& p) { return mon::dirty<T>(p[0], p[1], p[2]); }
  static void set(T& t, const std::vector<double>& p) { t.setTransformation(p[0], p[1], p[2]); }
};
template <> struct Ops<3> {
  typedef Transformation<double, 3> T;
  static void params(mon::Rng& r, std::vector<double>& p) { p = {len(r), len(r), len(r), angle(r), angle(r), angle(r)}; }
  static Pose<3> pose(const std::vector<double>& p) { Pose<3> q;
    q.R = (Eigen::AngleAxisd(p[5], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p[4], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(p[3], Eigen::Vector3d::UnitX())).toRotationMatrix();
    q.t << p[0], p[1], p[2]; return q; }
  static T make(const std::vector<double>& p) { return mon::dirty<T>(p[0], p[1], p[2], p[3], p[4], p[5]); }
  static void set(T& t, const std::vector<double>& p) { t.setTransformation(p[0], p[1], p[2], p[3], p[4], p[5]); }
};
template <int D> void agree(mon::Ctx& c, typename Ops<D>::T& t, const Pose<D>& p, double scale, const char* when, bool may = true) {
  if (may && c.rng.coin(0.3)) { c.count("operations in a row without a look"); return; }
  if (c.rng.coin()) { Eigen::Matrix<double, D, 1> x; for (int i = 0; i < D; ++i) x(i) = len(c.rng); c.check((t(x) - p(x)).norm() <= 1e-11 * (1 + scale + x.norm()), (std::string("point-wrong:") + when).c_str(), "asked first: off by %g", (t(x) - p(x)).norm()); }
  const Eigen::Matrix<double, D + 1, D + 1> M = t.getTransformationMatrix();
  const double tol = 1e-11 * (1 + scale);
  c.check((M - p.mat()).cwiseAbs().maxCoeff() <= tol, (std::string("matrix-wrong:") + when).c_str(), "off by %g", (M - p.mat()).cwiseAbs().maxCoeff());
  Eigen::Matrix<double, D, D> R = M.template topLeftCorner<D, D>();
  c.check((R * R.transpose() - Eigen::Matrix<double, D, D>::Identity()).cwiseAbs().maxCoeff() < 1e-10, "rotation-not-orthonormal");
  c.check(std::fabs(R.determinant() - 1) < 1e-10, "rotation-determinant");
  for (int i = 0; i <= D; ++i) c.check(M(D, i) == (i == D ? 1.0 : 0.0), "bottom-row-wrong");
  for (int k = 0; k < 3; ++k) {
    Eigen::Matrix<double, D, 1> x; for (int i = 0; i < D; ++i) x(i) = len(c.rng);
    const double tp = 1e-11 * (1 + scale + x.norm());
    Eigen::Matrix<double, D, 1> y = t(x), z; t.transform(x, z); const auto want = p(x);
    c.check((y - want).norm() <= tp, (std::string("point-wrong:") + when).c_str(), "off by %g", (y - want).norm());
    c.check((z - y).norm() <= tp * 1e-2, "transform-and-call-disagree");
    auto inv = t.getInverse(); 
    c.check((inv(y) - x).norm() <= 4 * tp, (std::string("inverse-does-not-undo:") + when).c_str(), "off by %g", (inv(y) - x).norm());
    c.check((inv.getTransformationMatrix() - p.inv().mat()).cwiseAbs().maxCoeff() <= tol * 4, "inverse-matrix-wrong");
    auto inv2 = inv.getInverse();
    c.check((inv2(x) - want).norm() <= 8 * tp, (std::string("double-inverse-wrong:") + when).c_str(), "off by %g", (inv2(x) - want).norm());
    Eigen::Matrix<double, D, 1> al = x; t.transform(al, al); c.check((al - want).norm() <= tp, "in-place-transform-wrong");
  }
  c.check((t.getTransformationMatrix() - M).cwiseAbs().maxCoeff() == 0, "reading-changes-object");
}
template <int D> void history(mon::Ctx& c) {
  typedef typename Ops<D>::T T; auto& r = c.rng; std::vector<double> q; std::string log;
  Ops<D>::params(r, q); T t = Ops<D>::make(q); Pose<D> p = Ops<D>::pose(q); double scale = p.t.norm();
  auto show = [&](const char* op) { std::ostringstream o; o.precision(17); o << " " << op << "("; for (double d : q) o << d << ","; o << ")"; log += o.str(); c.note("%dd%s", D, log.c_str()); };
  show("make"); agree<D>(c, t, p, scale, "constructed"); uint64_t h = mon::hashStr(log);
  int steps = 1 + (int)r.below(8); int invs = 0;
  for (int k = 0; k < steps; ++k) {
    switch (r.below(8)) {
      case 0: Ops<D>::params(r, q); Ops<D>::set(t, q); p = Ops<D>::pose(q); scale = p.t.norm(); show("set"); agree<D>(c, t, p, scale, "set"); break;
      case 1: Ops<D>::params(r, q); p = Ops<D>::pose(q); scale = p.t.norm(); t.setTransformationMatrix(p.mat()); show("setMatrix"); agree<D>(c, t, p, scale, "matrix-set"); break;
      case 2: Ops<D>::params(r, q); p = Ops<D>::pose(q); scale = p.t.norm(); { T u = mon::dirty<T>(p.mat()); agree<D>(c, u, p, scale, "matrix-constructed"); t = u; } show("fromMatrix"); agree<D>(c, t, p, scale, "assigned"); break;
      case 3: case 4: { const T& u = t.inverse(); c.check(&u == &t, "inverse-returns-other"); p = p.inv(); ++invs; log += " inverse"; c.note("%dd%s", D, log.c_str()); agree<D>(c, t, p, scale, invs > 1 ? "inverted-again" : "inverted"); break; }
      case 5: { t = t.getInverse(); p = p.inv(); log += " getInverse"; c.note("%dd%s", D, log.c_str()); agree<D>(c, t, p, scale, "inverse"); break; }
      case 6: { T u(t), keep(t); u.inverse(); Ops<D>::params(r, q); Ops<D>::set(u, q); log += " copy"; agree<D>(c, t, p, scale, "original-of-copy"); agree<D>(c, keep, p, scale, "copy"); break; }
      default: { T u; u = t; log += " assign"; agree<D>(c, u, p, scale, "assigned"); T i; Pose<D> id; agree<D>(c, i, id, 1, "default"); }
    }
    h = mon::hcomb(h, mon::hashStr(log));
  }
  agree<D>(c, t, p, scale, "in the end", false);
  c.count("operations", steps); c.seen(h); c.sample(c.crumb);
}
}
SECTION(planar, 2) { c.cases(2500, [&] { history<2>(c); }); }
SECTION(spatial, 3) { c.cases(2500, [&] { history<3>(c); }); }
