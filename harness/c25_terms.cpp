// C25, C26: error terms of the examples (one example per build, the classes share names)
#include "monitor.hpp"
#include "ref.hpp"
#include <aslam/backend/expressions.hpp>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <boost/make_shared.hpp>
#ifdef EX_LRF
#include <aslam/calibration/2dlrf/ErrorTermMotion.h>
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
#endif
#ifdef EX_CAR
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#endif
#ifdef EX_TD
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
#endif
using namespace aslam::backend; using namespace aslam::calibration;
namespace {
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
double wrap(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
V rnd(mon::Rng& r, int n, double s = 1) { V v(n); for (int i = 0; i < n; ++i) v(i) = s * r.normal(); return v; }
/// symmetric positive definite, moderately conditioned, of any overall size
M cov(mon::Rng& r, int n) { M q(n, n); for (int i = 0; i < n * n; ++i) q.data()[i] = r.normal(); M c = q * q.transpose() + M::Identity(n, n); if (r.coin(0.3)) c = M(c.diagonal().asDiagonal()); return c * r.logu(1e-6, 1e2); }
double angle(mon::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return r.coin() ? M_PI : -M_PI; case 2: return r.uni(-20, 20); case 3: return (r.coin() ? 1 : -1) * (M_PI + r.normal() * 1e-3); default: return r.uni(-M_PI, M_PI); } }

/// an error term together with what the model says it is
struct Subject {
  boost::shared_ptr<ErrorTerm> term;
  std::vector<DesignVariable*> dvs;              // every variable around, used or not
  std::vector<bool> influences;                  // whether it enters the residual
  std::function<V()> residual;                   // reference residual for the current values
  std::vector<int> angular;                      // rows that are angles
  std::function<double()> ambiguity = [] { return 0.0; }; // last row may differ by this: half a turn either way
  M covariance;                                  // configured now
  std::function<bool()> smooth;                  // is the residual differentiable here
  std::function<void(mon::Rng&, mon::Ctx&)> change; // random setter
  std::function<boost::shared_ptr<ErrorTerm>(bool assign)> copy;
  std::string what;
  std::vector<boost::shared_ptr<void>> keep;
};
V valueOf(const DesignVariable& d) { M m; d.getParameters(m); return Eigen::Map<V>(m.data(), m.size()); }
void move(DesignVariable& d, mon::Rng& r, double s) { const V p = rnd(r, d.minimalDimensions(), s); d.update(p.data(), p.size()); }

void judgeResidual(mon::Ctx& c, Subject& s, ErrorTerm& t, const char* when) {
  const V want = s.residual(); const double chi = t.evaluateError(); const V got = t.vsError();
  if (!c.check(got.size() == want.size(), "residual-size", "%s: %ld want %ld", when, (long)got.size(), (long)want.size())) return;
  for (int i = 0; i < got.size(); ++i) {
    double d = got(i) - want(i); const bool ang = std::count(s.angular.begin(), s.angular.end(), i) > 0;
    if (ang) { d = wrap(d); c.check(std::fabs(got(i)) <= M_PI * (1 + 1e-12), "angle-not-wrapped", "%s %s: row %d is %.17g", s.what.c_str(), when, i, got(i)); }
    if (i == got.size() - 1 && s.ambiguity() > 0 && std::fabs(d) > s.ambiguity() / 2) d = std::fabs(d) - s.ambiguity();
    c.check(std::fabs(d) <= 1e-9 * (1 + std::fabs(want(i))), "residual", "%s %s: row %d is %.17g want %.17g", s.what.c_str(), when, i, got(i), want(i));
  }
  const V u = Eigen::LDLT<M>(s.covariance).solve(got); const double ref = got.dot(u);
  c.check(std::fabs(chi - ref) <= 1e-8 * (ref + 1e-12), "squared-error", "%s %s: %.17g want %.17g", s.what.c_str(), when, chi, ref);
  c.check(std::fabs(t.getSquaredError() - ref) <= 1e-8 * (ref + 1e-12), "squared-error-kept", "%s %s", s.what.c_str(), when);
  c.check((t.vsInvR() * s.covariance - M::Identity(got.size(), got.size())).cwiseAbs().maxCoeff() < 1e-7, "weight", "%s %s: the weight is not the inverse of the covariance", s.what.c_str(), when);
}
void judgeJacobians(mon::Ctx& c, Subject& s, ErrorTerm& t) {
  if (!s.smooth()) { c.count("points without a derivative skipped"); return; }
  std::vector<V> before; for (auto d : s.dvs) before.push_back(valueOf(*d));
  const V e0 = (t.evaluateError(), t.vsError()); JacobianContainer J(t.dimension()); t.evaluateJacobians(J);
  for (size_t i = 0; i < s.dvs.size(); ++i) c.check((valueOf(*s.dvs[i]) - before[i]).cwiseAbs().maxCoeff() < 1e-14, "variable-changed", "%s: variable %zu", s.what.c_str(), i);
  for (size_t i = 0; i < s.dvs.size(); ++i) {
    DesignVariable* d = s.dvs[i]; const int n = d->minimalDimensions();
    if (!d->isActive()) { c.check(!J.isDesignVariableInJacobians(d), "inactive-block", "%s: variable %zu", s.what.c_str(), i); continue; }
    const M got = J.isDesignVariableInJacobians(d) ? J.Jacobian(d) : M(M::Zero(t.dimension(), n)); M num(t.dimension(), n);
    auto at = [&](int k, double h) { V p = V::Zero(n); p(k) = h; d->update(p.data(), n); t.evaluateError(); const V e = t.vsError(); d->revertUpdate(); return e; };
    auto diff = [&](const V& a, const V& b) { V x = a - b; for (int q : s.angular) x(q) = wrap(x(q)); return x; };
    double worst = 0;
    for (int k = 0; k < n; ++k) { const double h = 2e-4; const V d1 = diff(at(k, h), at(k, -h)) / (2 * h), d2 = diff(at(k, h / 2), at(k, -h / 2)) / h; num.col(k) = (4 * d2 - d1) / 3; worst = std::max(worst, (d2 - d1).cwiseAbs().maxCoeff()); }
    // step-halving tells how well the difference quotient is determined
    const double tol = 1e-6 * (1 + num.cwiseAbs().maxCoeff()) + worst; const double err = (got - num).cwiseAbs().maxCoeff();
    if (worst > 1e-3 * (1 + num.cwiseAbs().maxCoeff())) { c.count("derivatives too curved to judge"); continue; }
    c.check(err <= tol, "jacobian", "%s: variable %zu off by %g (largest entry %g)", s.what.c_str(), i, err, num.cwiseAbs().maxCoeff());
    c.check(s.influences[i] || (num.cwiseAbs().maxCoeff() < 1e-9 && got.cwiseAbs().maxCoeff() == 0), "foreign-block", "%s: variable %zu does not enter", s.what.c_str(), i);
    c.count("jacobian blocks compared");
  }
  // the last evaluation was at a displaced point: the derivatives are those of the values held now
  if (s.dvs.size()) { DesignVariable* d = s.dvs[(before.size() * 7 + (size_t)t.dimension()) % s.dvs.size()]; for (DesignVariable* q : s.dvs) if (q->isActive() && s.influences[std::find(s.dvs.begin(), s.dvs.end(), q) - s.dvs.begin()]) { d = q; break; }
    V p = V::Constant(d->minimalDimensions(), 0.3); d->update(p.data(), p.size()); t.evaluateError(); d->revertUpdate(); }
  JacobianContainer J2(t.dimension()); t.evaluateJacobians(J2);
  for (DesignVariable* d : s.dvs) if (d->isActive()) { const bool in = J.isDesignVariableInJacobians(d); if (c.check(in == J2.isDesignVariableInJacobians(d), "jacobian-after-step", "%s: other blocks after a step taken back", s.what.c_str()) && in) { const M a = J.Jacobian(d), b = J2.Jacobian(d); c.check((a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + a.cwiseAbs().maxCoeff()), "jacobian-after-step", "%s: off by %g after a step taken back", s.what.c_str(), (a - b).cwiseAbs().maxCoeff()); } }
  t.evaluateError(); c.check((t.vsError() - e0).cwiseAbs().maxCoeff() <= 1e-12 * (1 + e0.cwiseAbs().maxCoeff()), "residual-after-jacobians", "%s", s.what.c_str());
}
std::vector<DesignVariable*> used(const ErrorTerm& t) { return t.designVariables(); }

template <class T> const T& ro(const T& t) { return t; }
#ifdef EX_LRF
typedef VectorDesignVariable<3> V3; typedef VectorDesignVariable<2> V2;
boost::shared_ptr<Subject> motion(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); s->what = "motion";
  auto pose = [&] { Eigen::Vector3d p(r.normal() * 10, r.normal() * 10, angle(r)); return boost::make_shared<V3>(p); };
  auto a = pose(), b = pose(), o = pose(); double T = r.logu(0.01, 10); Eigen::Vector3d u = rnd(r, 3); s->covariance = cov(r, 3);
  struct P { double T; Eigen::Vector3d u; }; auto p = boost::make_shared<P>(); p->T = T; p->u = u;
  auto t = boost::make_shared<ErrorTermMotion>(a.get(), b.get(), T, u, s->covariance); s->term = t; s->keep = {a, b, o, p};
  s->dvs = {a.get(), b.get(), o.get()}; s->influences = {true, true, false}; V3 *A = a.get(), *B = b.get();
  s->residual = [=] { const auto x = A->getValue(), y = B->getValue(); const double ct = std::cos(x(2)), st = std::sin(x(2)), dx = y(0) - x(0), dy = y(1) - x(1); V e(3); e << p->u(0) - (ct * dx + st * dy) / p->T, p->u(1) - (-st * dx + ct * dy) / p->T, p->u(2) - wrap(y(2) - x(2)) / p->T; return e; };
  s->ambiguity = [=] { const double d = wrap(B->getValue()(2) - A->getValue()(2)); return std::fabs(std::fabs(d) - M_PI) < 1e-9 ? 2 * M_PI / p->T : 0; };
  s->smooth = [=] { const double d = wrap(B->getValue()(2) - A->getValue()(2)); return std::fabs(std::fabs(d) - M_PI) > 1e-2; };
  auto raw = s.get(); s->change = [=](mon::Rng& q, mon::Ctx& c) { auto& e = *t; switch (q.below(4)) { case 0: p->T = q.logu(0.01, 10); e.setTimestep(p->T); c.check(e.getTimestep() == p->T && ro(e).getTimestep() == p->T, "stored"); break; case 1: p->u = rnd(q, 3); e.setInput(p->u); c.check(e.getInput() == p->u && ro(e).getInput() == p->u, "stored"); break; default: raw->covariance = cov(q, 3); e.setCovariance(raw->covariance); c.check(M(e.getCovariance()) == raw->covariance && M(ro(e).getCovariance()) == raw->covariance, "stored"); } };
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermMotion>(*t); auto x = boost::make_shared<ErrorTermMotion>(B, A, 1.0, Eigen::Vector3d::Zero(), Eigen::Matrix3d::Identity()); *x = *t; return x; };
  return s;
}
boost::shared_ptr<Subject> observation(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); s->what = "observation";
  auto x = boost::make_shared<V3>(Eigen::Vector3d(r.normal() * 10, r.normal() * 10, angle(r))), th = boost::make_shared<V3>(Eigen::Vector3d(r.normal(), r.normal(), angle(r))); auto o = boost::make_shared<V2>(Eigen::Vector2d(1, 2));
  // landmark placed all around the sensor, on the axes too
  const double ct = std::cos(x->getValue()(2)), st = std::sin(x->getValue()(2)), dir = r.coin(0.3) ? M_PI / 2 * (double)r.below(4) : r.uni(-M_PI, M_PI), far = r.logu(0.1, 50); const auto xv = x->getValue(), tv = th->getValue();
  auto l = boost::make_shared<V2>(Eigen::Vector2d(xv(0) + tv(0) * ct - tv(1) * st + far * std::cos(dir), xv(1) + tv(0) * st + tv(1) * ct + far * std::sin(dir)));
  struct P { double r, b; }; auto p = boost::make_shared<P>(); p->r = r.uni(0, 50); p->b = angle(r); s->covariance = cov(r, 2);
  auto t = boost::make_shared<ErrorTermObservation>(x.get(), l.get(), th.get(), p->r, p->b, s->covariance); s->term = t; s->keep = {x, th, o, l, p};
  s->dvs = {x.get(), l.get(), th.get(), o.get()}; s->influences = {true, true, true, false}; s->angular = {1}; V3 *X = x.get(), *H = th.get(); V2* L = l.get();
  auto geo = [=](double& aa, double& bb) { const auto a = X->getValue(), h = H->getValue(); const auto m = L->getValue(); const double c0 = std::cos(a(2)), s0 = std::sin(a(2)); aa = m(0) - a(0) - h(0) * c0 + h(1) * s0; bb = m(1) - a(1) - h(0) * s0 - h(1) * c0; };
  s->residual = [=] { double aa, bb; geo(aa, bb); V e(2); e << p->r - std::hypot(aa, bb), wrap(p->b - (std::atan2(bb, aa) - X->getValue()(2) - H->getValue()(2))); return e; };
  s->smooth = [=] { double aa, bb; geo(aa, bb); return std::hypot(aa, bb) > 0.05; };
  auto raw = s.get(); s->change = [=](mon::Rng& q, mon::Ctx& c) { auto& e = *t; switch (q.below(4)) { case 0: p->r = q.uni(0, 50); e.setRange(p->r); c.check(e.getRange() == p->r && ro(e).getRange() == p->r, "stored"); break; case 1: p->b = angle(q); e.setBearing(p->b); c.check(e.getBearing() == p->b && ro(e).getBearing() == p->b, "stored"); break; default: raw->covariance = cov(q, 2); e.setCovariance(raw->covariance); c.check(M(e.getCovariance()) == raw->covariance && M(ro(e).getCovariance()) == raw->covariance, "stored"); } };
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermObservation>(*t); auto y = boost::make_shared<ErrorTermObservation>(H, L, X, 1.0, 1.0, Eigen::Matrix2d::Identity()); *y = *t; return y; };
  return s;
}
boost::shared_ptr<Subject> any(mon::Rng& r) { return r.coin() ? motion(r) : observation(r); }
#else
/// a velocity expression over several variables, forward, backward or sideways
EuclideanExpression velocity(mon::Rng& r, Subject& s) {
  const double f = r.signedLog(0.05, 20); Eigen::Vector3d v(f, r.coin(0.2) ? 0.0 : r.coin(0.2) ? r.normal() * 1e-3 : r.normal() * f, r.normal()); if (r.coin(0.05)) v(0) = 0; if (r.coin(0.03)) v(1) = v(0) = 0;
  auto p = boost::make_shared<EuclideanPoint>(v); s.keep.push_back(p); s.dvs.push_back(p.get()); s.influences.push_back(true);
  if (r.coin(0.4)) return EuclideanExpression(p);
  auto w = boost::make_shared<EuclideanPoint>(Eigen::Vector3d(rnd(r, 3, 0.1))); auto k = boost::make_shared<Scalar>(r.normal()); s.keep.push_back(w); s.keep.push_back(k);
  s.dvs.push_back(w.get()); s.influences.push_back(true); s.dvs.push_back(k.get()); s.influences.push_back(true);
  EuclideanExpression e = EuclideanExpression(p) + EuclideanExpression(w).cross(EuclideanExpression(Eigen::Vector3d(0, 1, 0)) * ScalarExpression(k));
  if (r.coin(0.5)) { auto q = boost::make_shared<RotationQuaternion>(Eigen::Vector4d(Eigen::Vector4d(rnd(r, 4)).normalized())); s.keep.push_back(q); s.dvs.push_back(q.get()); s.influences.push_back(true); e = RotationExpression(q).inverse() * e; }
  return e;
}
boost::shared_ptr<Subject> wheel(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); const auto v = velocity(r, *s); auto k = boost::make_shared<Scalar>(r.coin(0.1) ? 0 : r.signedLog(0.1, 10)), o = boost::make_shared<Scalar>(2); s->keep.push_back(k); s->keep.push_back(o);
  s->dvs.push_back(k.get()); s->influences.push_back(true); s->dvs.push_back(o.get()); s->influences.push_back(false);
  struct P { double m; bool front; }; auto p = boost::make_shared<P>(); p->m = r.normal() * 10; p->front = r.coin(0.6); s->covariance = cov(r, 3); s->keep.push_back(p);
  auto t = !p->front && r.coin() ? boost::make_shared<ErrorTermWheel>(v, ScalarExpression(k), p->m, s->covariance) : boost::make_shared<ErrorTermWheel>(v, ScalarExpression(k), p->m, s->covariance, p->front); s->term = t; auto K = k.get();
  s->residual = [=] { const Eigen::Vector3d x = v.toValue(); V e(3); if (p->front) e << p->m - K->toScalar() * std::copysign(std::hypot(x(0), x(1)), x(0)), 0, -x(2); else e << p->m - K->toScalar() * x(0), -x(1), -x(2); return e; };
  s->smooth = [=] { const Eigen::Vector3d x = v.toValue(); return !p->front || std::fabs(x(0)) > 5e-3; };
  s->what = p->front ? "front wheel" : "rear wheel";
  auto raw = s.get(); s->change = [=](mon::Rng& q, mon::Ctx& c) { auto& e = *t; switch (q.below(4)) { case 0: p->m = q.normal() * 10; e.setMeasurement(p->m); c.check(e.getMeasurement() == p->m && ro(e).getMeasurement() == p->m, "stored"); break; case 1: p->front = q.coin(); if (p->front && q.coin()) e.setFrontEnabled(); else e.setFrontEnabled(p->front); c.check(e.getFrontEnabled() == p->front && ro(e).getFrontEnabled() == p->front, "stored"); raw->what = p->front ? "front wheel" : "rear wheel"; break; default: raw->covariance = cov(q, 3); e.setCovariance(raw->covariance); c.check(M(e.getCovariance()) == raw->covariance && M(ro(e).getCovariance()) == raw->covariance, "stored"); } };
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermWheel>(*t); auto y = boost::make_shared<ErrorTermWheel>(EuclideanExpression(), ScalarExpression(1.0), 0.0, Eigen::Matrix3d::Identity(), !p->front); *y = *t; return y; };
  return s;
}
boost::shared_ptr<Subject> pose(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); s->what = "pose"; const sm::kinematics::EulerAnglesYawPitchRoll ypr;
  auto att = [&] { return Eigen::Vector3d(angle(r), r.coin(0.2) ? (r.coin() ? 1 : -1) * r.uni(1.3, 1.5) : r.uni(-1.3, 1.3), angle(r)); };
  auto q = boost::make_shared<RotationQuaternion>(ypr.parametersToRotationMatrix(att())), q2 = boost::make_shared<RotationQuaternion>(Eigen::Matrix3d(ypr.parametersToRotationMatrix(Eigen::Vector3d(rnd(r, 3, 0.2)))));
  auto p = boost::make_shared<EuclideanPoint>(Eigen::Vector3d(rnd(r, 3, r.logu(0.1, 1e3)))), p2 = boost::make_shared<EuclideanPoint>(Eigen::Vector3d(rnd(r, 3))), o = boost::make_shared<EuclideanPoint>(Eigen::Vector3d(1, 2, 3)); s->keep = {q, q2, p, p2, o};
  TransformationExpression T; s->dvs = {q.get(), p.get(), o.get()}; s->influences = {true, true, false};
  if (r.coin(0.4)) T = TransformationExpression(RotationExpression(q), EuclideanExpression(p));
  else { s->dvs = {q.get(), p.get(), q2.get(), p2.get(), o.get()}; s->influences = {true, true, true, true, false}; T = TransformationExpression(RotationExpression(q) * RotationExpression(q2), EuclideanExpression(p) + RotationExpression(q) * EuclideanExpression(p2)); }
  typedef Eigen::Matrix<double, 6, 1> V6; struct P { V6 m; }; auto par = boost::shared_ptr<P>(new P); s->keep.push_back(par);
  // measured attitude near and far from the predicted one, any turn
  const Eigen::Vector3d now = ypr.rotationMatrixToParameters(T.toTransformationMatrix().topLeftCorner<3, 3>()); par->m.head<3>() = T.toTransformationMatrix().topRightCorner<3, 1>() + rnd(r, 3); for (int i = 0; i < 3; ++i) par->m(3 + i) = r.coin(0.3) ? angle(r) : now(i) + r.normal() * 0.1 + 2 * M_PI * ((double)r.below(3) - 1);
  s->covariance = cov(r, 6); auto t = boost::make_shared<ErrorTermPose>(T, par->m, s->covariance); s->term = t; s->angular = {3, 4, 5};
  s->residual = [=] { const Eigen::Matrix4d X = T.toTransformationMatrix(); const Eigen::Matrix3d R = X.topLeftCorner<3, 3>(); V e = par->m; e.head<3>() -= X.topRightCorner<3, 1>(); e(3) = wrap(e(3) - std::atan2(R(1, 0), R(0, 0))); e(4) = wrap(e(4) + std::asin(std::max(-1.0, std::min(1.0, R(2, 0))))); e(5) = wrap(e(5) - std::atan2(R(2, 1), R(2, 2))); return e; };
  s->smooth = [=] { return std::fabs(T.toTransformationMatrix()(2, 0)) < 0.999; };
  auto raw = s.get(); s->change = [=](mon::Rng& g, mon::Ctx& c) { auto& e = *t; if (g.coin(0.4)) { par->m.head<3>() = rnd(g, 3, 10); for (int i = 3; i < 6; ++i) par->m(i) = angle(g); e.setInput(par->m); c.check(e.getInput() == par->m && ro(e).getInput() == par->m, "stored"); } else { raw->covariance = cov(g, 6); e.setCovariance(raw->covariance); c.check(M(e.getCovariance()) == raw->covariance && M(ro(e).getCovariance()) == raw->covariance, "stored"); } };
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermPose>(*t); auto y = boost::make_shared<ErrorTermPose>(TransformationExpression(RotationExpression(), EuclideanExpression()), V6::Zero(), ErrorTermPose::Covariance::Identity()); *y = *t; return y; };
  return s;
}
#ifdef EX_CAR
boost::shared_ptr<Subject> velocities(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); s->what = "velocities"; const auto a = velocity(r, *s); const auto b = r.coin(0.2) ? a : velocity(r, *s); auto o = boost::make_shared<Scalar>(2); s->keep.push_back(o); s->dvs.push_back(o.get()); s->influences.push_back(false);
  const Eigen::Vector3d m = rnd(r, 3, 5), n = rnd(r, 3); const Eigen::Matrix3d Q = cov(r, 3), W = cov(r, 3); s->covariance = M::Zero(6, 6); s->covariance.topLeftCorner(3, 3) = Q; s->covariance.bottomRightCorner(3, 3) = W;
  auto t = boost::make_shared<ErrorTermVelocities>(a, b, m, n, Q, W); s->term = t; s->residual = [=] { V e(6); e.head<3>() = m - a.toValue(); e.tail<3>() = n - b.toValue(); return e; }; s->smooth = [] { return true; }; s->change = [](mon::Rng&, mon::Ctx&) {};
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermVelocities>(*t); auto y = boost::make_shared<ErrorTermVelocities>(b, a, n, m, Eigen::Matrix3d(Eigen::Matrix3d::Identity()), Eigen::Matrix3d(Eigen::Matrix3d::Identity())); *y = *t; return y; };
  return s;
}
boost::shared_ptr<Subject> steering(mon::Rng& r) {
  auto s = boost::make_shared<Subject>(); s->what = "steering"; const auto v = velocity(r, *s); typedef VectorDesignVariable<4> V4; auto a = boost::make_shared<V4>(V4::Container(rnd(r, 4, r.coin() ? 0.1 : 2))), o = boost::make_shared<V4>(V4::Container(rnd(r, 4))); s->keep.push_back(a); s->keep.push_back(o);
  s->dvs.push_back(a.get()); s->influences.push_back(true); s->dvs.push_back(o.get()); s->influences.push_back(false); struct P { double m, s2; }; auto p = boost::make_shared<P>(); p->m = r.coin(0.1) ? 0 : r.normal() * 3; p->s2 = r.logu(1e-6, 10); s->keep.push_back(p); s->covariance = M::Constant(1, 1, p->s2); s->angular = {0};
  auto t = boost::make_shared<ErrorTermSteering>(v, p->m, p->s2, a.get()); s->term = t; auto A = a.get();
  s->residual = [=] { const auto k = A->getValue(); const Eigen::Vector3d x = v.toValue(); V e(1); e << wrap(k(0) + p->m * (k(1) + p->m * (k(2) + p->m * k(3))) - std::atan2(x(1), x(0))); return e; };
  s->smooth = [=] { const Eigen::Vector3d x = v.toValue(); return std::hypot(x(0), x(1)) > 2e-2; };
  auto raw = s.get(); s->change = [=](mon::Rng& g, mon::Ctx& c) { auto& e = *t; if (g.coin(0.4)) { p->m = g.normal() * 3; e.setMeasurement(p->m); c.check(e.getMeasurement() == p->m && ro(e).getMeasurement() == p->m, "stored"); } else { p->s2 = g.logu(1e-6, 10); raw->covariance = M::Constant(1, 1, p->s2); e.setVariance(p->s2); c.check(e.getVariance() == p->s2 && ro(e).getVariance() == p->s2, "stored"); } };
  s->copy = [=](bool as) -> boost::shared_ptr<ErrorTerm> { if (!as) return boost::make_shared<ErrorTermSteering>(*t); auto y = boost::make_shared<ErrorTermSteering>(EuclideanExpression(Eigen::Vector3d(1, 0, 0)), 0.0, 1.0, A); *y = *t; return y; };
  return s;
}
boost::shared_ptr<Subject> any(mon::Rng& r) { switch (r.below(4)) { case 0: return wheel(r); case 1: return pose(r); case 2: return velocities(r); default: return steering(r); } }
#else
boost::shared_ptr<Subject> any(mon::Rng& r) { return r.coin() ? wheel(r) : pose(r); }
#endif
#endif
void activate(mon::Rng& r, Subject& s, double p) { for (auto d : s.dvs) d->setActive(r.coin(p)); }
uint64_t hashOf(const Subject& s) { uint64_t h = mon::hashStr(s.what); for (auto d : s.dvs) { const V v = valueOf(*d); for (int i = 0; i < v.size(); ++i) h = mon::hcomb(h, mon::hd(v(i))); } return h; }
}
SECTION(jacobian, 4) {
  c.cases(10000, [&] {
    auto& r = c.rng; auto s = any(r); activate(r, *s, r.coin(0.7) ? 1.0 : 0.6); c.note("%s", s->what.c_str());
    for (int k = 0, n = 1 + (int)r.below(3); k < n; ++k) {
      judgeJacobians(c, *s, *s->term); for (auto d : s->dvs) if (r.coin(0.5)) move(*d, r, 0.1); s->change(r, c);
    }
    if (r.coin(0.3)) { auto t = s->copy(r.coin()); judgeJacobians(c, *s, *t); }
    c.count("terms: " + s->what); c.seen(hashOf(*s)); c.sample(s->what);
  });
}
SECTION(residual, 4) {
  c.cases(15000, [&] {
    auto& r = c.rng; auto s = any(r); activate(r, *s, 0.7); c.note("%s", s->what.c_str()); std::string h;
    judgeResidual(c, *s, *s->term, "as constructed");
    for (int k = 0, n = 2 + (int)r.below(6); k < n; ++k) {
      switch (r.below(4)) {
        case 0: for (auto d : s->dvs) if (r.coin(0.5)) move(*d, r, r.coin(0.2) ? 3 : 0.3); h += "m"; break;
        case 1: case 2: s->change(r, c); h += "s"; break;
        default: { // a copy says the same and stays as it is when the original changes
          const bool as = r.coin(); auto t = s->copy(as); judgeResidual(c, *s, *t, as ? "assigned" : "copied"); t->evaluateError(); const V e = t->vsError(); const M w = t->vsInvR(); s->change(r, c); t->evaluateError();
          c.check((t->vsError() - e).cwiseAbs().maxCoeff() == 0 && (t->vsInvR() - w).cwiseAbs().maxCoeff() == 0, "copy-not-independent", "%s", s->what.c_str()); h += "c"; c.check(used(*t) == used(*s->term), "copy-variables", "%s", s->what.c_str()); }
      }
      judgeResidual(c, *s, *s->term, h.c_str());
    }
    // exactly the variables that enter are declared
    for (size_t i = 0; i < s->dvs.size(); ++i) { const auto u = used(*s->term); c.check((std::count(u.begin(), u.end(), s->dvs[i]) == 1) == (bool)s->influences[i], "declared-variables", "%s: variable %zu", s->what.c_str(), i); }
    c.count("terms: " + s->what); c.seen(hashOf(*s)); c.sample(s->what + " " + h);
  });
}
