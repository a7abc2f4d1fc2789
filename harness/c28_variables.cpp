// C28: calibration variables, options and simulation parameters of the examples (one example per build)
#include "monitor.hpp"
#include <array>
#include <cstring>
#include <new>
#include <type_traits>
#include <aslam/backend/expressions.hpp>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#ifdef EX_CAR
#include <aslam/calibration/car/algo/CarCalibratorOptions.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#endif
#ifdef EX_TD
#include <aslam/calibration/time-delay/algo/CalibratorOptions.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#endif
#ifdef EX_EGO
#include <aslam/calibration/egomotion/algo/CalibratorOptions.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#endif
using namespace aslam::backend; using namespace aslam::calibration; typedef sm::PropertyTree PT; typedef Eigen::VectorXd V;
namespace {
V vec(std::initializer_list<double> l) { V v(l.size()); int i = 0; for (double x : l) v(i++) = x; return v; }
V valueOf(const DesignVariable& d) { Eigen::MatrixXd m; d.getParameters(m); return Eigen::Map<V>(m.data(), m.size()); }
double number(mon::Rng& r) { return r.coin(0.1) ? (double)r.below(5) : r.coin(0.05) ? 0.0 : r.signedLog(1e-4, 1e4); }
int delayNs(mon::Rng& r) { return r.coin(0.1) ? 0 : (int)(r.coin(0.1) ? r.uni(-2e9, 2e9) : r.uni(-1e8, 1e8)); }
/// a variable, what its group of entries should be, and how it is printed
struct Slot { std::string name; boost::shared_ptr<DesignVariable> dv; int at, n; std::function<V()> report; bool active; };
V ypr(const RotationQuaternion& q) { return sm::kinematics::EulerAnglesYawPitchRoll().rotationMatrixToParameters(q.toRotationMatrix()); }
/// entries that are angles are compared modulo a turn by comparing rotations
Eigen::Matrix3d rot(const V& a) { return sm::kinematics::EulerAnglesYawPitchRoll().parametersToRotationMatrix(Eigen::Vector3d(a)); }
bool same(const Slot& s, const V& got, const V& want, double tol) {
  if (dynamic_cast<RotationQuaternion*>(s.dv.get())) return (rot(got) - rot(want)).norm() <= 1e-9 + tol * 10;
  for (int i = 0; i < got.size(); ++i) if (!(std::fabs(got(i) - want(i)) <= tol * std::fabs(want(i)) + 1e-15)) return false;
  return true; }
Slot slot(const std::string& n, const boost::shared_ptr<Scalar>& d, int at, bool act) { return {n, d, at, 1, [d] { return vec({d->toScalar()}); }, act}; }
Slot slot(const std::string& n, const boost::shared_ptr<EuclideanPoint>& d, int at, bool act) { return {n, d, at, 3, [d]() -> V { return d->toEuclidean(); }, act}; }
Slot slot(const std::string& n, const boost::shared_ptr<RotationQuaternion>& d, int at, bool act) { return {n, d, at, 3, [d]() -> V { return ypr(*d); }, act}; }
Slot slot(const std::string& n, const boost::shared_ptr<VectorDesignVariable<4>>& d, int at, bool act) { return {n, d, at, 4, [d]() -> V { return d->getValue(); }, act}; }
template <class T> Slot slot(const std::string& n, const boost::shared_ptr<GenericScalar<T>>& d, int at, bool act) { return {n, d, at, 1, [d] { return vec({(double)d->toScalar().getNumerator() * 1e-9}); }, act}; }
void wiggle(mon::Rng& r, DesignVariable& d) { V p(d.minimalDimensions()); for (int i = 0; i < p.size(); ++i) p(i) = r.normal() * (d.minimalDimensions() == 1 && !dynamic_cast<Scalar*>(&d) ? 1e-2 : 1); d.update(p.data(), p.size()); }
/// name: numbers, per line
std::map<std::string, std::vector<double>> parsed(const std::string& text) {
  std::map<std::string, std::vector<double>> m; std::istringstream in(text); std::string tok, key;
  while (in >> tok) { if (tok.back() == ':') { key = tok.substr(0, tok.size() - 1); m[key]; } else m[key].push_back(std::strtod(tok.c_str(), 0)); }
  return m; }
template <class S> void judgePrint(mon::Ctx& c, const S& s, const std::vector<Slot>& slots) {
  std::ostringstream o; o << s; const auto m = parsed(o.str()); c.check(m.size() == slots.size(), "printed", "%zu names printed for %zu variables", m.size(), slots.size());
  for (auto& t : slots) { auto it = m.find(t.name); if (!c.check(it != m.end() && (int)it->second.size() == t.n, "printed", "%s missing or of the wrong size", t.name.c_str())) continue;
    const V got = Eigen::Map<const V>(it->second.data(), t.n); c.check(same(t, got, t.report(), 1e-4), "printed", "%s printed with another value", t.name.c_str()); }
}
/// what a batch holds
template <class S> void judgeBatch(mon::Ctx& c, S& s, const std::vector<Slot>& slots) {
  auto b = boost::make_shared<OptimizationProblem>(); const size_t g = c.rng.below(5); std::vector<boost::shared_ptr<Scalar>> others;
  for (size_t i = 0; i < 2; ++i) if (c.rng.coin()) { others.push_back(boost::make_shared<Scalar>(1.0)); b->addDesignVariable(others.back(), c.rng.below(5)); }
  const size_t before = b->numDesignVariables(); s.addToBatch(b, g); c.check(b->numDesignVariables() == before + slots.size(), "batch-count", "%zu added for %zu variables", b->numDesignVariables() - before, slots.size());
  std::map<const DesignVariable*, int> seen; for (size_t i = 0; i < b->numDesignVariables(); ++i) ++seen[b->designVariable(i)];
  for (auto& t : slots) { c.check(seen[t.dv.get()] == 1, "batch-count", "%s in the batch %d times", t.name.c_str(), seen[t.dv.get()]); c.check(b->isDesignVariableInProblem(t.dv.get()) && b->getGroupId(t.dv.get()) == g, "batch-group", "%s", t.name.c_str()); c.check(t.dv->isActive() == t.active, "active", "%s", t.name.c_str()); }
}
/// an option: its key, how it is written, how it is read back
template <class O> struct Opt { const char* key; char kind; std::function<double(const O&)> get; };
double draw(mon::Rng& r, char k) { switch (k) { case 'b': return r.coin(); case 'i': return (double)r.below(2000000000); case 'u': return (double)r.below(65536); default: return number(r); } }
void put(PT& t, const std::string& key, char k, double v) { if (k == 'b') t.setBool(key, v != 0); else if (k == 'i' || k == 'u') t.setInt(key, (int)v); else t.setDouble(key, v); }
template <class O> void* scratch() { static thread_local typename std::aligned_storage<sizeof(O), alignof(O)>::type s; return &s; }
template <class O> void judgeOptions(mon::Ctx& c, const std::vector<Opt<O>>& opts) {
  PT t; std::vector<double> want; for (auto& o : opts) { want.push_back(draw(c.rng, o.kind)); put(t, o.key, o.kind, want.back()); }
  const O all(t); for (size_t i = 0; i < opts.size(); ++i) c.check(opts[i].get(all) == want[i], "option", "%s is %g want %g", opts[i].key, opts[i].get(all), want[i]);
  // change one key
  const size_t k = c.rng.below(opts.size()); double v; do v = draw(c.rng, opts[k].kind); while (v == want[k]); PT u = t.deepCopy(); put(u, opts[k].key, opts[k].kind, v); c.note("%s", opts[k].key);
  const O one(u); for (size_t i = 0; i < opts.size(); ++i) c.check(opts[i].get(one) == (i == k ? v : want[i]), "option", "%s after changing %s", opts[i].key, opts[k].key);
  // leave keys out: the default, or no options at all
  PT w = t.deepCopy(); std::vector<bool> gone(opts.size()); for (int n = 1 + (int)c.rng.below(3); n--;) { const size_t q = c.rng.coin(0.5) ? k : c.rng.below(opts.size()); gone[q] = true; w.erase(opts[q].key); }
  try { memset(scratch<O>(), c.rng.coin() ? 0xa5 : 0x5a, sizeof(O)); O* p = new (scratch<O>()) O(w); const O d; for (size_t i = 0; i < opts.size(); ++i) c.check(opts[i].get(*p) == (gone[i] ? opts[i].get(d) : want[i]), "default", "%s is %g", opts[i].key, opts[i].get(*p)); p->~O(); c.count("defaults kept"); }
  catch (const sm::KeyNotFoundException&) { c.count("incomplete configurations refused"); }
  c.seen(mon::hcomb(mon::hashStr(opts[k].key), mon::hd(v))); c.count("options compared", opts.size());
}
}
#define OPT(O, key, kind, member) Opt<O>{key, kind, [](const O& o) { return (double)o.member; }}
#ifdef EX_CAR
typedef CarCalibratorOptions Options;
SECTION(options, 2) {
  const std::vector<Opt<Options>> o = {OPT(Options, "windowDuration", 'd', windowDuration), OPT(Options, "verbose", 'b', verbose), OPT(Options, "usePose", 'b', usePose), OPT(Options, "useVelocities", 'b', useVelocities), OPT(Options, "odometry/timeDelays/delayBound", 'i', delayBound),
    OPT(Options, "splines/transSplineLambda", 'd', transSplineLambda), OPT(Options, "splines/rotSplineLambda", 'd', rotSplineLambda), OPT(Options, "splines/splineKnotsPerSecond", 'i', splineKnotsPerSecond), OPT(Options, "splines/transSplineOrder", 'i', transSplineOrder), OPT(Options, "splines/rotSplineOrder", 'i', rotSplineOrder),
    OPT(Options, "odometry/sensors/linearVelocityTolerance", 'd', linearVelocityTolerance), OPT(Options, "odometry/sensors/dmi/noise/dmiPercentError", 'd', dmiPercentError), OPT(Options, "odometry/sensors/dmi/noise/dmiVariance", 'd', dmiVariance),
    OPT(Options, "odometry/sensors/fws/noise/flwPercentError", 'd', flwPercentError), OPT(Options, "odometry/sensors/fws/noise/flwVariance", 'd', flwVariance), OPT(Options, "odometry/sensors/fws/noise/frwPercentError", 'd', frwPercentError), OPT(Options, "odometry/sensors/fws/noise/frwVariance", 'd', frwVariance),
    OPT(Options, "odometry/sensors/rws/noise/rlwPercentError", 'd', rlwPercentError), OPT(Options, "odometry/sensors/rws/noise/rlwVariance", 'd', rlwVariance), OPT(Options, "odometry/sensors/rws/noise/rrwPercentError", 'd', rrwPercentError), OPT(Options, "odometry/sensors/rws/noise/rrwVariance", 'd', rrwVariance),
    OPT(Options, "odometry/sensors/st/noise/steeringVariance", 'd', steeringVariance), OPT(Options, "odometry/constraints/noise/vyVariance", 'd', vyVariance), OPT(Options, "odometry/constraints/noise/vzVariance", 'd', vzVariance), OPT(Options, "odometry/sensors/wheelSpeedSensorCutoff", 'u', wheelSpeedSensorCutoff)};
  c.cases(4000, [&] { judgeOptions(c, o); });
}
SECTION(variables, 2) {
  c.cases(4000, [&] {
    auto& r = c.rng; PT t; std::map<std::string, double> in; auto d = [&](const char* k) { t.setDouble(k, in[k] = number(r)); }; auto i = [&](const char* k) { const int v = delayNs(r); in[k] = v; t.setInt(k, v); };
    for (const char* k : {"intrinsics/halfRearTrack", "intrinsics/halfFrontTrack", "intrinsics/wheelBase", "intrinsics/steeringCoefficient0", "intrinsics/steeringCoefficient1", "intrinsics/steeringCoefficient2", "intrinsics/steeringCoefficient3", "intrinsics/rlwCoefficient", "intrinsics/rrwCoefficient", "intrinsics/flwCoefficient", "intrinsics/frwCoefficient", "intrinsics/dmiCoefficient", "extrinsics/translation/x", "extrinsics/translation/y", "extrinsics/translation/z", "extrinsics/rotation/yaw", "extrinsics/rotation/pitch", "extrinsics/rotation/roll"}) d(k);
    t.setDouble("extrinsics/rotation/yaw", in["extrinsics/rotation/yaw"] = r.uni(-3, 3)); t.setDouble("extrinsics/rotation/pitch", in["extrinsics/rotation/pitch"] = r.uni(-1.5, 1.5)); t.setDouble("extrinsics/rotation/roll", in["extrinsics/rotation/roll"] = r.uni(-3, 3));
    for (const char* k : {"timeDelays/rearWheels", "timeDelays/frontWheels", "timeDelays/steering", "timeDelays/dmi"}) i(k);
    const bool act = r.coin(); t.setBool("timeDelays/active", act); OdometryDesignVariables v(t);
    std::vector<Slot> s = {slot("e_r", v.e_r, 0, true), slot("e_f", v.e_f, 1, true), slot("L", v.L, 2, true), slot("k_rl", v.k_rl, 3, true), slot("k_rr", v.k_rr, 4, true), slot("k_fl", v.k_fl, 5, true), slot("k_fr", v.k_fr, 6, true), slot("k_dmi", v.k_dmi, 7, true), slot("a", v.a, 8, true), slot("v_r_vr", v.v_r_vr, 12, false), slot("v_R_r", v.v_R_r, 15, false), slot("t_r", v.t_r, 18, act), slot("t_f", v.t_f, 19, act), slot("t_s", v.t_s, 20, act), slot("t_dmi", v.t_dmi, 21, act)};
    V want(22); want << in["intrinsics/halfRearTrack"], in["intrinsics/halfFrontTrack"], in["intrinsics/wheelBase"], in["intrinsics/rlwCoefficient"], in["intrinsics/rrwCoefficient"], in["intrinsics/flwCoefficient"], in["intrinsics/frwCoefficient"], in["intrinsics/dmiCoefficient"], in["intrinsics/steeringCoefficient0"], in["intrinsics/steeringCoefficient1"], in["intrinsics/steeringCoefficient2"], in["intrinsics/steeringCoefficient3"], in["extrinsics/translation/x"], in["extrinsics/translation/y"], in["extrinsics/translation/z"], in["extrinsics/rotation/yaw"], in["extrinsics/rotation/pitch"], in["extrinsics/rotation/roll"], in["timeDelays/rearWheels"] * 1e-9, in["timeDelays/frontWheels"] * 1e-9, in["timeDelays/steering"] * 1e-9, in["timeDelays/dmi"] * 1e-9;
    for (auto& x : s) c.check(same(x, x.report(), want.segment(x.at, x.n), 1e-12), "initial-value", "%s", x.name.c_str());
    judgeBatch(c, v, s);
    for (int k = 0; k < 3; ++k) { const V p = v.getParameters(); if (!c.check(p.size() == 22, "size", "%ld parameters", (long)p.size())) return; for (auto& x : s) c.check(same(x, p.segment(x.at, x.n), x.report(), 1e-12), "position", "%s is not at position %d", x.name.c_str(), x.at); judgePrint(c, v, s); for (auto& x : s) if (r.coin()) wiggle(r, *x.dv); }
    judgeBatch(c, v, s); c.count("variables compared", s.size()); c.seen(mon::hcomb(mon::hd(want(0)), mon::hd(want(21)))); c.sample("wheel base " + std::to_string(want(2)));
  });
}
#endif
#ifdef EX_TD
typedef CalibratorOptions Options;
SECTION(options, 2) {
  const std::vector<Opt<Options>> o = {OPT(Options, "windowDuration", 'd', windowDuration), OPT(Options, "verbose", 'b', verbose), OPT(Options, "delayBound", 'i', delayBound), OPT(Options, "splines/transSplineLambda", 'd', transSplineLambda), OPT(Options, "splines/rotSplineLambda", 'd', rotSplineLambda), OPT(Options, "splines/splineKnotsPerSecond", 'i', splineKnotsPerSecond), OPT(Options, "splines/transSplineOrder", 'i', transSplineOrder), OPT(Options, "splines/rotSplineOrder", 'i', rotSplineOrder),
    OPT(Options, "odometry/sensors/wss/noise/lwVariance", 'd', lwVariance), OPT(Options, "odometry/sensors/wss/noise/rwVariance", 'd', rwVariance), OPT(Options, "odometry/constraints/noise/vyVariance", 'd', vyVariance), OPT(Options, "odometry/constraints/noise/vzVariance", 'd', vzVariance)};
  c.cases(4000, [&] { judgeOptions(c, o); });
}
SECTION(simulation, 2) {
  typedef SimulationParams P;
  const std::vector<Opt<P>> o = {OPT(P, "calibration/odometry/wss/b", 'd', b), OPT(P, "calibration/odometry/wss/k_l", 'd', k_l), OPT(P, "calibration/odometry/wss/t_l", 'd', t_l), OPT(P, "calibration/odometry/wss/k_r", 'd', k_r), OPT(P, "calibration/odometry/wss/t_r", 'd', t_r), OPT(P, "dt", 'd', dt), OPT(P, "T", 'd', T), OPT(P, "noise/odometry/wss/sigma2_l", 'd', sigma2_l), OPT(P, "noise/odometry/wss/sigma2_r", 'd', sigma2_r),
    OPT(P, "noise/pose/sigma2_w_r_wp/e1", 'd', sigma2_w_r_wp(0, 0)), OPT(P, "noise/pose/sigma2_w_r_wp/e2", 'd', sigma2_w_r_wp(1, 1)), OPT(P, "noise/pose/sigma2_w_r_wp/e3", 'd', sigma2_w_r_wp(2, 2)), OPT(P, "noise/pose/sigma2_w_R_p/e1", 'd', sigma2_w_R_p(0, 0)), OPT(P, "noise/pose/sigma2_w_R_p/e2", 'd', sigma2_w_R_p(1, 1)), OPT(P, "noise/pose/sigma2_w_R_p/e3", 'd', sigma2_w_R_p(2, 2)),
    OPT(P, "trajectory/A", 'd', trajectoryParams.A), OPT(P, "trajectory/f", 'd', trajectoryParams.f), OPT(P, "calibration/v_T_p/v_r_vp/e1", 'd', v_T_p.t()(0)), OPT(P, "calibration/v_T_p/v_r_vp/e2", 'd', v_T_p.t()(1)), OPT(P, "calibration/v_T_p/v_r_vp/e3", 'd', v_T_p.t()(2))};
  c.cases(2000, [&] {
    PT t; std::vector<double> want; for (auto& x : o) { want.push_back(draw(c.rng, x.kind)); put(t, x.key, x.kind, want.back()); } const V a = vec({c.rng.uni(-3, 3), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3)}); for (int i = 0; i < 3; ++i) t.setDouble("calibration/v_T_p/v_R_p/e" + std::to_string(i + 1), a(i));
    const P p(t); for (size_t i = 0; i < o.size(); ++i) c.check(o[i].get(p) == want[i], "option", "%s is %g want %g", o[i].key, o[i].get(p), want[i]); c.check((p.v_T_p.C() - rot(a)).norm() < 1e-12, "option", "sensor orientation");
    Eigen::Matrix3d x = p.sigma2_w_r_wp, y = p.sigma2_w_R_p; x.diagonal().setZero(); y.diagonal().setZero(); c.check(x.norm() + y.norm() == 0, "option", "covariances are not diagonal"); c.check((p.trajectoryParams.w_T_v_0.T() - Eigen::Matrix4d::Identity()).norm() < 1e-15, "default", "start of the trajectory");
    PT u = t.deepCopy(); u.erase(o[c.rng.below(o.size())].key); try { P q(u); c.check(false, "default", "missing key accepted"); } catch (const sm::KeyNotFoundException&) {} c.seen(mon::hd(want[0])); c.count("options compared", o.size());
  });
}
SECTION(variables, 2) {
  c.cases(4000, [&] {
    auto& r = c.rng; PT t; std::map<std::string, double> in; for (const char* k : {"intrinsics/halfWheelBase", "intrinsics/lwCoefficient", "intrinsics/rwCoefficient", "extrinsics/translation/x", "extrinsics/translation/y", "extrinsics/translation/z"}) t.setDouble(k, in[k] = number(r));
    const V a = vec({r.uni(-3, 3), r.uni(-1.5, 1.5), r.uni(-3, 3)}); t.setDouble("extrinsics/rotation/yaw", a(0)); t.setDouble("extrinsics/rotation/pitch", a(1)); t.setDouble("extrinsics/rotation/roll", a(2));
    const int tl = delayNs(r), tr = delayNs(r); t.setInt("intrinsics/lwTimeDelay", tl); t.setInt("intrinsics/rwTimeDelay", tr); const bool at = r.coin(), ar = r.coin(), ad = r.coin(); t.setBool("extrinsics/translation/active", at); t.setBool("extrinsics/rotation/active", ar); t.setBool("intrinsics/timeDelaysActive", ad);
    OdometryDesignVariables v(t); std::vector<Slot> s = {slot("b", v.b, 0, true), slot("k_l", v.k_l, 1, true), slot("t_l", v.t_l, 2, ad), slot("k_r", v.k_r, 3, true), slot("t_r", v.t_r, 4, ad), slot("v_r_vp", v.v_r_vp, 5, at), slot("v_R_p", v.v_R_p, 8, ar)};
    V want(11); want << in["intrinsics/halfWheelBase"], in["intrinsics/lwCoefficient"], tl * 1e-9, in["intrinsics/rwCoefficient"], tr * 1e-9, in["extrinsics/translation/x"], in["extrinsics/translation/y"], in["extrinsics/translation/z"], a;
    for (auto& x : s) c.check(same(x, x.report(), want.segment(x.at, x.n), 1e-12), "initial-value", "%s", x.name.c_str());
    judgeBatch(c, v, s);
    for (int k = 0; k < 3; ++k) { const V p = v.getParameters(); if (!c.check(p.size() == 11, "size", "%ld parameters", (long)p.size())) return; for (auto& x : s) c.check(same(x, p.segment(x.at, x.n), x.report(), 1e-12), "position", "%s is not at position %d", x.name.c_str(), x.at); judgePrint(c, v, s); for (auto& x : s) if (r.coin()) wiggle(r, *x.dv); }
    judgeBatch(c, v, s); c.count("variables compared", s.size()); c.seen(mon::hcomb(mon::hd(want(0)), mon::hd(want(4)))); c.sample("half wheel base " + std::to_string(want(0)));
  });
}
#endif
#ifdef EX_EGO
typedef CalibratorOptions Options;
SECTION(options, 2) {
  const std::vector<Opt<Options>> o = {OPT(Options, "windowDuration", 'd', windowDuration), OPT(Options, "verbose", 'b', verbose), OPT(Options, "delayBound", 'i', delayBound), OPT(Options, "referenceSensor", 'u', referenceSensor), OPT(Options, "splines/transSplineLambda", 'd', transSplineLambda), OPT(Options, "splines/rotSplineLambda", 'd', rotSplineLambda), OPT(Options, "splines/splineKnotsPerSecond", 'i', splineKnotsPerSecond), OPT(Options, "splines/transSplineOrder", 'i', transSplineOrder), OPT(Options, "splines/rotSplineOrder", 'i', rotSplineOrder)};
  c.cases(4000, [&] { judgeOptions(c, o); });
}
std::vector<int> ids(mon::Rng& r, int n) { std::set<int> s; while ((int)s.size() < n) s.insert(r.coin(0.7) ? (int)r.below(n + 2) : (int)r.below(1000)); std::vector<int> v(s.begin(), s.end()); for (int i = n - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); return v; }
SECTION(simulation, 2) {
  c.cases(2000, [&] {
    auto& r = c.rng; PT t, parent; const int n = (int)r.below(5), ref = (int)r.below(10); parent.setInt("egomotion/calibrator/referenceSensor", ref); t.setInt("calibration/num", n); const auto id = ids(r, n), nid = ids(r, n + 1);
    std::vector<V> tr, an; std::vector<int> del; std::vector<V> cv; for (int i = 0; i < n; ++i) { const std::string p = "calibration/sensor_" + std::to_string(i) + "/"; tr.push_back(vec({number(r), number(r), number(r)})); an.push_back(vec({r.uni(-3, 3), r.uni(-1.5, 1.5), r.uni(-3, 3)})); del.push_back(delayNs(r));
      const char* xyz[] = {"x", "y", "z"}; const char* y[] = {"yaw", "pitch", "roll"}; for (int k = 0; k < 3; ++k) { t.setDouble(p + "extrinsics/translation/" + xyz[k], tr[i](k)); t.setDouble(p + "extrinsics/rotation/" + y[k], an[i](k)); } t.setInt(p + "intrinsics/timeDelay", del[i]); t.setInt(p + "idx", id[i]); }
    for (int i = 0; i <= n; ++i) { const std::string p = "noise/sensor_" + std::to_string(i) + "/"; V v(6); for (int k = 0; k < 6; ++k) { v(k) = r.logu(1e-9, 1); t.setDouble(p + "e" + std::to_string(k + 1), v(k)); } cv.push_back(v); t.setInt(p + "idx", nid[i]); }
    double dt = number(r), T = number(r), A = number(r), f = number(r), l1 = number(r), l2 = number(r); t.setDouble("dt", dt); t.setDouble("T", T); t.setDouble("trajectory/A", A); t.setDouble("trajectory/f", f); t.setDouble("trajectory/splines/transSplineLambda", l1); t.setDouble("trajectory/splines/rotSplineLambda", l2);
    const int ks = (int)r.below(1000), o1 = 5 + (int)r.below(1000), o2 = (int)r.below(1000); t.setInt("trajectory/splines/splineKnotsPerSecond", ks); const bool given = r.coin(0.7); if (given) t.setInt("trajectory/splines/transSplineOrder", o1); t.setInt("trajectory/splines/rotSplineOrder", o2); const char* types[] = {"straight", "sinePlanar", "random", "combined"}; const std::string ty = types[r.below(4)]; t.setString("trajectory/type", ty);
    const V st = vec({number(r), number(r), number(r)}), sa = vec({r.uni(-3, 3), r.uni(-1.5, 1.5), r.uni(-3, 3)}); t.setDouble("trajectory/w_T_v_0/x", st(0)); t.setDouble("trajectory/w_T_v_0/y", st(1)); t.setDouble("trajectory/w_T_v_0/z", st(2)); t.setDouble("trajectory/w_T_v_0/yaw", sa(0)); t.setDouble("trajectory/w_T_v_0/pitch", sa(1)); t.setDouble("trajectory/w_T_v_0/roll", sa(2));
    const SimulationParams p(t, parent); c.check((int)p.referenceSensor == ref, "option", "reference sensor"); c.check(p.dt == dt && p.T == T, "option", "times"); const auto& q = p.trajectoryParams; c.check(q.A == A && q.f == f && q.transSplineLambda == l1 && q.rotSplineLambda == l2 && q.splineKnotsPerSecond == ks && q.rotSplineOrder == o2 && q.type == ty, "option", "trajectory"); c.check(q.transSplineOrder == (given ? o1 : TrajectoryParams().transSplineOrder), "default", "order of the translation spline is %d", q.transSplineOrder);
    c.check((q.w_T_v_0.t() - st).norm() == 0 && (q.w_T_v_0.C() - rot(sa)).norm() < 1e-12, "option", "start of the trajectory"); c.check((int)p.sensorCalibration.size() == n && (int)p.sigma2.size() == n + 1, "option", "%zu sensors, %zu covariances", p.sensorCalibration.size(), p.sigma2.size());
    for (int i = 0; i < n; ++i) { auto it = p.sensorCalibration.find(id[i]); if (!c.check(it != p.sensorCalibration.end(), "option", "sensor %d", id[i])) continue; c.check(it->second.first == del[i] && (it->second.second.t() - tr[i]).norm() == 0 && (it->second.second.C() - rot(an[i])).norm() < 1e-12, "option", "sensor %d", id[i]); }
    for (int i = 0; i <= n; ++i) { auto it = p.sigma2.find(nid[i]); if (!c.check(it != p.sigma2.end(), "option", "covariance %d", nid[i])) continue; c.check((it->second - Eigen::Matrix<double, 6, 6>(cv[i].asDiagonal())).norm() == 0, "option", "covariance %d", nid[i]); }
    c.seen(mon::hcomb(mon::hd(A), n)); c.count("sensors", n);
  });
}
SECTION(variables, 2) {
  c.cases(4000, [&] {
    auto& r = c.rng; PT t; const int n = (int)r.below(6); t.setInt("num", n); const auto id = ids(r, n); std::vector<V> want; std::vector<std::array<bool, 3>> act; const char* xyz[] = {"x", "y", "z"}; const char* y[] = {"yaw", "pitch", "roll"};
    for (int i = 0; i < n; ++i) { const std::string p = "sensor_" + std::to_string(i) + "/"; V w(7); const int d = delayNs(r); w << d * 1e-9, number(r), number(r), number(r), r.uni(-3, 3), r.uni(-1.5, 1.5), r.uni(-3, 3); want.push_back(w); act.push_back({{r.coin(), r.coin(), r.coin()}}); for (int k = 0; k < 3; ++k) { t.setDouble(p + "extrinsics/translation/" + xyz[k], w(1 + k)); t.setDouble(p + "extrinsics/rotation/" + y[k], w(4 + k)); }
      t.setInt(p + "intrinsics/timeDelay", d); t.setInt(p + "idx", id[i]); t.setBool(p + "intrinsics/timeDelayActive", act[i][0]); t.setBool(p + "extrinsics/translation/active", act[i][1]); t.setBool(p + "extrinsics/rotation/active", act[i][2]); }
    DesignVariables v(t); if (!c.check((int)v.calibrationVariables_.size() == n, "sensors", "%zu want %d", v.calibrationVariables_.size(), n)) return; std::vector<Slot> all;
    for (int i = 0; i < n; ++i) { auto it = v.calibrationVariables_.find(id[i]); if (!c.check(it != v.calibrationVariables_.end(), "sensors", "%d missing", id[i])) return; const std::string e = std::to_string(id[i]);
      all.push_back(slot("t_" + e, std::get<0>(it->second), 0, act[i][0])); all.push_back(slot("r_" + e, std::get<1>(it->second), 1, act[i][1])); all.push_back(slot("R_" + e, std::get<2>(it->second), 4, act[i][2])); for (int k = 0; k < 3; ++k) { const Slot& x = all[3 * i + k]; c.check(same(x, x.report(), want[i].segment(x.at, x.n), 1e-12), "initial-value", "%s", x.name.c_str()); } }
    judgeBatch(c, v, all);
    for (int k = 0; k < 3; ++k) { for (int i = 0; i < n; ++i) { const V p = v.getParameters(id[i]); if (!c.check(p.size() == 7, "size", "%ld parameters", (long)p.size())) return; for (int j = 0; j < 3; ++j) { const Slot& x = all[3 * i + j]; c.check(same(x, p.segment(x.at, x.n), x.report(), 1e-12), "position", "%s is not at position %d", x.name.c_str(), x.at); } } judgePrint(c, v, all); for (auto& x : all) if (r.coin()) wiggle(r, *x.dv); }
    size_t bad; do bad = r.coin(0.8) ? r.below(n + 5) : r.next(); while (std::count(id.begin(), id.end(), (int)bad) && bad < 100000); bool thrown = false; try { v.getParameters(bad); } catch (const OutOfBoundException<size_t>&) { thrown = true; } c.check(thrown, "unknown-sensor", "%zu accepted", bad);
    judgeBatch(c, v, all); c.count("variables compared", all.size()); c.seen(mon::hcomb(n, n ? mon::hd(want[0](1)) : 0)); c.sample(std::to_string(n) + " sensors");
  });
}
#endif
