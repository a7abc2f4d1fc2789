// C29: windows of the car and time-delay calibrators (one example per build)
#include "c29_common.hpp"
#ifdef EX_CAR
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
typedef aslam::calibration::CarCalibrator Cal;
enum { Pose, Vel, Dmi, Front, Rear, Steer, Types };
const char* const names[] = {"pose", "velocities", "dmi", "front wheels", "rear wheels", "steering"};
#else
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
typedef aslam::calibration::Calibrator Cal;
enum { Pose, Left, Right, Types };
const char* const names[] = {"pose", "left wheel", "right wheel"};
#endif
using namespace aslam::calibration; using namespace cal;
namespace {
/// a measurement of any type: two vectors and their covariances, as far as it has them
struct Meas { int type; int64_t t; V3 a = V3::Zero(), b = V3::Zero(); M3 A = M3::Identity(), B = M3::Identity(); };
typedef std::vector<Meas> List;
V valueOf(const Meas& m) {
  V v; if (m.type == Pose) { v.resize(6); v << m.a, m.b; return v; }
#ifdef EX_CAR
  if (m.type == Vel) { v.resize(6); v << m.a, m.b; return v; } if (m.type == Front || m.type == Rear) return m.a.head(2);
#endif
  return m.a.head(1); }
/// a prediction and what it rests on
struct Expected { int type; int64_t when; bool maybe = false; std::vector<Term> terms; V prediction; };
struct Options { double window; int64_t bound; FitRule fit; double vy, vz; double var[8]; bool usePose = true, useVel = false, scaled = true, verbose = false; double cutoff = 0, tolerance = 0; };
struct Motion { M3 R; V3 p, v, om; };
Motion motionAt(const Cal& k, int64_t t) { auto p = k.getTranslationSpline()->state(); auto q = k.getRotationSpline()->state(); Motion m; m.R = sm::kinematics::quat2r(q->value(t, 0)); m.p = p->value(t, 0); m.v = m.R.transpose() * p->value(t, 1); m.om = m.R.transpose() * -q->angularVelocity(t); return m; }
Term wheel(double k, double m, const V3& v, bool front, double s, double vy, double vz, const std::string& what) { Term t; t.e.resize(3); if (front) t.e << m - k * std::copysign(std::hypot(v(0), v(1)), v(0)), 0, -v(2); else t.e << m - k * v(0), -v(1), -v(2); t.W = V3(1 / s, 1 / vy, 1 / vz).asDiagonal(); t.what = what; return t; }
template <class S> int64_t ns(const S& d) { return d->toScalar().getNumerator(); }
#ifdef EX_CAR
void push(Cal& k, const Meas& m) {
  switch (m.type) {
    case Pose: { PoseMeasurement x; x.m_r_mr = m.a; x.m_R_r = m.b; x.sigma2_m_r_mr = m.A; x.sigma2_m_R_r = m.B; k.addPoseMeasurement(x, m.t); break; }
    case Vel: { VelocitiesMeasurement x; x.r_v_mr = m.a; x.r_om_mr = m.b; x.sigma2_r_v_mr = m.A; x.sigma2_r_om_mr = m.B; k.addVelocitiesMeasurement(x, m.t); break; }
    case Dmi: { DMIMeasurement x; x.wheelSpeed = m.a(0); k.addDMIMeasurement(x, m.t); break; }
    case Front: case Rear: { WheelSpeedsMeasurement x; x.left = m.a(0); x.right = m.a(1); if (m.type == Front) k.addFrontWheelsMeasurement(x, m.t); else k.addRearWheelsMeasurement(x, m.t); break; }
    default: { SteeringMeasurement x; x.value = m.a(0); k.addSteeringMeasurement(x, m.t); } } }
template <class C, class F> List list(int type, const C& c, F f) { List l; for (auto& x : c) { Meas m; m.type = type; m.t = x.first; f(m, x.second); l.push_back(m); } return l; }
List pending(const Cal& k, int type) {
  switch (type) {
    case Pose: return list(type, k.getPoseMeasurements(), [](Meas& m, const PoseMeasurement& x) { m.a = x.m_r_mr; m.b = x.m_R_r; m.A = x.sigma2_m_r_mr; m.B = x.sigma2_m_R_r; });
    case Vel: return list(type, k.getVelocitiesMeasurements(), [](Meas& m, const VelocitiesMeasurement& x) { m.a = x.r_v_mr; m.b = x.r_om_mr; m.A = x.sigma2_r_v_mr; m.B = x.sigma2_r_om_mr; });
    case Dmi: return list(type, k.getDMIMeasurements(), [](Meas& m, const DMIMeasurement& x) { m.a(0) = x.wheelSpeed; });
    case Front: return list(type, k.getFrontWheelsMeasurements(), [](Meas& m, const WheelSpeedsMeasurement& x) { m.a(0) = x.left; m.a(1) = x.right; });
    case Rear: return list(type, k.getRearWheelsMeasurements(), [](Meas& m, const WheelSpeedsMeasurement& x) { m.a(0) = x.left; m.a(1) = x.right; });
    default: return list(type, k.getSteeringMeasurements(), [](Meas& m, const SteeringMeasurement& x) { m.a(0) = x.value; }); } }
List predictions(const Cal& k, int type, std::vector<V>& e, std::vector<double>& e2) {
  switch (type) {
    case Pose: e = k.getPosePredictionErrors(); e2 = k.getPosePredictionErrors2(); return list(type, k.getPosePredictions(), [](Meas& m, const PoseMeasurement& x) { m.a = x.m_r_mr; m.b = x.m_R_r; });
    case Vel: e = k.getVelocitiesPredictionErrors(); e2 = k.getVelocitiesPredictionErrors2(); return list(type, k.getVelocitiesPredictions(), [](Meas& m, const VelocitiesMeasurement& x) { m.a = x.r_v_mr; m.b = x.r_om_mr; });
    case Dmi: e = k.getDMIPredictionErrors(); e2 = k.getDMIPredictionErrors2(); return list(type, k.getDMIPredictions(), [](Meas& m, const DMIMeasurement& x) { m.a(0) = x.wheelSpeed; });
    case Front: e = k.getFrontWheelsPredictionErrors(); e2 = k.getFrontWheelsPredictionErrors2(); return list(type, k.getFrontWheelsPredictions(), [](Meas& m, const WheelSpeedsMeasurement& x) { m.a(0) = x.left; m.a(1) = x.right; });
    case Rear: e = k.getRearWheelsPredictionErrors(); e2 = k.getRearWheelsPredictionErrors2(); return list(type, k.getRearWheelsPredictions(), [](Meas& m, const WheelSpeedsMeasurement& x) { m.a(0) = x.left; m.a(1) = x.right; });
    default: e = k.getSteeringPredictionErrors(); e2 = k.getSteeringPredictionErrors2(); return list(type, k.getSteeringPredictions(), [](Meas& m, const SteeringMeasurement& x) { m.a(0) = x.value; }); } }
V3 lever(const Cal& k) { return k.getOdometryDesignVariables()->v_r_vr->toEuclidean(); } M3 mount(const Cal& k) { return k.getOdometryDesignVariables()->v_R_r->toRotationMatrix(); }
std::vector<const DV*> calibration(const Cal& k) { auto& d = *k.getOdometryDesignVariables(); return {d.e_r.get(), d.e_f.get(), d.L.get(), d.k_rl.get(), d.k_rr.get(), d.k_fl.get(), d.k_fr.get(), d.k_dmi.get(), d.a.get(), d.v_r_vr.get(), d.v_R_r.get(), d.t_r.get(), d.t_f.get(), d.t_s.get(), d.t_dmi.get()}; }
std::vector<std::pair<std::string, const DV*>> reported(const Cal& k) { auto& d = *k.getOdometryDesignVariables(); return {{"e_r", d.e_r.get()}, {"e_f", d.e_f.get()}, {"L", d.L.get()}, {"a0", d.a.get()}, {"a1", d.a.get()}, {"a2", d.a.get()}, {"a3", d.a.get()}, {"k_rl", d.k_rl.get()}, {"k_rr", d.k_rr.get()}, {"k_fl", d.k_fl.get()}, {"k_fr", d.k_fr.get()}, {"k_dmi", d.k_dmi.get()}, {"v_r_vr_1", d.v_r_vr.get()}, {"v_r_vr_2", d.v_r_vr.get()}, {"v_r_vr_3", d.v_r_vr.get()}, {"v_R_r_1", d.v_R_r.get()}, {"v_R_r_2", d.v_R_r.get()}, {"v_R_r_3", d.v_R_r.get()}, {"t_r", d.t_r.get()}, {"t_f", d.t_f.get()}, {"t_s", d.t_s.get()}, {"t_dmi", d.t_dmi.get()}}; }
int64_t delayOf(const Cal& k, int type) { auto& d = *k.getOdometryDesignVariables(); switch (type) { case Dmi: return ns(d.t_dmi); case Front: return ns(d.t_f); case Rear: return ns(d.t_r); case Steer: return ns(d.t_s); default: return 0; } }
#else
void push(Cal& k, const Meas& m) {
  if (m.type == Pose) { PoseMeasurement x; x.w_r_wp = m.a; x.w_R_p = m.b; x.sigma2_w_r_wp = m.A; x.sigma2_w_R_p = m.B; k.addPoseMeasurement(x, m.t); return; }
  WheelSpeedMeasurement x; x.value = m.a(0); if (m.type == Left) k.addLeftWheelMeasurement(x, m.t); else k.addRightWheelMeasurement(x, m.t); }
template <class C, class F> List list(int type, const C& c, F f) { List l; for (auto& x : c) { Meas m; m.type = type; m.t = x.first; f(m, x.second); l.push_back(m); } return l; }
List pending(const Cal& k, int type) {
  auto w = [](Meas& m, const WheelSpeedMeasurement& x) { m.a(0) = x.value; };
  switch (type) { case Pose: return list(type, k.getPoseMeasurements(), [](Meas& m, const PoseMeasurement& x) { m.a = x.w_r_wp; m.b = x.w_R_p; m.A = x.sigma2_w_r_wp; m.B = x.sigma2_w_R_p; }); case Left: return list(type, k.getLeftWheelMeasurements(), w); default: return list(type, k.getRightWheelMeasurements(), w); } }
List predictions(const Cal& k, int type, std::vector<V>& e, std::vector<double>& e2) {
  auto w = [](Meas& m, const WheelSpeedMeasurement& x) { m.a(0) = x.value; };
  switch (type) {
    case Pose: e = k.getPosePredictionErrors(); e2 = k.getPosePredictionErrors2(); return list(type, k.getPosePredictions(), [](Meas& m, const PoseMeasurement& x) { m.a = x.w_r_wp; m.b = x.w_R_p; });
    case Left: e = k.getLeftWheelPredictionErrors(); e2 = k.getLeftWheelPredictionErrors2(); return list(type, k.getLeftWheelPredictions(), w);
    default: e = k.getRightWheelPredictionErrors(); e2 = k.getRightWheelPredictionErrors2(); return list(type, k.getRightWheelPredictions(), w); } }
V3 lever(const Cal& k) { return k.getOdometryDesignVariables()->v_r_vp->toEuclidean(); } M3 mount(const Cal& k) { return k.getOdometryDesignVariables()->v_R_p->toRotationMatrix(); }
std::vector<const DV*> calibration(const Cal& k) { auto& d = *k.getOdometryDesignVariables(); return {d.b.get(), d.k_l.get(), d.t_l.get(), d.k_r.get(), d.t_r.get(), d.v_r_vp.get(), d.v_R_p.get()}; }
std::vector<std::pair<std::string, const DV*>> reported(const Cal& k) { auto& d = *k.getOdometryDesignVariables(); return {{"b", d.b.get()}, {"k_l", d.k_l.get()}, {"t_l", d.t_l.get()}, {"k_r", d.k_r.get()}, {"t_r", d.t_r.get()}, {"v_r_vp_1", d.v_r_vp.get()}, {"v_r_vp_2", d.v_r_vp.get()}, {"v_r_vp_3", d.v_r_vp.get()}, {"v_R_p_1", d.v_R_p.get()}, {"v_R_p_2", d.v_R_p.get()}, {"v_R_p_3", d.v_R_p.get()}}; }
int64_t delayOf(const Cal& k, int type) { auto& d = *k.getOdometryDesignVariables(); return type == Left ? ns(d.t_l) : type == Right ? ns(d.t_r) : 0; }
#endif
/// what the splines and variables of now say about one measurement; false: out of reach
bool expect(const Cal& k, const Options& o, const Meas& m, size_t i, Expected& x) {
  const std::string what = std::string(names[m.type]) + " " + std::to_string(i); const auto s = k.getTranslationSpline()->state(); x = Expected(); x.type = m.type; x.when = m.t;
  if (m.type == Pose) {
    const Motion q = motionAt(k, m.t); const M3 R = q.R * mount(k); Term t; t.e.resize(6); t.e << m.a - (q.p + q.R * lever(k)), m.b - yawPitchRoll(R); for (int j = 3; j < 6; ++j) t.e(j) = wrap(t.e(j)); t.W = M::Zero(6, 6); t.W.topLeftCorner(3, 3) = m.A.inverse(); t.W.bottomRightCorner(3, 3) = m.B.inverse(); t.angles = {3, 4, 5}; t.what = what; x.terms = {t}; x.prediction.resize(6); x.prediction << q.p + q.R * lever(k), yawPitchRoll(R); return true; }
#ifdef EX_CAR
  auto& d = *k.getOdometryDesignVariables();
  if (m.type == Vel) {
    if (m.t < s->t0 || m.t > s->t1) return false; const Motion q = motionAt(k, m.t); const M3 C = mount(k).transpose(); const V3 v = C * (q.v + q.om.cross(lever(k))), w = C * q.om; Term t; t.e.resize(6); t.e << m.a - v, m.b - w; t.W = M::Zero(6, 6); t.W.topLeftCorner(3, 3) = m.A.inverse(); t.W.bottomRightCorner(3, 3) = m.B.inverse(); t.what = what; x.terms = {t}; x.prediction.resize(6); x.prediction << v, w; return true; }
#endif
  const int64_t at = m.t + delayOf(k, m.type); if (at - o.bound < s->t0 || at + o.bound > s->t1) return false; const Motion q = motionAt(k, at);
#ifdef EX_CAR
  x.when = at; const double L = d.L->toScalar();
  switch (m.type) {
    case Dmi: { const V3 v = q.v + q.om.cross(V3(0, d.e_r->toScalar(), 0)); const double f = d.k_dmi->toScalar(); x.terms = {wheel(f, m.a(0), v, false, o.var[0], o.vy, o.vz, what)}; x.prediction = V::Constant(1, f * v(0)); return true; }
    case Front: case Rear: {
      if (m.a(0) < o.cutoff || m.a(1) < o.cutoff) return false; if (std::fabs(q.v(0)) < 1e-9) x.maybe = true; else if (q.v(0) < 0) return false;
      const bool f = m.type == Front; const double e = (f ? d.e_f : d.e_r)->toScalar(), kl = (f ? d.k_fl : d.k_rl)->toScalar(), kr = (f ? d.k_fr : d.k_rr)->toScalar(); const V3 l = q.v + q.om.cross(V3(f ? L : 0, e, 0)), r = q.v + q.om.cross(V3(f ? L : 0, -e, 0));
      if (f && (std::fabs(l(0)) < 1e-9 || std::fabs(r(0)) < 1e-9)) x.maybe = true;
      x.terms = {wheel(kl, m.a(0), l, f, o.var[f ? 1 : 3], o.vy, o.vz, what + " left"), wheel(kr, m.a(1), r, f, o.var[f ? 2 : 4], o.vy, o.vz, what + " right")}; x.prediction.resize(2); for (int j = 0; j < 2; ++j) x.prediction(j) = m.a(j) - x.terms[j].e(0); return true; }
    default: { const V3 v = q.v + q.om.cross(V3(L, 0, 0)); if (std::fabs(std::fabs(v(0)) - o.tolerance) < 1e-9) x.maybe = true; else if (std::fabs(v(0)) < o.tolerance) return false; const V a = d.a->getValue(); const double z = m.a(0); Term t; t.e = V::Constant(1, wrap(a(0) + z * (a(1) + z * (a(2) + z * a(3))) - std::atan2(v(1), v(0)))); t.W = M::Constant(1, 1, 1 / o.var[5]); t.angles = {0}; t.what = what; x.terms = {t}; x.prediction = V::Constant(1, std::atan2(v(1), v(0))); return true; } }
#else
  auto& d = *k.getOdometryDesignVariables(); const bool l = m.type == Left; const double b = d.b->toScalar(), f = (l ? d.k_l : d.k_r)->toScalar(); const V3 v = q.v + q.om.cross(V3(0, l ? b : -b, 0)); x.terms = {wheel(f, m.a(0), v, false, o.var[l ? 0 : 1], o.vy, o.vz, what)}; x.prediction = V::Constant(1, f * v(0)); return true;
#endif
}
bool angular(int type, int row) { if (type == Pose) return row >= 3;
#ifdef EX_CAR
  return type == Steer;
#else
  return false;
#endif
}
std::vector<Expected> expectAll(const Cal& k, const Options& o, const std::array<List, Types>& p) { std::vector<Expected> l; for (int t = 0; t < Types; ++t) for (size_t i = 0; i < p[t].size(); ++i) { Expected x; if (expect(k, o, p[t][i], i, x)) l.push_back(x); } return l; }
void expectFit(mon::Ctx& c, const Cal& k, const Options& o, const List& poses) {
  std::vector<int64_t> t; std::vector<V3> p; std::vector<M3> R; for (auto& m : poses) { t.push_back(m.t); R.push_back(rotation(m.b) * mount(k).transpose()); p.push_back(m.a - R.back() * lever(k)); } judgeFit(c, o.fit, t, p, R, poses.size()); }
PT configure(mon::Rng& r, Options& o, double delta) {
  PT t; o.scaled = r.coin(0.8); o.verbose = r.coin(0.25); estimatorConfig(t, delta, o.scaled); splineConfig(t, r, o.fit); o.window = r.coin(0.3) ? 0.25 * (double)(1 + r.below(8)) : r.uni(0.3, 3); t.setDouble("windowDuration", o.window); t.setBool("verbose", o.verbose); o.bound = r.coin(0.2) ? 1000000 : (int64_t)r.uni(1e6, 8e7); o.vy = r.logu(1e-4, 1); o.vz = r.logu(1e-4, 1); t.setDouble("odometry/constraints/noise/vyVariance", o.vy); t.setDouble("odometry/constraints/noise/vzVariance", o.vz); for (double& v : o.var) v = r.logu(1e-4, 1);
  const std::string q = "odometry/"; for (const char* k : {"x", "y", "z"}) t.setDouble(q + "extrinsics/translation/" + k, r.normal()); const V3 a(r.uni(-3.1, 3.1), r.uni(-0.2, 0.2), r.coin() ? r.uni(-0.2, 0.2) : r.uni(-3.1, 3.1)); t.setDouble(q + "extrinsics/rotation/yaw", a(0)); t.setDouble(q + "extrinsics/rotation/pitch", a(1)); t.setDouble(q + "extrinsics/rotation/roll", a(2));
  auto delay = [&] { return (int)(r.coin(0.2) ? 0 : r.uni(-1e8, 1e8)); };
#ifdef EX_CAR
  o.usePose = r.coin(0.7); o.useVel = !o.usePose || r.coin(); t.setBool("usePose", o.usePose); t.setBool("useVelocities", o.useVel); t.setInt(q + "timeDelays/delayBound", (int)o.bound); o.tolerance = r.coin(0.2) ? 0 : r.uni(0.1, 4); t.setDouble(q + "sensors/linearVelocityTolerance", o.tolerance); const int cut = r.coin() ? 0 : 1 + (int)r.below(5); o.cutoff = cut; t.setInt(q + "sensors/wheelSpeedSensorCutoff", cut);
  for (const char* k : {"dmi/noise/dmiPercentError", "fws/noise/flwPercentError", "fws/noise/frwPercentError", "rws/noise/rlwPercentError", "rws/noise/rrwPercentError"}) t.setDouble(q + "sensors/" + k, r.u01());
  int i = 0; for (const char* k : {"dmi/noise/dmiVariance", "fws/noise/flwVariance", "fws/noise/frwVariance", "rws/noise/rlwVariance", "rws/noise/rrwVariance", "st/noise/steeringVariance"}) t.setDouble(q + "sensors/" + k, o.var[i++]);
  for (const char* k : {"halfRearTrack", "halfFrontTrack", "wheelBase"}) t.setDouble(q + "intrinsics/" + k, r.uni(0.3, 3)); for (const char* k : {"steeringCoefficient0", "steeringCoefficient1", "steeringCoefficient2", "steeringCoefficient3"}) t.setDouble(q + "intrinsics/" + k, r.normal() * 0.3); for (const char* k : {"rlwCoefficient", "rrwCoefficient", "flwCoefficient", "frwCoefficient", "dmiCoefficient"}) t.setDouble(q + "intrinsics/" + k, r.uni(0.5, 2)); for (const char* k : {"rearWheels", "frontWheels", "steering", "dmi"}) t.setInt(q + "timeDelays/" + k, delay()); t.setBool(q + "timeDelays/active", r.coin());
#else
  t.setInt("delayBound", (int)o.bound); t.setDouble(q + "sensors/wss/noise/lwVariance", o.var[0]); t.setDouble(q + "sensors/wss/noise/rwVariance", o.var[1]); t.setDouble(q + "intrinsics/halfWheelBase", r.uni(0.3, 2)); t.setDouble(q + "intrinsics/lwCoefficient", r.uni(0.5, 2)); t.setDouble(q + "intrinsics/rwCoefficient", r.uni(0.5, 2)); t.setInt(q + "intrinsics/lwTimeDelay", delay()); t.setInt(q + "intrinsics/rwTimeDelay", delay()); for (const char* k : {"intrinsics/timeDelaysActive", "extrinsics/translation/active", "extrinsics/rotation/active"}) t.setBool(q + k, r.coin());
#endif
  return t;
}
Meas measure(mon::Rng& r, int type, int64_t t, const Path& path, double t0) {
  Meas m; m.type = type; m.t = t; const double s = (double)t * 1e-9 - t0; if (type == Pose) { m.a = path.at(s) + rnd(r, 0.01); m.b = path.attitude(s) + rnd(r, 0.005); m.A = cov(r, 3); m.B = cov(r, 3); return m; }
#ifdef EX_CAR
  if (type == Vel) { m.a = rnd(r, 5); m.b = rnd(r, 1); m.A = cov(r, 3); m.B = cov(r, 3); return m; } if (type == Steer) { m.a(0) = r.normal(); return m; } if (type == Front || type == Rear) { m.a(0) = r.coin(0.2) ? (double)r.below(7) : r.uni(-2, 20); m.a(1) = r.coin(0.2) ? (double)r.below(7) : r.uni(-2, 20); return m; }
#endif
  m.a(0) = r.normal() * 8; return m; }
}
SECTION(windows, 4) {
  c.cases(250, [&] {
    auto& r = c.rng; const double delta = r.uni(-1, 1); Options o; const PT config = configure(r, o, delta); std::ostringstream sink; auto old = std::cout.rdbuf(sink.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } restore{old};
    Script script(r, delta); Cal k(config); k.getEstimator()->getOptions().verbose = false; std::array<List, Types> pend; int64_t start = -1, last = -1; std::vector<V> history = {k.getOdometryDesignVariables()->getParameters()}; std::set<const Batch*> seen; bool due = false; size_t offers = 0, waits = 0; std::vector<boost::shared_ptr<Batch>> keep;
    c.check(k.getOdometryVariablesHistory().size() == 1 && k.getOdometryVariablesHistory()[0] == history[0], "history-start", "the initial guess is not the first entry");
    script.onOffer = [&](core::Inc& p) {
      ++offers; if (!c.check(due, "offer-unexpected", "a batch is offered with %zu poses pending, %g s into the window", pend[Pose].size(), start < 0 ? 0.0 : sm::timing::nsecToSec(last - start))) return;
      const auto b = p.getOptimizationProblems().back(); c.check(seen.insert(b.get()).second, "offer-again", "the batch was offered before"); keep.push_back(b); due = false;
      expectFit(c, k, o, pend[Pose]); judgeGroups(c, *b, k.getTranslationSpline(), k.getRotationSpline(), calibration(k));
      std::vector<Term> want, maybe; for (auto& x : expectAll(k, o, pend)) { if (x.type == Pose && !o.usePose) continue;
#ifdef EX_CAR
        if (x.type == Vel && !o.useVel) continue;
#endif
        for (auto& t : x.terms) (x.maybe ? maybe : want).push_back(t); }
      std::vector<ET*> got; for (size_t i = 0; i < b->numErrorTerms(); ++i) { got.push_back(b->errorTerm(i)); got.back()->evaluateError(); } judgeTerms(c, want, maybe, got);
    };
    auto offer = [&](const std::function<void()>& op, bool attempt) { // an operation that offers the pending measurements if they suffice
      const size_t before = offers; due = attempt && pend[Pose].size() >= 2; const bool want = due; if (attempt && !want) ++waits; bsplines::fitLog().clear(); sink.str(""); op();
      if (want && o.verbose) judgeReport(c, sink.str(), reported(k), script.basis, o.scaled);
      if (!c.check(offers == before + (want ? 1 : 0), "offer-count", "%zu batches offered, want %d", offers - before, (int)want)) return false;
      if (want) { for (auto& l : pend) l.clear(); start = last; history.push_back(k.getOdometryDesignVariables()->getParameters()); } return true; };
    const Path path(r); const int64_t t0 = (int64_t)(r.coin() ? r.below(2000000000) : 1400000000000000000ull + r.below(2000000000)); int64_t now = t0; const double base = (double)t0 * 1e-9; std::array<double, Types> rate; rate[Pose] = r.uni(4, 20); for (int i = 1; i < Types; ++i) rate[i] = r.coin(0.2) ? 0 : r.uni(2, 12);
    std::vector<Expected> predicted; std::string ops; const int wanted = 2 + (int)r.below(4); bool grid = r.coin(0.3), drought = false;
    for (int step = 0; step < 260 && (int)offers < wanted; ++step) {
      const double u = r.u01(); const char* what = "measurement";
      if (u < 0.94) {
        double total = 0; for (double x : rate) total += x; double pick = r.uni(0, total); int type = 0; while (type + 1 < Types && (pick -= rate[type]) > 0) ++type; if (r.coin(0.01)) drought = !drought; if (drought && r.coin(0.1)) drought = false; if (drought && type == Pose && Types > 1) type = 1 + (int)r.below(Types - 1);
        // sometimes exact fractions of the window, sometimes a gap, sometimes the same instant as another sensor
        int64_t dt = grid ? 62500000 * (int64_t)r.below(4) : (int64_t)(r.uni(0, 2) / total * 1e9); if (r.coin(0.02)) dt += (int64_t)(r.uni(0, 2) * o.window * 1e9); now += dt; if (now == last && (type == Pose || r.coin(0.5))) now += grid ? 62500000 : 1 + (int64_t)r.below(1000000);
        std::vector<Meas> batch = {measure(r, type, now, path, base)};
#ifdef EX_CAR
        if (type == Pose && !o.usePose) batch.push_back(measure(r, Vel, now, path, base));
#endif
        for (auto& m : batch) { last = m.t; if (start == -1) start = m.t; if (!offer([&] { push(k, m); }, sm::timing::nsecToSec(m.t - start) >= o.window)) return; pend[m.type].push_back(m); } ops += 'm'; }
      else if (u < 0.965) { what = "prediction"; ops += 'p'; bsplines::fitLog().clear(); const size_t before = offers; k.predict(); c.check(offers == before, "offer-unexpected", "a prediction offers a batch"); if (pend[Pose].size() >= 2) { expectFit(c, k, o, pend[Pose]); for (auto& x : expectAll(k, o, pend)) predicted.push_back(x); } }
      else if (u < 0.975) { what = "clearing predictions"; ops += 'c'; k.clearPredictions(); predicted.clear(); }
      else if (u < 0.985) { what = "clearing measurements"; ops += 'x'; k.clearMeasurements(); for (auto& l : pend) l.clear(); }
      else { what = "flush"; ops += 'f'; if (!offer([&] { k.addMeasurements(); }, true)) return; }
      // pending measurements
      size_t left = 0; for (int t = 0; t < Types; ++t) { const List got = pending(k, t); left += pend[t].size(); if (!c.check(got.size() == pend[t].size(), "pending", "after %s: %zu of type %s, want %zu", what, got.size(), names[t], pend[t].size())) return; for (size_t i = 0; i < got.size(); ++i) c.check(got[i].t == pend[t][i].t && valueOf(got[i]) == valueOf(pend[t][i]) && got[i].A == pend[t][i].A && got[i].B == pend[t][i].B, "pending", "after %s: %s %zu differs", what, names[t], i); }
      c.check(k.unprocessedMeasurements() == (left > 0), "unprocessed", "after %s: %zu pending", what, left);
      // histories
      const auto gains = k.getInformationGainHistory(); const auto vars = k.getOdometryVariablesHistory(); if (!c.check(gains.size() == offers && vars.size() == offers + 1 && history.size() == offers + 1, "history-size", "after %s: %zu gains and %zu variables for %zu offers", what, gains.size(), vars.size(), offers)) return;
      for (size_t i = 0; i < offers; ++i) c.check(std::fabs(gains[i] - script.gains[i]) <= 1e-9 * (1 + std::fabs(gains[i])), "gain-history", "entry %zu is %g want %g", i, gains[i], script.gains[i]); for (size_t i = 0; i < vars.size(); ++i) c.check(vars[i] == history[i], "variable-history", "entry %zu", i);
      // predictions
      if (ops.back() == 'p' || ops.back() == 'c' || r.coin(0.02)) for (int t = 0; t < Types; ++t) {
        std::vector<V> e; std::vector<double> e2; const List got = predictions(k, t, e, e2); std::vector<const Expected*> want; size_t sure = 0; for (auto& x : predicted) if (x.type == t) { want.push_back(&x); sure += !x.maybe; } if (sure != want.size()) { c.count("borderline predictions not compared"); continue; }
        if (!c.check(got.size() == want.size() && e.size() == want.size() && e2.size() == want.size(), "prediction-count", "%s: %zu predictions, %zu errors, %zu squared errors, want %zu", names[t], got.size(), e.size(), e2.size(), want.size())) continue;
        for (size_t i = 0; i < got.size(); ++i) { const Expected& w = *want[i]; c.check(got[i].t == w.when, "prediction-time", "%s %zu: %lld want %lld", names[t], i, (long long)got[i].t, (long long)w.when); const V v = valueOf(got[i]); for (int j = 0; j < v.size(); ++j) { double d = v(j) - w.prediction(j); if (angular(t, j)) d = wrap(d); c.check(std::fabs(d) <= 1e-7 * (1 + std::fabs(w.prediction(j))), "prediction", "%s %zu: entry %d is %g want %g", names[t], i, j, v(j), w.prediction(j)); }
          double s2 = 0; size_t rows = 0; for (auto& x : w.terms) { s2 += x.e.dot(x.W * x.e); rows += x.e.size(); } if (!c.check((size_t)e[i].size() == rows, "prediction-error", "%s %zu: %ld rows", names[t], i, (long)e[i].size())) continue; int at = 0; for (auto& x : w.terms) for (int j = 0; j < x.e.size(); ++j, ++at) { double d = e[i](at) - x.e(j); if (std::count(x.angles.begin(), x.angles.end(), j)) d = wrap(d); c.check(std::fabs(d) <= 1e-7 * (1 + std::fabs(x.e(j))), "prediction-error", "%s %zu: row %d is %g want %g", names[t], i, at, e[i](at), x.e(j)); }
          c.check(std::fabs(e2[i] - s2) <= 1e-6 * (1 + s2), "prediction-error2", "%s %zu: %g want %g", names[t], i, e2[i], s2); }
        c.count("predictions compared", got.size()); }
    }
    c.check((size_t)k.getEstimator()->getNumBatches() == (size_t)script.accepted, "batches-kept", "%zu want %d", (size_t)k.getEstimator()->getNumBatches(), script.accepted);
    c.count("batches offered", offers); c.count("batches accepted", script.accepted); c.count("windows that kept accumulating", waits); if (offers) c.seen(mon::hcomb(mon::hashStr(ops), mon::hd(o.window))); c.sample(std::to_string(offers) + " offers: " + ops.substr(0, 60));
  });
}
