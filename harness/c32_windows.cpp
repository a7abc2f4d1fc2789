// C32: noise-free streams through the time-delay and egomotion calibrators end with the true calibration
#include "c29_common.hpp"
#ifdef EX_EGO
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
#else
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#endif
#include <aslam/calibration/base/Timestamp.h>
using namespace aslam::calibration; using namespace cal;
namespace {
struct Pose { M3 R; V3 p; };
M3 expm(const V3& w) { const double a = w.norm(); return a > 0 ? Eigen::AngleAxisd(a, w / a).toRotationMatrix() : M3(M3::Identity()); }
V3 logm(const M3& R) { Eigen::AngleAxisd a(R); return a.angle() * a.axis(); }
/// carrier with smooth body velocities, integrated finely
struct Ride {
  V3 v0, v1, w0, w1, fv, fw, pv, pw; std::vector<Pose> grid; double h = 2e-3;
  V3 v(double t) const { V3 r; for (int i = 0; i < 3; ++i) r(i) = v0(i) + v1(i) * std::sin(2 * M_PI * fv(i) * t + pv(i)); return r; }
  V3 w(double t) const { V3 r; for (int i = 0; i < 3; ++i) r(i) = w0(i) + w1(i) * std::sin(2 * M_PI * fw(i) * t + pw(i)); return r; }
  Pose step(const Pose& x, double t, double d) const { // fourth-order Magnus for the attitude, Simpson for the position
    const double g = std::sqrt(3.0) / 6; auto turn = [&](double e) { const V3 a = w(t + (0.5 - g) * e), b = w(t + (0.5 + g) * e); return expm(0.5 * e * (a + b) + std::sqrt(3.0) / 12 * e * e * a.cross(b)); };
    Pose y; y.R = x.R * turn(d); y.p = x.p + d / 6 * (x.R * v(t) + 4 * (x.R * turn(0.5 * d) * v(t + 0.5 * d)) + y.R * v(t + d)); return y; }
  Pose at(double t) { if (t < 0) { grid.resize(grid.size()); return step(grid[0], 0, t); } while (grid.size() * h <= t + h) grid.push_back(step(grid.back(), (grid.size() - 1) * h, h)); const size_t k = (size_t)(t / h); return step(grid[k], k * h, t - k * h); }
};
Ride ride(mon::Rng& r, bool wheeled) {
  Ride x; for (int i = 0; i < 3; ++i) { x.v0(i) = r.uni(-0.5, 0.5); x.v1(i) = r.uni(0.3, 1); x.w0(i) = r.uni(-0.2, 0.2); x.w1(i) = r.uni(0.3, 0.7) * (r.coin() ? 1 : -1); x.fv(i) = r.uni(0.15, 0.35); x.fw(i) = r.uni(0.15, 0.4); x.pv(i) = r.uni(-3, 3); x.pw(i) = r.uni(-3, 3); }
  if (r.coin(0.4)) { V3 axis = wheeled ? V3(0, 0, 1) : V3(rnd(r, 1).normalized()); x.w0 += axis * r.uni(0.8, 1.4) * (r.coin() ? 1 : -1); } // turning all the time, around several times
  if (wheeled) { x.v0 = V3(r.uni(1.5, 4) * (r.coin(0.3) ? -1 : 1), 0, 0); x.v1 = V3(r.uni(0.5, 1), 0, 0); x.w0(0) = x.w1(0) = 0; }
  x.grid.push_back({rotation(V3(r.uni(-3, 3), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3))), rnd(r, 20)}); return x;
}
void estimator(PT& t, double delta) {
  t.setInt("estimator/groupId", 1); t.setDouble("estimator/infoGainDelta", delta); t.setBool("estimator/checkValidity", false); t.setBool("estimator/verbose", false); const std::string p = "estimator/optimizer/";
  t.setBool(p + "linearSolver/columnScaling", true); t.setDouble(p + "linearSolver/epsNorm", 1e-16); t.setDouble(p + "linearSolver/epsSVD", 1e-12); t.setDouble(p + "linearSolver/epsQR", 1e-12); t.setDouble(p + "linearSolver/svdTol", -1); t.setDouble(p + "linearSolver/qrTol", -1); t.setBool(p + "linearSolver/verbose", false);
  t.setInt(p + "maxIterations", 15); t.setDouble(p + "convergenceDeltaJ", 1e-6); t.setDouble(p + "convergenceDeltaX", 1e-6); t.setInt("splines/splineKnotsPerSecond", 5); t.setInt("splines/transSplineOrder", 6); t.setInt("splines/rotSplineOrder", 6); t.setDouble("splines/transSplineLambda", 0); t.setDouble("splines/rotSplineLambda", 0);
}
struct Quiet { std::ostringstream sink; std::streambuf* b; Quiet() : b(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
struct Event { int64_t t; int what; };
std::vector<Event> schedule(mon::Rng& r, double T, const std::vector<double>& rates) { // streams of their own rates and phases, merged
  std::vector<Event> e; for (size_t i = 0; i < rates.size(); ++i) for (double t = r.uni(0.2, 0.2 + 1 / rates[i]); t < T; t += (1 + (r.coin(0.5) ? r.uni(-0.2, 0.2) : 0)) / rates[i]) e.push_back({(int64_t)(t * 1e9), (int)i});
  std::sort(e.begin(), e.end(), [](const Event& a, const Event& b) { return a.t < b.t; }); return e; }
}
#ifdef EX_EGO
SECTION(egomotion, 8) {
  long barely = 0, recovered = 0;
  c.cases(16, [&] {
    auto& r = c.rng; Quiet quiet; PT t; const double window = r.uni(2, 4), delta = r.coin(0.5) ? -1e9 : r.uni(-0.5, 1), T = r.uni(2.2, 3.4) * window; estimator(t, delta); t.setDouble("windowDuration", window); t.setBool("verbose", false); t.setInt("delayBound", 150000000);
    const int n = 1 + (int)r.below(2); std::vector<size_t> ids = {0, 1, 2, 7}; r.shuffle(ids); const size_t ref = ids[3]; t.setInt("referenceSensor", (int)ref); t.setInt("sensors/num", n); std::vector<Pose> X(n); std::vector<int64_t> d(n); double off = 0;
    for (int i = 0; i < n; ++i) {
      const std::string p = "sensors/sensor_" + std::to_string(i) + "/"; X[i] = {rotation(V3(r.uni(-3, 3), r.uni(-1.2, 1.2), r.uni(-3, 3))), rnd(r, 0.5)}; d[i] = (int64_t)r.uni(-5e7, 5e7); const V3 g = X[i].p + V3(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), r.uni(-0.1, 0.1)), a = yawPitchRoll(X[i].R * expm(V3(r.uni(-0.08, 0.08), r.uni(-0.08, 0.08), r.uni(-0.08, 0.08))));
      t.setInt(p + "idx", (int)ids[i]); for (int k = 0; k < 3; ++k) { t.setDouble(p + "extrinsics/translation/" + "xyz"[k], g(k)); t.setDouble(p + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[k], a(k)); }
      t.setInt(p + "intrinsics/timeDelay", (int)(d[i] + (int64_t)r.uni(-1.5e7, 1.5e7))); for (const char* k : {"intrinsics/timeDelayActive", "extrinsics/translation/active", "extrinsics/rotation/active"}) t.setBool(p + k, true); }
    Calibrator k(t); Ride w = ride(r, false); std::vector<double> rates; for (int i = 0; i < n; ++i) rates.push_back(r.uni(8, 18)); rates.push_back(r.uni(15, 25)); std::vector<bool> any(n + 1, false); std::vector<int64_t> last(n + 1, 0); c.note("window %.3g, %d sensors, delay %ld", window, n, (long)d[0]);
    auto sensor = [&](int i, int64_t at) { if (i == n) return w.at(at * 1e-9); const Pose x = w.at((at - d[i]) * 1e-9); return Pose{x.R * X[i].R, x.p + x.R * X[i].p}; };
    try {
    for (auto& e : schedule(r, T, rates)) {
      const int i = e.what; if (!any[i]) { any[i] = true; last[i] = e.t; continue; } const Pose a = sensor(i, last[i]), b = sensor(i, e.t); MotionMeasurement m; Eigen::Matrix4d D = Eigen::Matrix4d::Identity(); D.topLeftCorner<3, 3>() = a.R.transpose() * b.R; D.topRightCorner<3, 1>() = a.R.transpose() * (b.p - a.p); m.motion = sm::kinematics::Transformation(D); m.duration = e.t - last[i]; m.sigma2 = Eigen::Matrix<double, 6, 6>::Identity() * 1e-4; k.addMotionMeasurement(m, e.t, i == n ? ref : ids[i]); last[i] = e.t; }
    if (k.unprocessedMeasurements() && r.coin()) k.addMeasurements();
    } catch (std::runtime_error& x) { if (std::string(x.what()).find("outside of its bounds") == std::string::npos) throw; c.count("delay left its bounds on the way"); return; } // the optimizer of the stand-in has no trust region
    const auto sv = k.getEstimator()->getSingularValues(true); c.count("batches offered", k.getInformationGainHistory().size()); c.count("batches kept", k.getEstimator()->getNumBatches());
    if (k.getEstimator()->getRankTheta() < 7 * n || sv(7 * n - 1) < 1e-5 * sv(0)) { c.count("calibration barely observed"); ++barely; return; }
    for (int i = 0; i < n; ++i) { auto& v = k.getDesignVariables()->calibrationVariables_.at(ids[i]); const double et = std::fabs((double)(std::get<0>(v)->toScalar().getNumerator() - d[i])) * 1e-9, ep = (std::get<1>(v)->toEuclidean() - X[i].p).norm(), er = logm(X[i].R.transpose() * std::get<2>(v)->toRotationMatrix()).norm(); off = std::max({off, et * 10, ep, er});
      c.check(et < 1e-4 && ep < 1e-3 && er < 5e-4, "calibration", "sensor %d of %d: delay off by %.3g s, position by %.3g, attitude by %.3g after %zu batches", i, n, et, ep, er, k.getInformationGainHistory().size()); }
    ++recovered; c.count("calibrations recovered"); c.seen(mon::hd(off)); c.sample(std::to_string(n) + " sensors, largest error " + std::to_string(off)); if (getenv("C32_SHOW")) fprintf(stderr, "ego off %g sv %g\n", off, sv(7 * n - 1) / sv(0));
  });
  // (one motion in a thousand leaves the calibration nearly undetermined, never all)
  c.check(recovered > 0 || barely < (c.onlyCase < 0 ? 2 : 1), "never-observed", "%ld informative streams in a row left the calibration unobserved", barely);
}
#else
SECTION(time_delay, 8) {
  long barely = 0, recovered = 0;
  c.cases(24, [&] {
    auto& r = c.rng; Quiet quiet; PT t; const double window = r.uni(2, 4), delta = r.coin(0.5) ? -1e9 : r.uni(-0.5, 1), T = r.uni(2.2, 3.4) * window; estimator(t, delta); t.setDouble("windowDuration", window); t.setBool("verbose", false); t.setInt("delayBound", 150000000);
    const double b = r.uni(0.3, 1), kl = r.uni(0.5, 2), kr = r.uni(0.5, 2); const int64_t dl = (int64_t)r.uni(-5e7, 5e7), dr = (int64_t)r.uni(-5e7, 5e7); const Pose X = {rotation(V3(r.uni(-3, 3), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3))), rnd(r, 0.5)}; const std::string q = "odometry/";
    const V3 g = X.p + V3(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), r.uni(-0.1, 0.1)), a = yawPitchRoll(X.R * expm(V3(r.uni(-0.08, 0.08), r.uni(-0.08, 0.08), r.uni(-0.08, 0.08))));
    for (int k = 0; k < 3; ++k) { t.setDouble(q + "extrinsics/translation/" + "xyz"[k], g(k)); t.setDouble(q + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[k], a(k)); }
    t.setDouble(q + "intrinsics/halfWheelBase", b * r.uni(0.9, 1.1)); t.setDouble(q + "intrinsics/lwCoefficient", kl * r.uni(0.9, 1.1)); t.setDouble(q + "intrinsics/rwCoefficient", kr * r.uni(0.9, 1.1)); t.setInt(q + "intrinsics/lwTimeDelay", (int)(dl + (int64_t)r.uni(-1.5e7, 1.5e7))); t.setInt(q + "intrinsics/rwTimeDelay", (int)(dr + (int64_t)r.uni(-1.5e7, 1.5e7))); for (const char* k : {"intrinsics/timeDelaysActive", "extrinsics/translation/active", "extrinsics/rotation/active"}) t.setBool(q + k, true);
    t.setDouble(q + "sensors/wss/noise/lwVariance", 1e-4); t.setDouble(q + "sensors/wss/noise/rwVariance", 1e-4); t.setDouble(q + "constraints/noise/vyVariance", r.logu(1e-4, 1e-2)); t.setDouble(q + "constraints/noise/vzVariance", r.logu(1e-4, 1e-2));
    Calibrator k(t); Ride w = ride(r, true); c.note("window %.3g, delays %ld %ld, b %.3g", window, (long)dl, (long)dr, b);
    try {
    for (auto& e : schedule(r, T, {r.uni(15, 25), r.uni(10, 20), r.uni(10, 20)})) {
      if (e.what == 0) { const Pose x = w.at(e.t * 1e-9); PoseMeasurement m; m.w_r_wp = x.p + x.R * X.p; m.w_R_p = yawPitchRoll(x.R * X.R); m.sigma2_w_r_wp = M3::Identity() * 1e-4; m.sigma2_w_R_p = M3::Identity() * 1e-4; k.addPoseMeasurement(m, e.t); }
      else { const double at = (e.t + (e.what == 1 ? dl : dr)) * 1e-9; // (the delay is what has to be added to the stamp)
        WheelSpeedMeasurement m; m.value = e.what == 1 ? kl * (w.v(at)(0) - b * w.w(at)(2)) : kr * (w.v(at)(0) + b * w.w(at)(2)); if (e.what == 1) k.addLeftWheelMeasurement(m, e.t); else k.addRightWheelMeasurement(m, e.t); } }
    if (k.unprocessedMeasurements() && r.coin()) k.addMeasurements();
    } catch (std::runtime_error& x) { if (std::string(x.what()).find("outside of its bounds") == std::string::npos) throw; c.count("delay left its bounds on the way"); return; } // the optimizer of the stand-in has no trust region
    const auto sv = k.getEstimator()->getSingularValues(true); c.count("batches offered", k.getInformationGainHistory().size()); c.count("batches kept", k.getEstimator()->getNumBatches());
    if (k.getEstimator()->getRankTheta() < 11 || sv(10) < 1e-5 * sv(0)) { c.count("calibration barely observed"); ++barely; return; }
    auto& v = *k.getOdometryDesignVariables(); const double eb = v.b->toScalar() - b, el = v.k_l->toScalar() / kl - 1, er = v.k_r->toScalar() / kr - 1, tl = (v.t_l->toScalar().getNumerator() - dl) * 1e-9, tr = (v.t_r->toScalar().getNumerator() - dr) * 1e-9, ep = (v.v_r_vp->toEuclidean() - X.p).norm(), ea = logm(X.R.transpose() * v.v_R_p->toRotationMatrix()).norm();
    c.check(std::fabs(eb) < 5e-4 && std::fabs(el) < 2e-4 && std::fabs(er) < 2e-4 && std::fabs(tl) < 1e-4 && std::fabs(tr) < 1e-4 && ep < 1e-3 && ea < 5e-4, "calibration", "off by: half base %.3g, coefficients %.3g %.3g, delays %.3g %.3g s, position %.3g, attitude %.3g after %zu batches", eb, el, er, tl, tr, ep, ea, k.getInformationGainHistory().size());
    ++recovered; c.count("calibrations recovered"); c.seen(mon::hd(eb)); c.sample("window " + std::to_string(window) + ", position off by " + std::to_string(ep)); if (getenv("C32_SHOW")) fprintf(stderr, "td eb %g el %g er %g tl %g tr %g ep %g ea %g sv %g\n", eb, el, er, tl, tr, ep, ea, sv(10) / sv(0));
  });
  // (one motion in a thousand leaves the calibration nearly undetermined, never all)
  c.check(recovered > 0 || barely < (c.onlyCase < 0 ? 2 : 1), "never-observed", "%ld informative streams in a row left the calibration unobserved", barely);
}
#endif
