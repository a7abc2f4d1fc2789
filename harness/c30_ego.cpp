// C30: simulator of the egomotion example: fitted poses against an independent integration,
// sensor motions against the splines they are read from
#include "monitor.hpp"
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <bsplines/splines.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/transformations.hpp>
using namespace aslam::calibration; using namespace sm::kinematics; typedef Eigen::Vector3d V; typedef Eigen::Matrix3d M3;
namespace {
struct Scene { std::string type; double dt, T, A, f, lt, lr; int knots, to, ro, ref; M3 R0; V t0; std::map<int, std::pair<int64_t, std::pair<M3, V>>> cal; std::map<int, Eigen::Matrix<double, 6, 1>> var; };
M3 rot(mon::Ctx& c) { const EulerAnglesYawPitchRoll ypr; return ypr.parametersToRotationMatrix(V(c.rng.uni(-3, 3), c.rng.uni(-1.4, 1.4), c.rng.uni(-3, 3))); }
Scene scene(mon::Ctx& c) {
  Scene s; static const char* types[] = {"straight", "sinePlanar", "random", "combined"}; s.type = types[c.rng.below(4)];
  s.dt = c.rng.coin(0.3) ? 0.1 : c.rng.logu(5e-3, 0.5); s.T = s.dt * c.rng.uni(6, 70); s.A = c.rng.coin(0.1) ? 0 : c.rng.uni(-20, 20); s.f = c.rng.coin(0.1) ? 0 : c.rng.logu(1e-3, 0.3);
  s.lt = c.rng.coin() ? 0 : c.rng.logu(1e-8, 1e-2); s.lr = c.rng.coin() ? 0 : c.rng.logu(1e-8, 1e-2); s.knots = 1 + c.rng.below(12); s.to = 2 + c.rng.below(4); s.ro = 2 + c.rng.below(4);
  s.R0 = c.rng.coin(0.3) ? M3(M3::Identity()) : rot(c); s.t0 = V(c.rng.normal(), c.rng.normal(), c.rng.normal()) * (c.rng.coin(0.3) ? 0 : 10);
  std::vector<int> ids = {0, 1, 2, 3, 5, 8, 13}; c.rng.shuffle(ids); s.ref = ids[0]; const int n = c.rng.below(4); auto var = [&] { Eigen::Matrix<double, 6, 1> v; for (int i = 0; i < 6; ++i) v(i) = c.rng.logu(1e-8, 1e-3); return v; };
  s.var[s.ref] = var(); for (int i = 1; i <= n; ++i) { s.cal[ids[i]] = {c.rng.range(-200000000, 200000000), {rot(c), V(c.rng.normal(), c.rng.normal(), c.rng.normal())}}; s.var[ids[i]] = var(); }
  return s;
}
SimulationParams params(const Scene& s) {
  sm::BoostPropertyTree b; sm::PropertyTree p = b; auto D = [&](const std::string& k, double v) { p.setDouble("sim/" + k, v); }; auto I = [&](const std::string& k, int v) { p.setInt("sim/" + k, v); };
  p.setInt("egomotion/calibrator/referenceSensor", s.ref); I("calibration/num", s.cal.size()); int i = 0;
  for (auto& e : s.cal) { const std::string t = "calibration/sensor_" + std::to_string(i++) + "/"; for (const char* a : {"yaw", "pitch", "roll"}) D(t + "extrinsics/rotation/" + a, 0); for (const char* a : {"x", "y", "z"}) D(t + "extrinsics/translation/" + a, 0); I(t + "intrinsics/timeDelay", (int)e.second.first); I(t + "idx", e.first); }
  D("dt", s.dt); D("T", s.T); i = 0; for (auto& e : s.var) { const std::string t = "noise/sensor_" + std::to_string(i++) + "/"; I(t + "idx", e.first); for (int k = 0; k < 6; ++k) D(t + "e" + std::to_string(k + 1), e.second(k)); }
  D("trajectory/A", s.A); D("trajectory/f", s.f); for (const char* a : {"yaw", "pitch", "roll", "x", "y", "z"}) D(std::string("trajectory/w_T_v_0/") + a, 0);
  D("trajectory/splines/transSplineLambda", s.lt); D("trajectory/splines/rotSplineLambda", s.lr); I("trajectory/splines/splineKnotsPerSecond", s.knots); I("trajectory/splines/transSplineOrder", s.to); I("trajectory/splines/rotSplineOrder", s.ro); p.setString("sim/trajectory/type", s.type);
  SimulationParams r(sm::PropertyTree(p, "sim"), p); r.trajectoryParams.w_T_v_0 = Transformation(rt2Transform(s.R0, s.t0)); // (reading them from a tree is decided by C28)
  for (auto& e : s.cal) r.sensorCalibration[e.first].second = Transformation(rt2Transform(e.second.second.first, e.second.second.second)); return r;
}
typedef Eigen::Isometry3d Iso;
Iso iso(const M3& R, const V& t) { Iso i = Iso::Identity(); i.linear() = R; i.translation() = t; return i; }
Iso iso(const Transformation& T) { return iso(T.C(), T.t()); }
Iso at(const Trajectory& w, int64_t t) { const Eigen::Vector4d q = w.rotationSpline->getEvaluatorAt<0>(t).eval(); return iso(quat2r(q), w.translationSpline->getEvaluatorAt<0>(t).eval()); }
V rotvec(const M3& R) { Eigen::AngleAxisd a(R); return a.angle() * a.axis(); }
double sinePhi(double A, double f, double t) { return std::atan(2 * M_PI * f * A * std::cos(2 * M_PI * f * t)); }
}
SECTION(egomotion, 6) {
  c.cases(500, [&] {
    const Scene s = scene(c); const SimulationParams p = params(s); const uint64_t seed = 1 + c.rng.below(1000000); const double dt = s.dt, A = s.A, f = s.f;
    c.note("%s A %.17g f %.17g dt %.17g T %.17g sensors %zu", s.type.c_str(), A, f, dt, s.T, s.var.size());
    SimulationData d, e; bsplines::fitLog().clear(); Randomizer<double>().setSeed(seed); simulate(p, d); const auto fits = bsplines::fitLog(); Randomizer<double>().setSeed(seed); simulate(p, e);
    if (!c.check(fits.size() == 2, "fits", "%zu trajectories fitted", fits.size())) return; const bool first3 = fits[0].dimension == 3; const bsplines::Fit &ft = fits[first3 ? 0 : 1], &fr = fits[first3 ? 1 : 0];
    if (!c.check(ft.dimension == 3 && fr.dimension == 4 && ft.times == fr.times && ft.samples.cols() == (long)ft.times.size() && fr.samples.cols() == ft.samples.cols(), "fits", "a translation and a rotation over the same times")) return;
    c.check(ft.order == s.to && fr.order == s.ro && ft.lambda == s.lt && fr.lambda == s.lr, "fits", "orders %d %d want %d %d, weights %g %g want %g %g", ft.order, fr.order, s.to, s.ro, ft.lambda, fr.lambda, s.lt, s.lr);
    const int64_t step = std::llround(dt * 1e9); const long N = ft.times.size(); const double want = s.T / dt;
    c.check(N >= std::ceil(want - 1e-6) && N <= std::floor(want + 1e-6) + 1, "count", "%ld poses for %.6f steps", N, want);
    c.check(ft.times[0] == 0, "times", "the trajectory does not start at zero"); for (long k = 1; k < N; ++k) c.check(std::llabs(ft.times[k] - ft.times[k - 1] - step) <= 1, "times", "pose %ld", k);
    c.check((ft.samples.col(0) - s.t0).norm() < 1e-12 && (quat2r(fr.samples.col(0)) - s.R0).norm() < 1e-12, "start", "first pose is not the configured one");
    // stages of the combined motion
    double px = 0, py = 0, phi = s.type == "straight" || s.type == "combined" ? 0 : sinePhi(A, f, dt);
    for (long k = 1; k < N; ++k) {
      const V t0 = ft.samples.col(k - 1), t1 = ft.samples.col(k); const M3 R0 = quat2r(fr.samples.col(k - 1)), R1 = quat2r(fr.samples.col(k));
      const V v = R0.transpose() * (t1 - t0) / dt, om = rotvec(R0.transpose() * R1) / dt; const double slack = 1e-8 / std::min(1.0, dt) * (1 + std::fabs(A) + t1.norm());
      c.check(fr.samples.col(k).dot(fr.samples.col(k - 1)) >= -1e-9, "continuity", "the rotation of pose %ld is given by the far quaternion", k);
      std::string type = s.type; const double tk = k * dt; if (type == "combined") { const double third = tk / s.T; type = third < 1.0 / 3 - 1e-6 ? "straight" : third < 2.0 / 3 - 1e-6 && third > 1.0 / 3 + 1e-6 ? "sinePlanar" : "random"; }
      if (type == "random") { // (the border between stages may go either way)
        const double vm = std::sqrt(1 + std::pow(2 * M_PI * f * A, 2)), wm = 4 * M_PI * M_PI * f * f * std::fabs(A);
        for (int i = 0; i < 3; ++i) c.check(std::fabs(v(i)) <= vm * 1.01 + 10 * std::sqrt(2.0) + slack, "speed", "step %ld of %ld: body velocity %g, at most %g and noise", k, N, v(i), vm);
        if ((10 * std::sqrt(2.0) + wm) * dt < 1.8) for (int i = 0; i < 3; ++i) c.check(std::fabs(om(i)) <= wm * 1.01 + 10 * std::sqrt(2.0) + slack, "turn-rate", "step %ld of %ld: %g, at most %g and noise", k, N, om(i), wm);
        px = py = NAN; continue;
      }
      const bool line = type == "straight"; const double ph = line ? 0 : sinePhi(A, f, tk), x = tk, y = line ? 0 : A * std::sin(2 * M_PI * f * tk);
      c.check(std::fabs(v(1)) <= slack && std::fabs(v(2)) <= slack && std::fabs(om(0)) <= slack && std::fabs(om(1)) <= slack, "planar", "step %ld of %s: sideways %g %g, tilting %g %g", k, type.c_str(), v(1), v(2), om(0), om(1));
      if (s.type == "combined" && (std::isnan(px) || (!line && (k < 2 || (k - 1) * dt / s.T < 1.0 / 3 + 1e-6)))) { // first step of the sine
        const double y0 = A * std::sin(2 * M_PI * f * (tk - dt)), sp = (std::cos(ph) * dt + std::sin(ph) * (y - y0)) / dt, wm = 4 * M_PI * M_PI * f * f * std::fabs(A);
        if (!std::isnan(px)) c.check(std::fabs(v(0) - sp) <= slack, "speed", "step %ld, first of the sine: %.12g want %.12g", k, v(0), sp); c.check(std::fabs(om(2)) <= wm * 1.01 + slack, "turn-rate", "step %ld, first of the sine: %g at most %g", k, om(2), wm);
      } else {
        const double sp = (std::cos(ph) * (x - px) + std::sin(ph) * (y - py)) / dt; c.check(std::fabs(v(0) - sp) <= slack, "speed", "step %ld of %s: %.12g want %.12g", k, type.c_str(), v(0), sp);
        const double w = std::remainder((ph - phi), 2 * M_PI) / dt; c.check(std::fabs(om(2) - w) <= slack, "turn-rate", "step %ld of %s: %.12g want %.12g", k, type.c_str(), om(2), w);
      }
      px = x; py = y; phi = ph;
    }
    c.check(d.trajectory.translationSpline && d.trajectory.rotationSpline && d.trajectory.translationSpline->getMinTime() == 0 && d.trajectory.translationSpline->getMaxTime() == ft.times.back() && d.trajectory.rotationSpline->getMaxTime() == ft.times.back(), "trajectory", "the trajectory does not cover the simulated time");
    // sensor data
    c.check(d.motionData.size() == s.var.size() && d.motionDataNoisy.size() == s.var.size(), "sensors", "%zu sensors with data, want %zu", d.motionData.size(), s.var.size());
    for (auto& sv : s.var) {
      const int id = sv.first; if (!c.check(d.motionData.count(id) && d.motionDataNoisy.count(id), "sensors", "no data of sensor %d", id)) return; const auto &m = d.motionData.at(id), &n = d.motionDataNoisy.at(id), &r = e.motionDataNoisy.at(id);
      if (!c.check((long)m.size() == N - 1 && (long)n.size() == N - 1 && (long)r.size() == N - 1, "sensors", "%zu motions of %ld poses", m.size(), N)) return;
      const bool ref = id == s.ref; const int64_t delay = ref ? 0 : s.cal.at(id).first; const Iso X = ref ? Iso::Identity() : iso(s.cal.at(id).second.first, s.cal.at(id).second.second);
      for (long k = 0; k < N - 1; ++k) {
        const int64_t t1 = ft.times[k + 1], t0 = ft.times[k]; const MotionMeasurement &a = m[k].second, &b = n[k].second;
        c.check(m[k].first == t1 + delay && n[k].first == m[k].first, "delays", "motion %ld of sensor %d at %ld, want %ld", k, id, (long)m[k].first, (long)(t1 + delay));
        const Iso w = X.inverse() * at(d.trajectory, t0).inverse() * at(d.trajectory, t1) * X, g = iso(a.motion); const double tol = 1e-10 * (1 + s.t0.norm() + t1 * 1e-9 * (2 + std::fabs(A)) * 20);
        c.check((g.matrix() - w.matrix()).norm() <= tol, "motion", "motion %ld of sensor %d off by %.3g", k, id, (g.matrix() - w.matrix()).norm());
        c.check(std::llabs((int64_t)a.duration - step) <= 1 && a.duration == b.duration, "motion", "duration"); const Eigen::Matrix<double, 6, 6> S = sv.second.asDiagonal(); c.check(a.sigma2 == S && b.sigma2 == S, "motion", "covariance of sensor %d", id);
        const Iso z = g.inverse() * iso(b.motion); const V zr = rotvec(z.linear());
        for (int i = 0; i < 3; ++i) { c.check(std::fabs(z.translation()(i)) <= 10 * std::sqrt(sv.second(i)) + tol, "noise", "translation noise of sensor %d", id); c.check(std::fabs(zr(i)) <= 10 * std::sqrt(sv.second(3 + i)) + 1e-12, "noise", "rotation noise of sensor %d", id); }
        c.check(b.motion.T() == r[k].second.motion.T() && n[k].first == r[k].first, "repeat", "motion %ld of sensor %d differs under the same seed", k, id);
      }
      c.count("simulated motions", N - 1);
    }
    c.count("trajectory " + s.type, 1); c.seen(mon::hcomb(mon::hd(A), mon::hcomb(mon::hd(dt), N)));
  });
}
SECTION(ego_noise, 2) {
  c.cases(4, [&] {
    Scene s = scene(c); s.type = "sinePlanar"; s.T = s.dt * 1001.5; s.knots = std::max(1, (int)(0.05 / s.dt)); SimulationData d; Randomizer<double>().setSeed(1 + c.rng.below(100000)); simulate(params(s), d);
    for (auto& sv : s.var) { const auto &m = d.motionData.at(sv.first), &n = d.motionDataNoisy.at(sv.first); const size_t N = m.size(); double a[6] = {}, q[6] = {};
      for (size_t k = 0; k < N; ++k) { const Iso z = iso(m[k].second.motion).inverse() * iso(n[k].second.motion); const V zr = rotvec(z.linear()); for (int i = 0; i < 6; ++i) { const double x = (i < 3 ? z.translation()(i) : zr(i - 3)) / std::sqrt(sv.second(i)); a[i] += x; q[i] += x * x; } }
      for (int i = 0; i < 6; ++i) { const double mean = a[i] / N, v = q[i] / N - mean * mean; c.check(std::fabs(mean) < 7 / std::sqrt(N), "noise-mean", "sensor %d channel %d: mean %.4g standard deviations", sv.first, i, mean); c.check(std::fabs(v - 1) < 7 * std::sqrt(2.0 / N) + 1e-2, "noise-variance", "sensor %d channel %d: %.4g of the configured variance", sv.first, i, v); }
      c.seen(mon::hd(a[0])); }
  });
}
