// C30: simulator of the time-delay example, against an independent integration
#include "monitor.hpp"
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/transformations.hpp>
using namespace aslam::calibration; using namespace sm::kinematics; typedef Eigen::Vector3d V;
namespace {
SimulationParams params(mon::Ctx& c) {
  SimulationParams p; const EulerAnglesYawPitchRoll ypr; auto rot = [&](double s) { return ypr.parametersToRotationMatrix(V(c.rng.uni(-3, 3), s * c.rng.uni(-1.4, 1.4), s * c.rng.uni(-3, 3))); };
  p.v_T_p = rt2Transform(rot(1), V(c.rng.normal(), c.rng.normal(), c.rng.normal())); p.b = c.rng.uni(0.1, 2); p.k_l = c.rng.logu(1e-2, 1e3); p.k_r = c.rng.logu(1e-2, 1e3);
  p.t_l = c.rng.uni(-0.3, 0.3); p.t_r = c.rng.uni(-0.3, 0.3); p.dt = c.rng.coin(0.3) ? 0.1 : c.rng.logu(1e-3, 0.5); p.T = p.dt * c.rng.uni(0.5, 60); p.sigma2_l = c.rng.logu(1e-8, 1); p.sigma2_r = c.rng.logu(1e-8, 1);
  p.sigma2_w_r_wp = V(c.rng.logu(1e-8, 1e-1), c.rng.logu(1e-8, 1e-1), c.rng.logu(1e-8, 1e-1)).asDiagonal(); p.sigma2_w_R_p = V(c.rng.logu(1e-8, 1e-2), c.rng.logu(1e-8, 1e-2), c.rng.logu(1e-8, 1e-2)).asDiagonal();
  p.trajectoryParams.A = c.rng.coin(0.1) ? 0 : c.rng.uni(-20, 20); p.trajectoryParams.f = c.rng.coin(0.1) ? 0 : c.rng.logu(1e-3, 0.3);
  p.trajectoryParams.w_T_v_0 = c.rng.coin(0.3) ? Transformation() : Transformation(rt2Transform(rot(c.rng.coin() ? 1 : 0), V(c.rng.normal() * 10, c.rng.normal() * 10, c.rng.normal())));
  return p;
}
double gap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
}
SECTION(time_delay, 6) {
  c.cases(1200, [&] {
    const SimulationParams p = params(c); const double A = p.trajectoryParams.A, f = p.trajectoryParams.f, dt = p.dt; const uint64_t seed = 1 + c.rng.below(1000000);
    c.note("A %.17g f %.17g dt %.17g T %.17g t_l %.17g t_r %.17g b %.17g k %.17g %.17g", A, f, dt, p.T, p.t_l, p.t_r, p.b, p.k_l, p.k_r);
    SimulationData d, e; Randomizer<double>().setSeed(seed); simulate(p, d); Randomizer<double>().setSeed(seed); simulate(p, e);
    const double want = p.T / dt; const long n = d.poseData.size();
    c.check(n >= std::ceil(want - 1e-6) - 1 && n <= std::floor(want + 1e-6), "count", "%ld samples for %.6f steps", n, want);
    const size_t N = n; if (!c.check(d.lwData.size() == N && d.rwData.size() == N && d.lwData_n.size() == N && d.rwData_n.size() == N && d.poseData_n.size() == N && d.w_v_wwl.size() == N && d.w_v_wwr.size() == N && d.trajectory.w_T_v.size() == N + 1 && d.trajectory.v_v_wv.size() == N + 1 && d.trajectory.v_om_wv.size() == N + 1, "count", "streams of different length")) return;
    if (!c.check(e.poseData_n.size() == N, "repeat", "second run differs in length")) return;
    Eigen::Matrix3d R = p.trajectoryParams.w_T_v_0.C(); V t = p.trajectoryParams.w_T_v_0.t(); double tk = 0, phi = std::atan(2 * M_PI * f * A * std::cos(2 * M_PI * f * dt)), px = 0, py = 0; const EulerAnglesYawPitchRoll ypr;
    c.check((d.trajectory.w_T_v[0].T() - p.trajectoryParams.w_T_v_0.T()).norm() < 1e-12, "start", "first pose is not the configured one");
    for (size_t k = 0; k < N; ++k) {
      tk = (k + 1) * dt; const double ph = std::atan(2 * M_PI * f * A * std::cos(2 * M_PI * f * tk)), om = (ph - phi) / dt, x = tk, y = A * std::sin(2 * M_PI * f * tk), v = (std::cos(ph) * (x - px) + std::sin(ph) * (y - py)) / dt; phi = ph; px = x; py = y;
      const double s = 1e-9 / std::min(1.0, dt) * (1 + std::fabs(A)); t += dt * (R * V(v, 0, 0)); R = R * Rz(om * dt);
      const Transformation& w = d.trajectory.w_T_v[k + 1];
      c.check((d.trajectory.v_v_wv[k + 1] - V(v, 0, 0)).norm() <= s, "body-velocity", "step %zu: %.15g want %.15g", k, d.trajectory.v_v_wv[k + 1](0), v);
      c.check((d.trajectory.v_om_wv[k + 1] - V(0, 0, om)).norm() <= s, "turn-rate", "step %zu: %.15g want %.15g", k, d.trajectory.v_om_wv[k + 1](2), om);
      c.check((w.t() - t).norm() <= s * (1 + k), "pose", "step %zu: position off by %.3g", k, (w.t() - t).norm()); c.check((w.C() - R).norm() <= s * (1 + k), "pose", "step %zu: orientation off by %.3g", k, (w.C() - R).norm());
      const V wl = V(v - om * p.b, 0, 0), wr = V(v + om * p.b, 0, 0);
      c.check((d.w_v_wwl[k] - wl).norm() <= s * 4 && (d.w_v_wwr[k] - wr).norm() <= s * 4, "wheel-velocity", "step %zu", k);
      c.checkNear(d.lwData[k].second.value, p.k_l * wl(0), 1e-9, 4 * s * p.k_l, "wheel-speed", "left"); c.checkNear(d.rwData[k].second.value, p.k_r * wr(0), 1e-9, 4 * s * p.k_r, "wheel-speed", "right");
      const PoseMeasurement& m = d.poseData[k].second; const V wp = w.t() + w.C() * p.v_T_p.t(); const Eigen::Matrix3d wR = w.C() * p.v_T_p.C();
      c.check((m.w_r_wp - wp).norm() <= 1e-9 * (1 + wp.norm()), "pose-sensor", "step %zu: position off by %.3g", k, (m.w_r_wp - wp).norm());
      c.check((ypr.parametersToRotationMatrix(m.w_R_p) - wR).norm() < 1e-9, "pose-sensor", "step %zu: orientation", k); c.check(m.sigma2_w_r_wp == p.sigma2_w_r_wp && m.sigma2_w_R_p == p.sigma2_w_R_p, "pose-sensor", "covariances");
      c.check(d.poseData_n[k].second.sigma2_w_r_wp == p.sigma2_w_r_wp && d.poseData_n[k].second.sigma2_w_R_p == p.sigma2_w_R_p, "pose-sensor", "covariances of the noisy one");
      // times
      const int64_t tl = d.lwData[k].first, tr = d.rwData[k].first, tp = d.poseData[k].first; auto ns = [](double sec) { return std::llround(sec * 1e9); };
      c.check(tl == d.lwData_n[k].first && tr == d.rwData_n[k].first && tp == d.poseData_n[k].first, "times", "noisy and noise-free samples differ in time");
      c.check(std::llabs(tl - tp - (ns(p.t_l) - ns(dt * 0.5))) <= 2 && std::llabs(tr - tp - (ns(p.t_r) - ns(dt * 0.5))) <= 2, "delays", "step %zu: left %ld right %ld pose %ld", k, (long)tl, (long)tr, (long)tp);
      if (k) c.check(std::llabs(tl - d.lwData[k - 1].first - ns(dt)) <= 1 && std::llabs(tr - d.rwData[k - 1].first - ns(dt)) <= 1 && std::llabs(tp - d.poseData[k - 1].first - ns(dt)) <= 1, "times", "step %zu is not one time step after the one before", k);
      // same seed, same data; noise within ten standard deviations
      c.check(d.lwData_n[k].second.value == e.lwData_n[k].second.value && d.rwData_n[k].second.value == e.rwData_n[k].second.value && d.poseData_n[k].second.w_r_wp == e.poseData_n[k].second.w_r_wp && d.poseData_n[k].second.w_R_p == e.poseData_n[k].second.w_R_p, "repeat", "step %zu differs under the same seed", k);
      c.check(std::fabs(d.lwData_n[k].second.value / p.k_l - d.lwData[k].second.value / p.k_l) <= 10 * std::sqrt(p.sigma2_l) && std::fabs(d.rwData_n[k].second.value / p.k_r - d.rwData[k].second.value / p.k_r) <= 10 * std::sqrt(p.sigma2_r), "noise", "wheel noise");
      for (int i = 0; i < 3; ++i) c.check(std::fabs(d.poseData_n[k].second.w_r_wp(i) - m.w_r_wp(i)) <= 10 * std::sqrt(p.sigma2_w_r_wp(i, i)) && gap(d.poseData_n[k].second.w_R_p(i) - m.w_R_p(i)) <= 10 * std::sqrt(p.sigma2_w_R_p(i, i)), "noise", "pose noise");
    }
    c.count("simulated steps", N); c.seen(mon::hcomb(mon::hd(A), mon::hcomb(mon::hd(dt), N)));
  });
}
SECTION(noise_level, 2) {
  c.cases(10, [&] {
    SimulationParams p = params(c); p.T = p.dt * 1500.5; SimulationData d; Randomizer<double>().setSeed(1 + c.rng.below(100000)); simulate(p, d); const size_t n = d.poseData.size(); double s[8] = {}, q[8] = {};
    for (size_t k = 0; k < n; ++k) { double z[8]; z[0] = (d.lwData_n[k].second.value - d.lwData[k].second.value) / p.k_l / std::sqrt(p.sigma2_l); z[1] = (d.rwData_n[k].second.value - d.rwData[k].second.value) / p.k_r / std::sqrt(p.sigma2_r);
      for (int i = 0; i < 3; ++i) { z[2 + i] = (d.poseData_n[k].second.w_r_wp(i) - d.poseData[k].second.w_r_wp(i)) / std::sqrt(p.sigma2_w_r_wp(i, i)); z[5 + i] = (d.poseData_n[k].second.w_R_p(i) - d.poseData[k].second.w_R_p(i)) / std::sqrt(p.sigma2_w_R_p(i, i)); }
      for (int i = 0; i < 8; ++i) { s[i] += z[i]; q[i] += z[i] * z[i]; } }
    for (int i = 0; i < 8; ++i) { const double m = s[i] / n, v = q[i] / n - m * m; c.check(std::fabs(m) < 7 / std::sqrt(n), "noise-mean", "channel %d: mean %.4g standard deviations", i, m); c.check(std::fabs(v - 1) < 7 * std::sqrt(2.0 / n) + 1e-3, "noise-variance", "channel %d: variance %.4g of the configured one", i, v); }
    c.seen(mon::hd(s[0]));
  });
}
SECTION(pieces, 3) {
  c.cases(4000, [&] {
    const EulerAnglesYawPitchRoll ypr; const Eigen::Matrix3d R = ypr.parametersToRotationMatrix(V(c.rng.uni(-3, 3), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3))); const V t(c.rng.normal() * 10, c.rng.normal(), c.rng.normal()), v(c.rng.normal(), c.rng.normal(), c.rng.normal());
    V om(c.rng.normal(), c.rng.normal(), c.rng.normal()); om *= c.rng.coin(0.2) ? 0 : c.rng.logu(1e-12, 10); const double dt = c.rng.logu(1e-4, 2); c.note("rate %.17g dt %.17g", om.norm(), dt);
    const Transformation g = integrateMotionModel(Transformation(rt2Transform(R, t)), v, om, dt); const double a = om.norm() * dt;
    const Eigen::Matrix3d E = a > 0 ? Eigen::AngleAxisd(a, om / om.norm()).toRotationMatrix() : Eigen::Matrix3d::Identity();
    c.check((g.C() - R * E).norm() < 1e-12, "integrate", "orientation off by %.3g", (g.C() - R * E).norm()); c.check((g.t() - (t + dt * (R * v))).norm() < 1e-11 * (1 + t.norm()), "integrate", "position");
    const V lever(c.rng.normal(), c.rng.normal(), c.rng.normal()), w = genWheelVelocity(v, om, lever); c.check((w - (v + om.cross(lever))).norm() < 1e-13 * (1 + om.norm() * lever.norm()), "wheel", "velocity of a point on the body");
    c.seen(mon::hcomb(mon::hd(a), mon::hd(t(0))));
  });
}
