// C39: the programs of the car example, fed with the messages of a drive that is known
#include "c38_common.hpp"
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/splinesToFile.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#include <bsplines/splines.hpp>
#include <can_prius/standin.hpp>
#include <poslv/standin.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/TimestampCorrector.hpp>
using namespace aslam::calibration; using namespace prog; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
#define CONF "/incremental_calibration_examples/incremental_calibration_examples_car/conf/config.xml"
namespace {
const double deg = M_PI / 180;
M3 rot(const V3& a) { return (Eigen::AngleAxisd(a(0), V3::UnitZ()) * Eigen::AngleAxisd(a(1), V3::UnitY()) * Eigen::AngleAxisd(a(2), V3::UnitX())).toRotationMatrix(); }
V3 ypr(const M3& R) { return V3(std::atan2(R(1, 0), R(0, 0)), -std::asin(std::max(-1.0, std::min(1.0, R(2, 0)))), std::atan2(R(2, 1), R(2, 2))); }
/// east, north, up as seen from the centre of the earth
M3 enu(double lat, double lon) { const V3 u(std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)), e(-std::sin(lon), std::cos(lon), 0); M3 R; R.col(0) = e; R.col(1) = u.cross(e); R.col(2) = u; return R; }
M3 ned(double lat, double lon) { const M3 R = enu(lat, lon); M3 n; n << R.col(1), R.col(0), -R.col(2); return n; }
const long double A = 6378137.0L, F = 1 / 298.257223563L, E2 = F * (2 - F);
typedef Eigen::Matrix<long double, 3, 1> L3;
L3 toEarth(double lat, double lon, double h) { const long double s = std::sin((long double)lat), c = std::cos((long double)lat), N = A / std::sqrt(1 - E2 * s * s); return L3((N + h) * c * std::cos((long double)lon), (N + h) * c * std::sin((long double)lon), (N * (1 - E2) + h) * s); }
void fromEarth(const L3& x, double& lat, double& lon, double& h) { const long double p = std::hypot(x(0), x(1)); long double b = std::atan2(x(2), p * (1 - E2)), N = A; for (int i = 0; i < 30; ++i) { N = A / std::sqrt(1 - E2 * std::sin(b) * std::sin(b)); b = std::atan2(x(2) + E2 * N * std::sin(b), p); } lat = (double)b; lon = (double)std::atan2(x(1), x(0)); h = (double)(p / std::cos(b) - N); }
/// planar drive of the rear axle, known at every millisecond
struct Drive {
  double v0, dv, w1, k0, dk, w2, from; std::vector<double> x, y, psi, s; static constexpr double h = 1e-3;
  Drive(mon::Rng& r, double from, double to) : v0(r.uni(6, 12)), dv(r.uni(0.5, 3)), w1(r.uni(0.3, 1.5)), k0(r.uni(-0.15, 0.15)), dk(r.uni(0.2, 0.5)), w2(r.uni(0.4, 1.5)), from(from) {
    const int n = (int)std::ceil((to - from) / h) + 2; double a = 0, b = 0, p = r.uni(-3, 3), d = 0; for (int i = 0; i < n; ++i) { x.push_back(a); y.push_back(b); psi.push_back(p); s.push_back(d); const double t = from + i * h; step(t, h, a, b, p, d); } }
  double speed(double t) const { return v0 + dv * std::sin(w1 * t); } double turn(double t) const { return k0 + dk * std::sin(w2 * t); }
  double heading(double t, double dt) const { return k0 * dt - dk / w2 * (std::cos(w2 * (t + dt)) - std::cos(w2 * t)); } double way(double t, double dt) const { return v0 * dt - dv / w1 * (std::cos(w1 * (t + dt)) - std::cos(w1 * t)); }
  void step(double t, double dt, double& a, double& b, double& p, double& d) const { auto f = [&](double u) -> Eigen::Vector2d { const double q = p + heading(t, u); return Eigen::Vector2d(std::cos(q), std::sin(q)) * speed(t + u); }; const Eigen::Vector2d m = dt / 6 * (f(0) + 4 * f(dt / 2) + f(dt)); a += m(0); b += m(1); d += way(t, dt); p += heading(t, dt); }
  void at(double t, V3& pos, double& p, double& d) const { const int i = std::max(0, std::min((int)x.size() - 1, (int)std::floor((t - from) / h))); double a = x[i], b = y[i]; p = psi[i]; d = s[i]; const double t0 = from + i * h; step(t0, t - t0, a, b, p, d); pos = V3(a, b, 0); }
};
struct Event { uint64_t t; int type; };
enum { Vns, Vnp, Dmi, Front, Rear, Steer };
struct Quiet { std::ostringstream sink; std::streambuf* b; Quiet() : b(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
std::string stamped(const V& v) { std::ostringstream o; o << v.transpose(); return o.str(); }
void compareAngles(mon::Ctx& c, const char* file, const Rows& want, size_t at) { // a position and an attitude per line, the attitude as angles
  if (!c.check(exists(file), "file-missing", "%s", file)) return; const Rows got = rows(std::string(file)); if (!c.check(got.size() == want.size(), "file-length", "%s has %zu lines, want %zu", file, got.size(), want.size())) return;
  for (size_t i = 0; i < want.size(); ++i) { auto &g = got[i], &w = want[i]; if (!c.check(g.size() == w.size(), "file-columns", "%s line %zu: %zu figures, want %zu", file, i, g.size(), w.size())) return;
    const double d = (rot(V3(g[at], g[at + 1], g[at + 2])) - rot(V3(w[at], w[at + 1], w[at + 2]))).norm(); if (!c.check(d <= 2e-6, "file-content", "%s line %zu: attitude off by %.3g", file, i, d)) return;
    for (size_t j = 0; j < w.size(); ++j) if (j < at || j >= at + 3) if (!c.check(std::fabs(g[j] - w[j]) <= 2e-6 * (j || at != 4 ? 1 : 0) + 1e-9 * std::fabs(w[j]), "file-content", "%s line %zu figure %zu: %.12g want %.12g", file, i, j, g[j], w[j])) return; }
  c.count("files compared"); c.count("lines compared", want.size());
}
void drive(mon::Ctx& c, bool shipped) {
  auto& r = c.rng; Scratch dir; sm::BoostPropertyTree t; t.loadXml(repo() + CONF); const std::string k = "car/calibrator/", o = k + "odometry/", s = o + "sensors/"; const bool quiet = r.coin();
  const double T = r.uni(3, 5); bool use[6] = {true, true, r.coin(), r.coin(), r.coin(0.8), r.coin()}; if (!use[2] && !use[3] && !use[5]) use[4] = true; bool pose = r.coin(0.85), vel = !pose || r.coin(), delays = r.coin(); double delay[6] = {}; std::string topic[6]; static const char* key[] = {"applanix/vns", "applanix/vnp", "odometry/sensors/dmi", "odometry/sensors/fws", "odometry/sensors/rws", "odometry/sensors/st"};
  // the car
  const double e_r = r.uni(0.5, 1), e_f = r.uni(0.5, 1), L = r.uni(2, 3), krl = r.uni(100, 400), krr = krl * r.uni(0.98, 1.02), kfl = r.uni(100, 400), kfr = kfl * r.uni(0.98, 1.02), kd = r.uni(0.8, 1.2), a0 = r.uni(-0.02, 0.02), a1 = r.uni(0.001, 0.003); const V3 lever(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)), mount(r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), M_PI + r.uni(-0.1, 0.1)); const M3 C = rot(mount);
  if (!shipped) {
    t.setBool(s + "dmi/active", use[Dmi]); t.setBool(s + "fws/active", use[Front]); t.setBool(s + "rws/active", use[Rear]); t.setBool(s + "st/active", use[Steer]); t.setBool(k + "usePose", pose); t.setBool(k + "useVelocities", vel); t.setBool(o + "timeDelays/active", delays); t.setBool(k + "verbose", r.coin()); t.setInt(o + "timeDelays/delayBound", 200000000); t.setDouble(k + "windowDuration", !pose || r.coin(0.7) ? 1e18 : T / r.uni(1.2, 2.5)); t.setDouble(k + "estimator/infoGainDelta", r.coin() ? -1e9 : r.uni(-0.5, 2)); t.setDouble(k + "estimator/optimizer/convergenceDeltaJ", 1e-6); t.setDouble(k + "estimator/optimizer/convergenceDeltaX", 1e-6); t.setInt(k + "estimator/optimizer/maxIterations", quiet ? 20 : 4 + (int)r.below(16)); t.setDouble(k + "estimator/optimizer/linearSolver/epsSVD", r.logu(1e-10, 1e-8)); t.setBool(k + "estimator/checkValidity", r.coin()); t.setBool(k + "estimator/verbose", false); t.setBool(k + "estimator/optimizer/verbose", false);
    for (const char* q : {"transSplineLambda", "rotSplineLambda"}) t.setDouble(k + "splines/" + q, quiet ? 1e-8 : r.logu(1e-8, 1e-5)); t.setInt(k + "splines/splineKnotsPerSecond", quiet ? 4 : 2 + (int)r.below(3));
    t.setDouble(s + "linearVelocityTolerance", r.uni(0, 5)); t.setInt(s + "wheelSpeedSensorCutoff", quiet || r.coin() ? 0 : (int)r.uni(100, 1500)); if (quiet) t.setDouble(s + "linearVelocityTolerance", 0); t.setDouble(o + "constraints/noise/vyVariance", 1e-4); t.setDouble(o + "constraints/noise/vzVariance", 1e-4); for (const char* q : {"fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) t.setDouble(s + q + "Variance", r.logu(1e-4, 1e-2) * krl); t.setDouble(s + "dmi/noise/dmiVariance", 1e-5); t.setDouble(s + "st/noise/steeringVariance", 1e-6);
    const std::string i = o + "intrinsics/"; auto near = [&](double x) { return x * r.uni(0.97, 1.03); }; t.setDouble(i + "wheelBase", near(L)); t.setDouble(i + "halfRearTrack", near(e_r)); t.setDouble(i + "halfFrontTrack", near(e_f)); t.setDouble(i + "steeringCoefficient0", 0); t.setDouble(i + "steeringCoefficient1", near(a1)); t.setDouble(i + "rlwCoefficient", near(krl)); t.setDouble(i + "rrwCoefficient", near(krr)); t.setDouble(i + "flwCoefficient", near(kfl)); t.setDouble(i + "frwCoefficient", near(kfr)); t.setDouble(i + "dmiCoefficient", near(kd));
    for (int j = 0; j < 3; ++j) { t.setDouble(o + "extrinsics/translation/" + "xyz"[j], lever(j)); t.setDouble(o + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[j], mount(j)); }
    if (delays) for (int j = 2; j < 6; ++j) delay[j] = r.uni(-0.03, 0.03);
    for (int j = 0; j < 6; ++j) if (r.coin(0.3)) t.setString(k + key[j] + "/topic", "/t" + std::to_string(r.below(1000)) + "_" + std::to_string(j));
  }
  t.saveXml("conf.xml"); for (int j = 0; j < 6; ++j) topic[j] = t.getString(k + key[j] + "/topic"); if (shipped) { use[Dmi] = t.getBool(s + "dmi/active"); use[Front] = t.getBool(s + "fws/active"); use[Rear] = t.getBool(s + "rws/active"); use[Steer] = t.getBool(s + "st/active"); }
  // the drive: messages of every kind, each received with its own delay
  const uint64_t t0 = r.coin() ? 5000000000ull + r.below(1000000000) : 1400000000000000000ull + r.below(1000000000); const double lead = r.uni(0, 0.5), rate[6] = {r.uni(8, 14), r.uni(1, 4), r.uni(3, 6), r.uni(4, 10), r.uni(4, 10), r.uni(4, 10)}; const Drive d(r, -1, T + 1); std::vector<Event> ev; for (int j = 0; j < 6; ++j) for (double u = r.uni(0, 1 / rate[j]) + (j == Vnp ? lead : 0); u < T; u += (1 + r.uni(-0.1, 0.1)) / rate[j]) ev.push_back({t0 + (uint64_t)std::llround(u * 1e9), j});
  std::stable_sort(ev.begin(), ev.end(), [](const Event& a, const Event& b) { return a.t < b.t; });
  rosbag::files().clear(); std::map<int, sm::timing::TimestampCorrector<double>> clock; std::map<int, unsigned> seq; Rows file[6], velRows; const double lat0 = r.uni(-1.4, 1.4), lon0 = r.uni(-M_PI, M_PI), alt0 = r.uni(-100, 3000); const M3 R0 = enu(lat0, lon0); const L3 P0 = toEarth(lat0, lon0, alt0); double noise[2]; for (double& n : noise) n = quiet ? 0 : r.logu(1e-4, 1e-2);
  bool anchored = false, havePerf = false; V3 origin = V3::Zero(); poslv::VehicleNavigationPerformanceMsg perf; double lastTime = NAN, lastDist = 0; const double boot = r.uni(0, 1000), dist0 = r.uni(-1e4, 1e4); std::vector<std::function<void(CarCalibrator&)>> feed; size_t poses = 0;
  // the first pose used is where the map begins
  { bool perfSeen = false; for (auto& e : ev) { if (e.type == Vnp) perfSeen = true; if (e.type == Vns && perfSeen) { V3 p; double psi, w; d.at((double)(e.t - t0) * 1e-9, p, psi, w); origin = p + rot(V3(psi, 0, 0)) * lever; anchored = true; break; } } } c.check(anchored, "harness", "no pose");
  rosbag::files()["drive.bag"];
  for (auto& e : ev) {
    const double u = (double)(e.t - t0) * 1e-9; V3 p; double psi, way; d.at(u + delay[e.type], p, psi, way); const double v = d.speed(u + delay[e.type]), w = d.turn(u + delay[e.type]); const M3 Rv = rot(V3(psi, 0, 0)), R = Rv * C; std_msgs::Header head; head.seq = ++seq[e.type]; head.stamp = ros::Time::fromNsec(e.t); const double stamp = head.stamp.toSec();
    auto put = [&](auto m) { m.header = head; rosbag::record("drive.bag", topic[e.type], e.t, m); };
    auto when = [&](double remote) { return (sm::timing::NsecTime)std::llround(clock[e.type].correctTimestamp(remote, (double)e.t)); };
    switch (e.type) {
      case Vnp: { poslv::VehicleNavigationPerformanceMsg m; for (double* x : {&m.northPositionRMSError, &m.eastPositionRMSError, &m.downPositionRMSError, &m.northVelocityRMSError, &m.eastVelocityRMSError, &m.downVelocityRMSError}) *x = r.logu(1e-3, 3e-2); for (double* x : {&m.rollRMSError, &m.pitchRMSError, &m.headingRMSError}) *x = r.logu(0.01, 0.3); m.timeDistance.time1 = boot + u; put(m); perf = m; havePerf = true; break; }
      case Vns: {
        const bool first = havePerf && poses == 0; V3 map = p + Rv * lever - origin; if (!first) map += noise[0] * V3(r.normal(), 2 * r.normal(), 3 * r.normal()); if (first) map.setZero(); const V3 vr = C.transpose() * (V3(v, 0, 0) + V3(0, 0, w).cross(lever)) + noise[0] * V3(r.normal(), r.normal(), r.normal()), om = C.transpose() * V3(0, 0, w) + noise[1] * V3(r.normal(), r.normal(), r.normal());
        const M3 Rn = rot(V3(noise[1] * r.normal(), noise[1] * r.normal(), noise[1] * r.normal())) * R; double lat, lon, alt; fromEarth(P0 + (R0 * map).cast<long double>(), lat, lon, alt); const M3 G = ned(lat, lon).transpose() * R0 * Rn; const V3 a = ypr(G), vn = G * vr;
        poslv::VehicleNavigationSolutionMsg m; m.latitude = lat / deg; m.longitude = lon / deg; m.altitude = alt; m.heading = a(0) / deg; m.pitch = a(1) / deg; m.roll = a(2) / deg; if (r.coin()) m.heading += 360; m.northVelocity = vn(0); m.eastVelocity = vn(1); m.downVelocity = vn(2); m.angularRateLong = om(0) / deg; m.angularRateTrans = om(1) / deg; m.angularRateDown = om(2) / deg; m.timeDistance.time1 = boot + u; put(m); if (!havePerf) break; ++poses;
        auto sq = [](double x) { return x * x; }; PoseMeasurement x; x.m_r_mr = map; x.m_R_r = ypr(Rn); x.sigma2_m_r_mr = V3(sq(perf.eastPositionRMSError), sq(perf.northPositionRMSError), sq(perf.downPositionRMSError)).asDiagonal(); x.sigma2_m_R_r = V3(sq(perf.headingRMSError * deg), sq(perf.pitchRMSError * deg), sq(perf.rollRMSError * deg)).asDiagonal();
        VelocitiesMeasurement y; y.r_v_mr = vr; y.r_om_mr = om; y.sigma2_r_v_mr = G.transpose() * V3(sq(perf.northVelocityRMSError), sq(perf.eastVelocityRMSError), sq(perf.downVelocityRMSError)).asDiagonal() * G; y.sigma2_r_om_mr = V3(sq(perf.rollRMSError * deg), sq(perf.pitchRMSError * deg), sq(perf.headingRMSError * deg)).asDiagonal();
        file[Vns].push_back(row({V::Constant(1, stamp), x.m_r_mr, x.m_R_r, x.sigma2_m_r_mr.diagonal(), x.sigma2_m_R_r.diagonal()})); velRows.push_back(row({V::Constant(1, stamp), vr, om, y.sigma2_r_v_mr.diagonal(), y.sigma2_r_om_mr.diagonal()})); const auto at = when((double)sm::timing::secToNsec(boot + u)); feed.push_back([=](CarCalibrator& q) { q.addPoseMeasurement(x, at); q.addVelocitiesMeasurement(y, at); }); break; }
      case Front: case Rear: {
        const bool f = e.type == Front; const double k1 = f ? kfl : krl, k2 = f ? kfr : krr, b = f ? e_f : e_r; const V3 l = V3(v, 0, 0) + V3(0, 0, w).cross(V3(f ? L : 0, b, 0)), q = V3(v, 0, 0) + V3(0, 0, w).cross(V3(f ? L : 0, -b, 0)); WheelSpeedsMeasurement x; x.left = k1 * (f ? l.norm() : l(0)); x.right = k2 * (f ? q.norm() : q(0)); if (!quiet) { x.left *= 1 + 1e-4 * r.normal(); x.right *= 1 + 1e-4 * r.normal(); }
        if (f) { can_prius::FrontWheelsSpeedMsg m; m.Left = x.left; m.Right = x.right; put(m); } else { can_prius::RearWheelsSpeedMsg m; m.Left = x.left; m.Right = x.right; put(m); } if (!use[e.type]) break;
        file[e.type].push_back({stamp, x.left, x.right}); const auto at = when(head.seq); feed.push_back([=](CarCalibrator& z) { if (f) z.addFrontWheelsMeasurement(x, at); else z.addRearWheelsMeasurement(x, at); }); break; }
      case Steer: { can_prius::Steering1Msg m; m.value = (std::atan2(w * L, v) - a0) / a1; put(m); if (!use[Steer]) break; SteeringMeasurement x; x.value = m.value; file[Steer].push_back({stamp, x.value}); const auto at = when(head.seq); feed.push_back([=](CarCalibrator& z) { z.addSteeringMeasurement(x, at); }); break; }
      default: { // distance travelled by the left rear wheel
        double psi1; poslv::TimeTaggedDMIDataMsg m; V3 q; double wy; d.at(u + delay[Dmi], q, psi1, wy); m.signedDistanceTraveled = dist0 + kd * (wy - e_r * psi1); m.timeDistance.time1 = boot + u; put(m); if (!use[Dmi]) break;
        if (!std::isnan(lastTime)) { DMIMeasurement x; x.wheelSpeed = (m.signedDistanceTraveled - lastDist) / (m.timeDistance.time1 - lastTime); const auto at = when((double)sm::timing::secToNsec(boot + u)); file[Dmi].push_back({stamp, x.wheelSpeed}); feed.push_back([=](CarCalibrator& z) { z.addDMIMeasurement(x, at); }); } lastTime = m.timeDistance.time1; lastDist = m.signedDistanceTraveled; }
    }
    if (r.coin(0.02)) rosbag::record("drive.bag", std::string("/other"), e.t, can_prius::Steering1Msg());
  }
  c.note("%zu messages in %.3g s, %s%s%s%s%s, %s%s%s", ev.size(), T, use[Dmi] ? "dmi " : "", use[Front] ? "front " : "", use[Rear] ? "rear " : "", use[Steer] ? "steering " : "", delays ? "delays" : "no delays", pose ? "poses " : "", vel ? "velocities " : "", quiet ? "noise-free" : "noisy");
  bool bound = false; Run run; try { run = prog::run({"drive.bag", "conf.xml"}); } catch (std::runtime_error& x) { if (std::string(x.what()).find("outside of its bounds") == std::string::npos) throw; bound = true; } // the optimizer of the stand-in has no trust region
  c.count("program runs"); if (!bound) c.check(run.code == 0, "exit", "the program ended with %d: %s", run.code, run.err.c_str());
  if (bound) { c.count("delay left its bounds on the way"); return; }
  compareAngles(c, "poseData.txt", file[Vns], 4); compare(c, "velData.txt", velRows, 1e-9, 1e-9); compare(c, "dmiData.txt", file[Dmi], 1e-12, 0); compare(c, "fwData.txt", file[Front], 1e-12, 0); compare(c, "rwData.txt", file[Rear], 1e-12, 0); compare(c, "stData.txt", file[Steer], 1e-12, 0);
  // the library, given the same measurements
  Quiet mute; sm::BoostPropertyTree again; again.loadXml("conf.xml"); const sm::PropertyTree& conf = again; CarCalibrator cal(sm::PropertyTree(conf, "car/calibrator")); for (auto& f : feed) f(cal);
  const double loose = 1e-4, free = 1e-2;
#ifdef ANALYZER
  c.check(cal.unprocessedMeasurements(), "harness", "nothing to predict"); cal.predict();
  auto two = [](const CarCalibrator::WheelSpeedsMeasurements& m) { Rows w; for (auto& x : m) w.push_back({sm::timing::nsecToSec(x.first), x.second.left, x.second.right}); return w; }; auto errors = [](const std::vector<V>& e) { Rows w; for (auto& x : e) w.push_back(row({x})); return w; };
  Rows st, dm, po, ve; for (auto& x : cal.getSteeringPredictions()) st.push_back({sm::timing::nsecToSec(x.first), x.second.value}); for (auto& x : cal.getDMIPredictions()) dm.push_back({sm::timing::nsecToSec(x.first), x.second.wheelSpeed}); for (auto& x : cal.getPosePredictions()) po.push_back(row({V::Constant(1, sm::timing::nsecToSec(x.first)), x.second.m_r_mr, x.second.m_R_r})); for (auto& x : cal.getVelocitiesPredictions()) ve.push_back(row({V::Constant(1, sm::timing::nsecToSec(x.first)), x.second.r_v_mr, x.second.r_om_mr}));
  compare(c, "rwDataPred.txt", two(cal.getRearWheelsPredictions()), 1e-7, 1e-6); compare(c, "fwDataPred.txt", two(cal.getFrontWheelsPredictions()), 1e-7, 1e-6); compare(c, "stDataPred.txt", st, 1e-7, 1e-6); compare(c, "dmiDataPred.txt", dm, 1e-7, 1e-6); compareAngles(c, "poseDataPred.txt", po, 4); compare(c, "velDataPred.txt", ve, 1e-7, 1e-6);
  compare(c, "rwPredError.txt", errors(cal.getRearWheelsPredictionErrors()), 1e-6, 1e-5); compare(c, "fwPredError.txt", errors(cal.getFrontWheelsPredictionErrors()), 1e-6, 1e-5); compare(c, "stPredError.txt", errors(cal.getSteeringPredictionErrors()), 1e-6, 1e-5); compare(c, "dmiPredError.txt", errors(cal.getDMIPredictionErrors()), 1e-6, 1e-5); compare(c, "velPredError.txt", errors(cal.getVelocitiesPredictionErrors()), 1e-6, 1e-5);
  { Rows e = errors(cal.getPosePredictionErrors()), g = rows(std::string("posePredError.txt")); c.check(e.size() == g.size(), "file-length", "posePredError.txt has %zu lines, want %zu", g.size(), e.size()); for (size_t i = 0; i < std::min(e.size(), g.size()); ++i) if (c.check(g[i].size() == 6 && e[i].size() == 6, "file-columns", "posePredError.txt")) for (int j = 0; j < 6; ++j) c.check(j < 3 ? std::fabs(g[i][j] - e[i][j]) < 1e-5 : gap(g[i][j] - e[i][j]) < 1e-5, "file-content", "posePredError.txt line %zu figure %d: %g want %g", i, j, g[i][j], e[i][j]); }
  c.count("predictions compared", st.size() + dm.size() + po.size() + ve.size());
  { std::ofstream f("reference.txt"); f << std::fixed; f.precision(18); writeSplines(cal.getTranslationSpline(), cal.getRotationSpline(), 0.01, f); } compareAngles(c, "m_T_v.txt", rows(std::string("reference.txt")), 3);
#else
  if (cal.unprocessedMeasurements()) cal.addMeasurements(); const V var = cal.getOdometryVariablesVariance();
  Rows g, h; for (double x : cal.getInformationGainHistory()) g.push_back({x}); for (auto& x : cal.getOdometryVariablesHistory()) h.push_back(row({x})); const bool held = conf.getBool(k + "usePose"); // velocities alone leave the place of the drive open: figures that depend on rounding
  auto structure = [&](const char* file, const Rows& want) { const Rows got = rows(std::string(file)); c.check(got.size() == want.size(), "file-length", "%s has %zu lines, want %zu", file, got.size(), want.size()); for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) c.check(got[i].size() == want[i].size(), "file-columns", "%s line %zu", file, i); };
  if (held) { compare(c, "infoGainHist.txt", g, free, free); compare(c, "calibHist.txt", h, loose, 1e-6); } else { structure("infoGainHist.txt", g); structure("calibHist.txt", h); compare(c, "velData.txt", velRows, 1e-9, 1e-9); const Rows first = rows(std::string("calibHist.txt")); bool same = !first.empty() && first[0].size() == h[0].size(); for (size_t i = 0; same && i < h[0].size(); ++i) same = std::fabs(first[0][i] - h[0][i]) <= 1e-9 * std::fabs(h[0][i]) + 1e-15; c.check(same, "file-content", "calibHist.txt does not start with the guess"); }
  { // deviations, each under its name
    std::vector<std::pair<std::string, double>> want; auto& q = *cal.getOdometryDesignVariables(); int at = 0; auto add = [&](const aslam::backend::DesignVariable& dv, std::vector<std::string> n) { if (dv.isActive()) for (auto& x : n) { want.push_back({x, at < var.size() ? std::sqrt(var(at)) : NAN}); ++at; } };
    add(*q.e_r, {"e_r"}); add(*q.e_f, {"e_f"}); add(*q.L, {"L"}); add(*q.a, {"a0", "a1", "a2", "a3"}); add(*q.k_rl, {"k_rl"}); add(*q.k_rr, {"k_rr"}); add(*q.k_fl, {"k_fl"}); add(*q.k_fr, {"k_fr"}); add(*q.k_dmi, {"k_dmi"}); add(*q.v_r_vr, {"v_r_vr_1", "v_r_vr_2", "v_r_vr_3"}); add(*q.v_R_r, {"v_R_r_1", "v_R_r_2", "v_R_r_3"}); add(*q.t_r, {"t_r"}); add(*q.t_f, {"t_f"}); add(*q.t_s, {"t_s"}); add(*q.t_dmi, {"t_dmi"});
    const std::string text = prog::text("deviations.txt"); std::map<std::string, double> got; std::istringstream in(text); std::string line; while (std::getline(in, line)) { const size_t p = line.find(": "); if (!c.check(p != std::string::npos && !got.count(line.substr(0, p)), "deviations", "line %s", line.c_str())) continue; got[line.substr(0, p)] = strtod(line.c_str() + p + 2, nullptr); }
    if (var.size() == 0) { c.check(got.empty(), "deviations", "%zu deviations of nothing", got.size()); c.count("runs without a batch"); }
    else { c.check(at == var.size(), "harness", "%d variables, %ld variances", at, (long)var.size()); for (auto& w : want) { auto i = got.find(w.first); if (!c.check(i != got.end(), "deviations", "none of %s", w.first.c_str())) continue; c.check(!held || i->second == w.second || std::fabs(i->second - w.second) <= free * std::fabs(w.second) + 1e-12 || (std::isnan(i->second) && std::isnan(w.second)), "deviations", "%s: %g want %g", w.first.c_str(), i->second, w.second); c.count("deviations compared"); } for (auto& x : got) c.check(std::count_if(want.begin(), want.end(), [&](const std::pair<std::string, double>& w) { return w.first == x.first; }) == 1, "deviations", "%s is not estimated", x.first.c_str()); } }
  { std::ofstream f("reference.txt"); f << std::fixed; f.precision(18); writeSplines(cal.getEstimator(), 0.01, f); } if (held) compareAngles(c, "m_T_v_est.txt", rows(std::string("reference.txt")), 3); else structure("m_T_v_est.txt", rows(std::string("reference.txt"))); c.count("batches offered", g.size());
  if (quiet && held && !shipped && g.size() == 1 && cal.getEstimator()->getNumBatches() == 1 && !h.empty()) { // the car comes out
    const auto& x = h.back(); struct One { int at; double want, far; bool on; const char* name; }; // the encoder gives the mean speed since its last message: it pulls on what it shares
    for (const One& q : {One{0, e_r, 0.05, use[Rear] && !use[Dmi], "e_r"}, One{3, krl, 0.02, use[Rear], "k_rl"}, One{4, krr, 0.02, use[Rear], "k_rr"}, One{7, kd, 0.05, use[Dmi] && use[Rear], "k_dmi"}}) if (q.on) { const double err = std::fabs(x[q.at] - q.want) / q.want; c.check(err < q.far, "recovery", "%s off by %.3g of itself, noise-free; it began off by %.3g", q.name, err, std::fabs(h[0][q.at] - q.want) / q.want); c.count("parameters of the car recovered"); } }
#endif
  c.seen(mon::hcomb(mon::hd(T), ev.size())); c.sample(std::to_string(ev.size()) + " messages, " + std::to_string(poses) + " poses");
}
}
#ifdef REPEAT
#include "c41_repeat.hpp"
SECTION(repeat, 8) { c.cases(16, [&] { twice(c, [&] { drive(c, false); }); }); }
#else
SECTION(runs, 8) { c.cases(30, [&] { drive(c, false); }); }
SECTION(shipped, 1) { c.cases(2, [&] { drive(c, true); }); }
SECTION(usage, 1) {
  c.cases(4, [&] { const int n = c.rng.coin() ? 1 : 3; Scratch dir; std::vector<std::string> a(n, "conf.xml"); const Run run = prog::run(a); c.note("%d arguments", n); c.check(run.code != 0 && run.err.find("Usage") != std::string::npos && !exists("poseData.txt"), "usage", "%d arguments: exit %d", n, run.code); c.seen(n); });
}
#endif
