// C38: the simulation programs of the time-delay and egomotion examples against the library they call
#include "c38_common.hpp"
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <bsplines/splines.hpp>
#ifdef EX_EGO
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#define CONF "egomotion_sensors/conf/simulation.xml"
#define ROOT "egomotion"
#else
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#define CONF "time_delay/conf/simulation.xml"
#define ROOT "time-delay"
#endif
using namespace aslam::calibration; using namespace prog; typedef Eigen::VectorXd V; typedef Eigen::Vector3d V3;
namespace {
struct Quiet { std::ostringstream sink; std::streambuf* b; Quiet() : b(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
V3 angles(mon::Rng& r, double s) { return V3(r.uni(-3, 3), s * r.uni(-1.2, 1.2), s * r.uni(-3, 3)); }
}
namespace { void drive(mon::Ctx& c) {
    auto& r = c.rng; Scratch dir; sm::BoostPropertyTree t; t.loadXml(repo() + "/incremental_calibration_examples/incremental_calibration_examples_" CONF); const std::string s = ROOT "/simulation/params/", k = ROOT "/calibrator/"; const uint64_t seed = 1 + r.below(1000000);
    const double dt = r.uni(0.05, 0.12), T = dt * r.uni(40, 90), delta = r.coin() ? -1e9 : r.coin(0.2) ? 1e9 : r.uni(-0.5, 1.5); const bool single = r.coin(); // one window, or several
    t.setDouble(s + "dt", dt); t.setDouble(s + "T", T); t.setDouble(s + "trajectory/A", r.uni(1, 6)); t.setDouble(s + "trajectory/f", r.uni(0.1, 0.3)); t.setDouble(k + "windowDuration", single ? 1e18 : T / r.uni(1.5, 3.2)); t.setBool(k + "verbose", r.coin()); t.setDouble(k + "estimator/infoGainDelta", delta); t.setInt(k + "splines/splineKnotsPerSecond", 3 + (int)r.below(4)); t.setDouble(k + "estimator/optimizer/linearSolver/epsSVD", r.logu(1e-10, 1e-8)); t.setInt(k + "estimator/optimizer/maxIterations", delta > 1e6 ? 1 : 2 + (int)r.below(6)); t.setBool(k + "estimator/checkValidity", delta > 1e6); /* nothing is kept */ if (delta > 1e6) c.count("runs that keep nothing");
#ifdef EX_EGO
    static const char* types[] = {"straight", "sinePlanar", "random", "combined"}; t.setString(s + "trajectory/type", types[r.below(4)]); const bool noisy = r.coin(); t.setBool(k + "useNoisyData", noisy); std::vector<size_t> ids = {0, 1, 2, 5, 9}; r.shuffle(ids); const int n = 1 + (int)r.below(2); const size_t ref = ids[2]; t.setInt(k + "referenceSensor", (int)ref); t.setInt(s + "calibration/num", n); t.setInt(k + "sensors/num", n);
    for (int i = 0; i <= n; ++i) { const std::string q = "noise/sensor_" + std::to_string(i) + "/"; t.setInt(s + q + "idx", (int)(i < n ? ids[i] : ref)); for (int j = 1; j <= 6; ++j) t.setDouble(s + q + "e" + std::to_string(j), r.logu(1e-8, 1e-5)); }
    std::vector<size_t> there(ids.begin(), ids.begin() + n); r.shuffle(there);
    for (int i = 0; i < n; ++i) { const std::string q = "calibration/sensor_" + std::to_string(i) + "/", p = "sensors/sensor_" + std::to_string(i) + "/"; t.setInt(s + q + "idx", (int)ids[i]); t.setInt(k + p + "idx", (int)there[i]); t.setInt(s + q + "intrinsics/timeDelay", (int)r.uni(-3e7, 3e7)); t.setInt(k + p + "intrinsics/timeDelay", 0); t.setBool(k + p + "intrinsics/timeDelayActive", r.coin()); t.setBool(k + p + "extrinsics/translation/active", r.coin(0.8)); t.setBool(k + p + "extrinsics/rotation/active", true); const V3 a = angles(r, 1); for (int j = 0; j < 3; ++j) { t.setDouble(s + q + "extrinsics/translation/" + "xyz"[j], r.uni(-1, 1)); t.setDouble(s + q + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[j], a(j)); t.setDouble(k + p + "extrinsics/translation/" + "xyz"[j], r.uni(-1, 1)); t.setDouble(k + p + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[j], a(j) + r.uni(-0.1, 0.1)); } }
    c.note("%d sensors, reference %zu, %s, dt %.4g T %.4g, %s window", n, ref, noisy ? "noisy" : "noise-free", dt, T, single ? "one" : "more than one");
#else
    const std::string w = "calibration/odometry/wss/", o = "odometry/"; const double b = r.uni(0.3, 1), kl = r.uni(1, 300), kr = r.uni(1, 300), tl = r.uni(-0.05, 0.05), tr = r.uni(-0.05, 0.05); t.setDouble(s + w + "b", b); t.setDouble(s + w + "k_l", kl); t.setDouble(s + w + "k_r", kr); t.setDouble(s + w + "t_l", tl); t.setDouble(s + w + "t_r", tr);
    const V3 a = angles(r, 0.3); for (int j = 0; j < 3; ++j) { const std::string e = "e" + std::to_string(j + 1); t.setDouble(s + "calibration/v_T_p/v_r_vp/" + e, r.uni(-1, 1)); t.setDouble(s + "calibration/v_T_p/v_R_p/" + e, a(j)); t.setDouble(s + "noise/pose/sigma2_w_r_wp/" + e, r.logu(1e-8, 1e-5)); t.setDouble(s + "noise/pose/sigma2_w_R_p/" + e, r.logu(1e-8, 1e-5)); t.setDouble(k + o + "extrinsics/translation/" + "xyz"[j], r.uni(-1, 1)); t.setDouble(k + o + "extrinsics/rotation/" + std::vector<std::string>{"yaw", "pitch", "roll"}[j], a(j) + r.uni(-0.1, 0.1)); }
    t.setDouble(s + "noise/odometry/wss/sigma2_l", r.logu(1e-8, 1e-4)); t.setDouble(s + "noise/odometry/wss/sigma2_r", r.logu(1e-8, 1e-4)); t.setDouble(k + o + "intrinsics/halfWheelBase", b * r.uni(0.9, 1.1)); t.setDouble(k + o + "intrinsics/lwCoefficient", kl * r.uni(0.9, 1.1)); t.setDouble(k + o + "intrinsics/rwCoefficient", kr * r.uni(0.9, 1.1)); t.setBool(k + o + "intrinsics/timeDelaysActive", r.coin()); t.setDouble(k + o + "sensors/wss/noise/lwVariance", 1e-4 * kl * kl); t.setDouble(k + o + "sensors/wss/noise/rwVariance", 1e-4 * kr * kr);
    c.note("dt %.4g T %.4g, %s window", dt, T, single ? "one" : "more than one");
#endif
    t.saveXml("conf.xml"); bool bound = false;
    try { Randomizer<double>().setSeed(seed); const Run run = prog::run({"conf.xml"}); c.check(run.code == 0, "exit", "the program ended with %d: %s", run.code, run.err.c_str()); }
    catch (std::runtime_error& x) { if (std::string(x.what()).find("outside of its bounds") == std::string::npos) throw; bound = true; } // the optimizer of the stand-in has no trust region
    c.count("program runs"); sm::BoostPropertyTree again; again.loadXml("conf.xml"); const sm::PropertyTree& conf = again; Quiet quiet; SimulationData d; Randomizer<double>().setSeed(seed);
#ifdef EX_EGO
    const SimulationParams params(sm::PropertyTree(conf, s.substr(0, s.size() - 1)), conf); simulate(params, d); Rows traj; { std::ofstream f("reference.txt"); f << std::fixed; f.precision(18); writeSplines(d.trajectory.translationSpline, d.trajectory.rotationSpline, dt, f); } compare(c, "w_T_v.txt", rows(std::string("reference.txt")), 1e-12);
    auto motions = [&](const MeasurementsContainer<MotionMeasurement>::Type& m) { Rows w; for (auto& x : m) w.push_back(row({x.second.motion.t(), x.second.motion.q()})); return w; };
    c.check(d.motionData.size() == (size_t)n + 1 && d.motionDataNoisy.size() == (size_t)n + 1, "harness", "sensors"); for (auto& m : d.motionData) compare(c, ("motionData_" + std::to_string(m.first) + ".txt").c_str(), motions(m.second), 1e-12); for (auto& m : d.motionDataNoisy) compare(c, ("motionDataNoisy_" + std::to_string(m.first) + ".txt").c_str(), motions(m.second), 1e-12);
    for (size_t i = 0; i < 20; ++i) c.check(exists("motionData_" + std::to_string(i) + ".txt") == (d.motionData.count(i) > 0), "file-extra", "motions of sensor %zu", i);
#else
    const SimulationParams params(sm::PropertyTree(conf, s.substr(0, s.size() - 1))); simulate(params, d); { std::ofstream f("reference.txt"); f << std::fixed; f.precision(18); d.trajectory.w_T_vWrite(f); } compare(c, "w_T_v.txt", rows(std::string("reference.txt")), 1e-12);
    Rows x[8]; for (auto& m : d.w_v_wwl) x[0].push_back(row({m})); for (auto& m : d.w_v_wwr) x[1].push_back(row({m})); for (auto& m : d.rwData) x[2].push_back({m.second.value}); for (auto& m : d.lwData) x[3].push_back({m.second.value}); for (auto& m : d.poseData) x[4].push_back(row({m.second.w_r_wp, m.second.w_R_p})); for (auto& m : d.rwData_n) x[5].push_back({m.second.value}); for (auto& m : d.lwData_n) x[6].push_back({m.second.value}); for (auto& m : d.poseData_n) x[7].push_back(row({m.second.w_r_wp, m.second.w_R_p}));
    static const char* names[] = {"w_v_wwl.txt", "w_v_wwr.txt", "rwData.txt", "lwData.txt", "poseData.txt", "rwData_n.txt", "lwData_n.txt", "poseData_n.txt"}; for (int i = 0; i < 8; ++i) compare(c, names[i], x[i], 6e-6);
#endif
    if (bound) { c.count("delay left its bounds on the way"); return; }
    if (!single) { // several windows: one line per batch offered (the histories of the parameters start with the guess), every one complete
      const Rows g = rows(std::string("infoGainHist.txt")); c.check(g.size() >= 1, "history", "no batch was offered"); for (auto& l : g) c.check(l.size() == 1, "file-columns", "infoGainHist.txt");
#ifdef EX_EGO
      for (int i = 0; i < n; ++i) { const Rows h = rows("calibHist_" + std::to_string(ids[i]) + ".txt"); c.check(h.size() == g.size() + 1, "history", "sensor %zu: %zu lines for the guess and %zu batches", ids[i], h.size(), g.size()); for (auto& l : h) c.check(l.size() == 7, "file-columns", "calibHist"); }
#else
      const Rows h = rows(std::string("calibHist.txt")); c.check(h.size() == g.size() + 1, "history", "%zu lines for the guess and %zu batches", h.size(), g.size()); for (auto& l : h) c.check(l.size() == 11, "file-columns", "calibHist.txt");
#endif
      c.count("batches offered", g.size()); c.seen(mon::hd(dt)); return;
    }
    Calibrator cal(sm::PropertyTree(conf, k.substr(0, k.size() - 1)));
    try {
#ifdef EX_EGO
      auto& all = noisy ? d.motionDataNoisy : d.motionData; for (size_t i = 0; i < all.at(ref).size(); ++i) for (auto& m : all) cal.addMotionMeasurement(m.second.at(i).second, m.second.at(i).first, m.first);
#else
      for (size_t i = 0; i < d.rwData_n.size(); ++i) { cal.addRightWheelMeasurement(d.rwData_n[i].second, d.rwData_n[i].first); cal.addLeftWheelMeasurement(d.lwData_n[i].second, d.lwData_n[i].first); cal.addPoseMeasurement(d.poseData_n[i].second, d.poseData_n[i].first); }
#endif
      c.check(cal.unprocessedMeasurements(), "harness", "nothing left to process"); cal.addMeasurements();
    } catch (std::runtime_error& e) { if (std::string(e.what()).find("outside of its bounds") == std::string::npos) throw; return; }
    Rows g; for (double x : cal.getInformationGainHistory()) g.push_back({x}); c.check(g.size() == 1, "harness", "%zu batches", g.size()); compare(c, "infoGainHist.txt", g, 1e-6, 1e-6);
#ifdef EX_EGO
    for (auto& h : cal.getDesignVariablesHistory()) { Rows w; for (auto& v : h.second) w.push_back(row({v})); compare(c, ("calibHist_" + std::to_string(h.first) + ".txt").c_str(), w, 1e-6, 1e-6); }
#else
    Rows h; for (auto& v : cal.getOdometryVariablesHistory()) h.push_back(row({v})); compare(c, "calibHist.txt", h, 1e-6, 1e-6);
#endif
    { std::ofstream f("reference.txt"); f << std::fixed; f.precision(18); writeSplines(cal.getEstimator(), dt, f); } const Rows est = rows(std::string("reference.txt")); compare(c, "w_T_v_est.txt", est, 1e-6, 1e-6); if (!est.empty()) c.count("estimated trajectories compared"); c.seen(mon::hd(dt)); c.sample("dt " + std::to_string(dt) + ", " + std::to_string(est.size()) + " estimated poses");
} }
#ifdef REPEAT
#include "c41_repeat.hpp"
SECTION(repeat, 8) { c.cases(30, [&] { twice(c, [&] { drive(c); }); }); }
#else
SECTION(runs, 8) { c.cases(40, [&] { drive(c); }); }
SECTION(usage, 1) {
  c.cases(4, [&] { const int n = c.rng.coin() ? 0 : 2; Scratch dir; std::vector<std::string> a(n, "conf.xml"); const Run run = prog::run(a); c.note("%d arguments", n); c.check(run.code != 0 && run.err.find("Usage") != std::string::npos && !exists("w_T_v.txt"), "usage", "%d arguments: exit %d", n, run.code); c.seen(n); });
}
#endif
