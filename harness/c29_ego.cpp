// C29: windows of the egomotion calibrator
#include "c29_common.hpp"
#include <aslam/backend/ErrorTermTransformation.hpp>
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
using namespace aslam::calibration; using namespace cal; typedef Calibrator Cal; typedef Eigen::Matrix4d M4;
namespace {
struct Meas { int64_t t, duration; M4 motion; Eigen::Matrix<double, 6, 6> cov; };
typedef std::map<size_t, std::vector<Meas>> Pending;
M4 rigid(const M3& R, const V3& p) { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = p; return T; }
M4 inverse(const M4& T) { const M3 R = T.topLeftCorner<3, 3>(); return rigid(R.transpose(), -(R.transpose() * T.topRightCorner<3, 1>())); }
M4 carrier(const Cal& k, int64_t t) { return rigid(sm::kinematics::quat2r(k.getRotationSpline()->state()->value(t, 0)), k.getTranslationSpline()->state()->value(t, 0)); }
Term link(const M4& a, const M4& b, const Meas& m, const std::string& what) { const M4 D = inverse(a) * b * inverse(m.motion); Term t; t.e.resize(6); t.e.head<3>() = D.topRightCorner<3, 1>(); t.e.tail<3>() = sm::kinematics::quat2AxisAngle(sm::kinematics::r2quat(D.topLeftCorner<3, 3>())); t.W = m.cov.inverse(); t.what = what; return t; }
std::vector<Term> expectAll(const Cal& k, const Pending& p, size_t ref, int64_t bound) {
  std::vector<Term> l; const auto s = k.getTranslationSpline()->state();
  for (auto& q : p) { bool any = false; M4 prev; int i = 0;
    for (auto& m : q.second) { M4 cur; ++i;
      if (q.first == ref) cur = carrier(k, m.t);
      else { auto& v = k.getDesignVariables()->calibrationVariables_.at(q.first); const int64_t at = m.t - std::get<0>(v)->toScalar().getNumerator(); if (at - bound < s->t0 || at + bound > s->t1) continue; cur = carrier(k, at) * rigid(std::get<2>(v)->toRotationMatrix(), std::get<1>(v)->toEuclidean()); }
      if (any) l.push_back(link(prev, cur, m, "sensor " + std::to_string(q.first) + " motion " + std::to_string(i))); prev = cur; any = true; } }
  return l;
}
void expectFit(mon::Ctx& c, const FitRule& o, const std::vector<Meas>& ref, M4& pose) {
  std::vector<int64_t> t = {ref[0].t - ref[0].duration}; std::vector<M4> T = {pose}; for (auto& m : ref) { t.push_back(m.t); T.push_back(T.back() * m.motion); } std::vector<V3> p; std::vector<M3> R; for (auto& x : T) { p.push_back(x.topRightCorner<3, 1>()); R.push_back(x.topLeftCorner<3, 3>()); }
  judgeFit(c, o, t, p, R, ref.size()); pose = T.back(); }
}
SECTION(windows, 4) {
  c.cases(250, [&] {
    auto& r = c.rng; const double delta = r.uni(-1, 1); PT t; FitRule o; const bool scaled = r.coin(0.8), verbose = r.coin(0.25); estimatorConfig(t, delta, scaled); splineConfig(t, r, o); const double window = r.coin(0.3) ? 0.25 * (double)(1 + r.below(8)) : r.uni(0.3, 3); const int64_t bound = r.coin(0.2) ? 1000000 : (int64_t)r.uni(1e6, 8e7); t.setDouble("windowDuration", window); t.setBool("verbose", verbose); t.setInt("delayBound", (int)bound);
    const int n = 1 + (int)r.below(3); std::vector<size_t> ids = {0, 1, 2, 3, 17, 4}; r.shuffle(ids); const size_t ref = ids[5]; t.setInt("referenceSensor", (int)ref); t.setInt("sensors/num", n);
    for (int i = 0; i < n; ++i) { const std::string p = "sensors/sensor_" + std::to_string(i) + "/"; t.setInt(p + "idx", (int)ids[i]); for (const char* k : {"x", "y", "z"}) t.setDouble(p + "extrinsics/translation/" + k, r.normal()); t.setDouble(p + "extrinsics/rotation/yaw", r.uni(-3, 3)); t.setDouble(p + "extrinsics/rotation/pitch", r.uni(-1, 1)); t.setDouble(p + "extrinsics/rotation/roll", r.uni(-3, 3)); t.setInt(p + "intrinsics/timeDelay", r.coin(0.2) ? 0 : (int)r.uni(-1e8, 1e8)); for (const char* k : {"intrinsics/timeDelayActive", "extrinsics/translation/active", "extrinsics/rotation/active"}) t.setBool(p + k, r.coin()); }
    std::ostringstream sink; auto old = std::cout.rdbuf(sink.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } restore{old};
    Script script(r, delta); Cal k(t); std::vector<const DV*> calib; for (auto& v : k.getDesignVariables()->calibrationVariables_) { calib.push_back(std::get<0>(v.second).get()); calib.push_back(std::get<1>(v.second).get()); calib.push_back(std::get<2>(v.second).get()); }
    std::map<size_t, std::vector<V>> history; for (int i = 0; i < n; ++i) history[ids[i]].push_back(k.getDesignVariables()->getParameters(ids[i]));
    Pending pend; M4 pose = M4::Identity(); int64_t start = -1, last = -1; bool due = false; size_t offers = 0, waits = 0; std::set<const Batch*> seen; std::vector<boost::shared_ptr<Batch>> keep;
    script.onOffer = [&](Inc& p) {
      ++offers; if (!c.check(due, "offer-unexpected", "a batch is offered")) return; due = false; const auto b = p.getOptimizationProblems().back(); c.check(seen.insert(b.get()).second, "offer-again", "the batch was offered before"); keep.push_back(b);
      expectFit(c, o, pend[ref], pose); judgeGroups(c, *b, k.getTranslationSpline(), k.getRotationSpline(), calib); std::vector<ET*> got; for (size_t i = 0; i < b->numErrorTerms(); ++i) { got.push_back(b->errorTerm(i)); got.back()->evaluateError(); } judgeTerms(c, expectAll(k, pend, ref, bound), {}, got); };
    auto offer = [&](const std::function<void()>& op, bool attempt) {
      if (attempt && pend.count(ref) && pend[ref].size() == 1) { k.clearMeasurements(); pend.clear(); } // a single motion need not make an error term
      const size_t before = offers; due = attempt && pend.count(ref); const bool want = due; if (attempt && !want) ++waits; bsplines::fitLog().clear(); sink.str(""); op();
      if (want && verbose) { std::vector<std::pair<std::string, const DV*>> names; for (auto& v : k.getDesignVariables()->calibrationVariables_) { const std::string id = std::to_string(v.first); names.push_back({"t_" + id, std::get<0>(v.second).get()}); for (int i = 1; i < 4; ++i) names.push_back({"r_" + id + "_" + std::to_string(i), std::get<1>(v.second).get()}); for (int i = 1; i < 4; ++i) names.push_back({"R_" + id + "_" + std::to_string(i), std::get<2>(v.second).get()}); } judgeReport(c, sink.str(), names, script.basis, scaled); }
      if (!c.check(offers == before + (want ? 1 : 0), "offer-count", "%zu batches offered, want %d", offers - before, (int)want)) return false;
      if (want) { pend.clear(); start = last; for (int i = 0; i < n; ++i) history[ids[i]].push_back(k.getDesignVariables()->getParameters(ids[i])); } return true; };
    const Path path(r); const int64_t t0 = (int64_t)(4000000000ull + (r.coin() ? r.below(2000000000) : 1400000000000000000ull + r.below(2000000000))); int64_t now = t0, lastRef = t0 - 100000000; const bool grid = r.coin(0.3); std::vector<double> rate(n + 1); rate[n] = r.uni(4, 20); for (int i = 0; i < n; ++i) rate[i] = r.coin(0.2) ? 0 : r.uni(3, 15); std::string ops; const int wanted = 2 + (int)r.below(4); bool drought = false;
    auto at = [&](int64_t x) { const double s = (double)(x - t0) * 1e-9; return rigid(rotation(path.attitude(s)), path.at(s)); }; auto noise = [&](double s) { return rigid(rotation(rnd(r, s)), rnd(r, s)); };
    for (int step = 0; step < 260 && (int)offers < wanted; ++step) {
      const double u = r.u01(); const char* what = "measurement";
      if (u < 0.94) {
        double total = 0; for (double x : rate) total += x; double pick = r.uni(0, total); int w = 0; while (w < n && (pick -= rate[w]) > 0) ++w; if (r.coin(0.01)) drought = !drought; if (drought && r.coin(0.1)) drought = false; if (drought && n) w = (int)r.below(n);
        int64_t dt = grid ? 62500000 * (int64_t)r.below(4) : (int64_t)(r.uni(0, 2) / total * 1e9); if (r.coin(0.02)) dt += (int64_t)(r.uni(0, 2) * window * 1e9); now += dt; if (now == last && (w == n || r.coin(0.5))) now += grid ? 62500000 : 1 + (int64_t)r.below(1000000);
        Meas m; m.t = now; m.cov = cov(r, 6); const size_t id = w == n ? ref : ids[w]; m.duration = now - lastRef; if (w == n) { m.motion = inverse(at(lastRef)) * at(now) * noise(0.003); lastRef = now; } else { const M4 e = rigid(rotation(V3(r.normal(), 0, 0)), V3(0.3, 0.1, 0)); m.duration = (int64_t)r.uni(1e7, 2e8); m.motion = inverse(e) * inverse(at(now - m.duration)) * at(now) * e * noise(0.01); }
        MotionMeasurement x; x.motion = sm::kinematics::Transformation(m.motion); m.motion = x.motion.T(); x.duration = m.duration; x.sigma2 = m.cov; last = now; if (start == -1) start = now; if (!offer([&] { k.addMotionMeasurement(x, now, id); }, sm::timing::nsecToSec(now - start) >= window)) return; pend[id].push_back(m); ops += w == n ? 'r' : 'm'; }
      else if (u < 0.965) { what = "prediction"; ops += 'p'; bsplines::fitLog().clear(); const size_t before = offers; k.predict(); c.check(offers == before, "offer-unexpected", "a prediction offers a batch"); if (pend.count(ref)) { M4 copy = pose; expectFit(c, o, pend[ref], copy); c.count("predictions made"); } }
      else if (u < 0.975) { what = "clearing predictions"; ops += 'c'; k.clearPredictions(); }
      else if (u < 0.985) { what = "clearing measurements"; ops += 'x'; k.clearMeasurements(); pend.clear(); }
      else { what = "flush"; ops += 'f'; if (!offer([&] { k.addMeasurements(); }, true)) return; }
      c.check(k.unprocessedMeasurements() == !pend.empty(), "unprocessed", "after %s", what); const auto& gains = k.getInformationGainHistory(); if (!c.check(gains.size() == offers, "history-size", "after %s: %zu gains for %zu offers", what, gains.size(), offers)) return;
      for (size_t i = 0; i < offers; ++i) c.check(std::fabs(gains[i] - script.gains[i]) <= 1e-9 * (1 + std::fabs(gains[i])), "gain-history", "entry %zu is %g want %g", i, gains[i], script.gains[i]);
      const auto h = k.getDesignVariablesHistory(); c.check((int)h.size() == n, "history-size", "%zu sensors", h.size()); for (auto& x : h) c.check(x.second == history[x.first], "variable-history", "after %s: sensor %zu has %zu entries, want %zu", what, x.first, x.second.size(), history[x.first].size());
    }
    c.check((size_t)k.getEstimator()->getNumBatches() == (size_t)script.accepted, "batches-kept", "%zu want %d", (size_t)k.getEstimator()->getNumBatches(), script.accepted);
    c.count("batches offered", offers); c.count("batches accepted", script.accepted); c.count("windows that kept accumulating", waits); if (offers) c.seen(mon::hcomb(mon::hashStr(ops), mon::hd(window))); c.sample(std::to_string(offers) + " offers: " + ops.substr(0, 60));
  });
}
