// C35: what is written out is what was estimated or simulated, complete and in order
#include "c29_common.hpp"
#include <bsplines/BSplineFitter.hpp>
#include <fstream>
#include <sys/stat.h>
#if defined(EX_CAR)
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/algo/splinesToFile.h>
#elif defined(EX_TD)
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#else
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#endif
using namespace aslam::calibration; using namespace cal; typedef OptimizationProblemSpline Problem;
typedef Eigen::Vector4d Q;
namespace {
/// a scratch file of this process, removed with the object
struct Scratch {
  std::string dir, file; Scratch() { char b[] = "/tmp/verif_c35_XXXXXX"; if (!mkdtemp(b)) throw std::runtime_error("no scratch directory"); dir = b; file = dir + "/out.txt"; } ~Scratch() { unlink(file.c_str()); rmdir(dir.c_str()); }
  std::vector<std::vector<double>> rows(mon::Ctx& c, bool& ok) const { std::vector<std::vector<double>> t; std::ifstream in(file.c_str()); std::string l; ok = true; while (std::getline(in, l)) { std::istringstream s(l); t.emplace_back(); std::string w; while (s >> w) { char* e; t.back().push_back(strtod(w.c_str(), &e)); if (*e) ok = c.check(false, "format", "'%s' is no number", w.c_str()); } } return t; }
};
template <class F> std::vector<std::vector<double>> written(mon::Ctx& c, bool& ok, F f, bool fixed) { const Scratch s; { std::ofstream o(s.file.c_str()); o.precision(17); if (fixed) o << std::fixed; f(o); c.check(o.good(), "stream", "the stream is left in error"); } return s.rows(c, ok); }
bool equal(mon::Ctx& c, const char* sig, const std::vector<std::vector<double>>& got, const std::vector<std::vector<double>>& want, double tol, bool angles) {
  if (!c.check(got.size() == want.size(), sig, "%zu rows written, want %zu", got.size(), want.size())) return false;
  for (size_t i = 0; i < got.size(); ++i) { if (!c.check(got[i].size() == want[i].size(), sig, "row %zu has %zu entries, want %zu", i, got[i].size(), want[i].size())) return false;
    for (size_t k = 0; k < got[i].size(); ++k) { double d = got[i][k] - want[i][k]; if (angles && k > 2) d = wrap(d); if (!c.check(std::fabs(d) <= tol * (1 + std::fabs(want[i][k])), sig, "row %zu of %zu, column %zu is %.12g, want %.12g", i, got.size(), k, got[i][k], want[i][k])) return false; } }
  c.count("rows compared", got.size()); return true;
}
template <class T, class R> void fit(mon::Rng& r, T& tr, R& ro, int64_t t0, double seconds) {
  const int n = 4 + (int)r.below(8); std::vector<int64_t> t; std::vector<V3> p; std::vector<Q> q; Path path(r);
  for (int i = 0; i < n; ++i) { t.push_back(t0 + (int64_t)(seconds * 1e9 * i / (n - 1))); const double s = seconds * i / (n - 1); p.push_back(path.at(s)); Q x = sm::kinematics::r2quat(rotation(path.attitude(s))); if (i && x.dot(q.back()) < 0) x = -x; q.push_back(x); }
  const int segments = 1 + (int)r.below(n); typedef typename std::remove_reference<decltype(*tr)>::type TS; typedef typename std::remove_reference<decltype(*ro)>::type RS;
  bsplines::BSplineFitter<TS>::initUniformSpline(*tr, t, p, segments, 1e-4); bsplines::BSplineFitter<RS>::initUniformSpline(*ro, t, q, segments, 1e-4);
}
template <class SP> SP spline(mon::Rng& r) { typedef typename std::remove_reference<decltype(*SP())>::type S; return SP(new S(typename S::Conf_(typename S::Conf_::ManifoldConf(), 3 + (int)r.below(3)))); }
/// the rows one trajectory is to make
template <class T, class R> bool expect(mon::Ctx& c, const T& tr, const R& ro, double dt, std::vector<std::vector<double>>& want) {
  const auto a = tr->state(); const auto b = ro->state(); int64_t step = (int64_t)(dt * 1e9 + 0.5); if (std::fabs(dt * 1e9 - std::round(dt * 1e9)) > 0.4) return false; (void)c;
  for (int64_t t = a->t0; t < a->t1; t += step) { const V3 p = a->value(t, 0), y = yawPitchRoll(sm::kinematics::quat2r(b->value(t, 0))); want.push_back({p(0), p(1), p(2), y(0), y(1), y(2)}); }
  return true;
}
double stepFor(mon::Rng& r, double seconds) { double dt = r.coin(0.3) ? seconds / (1 + r.below(40)) : r.coin(0.2) ? seconds * r.uni(1, 3) : seconds / r.uni(1, 80); dt = std::max(1e-9, std::round(dt * 1e9) * 1e-9); return dt; }
double lengthOf(mon::Rng& r) { return r.coin(0.4) ? 0.25 * (1 + r.below(12)) : r.logu(1e-3, 20); }
int64_t startOf(mon::Rng& r) { return r.coin(0.3) ? 0 : r.coin() ? (int64_t)r.below(2000000000) : 1400000000000000000ll + (int64_t)r.below(2000000000); }
}
SECTION(trajectory, 4) {
  c.cases(600, [&] {
    auto& r = c.rng; TranslationSplineSP tr = spline<TranslationSplineSP>(r); RotationSplineSP ro = spline<RotationSplineSP>(r); const double s = lengthOf(r), dt = stepFor(r, s); fit(r, tr, ro, startOf(r), s); c.note("%g s every %g s", s, dt);
    std::vector<std::vector<double>> want; if (!expect(c, tr, ro, dt, want)) return; bool ok; const auto got = written(c, ok, [&](std::ofstream& o) { writeSplines(tr, ro, dt, o); }, r.coin()); if (ok) equal(c, "trajectory", got, want, 1e-9, true); c.seen(mon::hcomb(mon::hd(s), mon::hd(dt)));
#ifdef EX_EGO
    TranslationSplineSSP ts = spline<TranslationSplineSSP>(r); RotationSplineSSP rs = spline<RotationSplineSSP>(r); fit(r, ts, rs, startOf(r), s); want.clear(); expect(c, ts, rs, dt, want); const auto g2 = written(c, ok, [&](std::ofstream& o) { writeSplines(ts, rs, dt, o); }, r.coin()); if (ok) equal(c, "trajectory-simple", g2, want, 1e-9, true);
#endif
  });
}
SECTION(estimated, 4) {
  c.cases(150, [&] {
    auto& r = c.rng; const double delta = r.uni(-1, 1); Script script(r, delta); PT t; estimatorConfig(t, delta); auto est = boost::make_shared<core::Est>(sm::PropertyTree(t, "estimator"));
    core::VecSP calib = boost::make_shared<core::Vec>(core::randVec(r, 2)); calib->setActive(true); struct Kept { boost::shared_ptr<Problem> b; std::vector<TranslationSplineSP> t; std::vector<RotationSplineSP> q; }; std::vector<Kept> kept; const int n = (int)r.below(6); std::string ops; const double s = lengthOf(r), dt = stepFor(r, s);
    for (int i = 0; i < n; ++i) {
      Kept k; k.b = boost::make_shared<Problem>(); const int m = r.coin(0.7) ? 1 : (int)r.below(4); std::vector<const DV*> own; for (int j = 0; j < m; ++j) { auto tr = spline<TranslationSplineSP>(r); auto ro = spline<RotationSplineSP>(r); fit(r, tr, ro, startOf(r), r.coin() ? s : s * r.uni(0.2, 2)); k.t.push_back(tr); k.q.push_back(ro); }
      // added in any order of the two kinds: each kind keeps its own order
      std::vector<int> kinds; for (int j = 0; j < m; ++j) { kinds.push_back(0); kinds.push_back(1); } if (r.coin()) r.shuffle(kinds); size_t a = 0, b = 0; for (int x : kinds) { if (x) { auto sp = k.q[b++]; k.b->addSpline(sp, 0); for (auto& v : sp->state()->vertices) own.push_back(v.get()); } else { auto sp = k.t[a++]; k.b->addSpline(sp, 0); for (auto& v : sp->state()->vertices) own.push_back(v.get()); } }
      k.b->addDesignVariable(calib, 1); k.b->addErrorTerm(core::randTerm(r, {calib}));
      // what the batch says of its splines
      const Problem& cb = *k.b; c.check(cb.getNumTranslationSplines() == k.t.size() && cb.getNumRotationSplines() == k.q.size() && cb.getTranslationSplines() == k.t && cb.getRotationSplines() == k.q, "splines", "the batch holds %zu and %zu splines of %zu", cb.getNumTranslationSplines(), cb.getNumRotationSplines(), k.t.size());
      for (size_t j = 0; j < k.t.size(); ++j) c.check(cb.getTranslationSpline(j) == k.t[j].get() && k.b->getTranslationSpline(j) == k.t[j].get() && cb.getRotationSpline(j) == k.q[j].get() && k.b->getRotationSpline(j) == k.q[j].get(), "splines", "spline %zu", j);
      const size_t bad = core::badIndex(r, k.t.size()); c.check(core::kind([&] { cb.getTranslationSpline(bad); }) == "bound" && core::kind([&] { k.b->getTranslationSpline(bad); }) == "bound" && core::kind([&] { cb.getRotationSpline(bad); }) == "bound" && core::kind([&] { k.b->getRotationSpline(bad); }) == "bound", "splines", "spline %zu of %zu is not refused", bad, k.t.size());
      c.check(cb.numDesignVariables() == own.size() + 1, "spline-variables", "%zu variables, want %zu", cb.numDesignVariables(), own.size() + 1); size_t at = 0; for (auto d : own) { c.check(cb.designVariable(at) == d && cb.getGroupId(d) == 0 && d->isActive(), "spline-variables", "variable %zu of a spline", at); ++at; }
      const auto ret = est->addBatch(k.b, r.coin()); ops += ret.batchAccepted ? 'a' : 'r'; if (ret.batchAccepted) kept.push_back(k);
      if (r.coin(0.15) && kept.size() > 1) { const size_t x = r.below(kept.size()); est->removeBatch(x); kept.erase(kept.begin() + x); ops += 'd'; }
    }
    if (!c.check(est->getNumBatches() == kept.size(), "harness", "%zu batches of %zu", (size_t)est->getNumBatches(), kept.size())) return;
    std::vector<std::vector<double>> want; for (auto& k : kept) for (size_t j = 0; j < k.t.size(); ++j) if (!expect(c, k.t[j], k.q[j], dt, want)) return;
    bool ok; const auto got = written(c, ok, [&](std::ofstream& o) { writeSplines(est, dt, o); }, r.coin()); if (ok) equal(c, "estimated-trajectory", got, want, 1e-9, true); c.count("batches written", kept.size()); if (!kept.empty()) c.seen(mon::hcomb(mon::hashStr(ops), mon::hd(dt)));
  });
}
#ifdef EX_TD
SECTION(simulated, 2) {
  c.cases(400, [&] {
    auto& r = c.rng; SimulationData d; auto num = [&] { return r.signedLog(1e-9, 1e9); }; auto v3 = [&] { return V3(num(), num(), num()); }; typedef std::vector<std::vector<double>> Rows; Rows w[11]; bool ok;
    auto row = [](const V3& a) { return std::vector<double>({a(0), a(1), a(2)}); }; auto n = [&] { return r.coin(0.1) ? 0 : (int)r.below(12); };
    for (int i = n(); i > 0; --i) { const V3 a = v3(); d.w_v_wwl.push_back(a); w[0].push_back(row(a)); } for (int i = n(); i > 0; --i) { const V3 a = v3(); d.w_v_wwr.push_back(a); w[1].push_back(row(a)); }
    auto wheel = [&](decltype(d.rwData)& x, Rows& o) { int64_t t = (int64_t)r.below(1000000); for (int i = n(); i > 0; --i) { WheelSpeedMeasurement m; m.value = num(); x.push_back(std::make_pair(t, m)); t += 1000; o.push_back({m.value}); } };
    wheel(d.rwData, w[2]); wheel(d.rwData_n, w[3]); wheel(d.lwData, w[4]); wheel(d.lwData_n, w[5]);
    auto pose = [&](decltype(d.poseData)& x, Rows& o) { int64_t t = (int64_t)r.below(1000000); for (int i = n(); i > 0; --i) { PoseMeasurement m; m.w_r_wp = v3(); m.w_R_p = v3(); x.push_back(std::make_pair(t, m)); t += 1000; o.push_back({m.w_r_wp(0), m.w_r_wp(1), m.w_r_wp(2), m.w_R_p(0), m.w_R_p(1), m.w_R_p(2)}); } };
    pose(d.poseData, w[6]); pose(d.poseData_n, w[7]);
    for (int i = n(); i > 0; --i) { const V3 p = v3(), a(r.uni(-3, 3), r.uni(-1.4, 1.4), r.uni(-3, 3)); const M3 R = rotation(a); d.trajectory.w_T_v.push_back(sm::kinematics::Transformation(sm::kinematics::rt2Transform(R, p))); w[8].push_back({p(0), p(1), p(2), a(0), a(1), a(2)}); }
    for (int i = n(); i > 0; --i) { const V3 a = v3(); d.trajectory.v_v_wv.push_back(a); w[9].push_back(row(a)); } for (int i = n(); i > 0; --i) { const V3 a = v3(); d.trajectory.v_om_wv.push_back(a); w[10].push_back(row(a)); }
    const char* names[] = {"w_v_wwl", "w_v_wwr", "rwData", "rwData_n", "lwData", "lwData_n", "poseData", "poseData_n", "w_T_v", "v_v_wv", "v_om_wv"};
    const std::function<void(std::ofstream&)> f[] = {[&](std::ofstream& o) { d.w_v_wwlWrite(o); }, [&](std::ofstream& o) { d.w_v_wwrWrite(o); }, [&](std::ofstream& o) { d.rwDataWrite(o); }, [&](std::ofstream& o) { d.rwData_nWrite(o); }, [&](std::ofstream& o) { d.lwDataWrite(o); }, [&](std::ofstream& o) { d.lwData_nWrite(o); }, [&](std::ofstream& o) { d.poseDataWrite(o); }, [&](std::ofstream& o) { d.poseData_nWrite(o); }, [&](std::ofstream& o) { d.trajectory.w_T_vWrite(o); }, [&](std::ofstream& o) { d.trajectory.v_v_wvWrite(o); }, [&](std::ofstream& o) { d.trajectory.v_om_wvWrite(o); }};
    uint64_t h = 0; for (int i = 0; i < 11; ++i) { c.note("%s", names[i]); const auto got = written(c, ok, f[i], false); if (ok) equal(c, names[i], got, w[i], 1e-9, i == 8); h = mon::hcomb(h, w[i].size()); } c.seen(mon::hcomb(h, (uint64_t)(d.rwData.empty() ? 0 : mon::hd(d.rwData[0].second.value))));
  });
}
#endif
