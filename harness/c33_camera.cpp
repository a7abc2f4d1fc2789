// C33: the camera calibrator
#include "c33_common.hpp"
using namespace aslam::calibration; using namespace cam; typedef CameraCalibrator Cal; typedef aslam::backend::RotationQuaternion RQ; typedef aslam::backend::EuclideanPoint EP; typedef aslam::backend::HomogeneousPoint HP; typedef aslam::CameraGeometryDesignVariableContainer::Part Part;
namespace {
struct Shot { boost::shared_ptr<const shim::Scene> scene; };
typedef std::vector<std::shared_ptr<const shim::Scene>> Shots;
bool close(const TF& T, const DV* q, const DV* t) { auto a = dynamic_cast<const RQ*>(q); auto b = dynamic_cast<const EP*>(t); return a && b && (sm::kinematics::quat2r(a->getQuaternion()) - T.C()).norm() < 1e-9 && (b->toEuclidean() - T.t()).norm() < 1e-9; }
void judgeBatch(mon::Ctx& c, const Cal::Options& o, const Board& board, const Camera& camera, Batch& b, const Shots& shots) {
  size_t vars = 0; const auto& g = b.getDesignVariablesGroups(); std::vector<const HP*> marks(board.size(), nullptr); std::vector<const DV*> lens;
  if (c.check(g.count(o.landmarksGroupId) && g.at(o.landmarksGroupId).size() == board.size(), "batch-landmarks", "not one variable per corner")) for (auto& d : g.at(o.landmarksGroupId)) { ++vars; auto h = dynamic_cast<const HP*>(d.get()); if (!c.check(h, "batch-landmarks", "not a point")) continue; c.check(h->isActive() == o.estimateLandmarks, "batch-landmarks", "landmark estimated: %d", (int)h->isActive()); double best = 1e9; size_t at = 0; for (size_t i = 0; i < board.size(); ++i) { const double e = (h->toHomogeneous().head<3>() - board.point(i)).norm(); if (e < best) { best = e; at = i; } } c.check(best < (o.estimateLandmarks ? 0.1 : 1e-12) && h->toHomogeneous()(3) == 1, "batch-landmarks", "landmark off by %g", best); if (best < 0.1) { c.check(!marks[at], "batch-landmarks", "two landmarks for one corner"); marks[at] = h; } }
  if (c.check(g.count(o.calibrationGroupId) && g.at(o.calibrationGroupId).size() == 2, "batch-calibration", "not two variables")) for (auto& d : g.at(o.calibrationGroupId)) { ++vars; c.check(dynamic_cast<const Part*>(d.get()) && d->isActive(), "batch-calibration", "not an estimated part of the camera"); lens.push_back(d.get()); }
  std::vector<std::pair<const DV*, const DV*>> poses(shots.size());
  if (c.check(g.count(o.transformationsGroupId) && g.at(o.transformationsGroupId).size() == 2 * shots.size(), "batch-poses", "%zu variables for %zu images", g.count(o.transformationsGroupId) ? g.at(o.transformationsGroupId).size() : 0, shots.size())) { std::vector<const DV*> q, t; for (auto& d : g.at(o.transformationsGroupId)) { ++vars; c.check(d->isActive(), "batch-poses", "a pose is not estimated"); (dynamic_cast<const RQ*>(d.get()) ? q : t).push_back(d.get()); }
    for (size_t i = 0; i < shots.size(); ++i) { for (auto a : q) for (auto e : t) if (close(shots[i]->pose, a, e)) poses[i] = {a, e}; c.check(poses[i].first, "batch-poses", "image %zu has no pose", i); } }
  c.check(b.numDesignVariables() == vars, "batch-variables", "%zu want %zu", b.numDesignVariables(), vars);
  std::vector<bool> taken(b.numErrorTerms(), false); size_t want = 0;
  for (size_t i = 0; i < shots.size(); ++i) for (size_t k = 0; k < board.size(); ++k) { if (!shots[i]->seen[k]) continue; ++want; if (!poses[i].first || !marks[k]) continue; V2 pred; camera.see(shots[i]->pose, marks[k]->toHomogeneous().head<3>(), pred); const V2 e = shots[i]->corner[k] - pred; bool found = false;
      for (size_t j = 0; j < taken.size() && !found; ++j) { if (taken[j]) continue; auto t = b.errorTerm(j); t->evaluateError(); if (t->dimension() != 2 || (t->vsError() - e).norm() > 1e-6 * (1 + e.norm())) continue; std::set<const DV*> d; for (size_t x = 0; x < t->numDesignVariables(); ++x) d.insert(t->designVariable(x)); std::set<const DV*> need(lens.begin(), lens.end()); need.insert(poses[i].first); need.insert(poses[i].second); need.insert(marks[k]); if (d != need) continue; found = taken[j] = true;
        c.check((t->vsInvR() - M::Identity(2, 2) / o.sigma2).norm() <= 1e-9 / o.sigma2, "term-weight", "corner %zu of image %zu: weight %g want %g", k, i, t->vsInvR()(0, 0), 1 / o.sigma2); c.check(!!t->mEstimator() == o.useMEstimator, "term-m-estimator", "corner %zu of image %zu", k, i); if (t->mEstimator()) { auto m = dynamic_cast<aslam::backend::BlakeZissermanMEstimator*>(t->mEstimator().get()); c.check(m && m->df() == 2, "term-m-estimator", "degrees of freedom"); } }
      c.check(found, "term-missing", "corner %zu of image %zu has no reprojection error of (%g, %g) on its own pose, corner and camera", k, i, e(0), e(1)); }
  const size_t left = std::count(taken.begin(), taken.end(), false); c.check(b.numErrorTerms() == want, "term-count", "%zu error terms for %zu corners seen (%zu unmatched)", b.numErrorTerms(), want, left); c.count("reprojection errors compared", want);
}
std::string key(const char* a, int col, int row) { return std::string(a) + "/c" + std::to_string(col) + "/r" + std::to_string(row); }
SECTION(calibrator, 4) {
  c.cases(120, [&] {
    auto& r = c.rng; const double delta = r.uni(-1, 1); const Camera start(r); Board board{2 + r.below(3), 2 + r.below(3), r.uni(0.02, 0.2), r.uni(0.02, 0.2)}; Cal::Options o; boardOptions(r, o, board); o.cameraProjectionType = start.name();
    std::vector<size_t> ids = {0, 1, 2, 3, 7, 40}; r.shuffle(ids); o.landmarksGroupId = ids[0]; o.calibrationGroupId = ids[1]; o.transformationsGroupId = ids[2]; o.estimateLandmarks = r.coin(0.3); o.batchNumImages = 1 + r.below(4); o.useMEstimator = r.coin(0.3);
    PT t; boardTree(t, o); t.setBool("estimateLandmarks", o.estimateLandmarks); t.setInt("landmarksGroupId", (int)o.landmarksGroupId); t.setInt("calibrationGroupId", (int)o.calibrationGroupId); t.setInt("transformationsGroupId", (int)o.transformationsGroupId); t.setInt("batchNumImages", (int)o.batchNumImages); t.setBool("useMEstimator", o.useMEstimator); estimatorConfig(t, delta, r.coin(0.8)); t.setInt("estimator/groupId", (int)o.calibrationGroupId);
    Muted mute; Script script(r, delta); M cov, basisS, basis; V svS, sv; const auto inner = script.g.s.analysis; script.g.s.analysis = [&](bool solving, std::ptrdiff_t k, const M& J, core::Analysis& a) { inner(solving, k, J, a); const int n = (int)(J.cols() - k); M q = core::randMat(r, n, n); a.cov = q * q.transpose() + M::Identity(n, n); a.null = core::randMat(r, n, 1 + (int)r.below(2)); a.sv = core::randVec(r, n).cwiseAbs(); };
    shim::detection() = shim::Detection(); shim::detection().initialize = [&](Geo& g) { start.give(g); };
    if (r.coin(0.04)) { o.cameraProjectionType = r.coin() ? "" : "Pinhole"; t.setString("cameraProjectionType", o.cameraProjectionType); std::string k; try { if (r.coin()) Cal x(t); else Cal x(boost::make_shared<IncrementalEstimator>(o.calibrationGroupId), o); } catch (const BadArgumentException<std::string>&) { k = "argument"; } catch (...) { k = "other"; } c.check(k == "argument", "unknown-type", "a camera of unknown type is not refused (%s)", k.c_str()); c.seen(mon::hashStr("unknown" + o.cameraProjectionType)); return; }
    const bool fromTree = r.coin(); boost::shared_ptr<Cal> kp; if (fromTree) kp = boost::make_shared<Cal>(t); else { IncrementalEstimator::Options eo; eo.infoGainDelta = delta; eo.checkValidity = false; eo.verbose = false; kp = boost::make_shared<Cal>(boost::make_shared<IncrementalEstimator>(o.calibrationGroupId, eo), o); } Cal& k = *kp;
    judgeVision(c, o, k.getOptions(), start.omni); const auto& go = k.getOptions(); c.check(go.estimateLandmarks == o.estimateLandmarks && go.landmarksGroupId == o.landmarksGroupId && go.calibrationGroupId == o.calibrationGroupId && go.transformationsGroupId == o.transformationsGroupId && go.batchNumImages == o.batchNumImages && go.useMEstimator == o.useMEstimator, "option", "options of the calibrator"); c.check(k.getEstimator()->getMargGroupId() == o.calibrationGroupId && k.getEstimator()->getOptions().infoGainDelta == delta, "option", "estimator");
    auto geo = shim::detection().geometry; if (!geo) return; std::string ops; Shots pending, kept; std::shared_ptr<const shim::Scene> last; bool ready = false, due = false; size_t offers = 0; int next = 1; std::set<const Batch*> seenB; std::vector<boost::shared_ptr<Batch>> keepB;
    script.onOffer = [&](Inc& p) { ++offers; if (!c.check(due, "offer-unexpected", "a batch is offered")) return; const auto b = p.getOptimizationProblems().back(); c.check(seenB.insert(b.get()).second, "offer-again", "the batch was offered before"); keepB.push_back(b); judgeBatch(c, o, board, Camera(*geo), *b, pending); };
    auto judgeState = [&](const char* what) {
      c.check(k.getBatchNumImages() == pending.size(), "pending-count", "after %s: %zu images pending, want %zu", what, k.getBatchNumImages(), pending.size()); Shots b, e; for (auto& x : k.getBatchObservations()) b.push_back(x->image().scene); for (auto& x : k.getEstimatorObservations()) e.push_back(x->image().scene); c.check(b == pending, "pending-observations", "after %s: %zu observations want %zu", what, b.size(), pending.size());
      auto s1 = e, s2 = kept; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); if (!c.check(s1 == s2, "kept-observations", "after %s: %zu observations kept, want %zu", what, e.size(), kept.size())) return false;
      for (size_t i = 0; i < e.size(); ++i) { const M4 T = k.getTransformation(i); c.check((T - e[i]->pose.T()).norm() < 2e-3, "kept-pose", "after %s: pose %zu of %zu differs from that of its image by %g", what, i, e.size(), (T - e[i]->pose.T()).norm()); auto g = k.getEstimator()->getProblem()->getDesignVariablesGroup(o.transformationsGroupId); bool exact = false; for (size_t j = 0; j + 1 < g.size() && !exact; ++j) { auto q = dynamic_cast<const RQ*>(g[j]); auto p = dynamic_cast<const EP*>(g[j + 1]); if (q && p) exact = (sm::kinematics::rt2Transform(q->toRotationMatrix(), p->toEuclidean()) - T).norm() < 1e-9; } c.check(exact, "kept-pose", "pose %zu is not an estimated one", i); }
      for (size_t i : {e.size(), e.size() + 1 + (size_t)r.below(5), (size_t)-1}) c.check(core::kind([&] { k.getTransformation(i); }) == "bound", "pose-index", "after %s: no refusal of pose %zu of %zu", what, i, e.size());
      cv::Mat m; const auto untouched = m.scene; k.getLastCheckerboardImage(m); c.check(m.scene == (last ? last : untouched), "last-image", "after %s", what);
      M p; geo->getParameters(p, true, false, false); c.check(k.getProjection() == p, "projection", "after %s", what); geo->getParameters(p, false, true, false); c.check(k.getDistortion() == p, "distortion", "after %s", what);
      const size_t nb = k.getEstimator()->getNumBatches(); c.check((int)nb == script.accepted, "batches-kept", "%zu want %d", nb, script.accepted); const M S = k.getEstimator()->getSigma2Theta(); const int np = (int)start.p.size();
      if (nb) { const V dv = S.diagonal(); c.check(dv.size() == np + 4 && k.getProjectionVariance() == dv.head(np) && k.getDistortionVariance() == dv.tail(4) && (k.getProjectionStandardDeviation() - V(dv.head(np).cwiseSqrt())).norm() < 1e-12 && (k.getDistortionStandardDeviation() - V(dv.tail(4).cwiseSqrt())).norm() < 1e-12, "deviations", "after %s", what); } else c.check(!k.getProjectionVariance().size() && !k.getDistortionVariance().size() && !k.getProjectionStandardDeviation().size() && !k.getDistortionStandardDeviation().size(), "deviations", "uncertainty reported without an estimate");
      // errors of the images kept, at the current estimate
      std::vector<V2> err; std::vector<double> md; k.getErrors(err, md); const Camera now(*geo); std::multiset<long> a, w; std::vector<V2> ref; auto lm = [&](size_t i) { V3 x = board.point(i); if (o.estimateLandmarks && nb) for (auto d : k.getEstimator()->getProblem()->getDesignVariablesGroup(o.landmarksGroupId)) { const V3 y = static_cast<const HP*>(d)->toHomogeneous().head<3>(); if ((y - board.point(i)).norm() < 5e-3) x = y; } return x; };
      for (size_t i = 0; i < e.size(); ++i) { const TF T(k.getTransformation(i)); for (size_t j = 0; j < board.size(); ++j) if (e[i]->seen[j]) { V2 q; now.see(T, lm(j), q); ref.push_back(e[i]->corner[j] - q); } }
      if (!c.check(err.size() == ref.size() && md.size() == ref.size(), "errors", "after %s: %zu errors and %zu distances for %zu corners", what, err.size(), md.size(), ref.size())) return false; std::vector<bool> taken(ref.size(), false);
      for (size_t i = 0; i < err.size(); ++i) { bool ok = false; for (size_t j = 0; j < ref.size() && !ok; ++j) if (!taken[j] && (err[i] - ref[j]).norm() < 1e-6 * (1 + ref[j].norm())) ok = taken[j] = true; c.check(ok, "errors", "after %s: error %zu is of no corner", what, i); const double x = err[i].squaredNorm() / o.sigma2; c.check(std::fabs(md[i] - x) <= 1e-9 * (1 + x), "distances", "error %zu: %g want %g", i, md[i], x); }
      const Stats s = stats(ref); V mean, var, sd; double mx = -1, my = -1; size_t out = 99999; k.getStatistics(mean, var, sd, mx, my, out);
      if (s.n == 0) c.check(!mean.size() && !var.size() && !sd.size() && mx == 0 && my == 0 && out == 0, "statistics", "statistics of nothing"); else if (s.sound) { size_t n = 0, edge = 0; for (auto& x : ref) { const double d = x.squaredNorm() / o.sigma2; n += d > quantile(0.975); edge += std::fabs(d - quantile(0.975)) < 1e-5; }
        const double tol = 1e-6 * (1 + s.max.norm()); c.check(mean.size() == 2 && (mean - V(s.mean)).norm() < tol, "statistics", "mean"); c.check(var.size() == 2 && (var - V(s.var)).norm() < tol * (1 + s.max.norm()), "statistics", "variance %g %g want %g %g", var.size() ? var(0) : 0, var.size() ? var(1) : 0, s.var(0), s.var(1)); c.check(sd.size() == 2 && (sd - V(s.var.cwiseSqrt())).norm() < 1e-3 * (1e-3 + s.var.cwiseSqrt().norm()), "statistics", "standard deviation"); c.check(std::fabs(mx - s.max(0)) < tol && std::fabs(my - s.max(1)) < tol, "statistics", "maxima"); c.check(edge || out == n, "statistics", "%zu outliers want %zu", out, n); c.count("statistics compared"); }
      return true; };
    auto judgeWrite = [&] {
      PT w; k.write(w); const int np = (int)start.p.size(); const V p = k.getProjection(), d = k.getDistortion(), ps = k.getProjectionStandardDeviation(), ds = k.getDistortionStandardDeviation(); const bool any = ps.size(); int i = start.omni ? 0 : 1; auto val = [&](const std::string& s, double v) { if (c.check(w.doesKeyExist(s), "written", "%s is missing", s.c_str())) c.check(w.getDouble(s) == v, "written", "%s is %.17g want %.17g", s.c_str(), w.getDouble(s), v); };
      const char* pn[] = {"xi", "fu", "fv", "cu", "cv"}; for (int j = 0; j < np; ++j, ++i) { val(std::string("projection/") + pn[i], p(j)); if (any) val(std::string("projection/sigma_") + pn[i], ps(j)); } const char* dn[] = {"k1", "k2", "p1", "p2"}; for (int j = 0; j < 4; ++j) { val(std::string("projection/distortion/") + dn[j], d(j)); if (any) val(std::string("projection/distortion/sigma_") + dn[j], ds(j)); }
      c.check(w.getInt("projection/ru", -1) == geo->projection().ru() && w.getInt("projection/rv", -1) == geo->projection().rv() && w.getString("projection/type", "") == start.name(), "written", "type or resolution");
      for (bool scaled : {false, true}) { const M B = k.getNobsBasis(scaled); for (int a = 0; a < B.cols(); ++a) for (int b = 0; b < B.rows(); ++b) val(key(scaled ? "nobsBasisScaled" : "nobsBasis", a, b), B(b, a)); c.check(!w.doesKeyExist(key(scaled ? "nobsBasisScaled" : "nobsBasis", (int)B.cols(), 0)), "written", "columns of the unobservable basis"); const V S = k.getEstimator()->getSingularValues(scaled); for (int a = 0; a < S.size(); ++a) val((scaled ? "scaledSingularValues/x" : "singularValues/x") + std::to_string(a), S(a)); }
      val("infoGainDelta", k.getEstimator()->getOptions().infoGainDelta); val("epsSVD", k.getEstimator()->getLinearSolverOptions().epsSVD);
      Camera now(*geo); const boost::shared_ptr<Geo> again = start.omni ? boost::shared_ptr<Geo>(new aslam::cameras::DistortedOmniCameraGeometry(w)) : boost::shared_ptr<Geo>(new aslam::cameras::DistortedPinholeCameraGeometry(w)); const Camera b(*again); c.check(b.p == now.p && b.d == now.d && b.ru == now.ru && b.rv == now.rv, "written", "the camera read back is another"); c.count("results written"); };
    auto offer = [&](const std::function<void()>& op, bool want, const char* what) { const size_t before = offers; due = want; op(); due = false; if (!c.check(offers == before + (want ? 1 : 0), "offer-count", "%s: %zu batches offered, want %d", what, offers - before, (int)want)) return false; if (want) { if (script.gains.back() > delta) kept.insert(kept.end(), pending.begin(), pending.end()); pending.clear(); } return true; };
    const int steps = 6 + (int)r.below(24); bool written = false; double when = 0;
    for (int s = 0; s < steps; ++s) {
      const double u = r.u01(); const char* what = "";
      if (!ready && u < 0.4) { const cv::Mat m = r.coin(0.3) ? blank(r) : image(r, start, board, pose(r, board, 0.5), 0.3, 0, 0); if (r.coin(0.3)) const_cast<shim::Scene*>(m.scene.get())->init = false; const bool want = m.scene->target && m.scene->init; what = "initialization"; ops += 'i'; c.check(k.initGeometry(m) == want, "initialization", "result"); ready = ready || want; }
      else if (u < 0.04 && ready) { const Camera before(*geo); const int n = shim::detection().inits; what = "second initialization"; ops += 'I'; c.check(k.initGeometry(blank(r)), "initialization", "not reported as done"); const Camera after(*geo); c.check(n == shim::detection().inits && before.p == after.p && before.d == after.d, "initialization", "the camera is initialized again"); }
      else if (u < 0.12) { what = "flush"; ops += 'f'; const bool want = !pending.empty(); if (!offer([&] { k.processBatch(); }, want, what)) return; }
      else if (u < 0.2 && ready) { what = "an image without board"; ops += 'b'; c.check(!offer([&] { c.check(!k.addImage(blank(r), 1), "blank-accepted", "result"); }, false, what) == false, "blank", "x"); }
      else { const Camera now = ready ? Camera(*geo) : start; const cv::Mat m = image(r, now, board, pose(r, board, 0.6), r.uni(0.1, 2) * std::sqrt(o.sigma2), r.coin() ? 0 : 0.3, next++); if (!std::count(m.scene->seen.begin(), m.scene->seen.end(), true)) continue; when += r.uni(0.01, 10); const auto ns = (sm::timing::NsecTime)(when * 1e9); what = "an image";
        if (!ready) { ops += 'x'; c.check(core::kind([&] { k.addImage(m, ns); }) == "operation", "not-initialized", "an image is accepted before the camera is initialized"); }
        else { ops += 'a'; pending.push_back(m.scene); last = m.scene; const bool full = pending.size() == o.batchNumImages; if (!offer([&] { c.check(k.addImage(m, ns), "image-refused", "result"); c.check(std::fabs(shim::detection().times.back() - when) < 1e-6, "time", "searched at another time"); }, full, what)) return; } }
      if (!judgeState(what)) return; if (r.coin(0.1) || s == steps - 1) { judgeWrite(); written = true; } }
    (void)written; if (offers) c.seen(mon::hcomb(mon::hashStr(ops), mon::hd(start.p(0)))); c.count("batches offered", offers); c.count("batches accepted", script.accepted); c.sample(std::string(start.name()) + " " + ops);
  });
}
/// noise-free images: the camera that took them is found
SECTION(recovery, 4) {
  c.cases(6, [&] {
    auto& r = c.rng; Camera truth(r); if (truth.omni) { truth.p(1) *= 0.7; truth.p(2) *= 0.7; } Board board{4 + r.below(4), 4 + r.below(4), 0.06, r.uni(0.05, 0.08)}; Cal::Options o; boardOptions(r, o, board); o.cameraProjectionType = truth.name(); o.verbose = false; o.batchNumImages = 1 + r.below(4); const size_t flip = r.coin(); o.calibrationGroupId = flip; o.transformationsGroupId = 1 - flip; o.landmarksGroupId = 2;
    Muted mute; shim::detection() = shim::Detection(); Camera start = truth; for (int i = 0; i < start.p.size(); ++i) start.p(i) *= r.uni(0.995, 1.005); start.d.setZero(); if (truth.omni) start.p(0) = truth.p(0); start.d = truth.d * r.uni(0, 1); shim::detection().initialize = [&](Geo& g) { start.give(g); };
    IncrementalEstimator::Options eo; eo.infoGainDelta = -1e9; eo.checkValidity = false; eo.verbose = false; LinearSolverOptions lo; lo.epsSVD = 1e-18; lo.columnScaling = true; IncrementalEstimator::OptimizerOptions oo; oo.maxIterations = 40; oo.convergenceDeltaJ = 1e-18; oo.convergenceDeltaX = 1e-12; oo.verbose = false; Cal k(boost::make_shared<IncrementalEstimator>(o.calibrationGroupId, eo, lo, oo), o);
    const int n = 8 + (int)r.below(5); int id = 1; std::vector<TF> poses; bool first = true; const cv::Mat init = image(r, truth, board, pose(r, board, 0.6), 0, 0, 0); c.check(k.initGeometry(init), "initialization", "result"); std::map<int, TF> real;
    // the whole set in one batch first, so that the calibration is determined from the start
    k.getOptions().batchNumImages = n; for (int i = 0; i < n + (int)o.batchNumImages * 2; ++i) { TF T = pose(r, board, 0.7, truth.omni); cv::Mat m = image(r, truth, board, T, 0, r.coin() ? 0 : 0.2, id); if (std::count(m.scene->seen.begin(), m.scene->seen.end(), true) < 8) { --i; continue; } real[id++] = T; auto s = const_cast<shim::Scene*>(m.scene.get()); s->pose = TF(sm::kinematics::updateQuat(T.q(), rnd(r, 0.01)), T.t() + rnd(r, 0.01)); if (i == n) k.getOptions().batchNumImages = o.batchNumImages; k.addImage(m, 1000000000ll * i); (void)first; }
    const auto geo = shim::detection().geometry; const Camera got(*geo); const double J = k.getFinalCost(); M S = k.getEstimator()->getSigma2Theta(); if (!(J < 1e-10) || k.getEstimator()->getRankThetaDeficiency() != 0) { c.count("not determined or not converged"); return; }
    for (int i = 0; i < got.p.size(); ++i) c.check(std::fabs(got.p(i) - truth.p(i)) < 1e-4 * (1 + std::fabs(truth.p(i))), "recovered-projection", "parameter %d is %g, the images were taken with %g", i, got.p(i), truth.p(i)); for (int i = 0; i < 4; ++i) c.check(std::fabs(got.d(i) - truth.d(i)) < 1e-4, "recovered-distortion", "parameter %d is %g want %g", i, got.d(i), truth.d(i));
    for (size_t i = 0; i < k.getEstimatorObservations().size(); ++i) { const M4 T = k.getTransformation(i), W = real[k.getEstimatorObservations()[i]->image().scene->id].T(); c.check((T - W).norm() < 1e-4, "recovered-pose", "image %zu: off by %g", i, (T - W).norm()); }
    c.seen(mon::hcomb(mon::hd(truth.p(0)), id)); c.count("cameras recovered"); c.sample(std::string(truth.name()) + " from " + std::to_string(id - 1) + " images");
  });
}
}
