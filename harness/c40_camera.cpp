// C40: the programs of the camera example, fed with the images of a bag
#include "c38_common.hpp"
#include "c33_common.hpp"
#include <aslam/calibration/base/Timestamp.h>
#include <opencv2/highgui/highgui.hpp>
#include <sensor_msgs/Image.h>
using namespace aslam::calibration; using namespace cam; using prog::Run; using prog::Rows; using prog::Scratch; using prog::exists; using prog::rows; using prog::figure; using prog::text;
#define CONF "/incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml"
namespace {
struct Frame { uint64_t stamp; cv::Mat image; bool board; };
std::vector<std::string> list(const char* dir) { std::vector<std::string> r; if (DIR* d = opendir(dir)) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); } std::sort(r.begin(), r.end()); return r; }
struct Scene { // what a run is made of
  sm::BoostPropertyTree t; Camera camera, start; Board board; std::vector<Frame> frames; std::string topic, id; bool visible = false; size_t batch = 1; double delta = 0;
  Scene(mon::Ctx& c, bool shipped) : camera(c.rng), start(camera), board{2 + c.rng.below(3), 2 + c.rng.below(3), c.rng.uni(0.02, 0.2), c.rng.uni(0.02, 0.2)} {
    auto& r = c.rng; t.loadXml(prog::repo() + CONF); const std::string k = "camera/calibrator/", e = k + "estimator/";
    if (shipped) { camera = Camera(true, camera.omni ? camera.p : V((V(5) << 0.8, camera.p).finished()), camera.d, camera.ru, camera.rv); board = Board{(size_t)t.getInt(k + "rows"), (size_t)t.getInt(k + "cols"), t.getDouble(k + "rowSpacingMeters"), t.getDouble(k + "colSpacingMeters")}; }
    else {
      t.setInt(k + "rows", (int)board.rows); t.setInt(k + "cols", (int)board.cols); t.setDouble(k + "rowSpacingMeters", board.rs); t.setDouble(k + "colSpacingMeters", board.cs); t.setString(k + "cameraProjectionType", camera.name()); t.setString("camera/rosTopic", "/cam" + std::to_string(r.below(1000))); t.setString("camera/cameraId", "id" + std::to_string(r.below(1000)));
      for (const char* q : {"calibrator/saveEstimatorImages", "calibrator/outputErrors", "validator/visualization", "validator/saveImages", "validator/outputErrors", "calibrator/verbose", "calibrator/useMEstimator", "calibrator/estimator/checkValidity"}) t.setBool(std::string("camera/") + q, r.coin()); t.setInt(k + "batchNumImages", 1 + (int)r.below(4)); t.setDouble(k + "sigma2", r.logu(0.05, 20)); t.setInt("camera/imageTime", 1 + (int)r.below(50)); t.setDouble(e + "infoGainDelta", r.coin() ? -1e6 : r.pick(std::vector<double>{0.5, 0.2, 0.05, 1, 2.25})); t.setInt(e + "optimizer/maxIterations", 1 + (int)r.below(6));
    }
    t.setBool(e + "optimizer/verbose", false); t.setDouble(e + "optimizer/linearSolver/epsSVD", r.logu(1e-10, 1e-8)); t.saveXml("conf.xml"); topic = t.getString("camera/rosTopic"); id = t.getString("camera/cameraId"); batch = t.getInt(k + "batchNumImages"); delta = t.getDouble(e + "infoGainDelta");
    start = camera; for (int i = 0; i < start.p.size(); ++i) start.p(i) *= r.uni(0.99, 1.01);
    const int n = shipped ? 4 : (int)r.below(12); uint64_t when = r.coin() ? 3000000000ull + r.below(1000000000) : 1400000000000000000ull + r.below(1000000000); rosbag::files().clear(); rosbag::files()["images.bag"]; const double noise = r.uni(0, 1);
    for (int i = 0; i < n; ++i) { Frame f; f.board = !r.coin(0.25); when += 1000000 + r.below(3000000000ull); f.stamp = when; if (f.board) { f.image = image(r, camera, board, pose(r, board, 0.6), noise, r.coin() ? 0 : 0.3, i); auto s = const_cast<shim::Scene*>(f.image.scene.get()); if (!std::count(s->seen.begin(), s->seen.end(), true)) { s->target = f.board = false; } s->init = r.coin(0.8); visible |= f.board && s->init; } else f.image = blank(r); frames.push_back(f); sensor_msgs::Image m; m.header.seq = i; m.header.stamp = ros::Time::fromNsec(f.stamp); m.pixels = f.image; rosbag::record("images.bag", topic, f.stamp + r.below(1000000), m); if (r.coin(0.1)) rosbag::record("images.bag", std::string("/other"), when, m); }
  }
  uint64_t begin() const { for (auto& r : rosbag::files()["images.bag"]) if (r.topic == topic) return r.time; return 0; }
  void reset() const { shim::detection() = shim::Detection(); const Camera s = start; shim::detection().initialize = [s](Geo& g) { s.give(g); }; shim::screen() = shim::Screen(); }
};
struct Figures { std::vector<double> got; };
void same(mon::Ctx& c, const Run& run, const char* label, const V& want) { // the text is fixed, six decimals
  if (!c.check(prog::has(run.out, label), "report", "no \"%s\"", label)) return; const size_t from = run.out.rfind("final parameters:"); const std::string tail = from == std::string::npos ? run.out : run.out.substr(from); if (!c.check(prog::has(tail, label), "report", "no \"%s\"", label)) return; const auto g = figure(tail, label); bool ok = g.size() == (size_t)want.size(); for (size_t i = 0; ok && i < g.size(); ++i) ok = std::fabs(g[i] - want(i)) <= 1e-6 + 1e-9 * std::fabs(want(i)) || (std::isnan(g[i]) && std::isnan(want(i))); { std::ostringstream x, y; x.precision(10); y.precision(10); for (double z : g) x << z << " "; y << want.transpose(); c.check(ok, "report", "%s: %s want %s", label, x.str().c_str(), y.str().c_str()); } c.count("figures compared", g.size()); }
V one(double x) { return V::Constant(1, x); }
void errorsCompare(mon::Ctx& c, bool asked, const std::vector<V2>& e, const std::vector<double>& md) {
  c.check(exists("errors.txt") == asked && exists("errorsMd2.txt") == asked, "errors-file", "error files %s", asked ? "missing" : "written unasked"); if (!asked) return; Rows a, b; for (auto& x : e) a.push_back({x(0), x(1)}); for (auto& x : md) b.push_back({x}); prog::compare(c, "errors.txt", a, 1e-9, 1e-12); prog::compare(c, "errorsMd2.txt", b, 1e-9, 1e-12); }
#ifdef CALIBRATE
Run program(std::vector<std::string> args) { Run run = prog::run(args); std::replace(run.out.begin(), run.out.end(), '\r', '\n'); return run; } // progress is written over itself
void drive(mon::Ctx& c, bool shipped) {
  auto& r = c.rng; Scratch dir; Scene s(c, shipped); const bool save = s.t.getBool("camera/calibrator/saveEstimatorImages"), out = s.t.getBool("camera/calibrator/outputErrors"); c.note("%zu images, board %zux%zu, batches of %zu, gain %g%s%s", s.frames.size(), s.board.rows, s.board.cols, s.batch, s.delta, save ? ", images saved" : "", out ? ", errors written" : "");
  bool any = false; for (auto& f : s.frames) any |= f.board; if (!s.frames.empty() && !s.visible) { s.reset(); std::string k; try { prog::run({"images.bag", "conf.xml"}); } catch (const InvalidOperationException&) { k = "operation"; } c.check(k == "operation", "not-initialized", "a camera that is never initialized is calibrated"); c.count("cameras never initialized"); return; }
  s.reset(); if (save && r.coin(0.3)) mkdir("images", 0755); const Run run = program({"images.bag", "conf.xml"}); c.count("program runs"); c.check(run.code == 0, "exit", "%d: %s", run.code, run.err.c_str()); const auto screen = shim::screen(); const auto times = shim::detection().times;
  c.check(times.size() == s.frames.size(), "images", "%zu images of %zu searched", times.size(), s.frames.size()); for (size_t i = 0; i < std::min(times.size(), s.frames.size()); ++i) c.check(std::fabs(times[i] - (double)s.frames[i].stamp * 1e-9) < 1e-6, "images", "image %zu searched with time %.9f want %.9f", i, times[i], (double)s.frames[i].stamp * 1e-9);
  // the library, given the same images
  s.reset(); Muted mute; sm::BoostPropertyTree again; again.loadXml("conf.xml"); const sm::PropertyTree& conf = again; CameraCalibrator k(sm::PropertyTree(conf, "camera/calibrator")); for (auto& f : s.frames) if (k.initGeometry(f.image)) break;
  std::vector<std::string> saved; std::vector<std::shared_ptr<const shim::Scene>> shots; size_t pending = 0, offered = 0;
  for (auto& f : s.frames) { const size_t n = k.getEstimatorObservations().size(); const bool found = k.addImage(f.image, (sm::timing::NsecTime)f.stamp); c.check(found == f.board, "harness", "board"); if (found && ++pending == s.batch) { pending = 0; ++offered; } if (k.getEstimatorObservations().size() > n) { saved.push_back("images/" + s.id + "-" + std::to_string(f.stamp) + ".png"); shots.push_back(f.image.scene); } } k.processBatch(); if (pending) ++offered;
  if (!save) { saved.clear(); shots.clear(); } bool ok = screen.written.size() == saved.size(); for (size_t i = 0; ok && i < saved.size(); ++i) ok = screen.written[i].name == saved[i] && screen.written[i].image.scene == shots[i] && exists(saved[i]); c.check(ok, "images-saved", "%zu images saved, want %zu; first %s", screen.written.size(), saved.size(), screen.written.empty() ? "-" : screen.written[0].name.c_str()); c.check(exists("images") || saved.empty(), "images-saved", "no folder"); c.count("images saved", saved.size());
  same(c, run, "projection", k.getProjection()); same(c, run, "projection standard deviation", k.getProjectionStandardDeviation()); same(c, run, "distortion", k.getDistortion()); same(c, run, "distortion standard deviation", k.getDistortionStandardDeviation()); same(c, run, "initial cost", one(k.getInitialCost())); same(c, run, "final cost", one(k.getFinalCost())); same(c, run, "number of images for estimation", one(k.getEstimatorObservations().size())); same(c, run, "total number of images", one(s.frames.size()));
  for (bool scaled : {false, true}) { const M B = k.getNobsBasis(scaled); const Rows g = prog::matrix(run.out.substr(std::min(run.out.size(), run.out.rfind("final parameters:"))), scaled ? "unobservable basis (scaled)" : "unobservable basis", B.rows()); bool eq = g.size() == (size_t)B.rows(); for (size_t i = 0; eq && i < g.size(); ++i) { eq = g[i].size() == (size_t)B.cols(); for (size_t j = 0; eq && j < g[i].size(); ++j) eq = std::fabs(g[i][j] - B(i, j)) <= 2e-6; } c.check(eq, "report", "unobservable basis of %ldx%ld", (long)B.rows(), (long)B.cols()); }
  V mean, var, sd; double mx, my; size_t outliers; k.getStatistics(mean, var, sd, mx, my, outliers); same(c, run, "reprojection error mean", mean); same(c, run, "reprojection error standard deviation", sd); same(c, run, "max x reprojection error", one(mx)); same(c, run, "max y reprojection error", one(my)); same(c, run, "number of outliers", one(outliers));
  std::vector<V2> e; std::vector<double> md; k.getErrors(e, md); errorsCompare(c, out, e, md); c.check(k.getEstimatorObservations().size() <= s.frames.size(), "images", "more images than taken"); size_t corners = 0; for (auto& o : k.getEstimatorObservations()) corners += std::count(o->image().scene->seen.begin(), o->image().scene->seen.end(), true); c.check(e.size() == corners, "errors", "%zu errors of %zu corners", e.size(), corners);
  // the result
  std::ostringstream n; n << s.id << "-" << s.camera.name() << "-" << Timestamp::getDate((double)s.begin() * 1e-9) << "-" << s.batch << "-" << s.delta << ".xml"; std::vector<std::string> files = {"conf.xml", n.str()}; if (out) { files.push_back("errors.txt"); files.push_back("errorsMd2.txt"); } if (exists("images")) files.push_back("images"); std::sort(files.begin(), files.end()); std::string l; const auto got = list("."); for (auto& f : got) l += f + " "; if (!c.check(got == files, "result-name", "files %s, want among them %s", l.c_str(), n.str().c_str())) return;
  sm::BoostPropertyTree res; res.loadXml(n.str()); const sm::PropertyTree& cres = res; sm::BoostPropertyTree want("intrinsics"); k.write(want); want.saveXml("want.xml"); { auto tags = [](const std::string& x) { std::multiset<std::string> m; for (size_t a = x.find('<'); a != std::string::npos; a = x.find('<', a + 1)) m.insert(x.substr(a, x.find('>', a) - a)); return m; }; c.check(tags(text(n.str())) == tags(text("want.xml")), "result", "not the entries the calibrator writes"); } sm::PropertyTree root(cres, "intrinsics"); const int np = (int)s.camera.p.size(); const V p = k.getProjection(), d = k.getDistortion(); int i = 0; auto val = [&](const std::string& q, double w) { if (c.check(root.doesKeyExist(q), "result", "%s is missing", q.c_str())) c.check(std::fabs(root.getDouble(q) - w) <= 1e-9 * std::fabs(w) + 1e-15, "result", "%s is %g want %g", q.c_str(), root.getDouble(q), w); }; for (const char* q : {"xi", "fu", "fv", "cu", "cv"}) if (s.camera.omni || q[0] != 'x') val(std::string("projection/") + q, p(i++)); c.check(i == np, "harness", "x"); i = 0; for (const char* q : {"k1", "k2", "p1", "p2"}) val(std::string("projection/distortion/") + q, d(i++)); c.check(root.getString("projection/type") == s.camera.name(), "result", "type"); if (any) { c.check(root.getInt("projection/ru") == s.camera.ru && root.getInt("projection/rv") == s.camera.rv, "result", "resolution"); }
  CameraValidator v(root, sm::PropertyTree(conf, "camera/calibrator")); const Camera back(*shim::detection().geometry); c.check((back.p - p).norm() <= 1e-9 * p.norm() && (back.d - d).norm() <= 1e-12, "result", "the validator reads another camera"); c.count("results read back"); c.count("batches offered", offered); c.seen(mon::hcomb(s.frames.size() + 100 * s.batch, mon::hd(s.start.p(0)))); c.sample(std::to_string(s.frames.size()) + " images, batches of " + std::to_string(s.batch));
}
const int ARGS = 3;
std::vector<std::string> wrong(int n) { std::vector<std::string> a = {"images.bag", "conf.xml", "intrinsics.xml", "x"}; a.resize(n); return a; }
#else
Run program(std::vector<std::string> args) { Run run = prog::run(args); std::replace(run.out.begin(), run.out.end(), '\r', '\n'); return run; } // progress is written over itself
void drive(mon::Ctx& c, bool shipped) {
  auto& r = c.rng; Scratch dir; Scene s(c, shipped); Camera used = s.camera; for (int i = 0; i < used.p.size(); ++i) used.p(i) *= r.uni(0.99, 1.01); const bool show = s.t.getBool("camera/validator/visualization"), save = s.t.getBool("camera/validator/saveImages"), out = s.t.getBool("camera/validator/outputErrors"); const double sigma2 = s.t.getDouble("camera/calibrator/sigma2");
  { sm::BoostPropertyTree in; used.write(in, "intrinsics/"); in.saveXml("intrinsics.xml"); } c.note("%zu images, board %zux%zu%s%s%s", s.frames.size(), s.board.rows, s.board.cols, show ? ", shown" : "", save ? ", saved" : "", out ? ", errors written" : "");
  s.reset(); const Run run = program({"images.bag", "conf.xml", "intrinsics.xml"}); c.count("program runs"); c.check(run.code == 0, "exit", "%d: %s", run.code, run.err.c_str()); const auto screen = shim::screen(); const auto times = shim::detection().times;
  c.check(times.size() == s.frames.size(), "images", "%zu images of %zu searched", times.size(), s.frames.size()); for (size_t i = 0; i < std::min(times.size(), s.frames.size()); ++i) c.check(std::fabs(times[i] - (double)s.frames[i].stamp * 1e-9) < 1e-6, "images", "image %zu searched with time %.9f", i, times[i]);
  std::vector<V2> e; std::vector<double> md; std::vector<std::shared_ptr<const shim::Scene>> seen; std::vector<std::string> names; size_t outliers = 0; for (auto& f : s.frames) if (f.board) { const auto& q = *f.image.scene; for (size_t i = 0; i < s.board.size(); ++i) { V2 p; if (q.seen[i] && used.see(q.pose, s.board.point(i), p)) { e.push_back(p - q.corner[i]); md.push_back(e.back().squaredNorm() / sigma2); outliers += md.back() > quantile(0.975); } } seen.push_back(f.image.scene); names.push_back("images/" + s.id + "-" + std::to_string(f.stamp) + ".png"); }
  const Stats st = stats(e); if (e.empty()) { same(c, run, "reprojection error mean", V(0)); same(c, run, "reprojection error standard deviation", V(0)); } else if (st.sound) { same(c, run, "reprojection error mean", V(st.mean)); const auto g = figure(run.out, "reprojection error standard deviation"); c.check(g.size() == 2 && std::fabs(g[0] - std::sqrt(st.var(0))) < 1e-5 && std::fabs(g[1] - std::sqrt(st.var(1))) < 1e-5, "report", "standard deviation"); } same(c, run, "max x reprojection error", one(st.max(0))); same(c, run, "max y reprojection error", one(st.max(1))); same(c, run, "number of outliers", one(outliers)); errorsCompare(c, out, e, md);
  // every picture shown or kept is of its own image
  c.check(screen.windows.size() == (show ? 1u : 0u), "windows", "%zu windows", screen.windows.size()); if (show) { std::vector<std::shared_ptr<const shim::Scene>> a; for (auto& x : screen.shown) { if (a.empty() || a.back() != x.image.scene) a.push_back(x.image.scene); c.check(x.image.drawn && !x.image.drawn->empty() && x.wait == s.t.getInt("camera/imageTime"), "shown", "picture without marks, or shown for %d ms", x.wait); } c.check(a == seen, "shown", "%zu pictures shown, want %zu", a.size(), seen.size()); c.count("pictures shown", a.size()); } else c.check(screen.shown.empty(), "shown", "shown unasked");
  if (!save) c.check(screen.written.empty(), "images-saved", "saved unasked"); else if (show) { bool ok = screen.written.size() == seen.size(); for (size_t i = 0; ok && i < seen.size(); ++i) ok = screen.written[i].name == names[i] && screen.written[i].image.scene == seen[i]; std::string l; for (auto& x : screen.written) l += x.name + "(" + std::to_string(x.image.scene->id) + ") "; c.check(ok, "images-saved", "%zu pictures saved, %zu boards seen: %s", screen.written.size(), seen.size(), l.c_str()); c.check(list("images").size() == seen.size(), "images-saved", "%zu files for %zu boards", list("images").size(), seen.size()); c.count("pictures saved", seen.size()); }
  c.seen(mon::hcomb(e.size(), mon::hd(used.p(0)))); c.count("corners compared", e.size()); c.sample(std::to_string(s.frames.size()) + " images, " + std::to_string(e.size()) + " corners");
}
const int ARGS = 4;
std::vector<std::string> wrong(int n) { std::vector<std::string> a = {"images.bag", "conf.xml", "intrinsics.xml", "x"}; a.resize(n); return a; }
#endif
}
#ifdef REPEAT
#include "c41_repeat.hpp"
SECTION(repeat, 8) { c.cases(30, [&] { twice(c, [&] { drive(c, false); }); }); }
#else
SECTION(runs, 8) { c.cases(40, [&] { drive(c, false); }); }
SECTION(shipped, 1) { c.cases(2, [&] { drive(c, true); }); }
SECTION(usage, 1) { c.cases(8, [&] { int n = (int)c.rng.below(5); if (n == ARGS - 1) n = 0; Scratch dir; const Run run = prog::run(wrong(n)); c.note("%d arguments", n); c.check(run.code != 0 && run.err.find("Usage") != std::string::npos && list(".").empty(), "usage", "%d arguments: exit %d", n, run.code); c.seen(n); }); }
#endif
