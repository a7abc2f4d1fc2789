#ifndef VERIF_C33_HPP
#define VERIF_C33_HPP
// Cameras, boards and images of boards.
#include "c29_common.hpp"
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
#include <aslam/ReprojectionError.hpp>
#include <aslam/backend/HomogeneousPoint.hpp>
#include <aslam/backend/MEstimatorPolicies.hpp>
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/camera/CameraValidator.h>
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridDetector.hpp>
#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
namespace cam {
using namespace cal; typedef Eigen::Vector2d V2; typedef sm::kinematics::Transformation TF; typedef Eigen::Matrix4d M4; typedef aslam::cameras::CameraGeometryBase Geo;
struct Camera { bool omni; V p, d; int ru, rv;
  explicit Camera(mon::Rng& r) : omni(r.coin()), d(4), ru(600 + (int)r.below(700)), rv(400 + (int)r.below(600)) { const double f = r.uni(300, 700); p.resize(omni ? 5 : 4); int i = 0; if (omni) p(i++) = r.uni(0.3, 1.2); p(i) = f * r.uni(0.97, 1.03); p(i + 1) = f * r.uni(0.97, 1.03); p(i + 2) = ru * r.uni(0.45, 0.55); p(i + 3) = rv * r.uni(0.45, 0.55); d << r.uni(-0.2, 0.2), r.uni(-0.05, 0.05), r.uni(-2e-3, 2e-3), r.uni(-2e-3, 2e-3); }
  Camera(bool o, const V& p, const V& d, int ru, int rv) : omni(o), p(p), d(d), ru(ru), rv(rv) {}
  explicit Camera(const Geo& g) : omni(g.omni()), ru(g.projection().ru()), rv(g.projection().rv()) { M m; g.getParameters(m, true, false, false); p = m; g.getParameters(m, false, true, false); d = m; }
  void give(Geo& g) const { g.setParameters(p, true, false, false); g.setParameters(d, false, true, false); g.projection().ru_ = ru; g.projection().rv_ = rv; }
  const char* name() const { return omni ? "omni" : "pinhole"; }
  bool see(const TF& T_t_c, const V3& point, V2& k) const { Eigen::Vector4d h; h.head<3>() = T_t_c.C().transpose() * (point - T_t_c.t()); h(3) = 1; return shim::project(omni, p, d, ru, rv, h, k); }
  void write(PT& t, const std::string& base) const { int i = 0; t.setString(base + "projection/type", name()); for (const char* k : {"xi", "fu", "fv", "cu", "cv"}) if (omni || k[0] != 'x') t.setDouble(base + "projection/" + k, p(i++)); t.setInt(base + "projection/ru", ru); t.setInt(base + "projection/rv", rv); i = 0; for (const char* k : {"k1", "k2", "p1", "p2"}) t.setDouble(base + "projection/distortion/" + k, d(i++)); } };
struct Board { size_t rows, cols; double rs, cs; size_t size() const { return rows * cols; } V3 point(size_t i) const { return V3(rs * (double)(i / cols), cs * (double)(i % cols), 0); } };
/// a pose from which the board is in front of the camera
inline TF pose(mon::Rng& r, const Board& b, double tilt, bool near = false) {
  const V3 mid(0.5 * b.rs * (double)(b.rows - 1), 0.5 * b.cs * (double)(b.cols - 1), 0); const double size = std::max(b.rs * (double)b.rows, b.cs * (double)b.cols), dist = size * (near ? r.uni(0.5, 0.9) : r.uni(1.2, 2.2));
  const M3 C = sm::kinematics::quat2r(sm::kinematics::axisAngle2quat(V3(r.uni(-tilt, tilt), r.uni(-tilt, tilt), r.uni(-3, 3)))); const V3 aim(r.uni(-0.25, 0.25) * size, r.uni(-0.2, 0.2) * size, 0); // C: camera to board
  return TF(sm::kinematics::r2quat(C), mid + C * (aim - V3(0, 0, dist)));
}
/// an image of the board with the corners in view, measured with noise
inline cv::Mat image(mon::Rng& r, const Camera& c, const Board& b, const TF& T, double noise, double drop, int id) {
  auto s = std::make_shared<shim::Scene>(); s->pose = T; s->id = id; s->seen.assign(b.size(), false); s->corner.assign(b.size(), V2::Zero());
  for (size_t i = 0; i < b.size(); ++i) { V2 k; s->seen[i] = c.see(T, b.point(i), k) && !r.coin(drop); s->corner[i] = k + V2(r.normal(), r.normal()) * noise; }
  cv::Mat m(c.rv, c.ru, CV_8UC1); m.scene = s; return m;
}
inline cv::Mat blank(mon::Rng& r) { cv::Mat m(480, 640, CV_8UC1); auto s = std::make_shared<shim::Scene>(); s->target = false; s->init = r.coin(); m.scene = s; return m; }
template <class O> void boardOptions(mon::Rng& r, O& o, const Board& b) {
  o.rows = b.rows; o.cols = b.cols; o.rowSpacingMeters = b.rs; o.colSpacingMeters = b.cs; o.useAdaptiveThreshold = r.coin(); o.normalizeImage = r.coin(); o.filterQuads = r.coin(); o.doSubpixelRefinement = r.coin(); o.showExtractionVideo = r.coin(); o.plotCornerReprojection = r.coin(); o.imageStepping = r.coin(); o.filterCornerOutliers = r.coin(); o.filterCornerSigmaThreshold = (float)r.uni(1, 5); o.filterCornerMinReprojError = (float)r.uni(0.1, 2); o.sigma2 = r.logu(0.05, 20); o.verbose = r.coin(0.2);
}
template <class O> void boardTree(PT& t, const O& o) {
  t.setInt("rows", (int)o.rows); t.setInt("cols", (int)o.cols); t.setDouble("rowSpacingMeters", o.rowSpacingMeters); t.setDouble("colSpacingMeters", o.colSpacingMeters); t.setBool("useAdaptiveThreshold", o.useAdaptiveThreshold); t.setBool("normalizeImage", o.normalizeImage); t.setBool("filterQuads", o.filterQuads); t.setBool("doSubpixelRefinement", o.doSubpixelRefinement); t.setBool("showExtractionVideo", o.showExtractionVideo); t.setBool("plotCornerReprojection", o.plotCornerReprojection); t.setBool("imageStepping", o.imageStepping); t.setBool("filterCornerOutliers", o.filterCornerOutliers); t.setDouble("filterCornerSigmaThreshold", o.filterCornerSigmaThreshold); t.setDouble("filterCornerMinReprojError", o.filterCornerMinReprojError); t.setDouble("sigma2", o.sigma2); t.setBool("verbose", o.verbose); t.setString("cameraProjectionType", o.cameraProjectionType);
}
/// the board and the detector were made as configured
template <class O> void judgeVision(mon::Ctx& c, const O& o, const O& got, bool omni) {
#define F_(x) c.check(got.x == o.x, "option", "%s is not what was configured", #x);
  F_(rows) F_(cols) F_(rowSpacingMeters) F_(colSpacingMeters) F_(useAdaptiveThreshold) F_(normalizeImage) F_(filterQuads) F_(doSubpixelRefinement) F_(showExtractionVideo) F_(plotCornerReprojection) F_(imageStepping) F_(filterCornerOutliers) F_(filterCornerSigmaThreshold) F_(filterCornerMinReprojError) F_(sigma2) F_(verbose) F_(cameraProjectionType)
#undef F_
  const auto& d = shim::detection(); if (!c.check(d.target && d.geometry, "detector", "no detector was made")) return; const auto& b = d.target->options();
  c.check(d.target->rows() == o.rows && d.target->cols() == o.cols && d.target->rowSpacing() == o.rowSpacingMeters && d.target->colSpacing() == o.colSpacingMeters, "board", "board %zux%zu %g %g", d.target->rows(), d.target->cols(), d.target->rowSpacing(), d.target->colSpacing());
  c.check(b.useAdaptiveThreshold == o.useAdaptiveThreshold && b.normalizeImage == o.normalizeImage && b.filterQuads == o.filterQuads && b.doSubpixelRefinement == o.doSubpixelRefinement && b.showExtractionVideo == o.showExtractionVideo, "board-options", "options of the board");
  c.check(d.options.plotCornerReprojection == o.plotCornerReprojection && d.options.imageStepping == o.imageStepping && d.options.filterCornerOutliers == o.filterCornerOutliers && d.options.filterCornerSigmaThreshold == o.filterCornerSigmaThreshold && d.options.filterCornerMinReprojError == o.filterCornerMinReprojError, "detector-options", "options of the detector");
  c.check(d.geometry->omni() == omni, "projection-type", "camera of the other type");
}
/// moments of image errors
struct Stats { V2 mean = V2::Zero(), var = V2::Zero(), max = V2::Zero(); size_t n = 0; double norm = 0, maxNorm = 0; bool sound = false; };
inline Stats stats(const std::vector<V2>& e) { Stats s; s.n = e.size(); if (e.empty()) return s; Eigen::Matrix<long double, 2, 1> m(0, 0), q(0, 0); for (auto& x : e) m += x.cast<long double>(); m /= (long double)e.size(); for (auto& x : e) { const auto y = (x.cast<long double>() - m).eval(); q += y.cwiseProduct(y); s.max = s.max.cwiseMax(x.cwiseAbs()); s.norm += x.norm(); s.maxNorm = std::max(s.maxNorm, x.norm()); } s.mean = m.cast<double>(); s.var = (q / (long double)e.size()).cast<double>();
  M c(2, 2); c.setZero(); for (auto& x : e) c += (x - s.mean) * (x - s.mean).transpose(); c /= (double)e.size(); s.sound = e.size() > 4 && c.determinant() > 1e-3 * c(0, 0) * c(1, 1) && c(0, 0) > 1e-6 && c(1, 1) > 1e-6; return s; }
struct Muted { std::ostringstream out, err; std::streambuf *a, *b; Muted() : a(std::cout.rdbuf(out.rdbuf())), b(std::cerr.rdbuf(err.rdbuf())) {} ~Muted() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
inline double quantile(double p) { return -2 * std::log1p(-p); } // chi squared with two degrees of freedom
}
#endif
