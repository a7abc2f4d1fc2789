#pragma once
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam/cameras/GridCalibrationTargetObservation.hpp>
#include <functional>
namespace aslam { namespace cameras {
class GridDetector {
 public:
  struct GridDetectorOptions { GridDetectorOptions() : plotCornerReprojection(false), imageStepping(false), filterCornerOutliers(false), filterCornerSigmaThreshold(2), filterCornerMinReprojError(0.2) {} bool plotCornerReprojection, imageStepping, filterCornerOutliers; double filterCornerSigmaThreshold, filterCornerMinReprojError; };
  GridDetector(boost::shared_ptr<CameraGeometryBase> g, boost::shared_ptr<GridCalibrationTargetCheckerboard> t, const GridDetectorOptions& o = GridDetectorOptions());
  bool initCameraGeometryFromObservation(const cv::Mat& m);
  bool findTarget(const cv::Mat& m, const Time& t, GridCalibrationTargetObservation& o) const;
  boost::shared_ptr<CameraGeometryBase> geometry() const { return g_; } boost::shared_ptr<GridCalibrationTargetCheckerboard> target() const { return t_; } const GridDetectorOptions& options() const { return o_; }
 private: boost::shared_ptr<CameraGeometryBase> g_; boost::shared_ptr<GridCalibrationTargetCheckerboard> t_; GridDetectorOptions o_;
};
} }
namespace shim {
/// the last detector made (its camera, its board, its options), what was asked of it, and how it initializes a camera
struct Detection { boost::shared_ptr<aslam::cameras::CameraGeometryBase> geometry; boost::shared_ptr<aslam::cameras::GridCalibrationTargetCheckerboard> target; aslam::cameras::GridDetector::GridDetectorOptions options; int detectors = 0, inits = 0, finds = 0; std::vector<double> times; std::function<void(aslam::cameras::CameraGeometryBase&)> initialize; };
inline Detection& detection() { static thread_local Detection d; return d; }
}
namespace aslam { namespace cameras {
inline GridDetector::GridDetector(boost::shared_ptr<CameraGeometryBase> g, boost::shared_ptr<GridCalibrationTargetCheckerboard> t, const GridDetectorOptions& o) : g_(g), t_(t), o_(o) { auto& d = shim::detection(); d.geometry = g; d.target = t; d.options = o; ++d.detectors; }
inline bool GridDetector::initCameraGeometryFromObservation(const cv::Mat& m) { auto& d = shim::detection(); ++d.inits; if (!m.scene || !m.scene->target || !m.scene->init) return false; if (d.initialize) d.initialize(*g_); return true; }
inline bool GridDetector::findTarget(const cv::Mat& m, const Time& t, GridCalibrationTargetObservation& o) const { auto& d = shim::detection(); ++d.finds; d.times.push_back(t.toSec()); if (!m.scene || !m.scene->target) return false; o.set(m, t); return true; }
} }
