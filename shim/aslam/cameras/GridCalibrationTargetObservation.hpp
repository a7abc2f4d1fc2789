#pragma once
#include <aslam/Time.hpp>
#include <opencv2/core/core.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <vector>
namespace shim {
/// what an image shows, and what is found in it
struct Scene { bool target = true, init = true; std::vector<bool> seen; std::vector<Eigen::Vector2d> corner; sm::kinematics::Transformation pose; int id = 0; };
}
namespace aslam { namespace cameras {
class GridCalibrationTargetObservation {
 public:
  GridCalibrationTargetObservation() {}
  void set(const cv::Mat& m, const Time& t) { image_ = m; time_ = t; }
  const cv::Mat& image() const { return image_; } const Time& time() const { return time_; }
  const sm::kinematics::Transformation& T_t_c() const { return image_.scene->pose; }
  bool imagePoint(size_t i, Eigen::Vector2d& p) const { const shim::Scene& s = *image_.scene; if (i >= s.seen.size() || !s.seen[i]) return false; p = s.corner[i]; return true; }
 private: cv::Mat image_; Time time_;
};
} }
