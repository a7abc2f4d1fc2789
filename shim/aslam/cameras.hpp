// Stand-in for aslam_cameras: the pinhole and the unified omnidirectional
// projection with radial-tangential distortion, in the library's parameter order.
#ifndef VERIF_SHIM_CAMERAS_HPP
#define VERIF_SHIM_CAMERAS_HPP
#include <Eigen/Core>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <sm/PropertyTree.hpp>
namespace shim {
/// normalized, distorted image point
inline Eigen::Vector2d distort(const Eigen::VectorXd& d, const Eigen::Vector2d& y) {
  const double a = y(0) * y(0), b = y(1) * y(1), m = y(0) * y(1), r2 = a + b, rad = d(0) * r2 + d(1) * r2 * r2;
  return Eigen::Vector2d(y(0) + y(0) * rad + 2 * d(2) * m + d(3) * (r2 + 2 * a), y(1) + y(1) * rad + 2 * d(3) * m + d(2) * (r2 + 2 * b));
}
/// image point of a point in the camera's frame; false behind the camera or outside the image
inline bool project(bool omni, const Eigen::VectorXd& p, const Eigen::VectorXd& d, int ru, int rv, const Eigen::Vector4d& h, Eigen::Vector2d& k) {
  const Eigen::Vector3d x = h(3) < 0 ? Eigen::Vector3d(-h.head<3>()) : Eigen::Vector3d(h.head<3>());
  const double z = omni ? x(2) + p(0) * x.norm() : x(2); k.setZero(); if (omni ? z <= 1e-9 * x.norm() : z <= 0) return false;
  const Eigen::Vector2d y = distort(d, x.head<2>() / z); const int o = omni ? 1 : 0;
  k = Eigen::Vector2d(p(o) * y(0) + p(o + 2), p(o + 1) * y(1) + p(o + 3)); return k(0) >= 0 && k(1) >= 0 && k(0) < ru && k(1) < rv;
}
}
namespace aslam { namespace cameras {
struct ProjectionStub { int ru_ = 0, rv_ = 0; int ru() const { return ru_; } int rv() const { return rv_; } };
class CameraGeometryBase {
 public:
  virtual ~CameraGeometryBase() {}
  int minimalDimensionsProjection() const { return (int)proj_.size(); } int minimalDimensionsDistortion() const { return (int)dist_.size(); } int minimalDimensionsShutter() const { return 0; }
  void getParameters(Eigen::MatrixXd& P, bool p, bool d, bool) const { P.resize((p ? proj_.size() : 0) + (d ? dist_.size() : 0), 1); if (p) P.topRows(proj_.size()) = proj_; if (d) P.bottomRows(dist_.size()) = dist_; }
  void setParameters(const Eigen::MatrixXd& P, bool p, bool d, bool) { if (P.rows() != (p ? proj_.size() : 0) + (d ? dist_.size() : 0)) throw std::logic_error("camera parameters of the wrong size"); if (p) proj_ = P.topRows(proj_.size()); if (d) dist_ = P.bottomRows(dist_.size()); }
  bool vsHomogeneousToKeypoint(const Eigen::Vector4d& h, Eigen::VectorXd& k) const { Eigen::Vector2d x; const bool ok = shim::project(omni_, proj_, dist_, projection_.ru_, projection_.rv_, h, x); k = x; return ok; }
  const ProjectionStub& projection() const { return projection_; } ProjectionStub& projection() { return projection_; }
  bool omni() const { return omni_; } bool fromTree = false;
 protected:
  explicit CameraGeometryBase(bool omni) : omni_(omni), proj_(Eigen::VectorXd::Zero(omni ? 5 : 4)), dist_(Eigen::VectorXd::Zero(4)) {}
  void load(const sm::PropertyTree& t) {
    fromTree = true; const sm::PropertyTree p(t, "projection"), d(p, "distortion"); int i = 0; for (const char* k : {"xi", "fu", "fv", "cu", "cv"}) if (omni_ || k[0] != 'x') proj_(i++) = p.getDouble(k);
    projection_.ru_ = p.getInt("ru"); projection_.rv_ = p.getInt("rv"); i = 0; for (const char* k : {"k1", "k2", "p1", "p2"}) dist_(i++) = d.getDouble(k);
  }
 private: bool omni_; Eigen::VectorXd proj_, dist_; ProjectionStub projection_;
};
} }
namespace shim { inline std::vector<boost::shared_ptr<aslam::cameras::CameraGeometryBase>>& geometries() { static thread_local std::vector<boost::shared_ptr<aslam::cameras::CameraGeometryBase>> v; return v; } }
namespace aslam { namespace cameras {
class DistortedPinholeCameraGeometry : public CameraGeometryBase { public: DistortedPinholeCameraGeometry() : CameraGeometryBase(false) {} explicit DistortedPinholeCameraGeometry(const sm::PropertyTree& t) : CameraGeometryBase(false) { load(t); } };
class DistortedOmniCameraGeometry : public CameraGeometryBase { public: DistortedOmniCameraGeometry() : CameraGeometryBase(true) {} explicit DistortedOmniCameraGeometry(const sm::PropertyTree& t) : CameraGeometryBase(true) { load(t); } };
} }
#endif
