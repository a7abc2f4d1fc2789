// Stand-in for sm_kinematics: same conventions as the original (quaternion [x y z w],
// C(q) = cos I + (1-cos) a a^T - sin [a]x, so qplus(a,b) composes C(a) C(b)).
#ifndef SHIM_SM_KIN_BASE_HPP
#define SHIM_SM_KIN_BASE_HPP
#include <cmath>
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
namespace sm { namespace kinematics {
inline Eigen::Matrix3d crossMx(const Eigen::Vector3d& v) { Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
inline Eigen::Matrix3d crossMx(double x, double y, double z) { return crossMx(Eigen::Vector3d(x, y, z)); }
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) { const Eigen::Vector3d e = q.head<3>(); const double n = q(3);
  return (n * n - e.dot(e)) * Eigen::Matrix3d::Identity() + 2.0 * e * e.transpose() - 2.0 * n * crossMx(e); }
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) {
  // C^T is the active rotation of (e, n)
  const Eigen::Quaterniond q(Eigen::Matrix3d(C.transpose())); Eigen::Vector4d r(q.x(), q.y(), q.z(), q.w()); return r / r.norm(); }
inline Eigen::Matrix4d quatPlus(const Eigen::Vector4d& q) { Eigen::Matrix4d m; m.topLeftCorner<3, 3>() = q(3) * Eigen::Matrix3d::Identity() - crossMx(q.head<3>());
  m.topRightCorner<3, 1>() = q.head<3>(); m.bottomLeftCorner<1, 3>() = -q.head<3>().transpose(); m(3, 3) = q(3); return m; }
inline Eigen::Matrix4d quatOPlus(const Eigen::Vector4d& q) { Eigen::Matrix4d m = quatPlus(q); m.topLeftCorner<3, 3>() = q(3) * Eigen::Matrix3d::Identity() + crossMx(q.head<3>()); return m; }
inline Eigen::Vector4d qplus(const Eigen::Vector4d& q, const Eigen::Vector4d& p) { return quatPlus(q) * p; }
inline Eigen::Vector4d qoplus(const Eigen::Vector4d& q, const Eigen::Vector4d& p) { return quatOPlus(q) * p; }
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) { Eigen::Vector4d r = -q; r(3) = q(3); return r; }
inline Eigen::Vector4d quatIdentity() { return Eigen::Vector4d(0, 0, 0, 1); }
inline Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v) { return quat2r(q) * v; }
inline Eigen::Vector4d axisAngle2quat(const Eigen::Vector3d& a) { const double n = a.norm(); Eigen::Vector4d q;
  if (n < 1e-14) { q << 0.5 * a, 1; return q / q.norm(); } q << a / n * std::sin(n / 2), std::cos(n / 2); return q; }
inline Eigen::Vector3d quat2AxisAngle(const Eigen::Vector4d& q) { const double s = q.head<3>().norm(); if (s < 1e-14) return 2 * q.head<3>(); return q.head<3>() / s * 2 * std::atan2(s, q(3)); }
inline Eigen::Vector4d updateQuat(const Eigen::Vector4d& q, const Eigen::Vector3d& d) { return qplus(axisAngle2quat(d), q); }
inline Eigen::Vector4d qexp(const Eigen::Vector3d& a) { return axisAngle2quat(a); }
inline Eigen::Matrix3d Rx(double a) { Eigen::Matrix3d m; const double c = std::cos(a), s = std::sin(a); m << 1, 0, 0, 0, c, -s, 0, s, c; return m; }
inline Eigen::Matrix3d Ry(double a) { Eigen::Matrix3d m; const double c = std::cos(a), s = std::sin(a); m << c, 0, s, 0, 1, 0, -s, 0, c; return m; }
inline Eigen::Matrix3d Rz(double a) { Eigen::Matrix3d m; const double c = std::cos(a), s = std::sin(a); m << c, -s, 0, s, c, 0, 0, 0, 1; return m; }
inline double angleMod(double a) { a = std::fmod(a, 2 * M_PI); if (a > M_PI) a -= 2 * M_PI; if (a <= -M_PI) a += 2 * M_PI; return a; }
inline double deg2rad(double a) { return a * (M_PI / 180.0); }
inline double rad2deg(double a) { return a * (180.0 / M_PI); }
inline Eigen::Matrix4d rt2Transform(const Eigen::Matrix3d& R, const Eigen::Vector3d& t) { Eigen::Matrix4d T = Eigen::Matrix4d::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = t; return T; }
inline Eigen::Matrix3d transform2C(const Eigen::Matrix4d& T) { return T.topLeftCorner<3, 3>(); }
inline Eigen::Vector3d transform2rho(const Eigen::Matrix4d& T) { return T.topRightCorner<3, 1>(); }

class RotationalKinematics { public: virtual ~RotationalKinematics() {}
  virtual Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p, Eigen::Matrix3d* S = 0) const = 0;
  virtual Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const = 0;
  virtual Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const = 0; };
/// (yaw, pitch, roll): C = Rz(yaw) Ry(pitch) Rx(roll)
class EulerAnglesYawPitchRoll : public RotationalKinematics { public:
  EulerAnglesYawPitchRoll() {}
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p, Eigen::Matrix3d* S = 0) const { if (S) *S = parametersToSMatrix(p); return Rz(p(0)) * Ry(p(1)) * Rx(p(2)); }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    const double pitch = std::asin(std::max(-1.0, std::min(1.0, -C(2, 0))));
    if (std::fabs(C(2, 0)) > 1 - 1e-14) return Eigen::Vector3d(std::atan2(-C(0, 1), C(1, 1)), pitch, 0);
    return Eigen::Vector3d(std::atan2(C(1, 0), C(0, 0)), pitch, std::atan2(C(2, 1), C(2, 2))); }
  /// C(p + dp) = (I - [S dp]x) C(p) to first order, the sign of every small rotation of the library
  Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const { Eigen::Matrix3d S; S.col(0) = Eigen::Vector3d::UnitZ(); S.col(1) = Rz(p(0)) * Eigen::Vector3d::UnitY(); S.col(2) = Rz(p(0)) * Ry(p(1)) * Eigen::Vector3d::UnitX(); return -S; }
};
}}
#endif
