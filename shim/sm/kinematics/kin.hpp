#ifndef SHIM_SM_KIN_HPP
#define SHIM_SM_KIN_HPP
#include <sm/kinematics/kin_base.hpp>
namespace sm { namespace kinematics {
class Transformation { public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : q_(quatIdentity()), t_(Eigen::Vector3d::Zero()) {}
  Transformation(const Eigen::Matrix4d& T) : q_(r2quat(transform2C(T))), t_(transform2rho(T)) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : q_(q / q.norm()), t_(t) {}
  Eigen::Matrix4d T() const { return rt2Transform(C(), t_); }
  Eigen::Matrix3d C() const { return quat2r(q_); }
  const Eigen::Vector3d& t() const { return t_; }
  const Eigen::Vector4d& q() const { return q_; }
  Transformation inverse() const { return Transformation(quatInv(q_), -(C().transpose() * t_)); }
  Transformation operator*(const Transformation& r) const { return Transformation(qplus(q_, r.q_), C() * r.t_ + t_); }
  template <class D, typename std::enable_if<D::SizeAtCompileTime == 3, int>::type = 0> Eigen::Vector3d operator*(const Eigen::MatrixBase<D>& p) const { return C() * p + t_; }
  template <class D, typename std::enable_if<D::SizeAtCompileTime == 4, int>::type = 0> Eigen::Vector4d operator*(const Eigen::MatrixBase<D>& p) const { return T() * p; }
 private: Eigen::Vector4d q_; Eigen::Vector3d t_; };
}}
#endif
