#pragma once
#include <aslam/backend/expressions.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
namespace aslam { namespace backend {
class HomogeneousExpression {
 public:
  typedef std::function<Eigen::Vector4d()> F;
  HomogeneousExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  Eigen::Vector4d toHomogeneous() const { return f_(); } void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); } const F& fn() const { return f_; }
 private: F f_; DvSet d_;
};
class HomogeneousPoint : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit HomogeneousPoint(const Eigen::Vector4d& p) : p_(p), old_(p) {}
  const Eigen::Vector4d& toHomogeneous() const { return p_; }
  HomogeneousExpression toExpression() { HomogeneousPoint* s = this; return HomogeneousExpression([s]() -> Eigen::Vector4d { return s->p_; }, DvSet{this}); }
 protected:
  void updateImplementation(const double* d, int) override { old_ = p_; p_.head<3>() += Eigen::Map<const Eigen::Vector3d>(d); }
  void revertUpdateImplementation() override { p_ = old_; }
  int minimalDimensionsImplementation() const override { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = p_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { old_ = p_; p_ = v; }
 private: Eigen::Vector4d p_, old_;
};
inline HomogeneousExpression operator*(const TransformationExpression& T, const HomogeneousExpression& p) { auto f = p.fn(); return HomogeneousExpression([T, f]() -> Eigen::Vector4d { return T.toTransformationMatrix() * f(); }, detail::unite(T, p)); }
} }
