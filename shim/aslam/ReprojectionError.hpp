#pragma once
#include <Eigen/LU>
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
#include <aslam/backend/HomogeneousPoint.hpp>
namespace aslam {
/// measured minus predicted image point
class ReprojectionError : public backend::ErrorTermFs<2> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ReprojectionError(const Eigen::Vector2d& y, const Eigen::Matrix2d& R, const backend::HomogeneousExpression& p, CameraGeometryDesignVariableContainer* c) : y_(y), p_(p), c_(c) { setInvR(R.inverse()); backend::DvSet d = all(); setDesignVariablesIterator(d.begin(), d.end()); }
 protected:
  double evaluateErrorImplementation() override { setError(at()); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(backend::JacobianContainer& J) override { auto self = this; backend::detail::differences(J, all(), Eigen::Matrix2d::Identity(), [self] { return self->at(); }); }
 private:
  backend::DvSet all() const { backend::DvSet d; p_.getDesignVariables(d); c_->getDesignVariables(d); return d; }
  Eigen::Vector2d at() const { Eigen::VectorXd k; c_->camera()->vsHomogeneousToKeypoint(p_.toHomogeneous(), k); return y_ - k; }
  Eigen::Vector2d y_; backend::HomogeneousExpression p_; CameraGeometryDesignVariableContainer* c_;
};
}
