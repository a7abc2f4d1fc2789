#pragma once
#include <aslam/backend/core.hpp>
#include <aslam/cameras.hpp>
namespace aslam {
class CameraGeometryDesignVariableContainer {
 public:
  /// projection or distortion of a camera as a design variable
  class Part : public backend::DesignVariable {
   public:
    Part(const boost::shared_ptr<cameras::CameraGeometryBase>& g, bool proj) : g_(g), proj_(proj) {}
   protected:
    void updateImplementation(const double* d, int n) override { g_->getParameters(old_, proj_, !proj_, false); g_->setParameters(old_ + Eigen::Map<const Eigen::VectorXd>(d, n), proj_, !proj_, false); }
    void revertUpdateImplementation() override { if (old_.size()) g_->setParameters(old_, proj_, !proj_, false); }
    int minimalDimensionsImplementation() const override { return proj_ ? g_->minimalDimensionsProjection() : g_->minimalDimensionsDistortion(); }
    void getParametersImplementation(Eigen::MatrixXd& v) const override { g_->getParameters(v, proj_, !proj_, false); }
    void setParametersImplementation(const Eigen::MatrixXd& v) override { g_->getParameters(old_, proj_, !proj_, false); g_->setParameters(v, proj_, !proj_, false); }
   private: boost::shared_ptr<cameras::CameraGeometryBase> g_; bool proj_; Eigen::MatrixXd old_;
  };
  CameraGeometryDesignVariableContainer(const boost::shared_ptr<cameras::CameraGeometryBase>& g, bool p, bool d, bool) : g_(g), projection_(g, true), distortion_(g, false) { projection_.setActive(p); distortion_.setActive(d); }
  void getDesignVariables(backend::DesignVariable::set_t& s) const { auto self = const_cast<CameraGeometryDesignVariableContainer*>(this); if (projection_.isActive()) s.insert(&self->projection_); if (distortion_.isActive()) s.insert(&self->distortion_); }
  const boost::shared_ptr<cameras::CameraGeometryBase>& camera() const { return g_; } Part& projection() { return projection_; } Part& distortion() { return distortion_; }
 private: boost::shared_ptr<cameras::CameraGeometryBase> g_; Part projection_, distortion_;
};
}
