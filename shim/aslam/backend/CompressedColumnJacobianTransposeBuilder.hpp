#pragma once
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <Eigen/Cholesky>
namespace shim { struct Build { size_t threads = 0; bool mEstimator = false; long count = 0; }; inline Build& lastBuild() { static thread_local Build b; return b; } }
namespace aslam { namespace backend {
template <typename I> class CompressedColumnJacobianTransposeBuilder {
 public:
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets) {
    dvs_ = dvs; ets_ = ets; rows_ = 0; cols_ = 0; for (auto e : ets) rows_ += e->dimension(); for (auto d : dvs) cols_ += d->minimalDimensions();
    J_.assign(Eigen::MatrixXd::Zero(cols_, rows_));
  }
  void buildSystem(size_t threads, bool mEstimator) {
    auto& b = shim::lastBuild(); b.threads = threads; b.mEstimator = mEstimator; ++b.count;
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(cols_, rows_);
    for (auto t : ets_) {
      JacobianContainer c(t->dimension()); t->evaluateJacobians(c); Eigen::LLT<Eigen::MatrixXd> l(t->vsInvR()); const Eigen::MatrixXd U = l.matrixU();
      for (auto& kv : c.map()) J.block(kv.first->columnBase(), t->rowBase(), kv.second.cols(), t->dimension()) += (U * kv.second).transpose();
    }
    J_.assign(J);
  }
  CompressedColumnMatrix<I>& J_transpose() { return J_; } const CompressedColumnMatrix<I>& J_transpose() const { return J_; }
 private:
  std::vector<DesignVariable*> dvs_; std::vector<ErrorTerm*> ets_; int rows_ = 0, cols_ = 0; CompressedColumnMatrix<I> J_;
};
} }
