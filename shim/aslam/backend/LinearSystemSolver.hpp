#pragma once
#include <aslam/backend/core.hpp>
#include <Eigen/Cholesky>
namespace aslam { namespace backend {
class LinearSystemSolver {
 public:
  virtual ~LinearSystemSolver() {}
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets, bool diag) {
    rows_ = 0; cols_ = 0; errors_ = ets; for (auto e : ets) rows_ += e->dimension(); for (auto d : dvs) cols_ += d->minimalDimensions();
    _e.resize(rows_); initMatrixStructureImplementation(dvs, ets, diag);
  }
  /// evaluates the errors into the right-hand side (sqrt of the weight applied, sign so that the step reduces the error)
  double evaluateError(size_t, bool) {
    double J = 0; _e.resize(rows_);
    for (auto t : errors_) { J += t->evaluateError(); Eigen::LLT<Eigen::MatrixXd> l(t->vsInvR()); _e.segment(t->rowBase(), t->dimension()) = -(l.matrixU() * t->vsError()); }
    return J;
  }
  virtual void buildSystem(size_t numThreads, bool useMEstimator) = 0;
  virtual bool solveSystem(Eigen::VectorXd& dx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
  const Eigen::VectorXd& e() const { return _e; } int JCols() const { return cols_; } int JRows() const { return rows_; }
 protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&, bool) = 0;
  Eigen::VectorXd _e; std::vector<ErrorTerm*> errors_; int rows_ = 0, cols_ = 0;
};
} }
