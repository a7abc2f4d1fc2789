#pragma once
#include <aslam/backend/Optimizer2Options.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam { namespace backend {
struct SolutionReturnValue { double JStart = 0, JFinal = 0; size_t iterations = 0, failedIterations = 0; double lmLambdaFinal = 0, dXFinal = 0, dJFinal = 0; bool linearSolverFailure = false; };
class Optimizer2;
} }
namespace shim {
/// what the monitors can see and replace in an optimization
struct OptimizerScript {
  std::function<void(aslam::backend::OptimizationProblemBase&, aslam::backend::LinearSystemSolver&, const std::vector<aslam::backend::DesignVariable*>& active)> before;
  std::function<bool(const std::vector<aslam::backend::DesignVariable*>& active, aslam::backend::SolutionReturnValue& srv)> instead; // true: done
  std::function<void(aslam::backend::SolutionReturnValue& srv)> after;
};
inline OptimizerScript*& optimizerScript() { static thread_local OptimizerScript* s = nullptr; return s; }
}
namespace aslam { namespace backend {
class Optimizer2 {
 public:
  Optimizer2(const Optimizer2Options& o = Optimizer2Options()) : options_(o) {}
  Optimizer2(const sm::PropertyTree& c, boost::shared_ptr<LinearSystemSolver> s, boost::shared_ptr<TrustRegionPolicy> t) {
    options_.convergenceDeltaJ = c.getDouble("convergenceDeltaJ", options_.convergenceDeltaJ); options_.convergenceDeltaX = c.getDouble("convergenceDeltaX", options_.convergenceDeltaX);
    options_.maxIterations = c.getInt("maxIterations", (int)options_.maxIterations); options_.verbose = c.getBool("verbose", options_.verbose);
    options_.linearSystemSolver = s; options_.trustRegionPolicy = t; initializeLinearSolver(); initializeTrustRegionPolicy();
  }
  Optimizer2Options& options() { return options_; } const Optimizer2Options& options() const { return options_; }
  void initializeLinearSolver() { solver_ = options_.linearSystemSolver; } void initializeTrustRegionPolicy() { policy_ = options_.trustRegionPolicy; }
  void setProblem(boost::shared_ptr<OptimizationProblemBase> p) { problem_ = p; }
  template <class T> T* getSolver() { return dynamic_cast<T*>(solver_.get()); } template <class T> const T* getSolver() const { return dynamic_cast<const T*>(solver_.get()); }
  const std::vector<DesignVariable*>& designVariables() const { return dvs_; }
  SolutionReturnValue optimize() {
    if (!problem_ || !solver_ || !policy_) throw std::logic_error("optimizer not initialized");
    dvs_.clear(); int col = 0;
    for (size_t i = 0; i < problem_->numDesignVariables(); ++i) { DesignVariable* d = problem_->designVariable(i); if (d->isActive()) { d->setBlockIndex((int)dvs_.size()); d->setColumnBase(col); col += d->minimalDimensions(); dvs_.push_back(d); } else { d->setBlockIndex(-1); d->setColumnBase(-1); } }
    std::vector<ErrorTerm*> ets; size_t row = 0;
    for (size_t i = 0; i < problem_->numErrorTerms(); ++i) { ErrorTerm* t = problem_->errorTerm(i); t->setRowBase(row); row += t->dimension(); ets.push_back(t); }
    shim::OptimizerScript* s = shim::optimizerScript();
    if (s && s->before) s->before(*problem_, *solver_, dvs_);
    if (dvs_.empty()) throw std::logic_error("it is illegal to run the optimizer without active design variables");
    if (ets.empty()) throw std::logic_error("it is illegal to run the optimizer without error terms");
    solver_->initMatrixStructure(dvs_, ets, false);
    SolutionReturnValue r; r.JStart = r.JFinal = solver_->evaluateError(options_.numThreadsError, true);
    if (s && s->instead && s->instead(dvs_, r)) { Eigen::VectorXd dx; solver_->evaluateError(1, true); solver_->buildSystem(1, true); solver_->solveSystem(dx); if (s->after) s->after(r); return r; }
    double dJ = options_.convergenceDeltaJ + 1, dX = options_.convergenceDeltaX + 1;
    while (r.iterations < options_.maxIterations && dX > options_.convergenceDeltaX && std::fabs(dJ) > options_.convergenceDeltaJ) {
      Eigen::VectorXd dx; solver_->buildSystem(options_.numThreadsJacobian, true);
      if (!solver_->solveSystem(dx)) { r.linearSolverFailure = true; break; }
      dX = 0; int at = 0; for (auto d : dvs_) { const int n = d->minimalDimensions(); const Eigen::VectorXd st = dx.segment(at, n); d->update(st.data(), n); dX = std::max(dX, st.size() ? st.cwiseAbs().maxCoeff() : 0.0); at += n; }
      const double J = solver_->evaluateError(options_.numThreadsError, true); dJ = r.JFinal - J; r.JFinal = J; ++r.iterations;
    }
    r.dXFinal = dX; r.dJFinal = dJ; if (s && s->after) s->after(r);
    return r;
  }
 private:
  Optimizer2Options options_; boost::shared_ptr<LinearSystemSolver> solver_; boost::shared_ptr<TrustRegionPolicy> policy_; boost::shared_ptr<OptimizationProblemBase> problem_; std::vector<DesignVariable*> dvs_;
};
} }
