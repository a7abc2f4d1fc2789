// Stand-in for the parts of aslam_backend (not installed here) that the
// incremental calibration core is written against. It keeps the library's
// documented behaviour: an error term's squared error is e' invR e, an update
// goes to the active variables in column order, and Gauss-Newton relinearizes
// at every iteration. A script (see shim::Script) can replace the outcome of a
// solve, so that monitors decide what the estimator is told.
#ifndef VERIF_SHIM_ASLAM_BACKEND_CORE_HPP
#define VERIF_SHIM_ASLAM_BACKEND_CORE_HPP
#include <Eigen/Core>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstddef>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace sm { class PropertyTree; }
namespace aslam { namespace backend {

class DesignVariable {
 public:
  typedef std::set<DesignVariable*> set_t;
  DesignVariable() : _blockIndex(-1), _columnBase(-1), _scaling(1), _marginalized(false), _active(false) {}
  virtual ~DesignVariable() {}
  void update(const double* dp, int size) { updateImplementation(dp, size); }
  void revertUpdate() { revertUpdateImplementation(); }
  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  void getParameters(Eigen::MatrixXd& v) const { getParametersImplementation(v); }
  void setParameters(const Eigen::MatrixXd& v) { setParametersImplementation(v); }
  bool isActive() const { return _active; } void setActive(bool a) { _active = a; }
  bool isMarginalized() const { return _marginalized; } void setMarginalized(bool m) { _marginalized = m; }
  int blockIndex() const { return _blockIndex; } void setBlockIndex(int i) { _blockIndex = i; }
  int columnBase() const { return _columnBase; } void setColumnBase(int c) { _columnBase = c; }
  double scaling() const { return _scaling; } void setScaling(double s) { _scaling = s; }
 protected:
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual void revertUpdateImplementation() = 0;
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) = 0;
 private:
  int _blockIndex, _columnBase; double _scaling; bool _marginalized, _active;
};

class JacobianContainer {
 public:
  explicit JacobianContainer(int rows) : _rows(rows) {}
  typedef std::map<DesignVariable*, Eigen::MatrixXd> Map;
  int rows() const { return _rows; }
  void add(DesignVariable* dv, const Eigen::Ref<const Eigen::MatrixXd>& J) {
    if (!dv) throw std::logic_error("jacobian of no design variable");
    if (J.rows() != _rows || J.cols() != dv->minimalDimensions()) throw std::logic_error("jacobian block of the wrong size");
    if (!dv->isActive()) return;
    auto it = _map.find(dv); if (it == _map.end()) _map[dv] = J; else it->second += J;
  }
  void add(DesignVariable* dv) { add(dv, Eigen::MatrixXd::Identity(_rows, _rows)); }
  void clear() { _map.clear(); }
  size_t numDesignVariables() const { return _map.size(); }
  bool isDesignVariableInJacobians(DesignVariable* dv) const { return _map.count(dv); }
  const Eigen::MatrixXd& Jacobian(const DesignVariable* dv) const { return _map.at(const_cast<DesignVariable*>(dv)); }
  const Map& map() const { return _map; }
 private:
  int _rows; Map _map;
};

class MEstimator;
class ScalarNonSquaredErrorTerm {};

class ErrorTerm {
 public:
  ErrorTerm() : _row(0), _squared(0) {}
  virtual ~ErrorTerm() {}
  double evaluateError() { return _squared = evaluateErrorImplementation(); }
  double getRawSquaredError() const { return _squared; } double getWeightedSquaredError() const { return _squared; }
  double getSquaredError() const { return _squared; }
  double updateRawSquaredError() { return evaluateError(); }
  void evaluateJacobians(JacobianContainer& J) { evaluateJacobiansImplementation(J); }
  int dimension() const { return (int)dimensionImplementation(); }
  virtual Eigen::VectorXd vsError() const = 0;
  virtual Eigen::MatrixXd vsInvR() const = 0;
  void setRowBase(size_t r) { _row = r; } size_t rowBase() const { return _row; }
  size_t numDesignVariables() const { return _dvs.size(); }
  DesignVariable* designVariable(size_t i) { return _dvs.at(i); }
  const DesignVariable* designVariable(size_t i) const { return _dvs.at(i); }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  void setMEstimatorPolicy(const boost::shared_ptr<MEstimator>& m) { _mEstimator = m; } const boost::shared_ptr<MEstimator>& mEstimator() const { return _mEstimator; }
 protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer& J) = 0;
  virtual size_t dimensionImplementation() const = 0;
  void setDesignVariables(const std::vector<DesignVariable*>& v) { _dvs.clear(); for (auto d : v) addDesignVariable(d); }
  void setDesignVariables(DesignVariable* a) { setDesignVariables(std::vector<DesignVariable*>{a}); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b) { setDesignVariables(std::vector<DesignVariable*>{a, b}); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c) { setDesignVariables(std::vector<DesignVariable*>{a, b, c}); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c, DesignVariable* d) { setDesignVariables(std::vector<DesignVariable*>{a, b, c, d}); }
  template <class It> void setDesignVariablesIterator(It b, It e) { _dvs.clear(); for (; b != e; ++b) addDesignVariable(*b); }
 private:
  void addDesignVariable(DesignVariable* d) {
    if (!d) throw std::invalid_argument("null design variable in an error term");
    for (auto x : _dvs) if (x == d) return;
    _dvs.push_back(d);
  }
  size_t _row; double _squared; std::vector<DesignVariable*> _dvs; boost::shared_ptr<MEstimator> _mEstimator;
};

template <int N> class ErrorTermFs : public ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  enum { Dimension = N };
  typedef Eigen::Matrix<double, N, 1> error_t;
  typedef Eigen::Matrix<double, N, N> inverse_covariance_t;
  ErrorTermFs() : _invR(inverse_covariance_t::Identity()), _error(error_t::Zero()) {}
  virtual ~ErrorTermFs() {}
  const error_t& error() const { return _error; }
  template <class D> void setInvR(const Eigen::MatrixBase<D>& R) { _invR = R; }
  const inverse_covariance_t& invR() const { return _invR; }
  template <class D> void setSqrtInvR(const Eigen::MatrixBase<D>& s) { _invR = s * s.transpose(); }
  virtual Eigen::VectorXd vsError() const { return _error; }
  virtual Eigen::MatrixXd vsInvR() const { return _invR; }
 protected:
  template <class D> void setError(const Eigen::MatrixBase<D>& e) { _error = e; }
  void setError(double e) { _error.setConstant(e); }
  double evaluateChiSquaredError() const { return _error.dot(_invR * _error); }
  virtual size_t dimensionImplementation() const { return N; }
 private:
  inverse_covariance_t _invR; error_t _error;
};

class OptimizationProblemBase {
 public:
  virtual ~OptimizationProblemBase() {}
  size_t numDesignVariables() const { return numDesignVariablesImplementation(); }
  DesignVariable* designVariable(size_t i) { return designVariableImplementation(i); }
  const DesignVariable* designVariable(size_t i) const { return designVariableImplementation(i); }
  size_t numErrorTerms() const { return numErrorTermsImplementation(); }
  ErrorTerm* errorTerm(size_t i) { return errorTermImplementation(i); }
  const ErrorTerm* errorTerm(size_t i) const { return errorTermImplementation(i); }
  void getErrors(const DesignVariable* dv, std::set<ErrorTerm*>& s) { getErrorsImplementation(dv, s); }
 protected:
  virtual size_t numDesignVariablesImplementation() const = 0;
  virtual DesignVariable* designVariableImplementation(size_t) = 0;
  virtual const DesignVariable* designVariableImplementation(size_t) const = 0;
  virtual size_t numErrorTermsImplementation() const = 0;
  virtual ErrorTerm* errorTermImplementation(size_t) = 0;
  virtual const ErrorTerm* errorTermImplementation(size_t) const = 0;
  virtual void getErrorsImplementation(const DesignVariable*, std::set<ErrorTerm*>&) = 0;
  virtual size_t numNonSquaredErrorTermsImplementation() const = 0;
  virtual ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) = 0;
  virtual const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) const = 0;
  virtual void getNonSquaredErrorsImplementation(const DesignVariable*, std::set<ScalarNonSquaredErrorTerm*>&) = 0;
};
} }
#endif
