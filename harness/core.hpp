#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
// Linear test problems and pools of design variables for the core monitors.
#include "monitor.hpp"
#include "ref.hpp"
#include <algorithm>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <boost/make_shared.hpp>
namespace core {
using namespace aslam::calibration;
typedef aslam::backend::DesignVariable DV; typedef aslam::backend::ErrorTerm ET;
typedef VectorDesignVariable<Eigen::Dynamic> Vec;
typedef boost::shared_ptr<Vec> VecSP; typedef boost::shared_ptr<ET> TermSP;
typedef OptimizationProblem Batch; typedef boost::shared_ptr<Batch> BatchSP;
inline Eigen::VectorXd randVec(mon::Rng& r, int n, double s = 1) { Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = s * r.normal(); return v; }
inline Eigen::MatrixXd randMat(mon::Rng& r, int m, int n) { Eigen::MatrixXd v(m, n); for (int i = 0; i < v.size(); ++i) v.data()[i] = r.normal(); return v; }
inline Eigen::VectorXd params(const DV& d) { Eigen::MatrixXd m; d.getParameters(m); return m.col(0); }
inline bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0); }
/// b - sum A_i x_i, weighted by W
class LinTerm : public ET {
 public:
  LinTerm(const std::vector<VecSP>& v, const std::vector<Eigen::MatrixXd>& A, const Eigen::VectorXd& b, const Eigen::MatrixXd& W) : v_(v), A_(A), b_(b), W_(W), e_(b) {
    std::vector<DV*> p; for (auto& d : v) p.push_back(d.get()); setDesignVariables(p); }
  virtual Eigen::VectorXd vsError() const { return e_; } virtual Eigen::MatrixXd vsInvR() const { return W_; }
  const std::vector<VecSP>& vars() const { return v_; } const std::vector<Eigen::MatrixXd>& A() const { return A_; } const Eigen::VectorXd& b() const { return b_; }
 protected:
  virtual double evaluateErrorImplementation() { e_ = b_; for (size_t i = 0; i < v_.size(); ++i) e_ -= A_[i] * v_[i]->getValue(); return e_.dot(W_ * e_); }
  virtual void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& J) { for (size_t i = 0; i < v_.size(); ++i) J.add(v_[i].get(), -A_[i]); }
  virtual size_t dimensionImplementation() const { return b_.size(); }
 private:
  std::vector<VecSP> v_; std::vector<Eigen::MatrixXd> A_; Eigen::VectorXd b_; Eigen::MatrixXd W_; Eigen::VectorXd e_;
};
inline boost::shared_ptr<LinTerm> randTerm(mon::Rng& r, const std::vector<VecSP>& v, int dim = 0) {
  const int m = dim ? dim : 1 + (int)r.below(3); std::vector<Eigen::MatrixXd> A; for (auto& d : v) A.push_back(randMat(r, m, d->getValue().size()));
  const Eigen::MatrixXd q = randMat(r, m, m); return boost::make_shared<LinTerm>(v, A, randVec(r, m), Eigen::MatrixXd(q * q.transpose() + Eigen::MatrixXd::Identity(m, m)));
}
inline std::string kind(const std::function<void()>& f) {
  try { f(); return ""; } catch (const OutOfBoundException<size_t>&) { return "bound"; } catch (const InvalidOperationException&) { return "operation"; } catch (const NullPointerException&) { return "null"; } catch (const std::exception& e) { return std::string("other: ") + e.what(); }
}
/// a permutation, or sometimes a list that is not one
inline std::vector<size_t> permutation(mon::Rng& r, size_t n, bool& ok) {
  std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; r.shuffle(p); ok = true;
  if (r.coin(0.3)) {
    switch (r.below(4)) { case 0: p.push_back(n); ok = false; break; case 1: if (n) { p.pop_back(); ok = false; } break; case 2: if (n > 1) { p[0] = p[1]; ok = false; } break; default: if (n) { p[r.below(n)] = n + r.below(3); ok = false; } }
  }
  return p;
}
template <class T> std::vector<T> permuted(const std::vector<T>& v, const std::vector<size_t>& p) { std::vector<T> o; for (size_t i : p) o.push_back(v[i]); return o; }
inline int& wrongIndexKinds() { static thread_local int k = 0; return k; }
/// indices just and far outside [0, n)
inline size_t badIndex(mon::Rng& r, size_t n) { switch (r.below(5)) { case 0: return n; case 1: return n + 1 + r.below(5); case 2: return (size_t)-1; case 3: return (size_t)1 << (58 + r.below(6)); default: return ((size_t)1 << 60) + r.below(n + 1) + (n ? 0 : 0); } }
}
#endif
