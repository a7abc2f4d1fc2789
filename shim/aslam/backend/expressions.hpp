// Stand-in for the expression library of aslam_backend: an expression is a
// function of the design variables it depends on, and its Jacobians are central
// differences of that function, chained with the factor given. Conventions
// (design variable steps, perturbation of a transformation) are the library's.
#ifndef VERIF_SHIM_EXPRESSIONS_HPP
#define VERIF_SHIM_EXPRESSIONS_HPP
#include <aslam/backend/core.hpp>
#include <sm/kinematics/kin.hpp>
#include <cstdint>
namespace aslam { namespace backend {
typedef std::set<DesignVariable*> DvSet;
// --- design variables ---
class EuclideanPoint : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit EuclideanPoint(const Eigen::Vector3d& p) : p_(p), old_(p) {}
  const Eigen::Vector3d& toEuclidean() const { return p_; }
  Eigen::MatrixXd getParameters() const { return p_; }
  using DesignVariable::getParameters;
 protected:
  void updateImplementation(const double* d, int) override { old_ = p_; p_ += Eigen::Map<const Eigen::Vector3d>(d); }
  void revertUpdateImplementation() override { p_ = old_; }
  int minimalDimensionsImplementation() const override { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = p_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { old_ = p_; p_ = v; }
 private: Eigen::Vector3d p_, old_;
};
class RotationQuaternion : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit RotationQuaternion(const Eigen::Vector4d& q) : q_(q / q.norm()), old_(q_) {}
  explicit RotationQuaternion(const Eigen::Matrix3d& C) : q_(sm::kinematics::r2quat(C)), old_(q_) {}
  const Eigen::Vector4d& getQuaternion() const { return q_; }
  Eigen::Matrix3d toRotationMatrix() const { return sm::kinematics::quat2r(q_); }
  void set(const Eigen::Matrix3d& C) { old_ = q_; q_ = sm::kinematics::r2quat(C); }
  Eigen::MatrixXd getParameters() const { return q_; }
  using DesignVariable::getParameters;
 protected:
  void updateImplementation(const double* d, int) override { old_ = q_; q_ = sm::kinematics::updateQuat(q_, Eigen::Map<const Eigen::Vector3d>(d)); }
  void revertUpdateImplementation() override { q_ = old_; }
  int minimalDimensionsImplementation() const override { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = q_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { old_ = q_; q_ = v; q_ /= q_.norm(); }
 private: Eigen::Vector4d q_, old_;
};
class Scalar : public DesignVariable {
 public:
  explicit Scalar(double p) : p_(p), old_(p) {}
  double toScalar() const { return p_; }
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, p_); }
  using DesignVariable::getParameters;
 protected:
  void updateImplementation(const double* d, int) override { old_ = p_; p_ += *d; }
  void revertUpdateImplementation() override { p_ = old_; }
  int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = Eigen::MatrixXd::Constant(1, 1, p_); }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { old_ = p_; p_ = v(0, 0); }
 private: double p_, old_;
};
/// a number stored as an integer count of 1/D: an integer is a count, a real number is a value
template <typename I, std::uintmax_t D> class FixedPointNumber {
 public:
  typedef I Integer;
  static I getDivider() { return (I)D; }
  FixedPointNumber() : n_(0) {}
  FixedPointNumber(I n) : n_(n) {}
  FixedPointNumber(int n) : n_(n) {}
  FixedPointNumber(double v) : n_((I)std::llround(v * (double)D)) {}
  I getNumerator() const { return n_; }
  operator double() const { return (double)(n_ / (I)D) + (double)(n_ % (I)D) / (double)D; }
  FixedPointNumber operator+(const FixedPointNumber& o) const { return FixedPointNumber(n_ + o.n_); }
  FixedPointNumber operator-(const FixedPointNumber& o) const { return FixedPointNumber(n_ - o.n_); }
  FixedPointNumber operator-() const { return FixedPointNumber(-n_); }
  bool operator==(const FixedPointNumber& o) const { return n_ == o.n_; }
 private: I n_;
};
template <typename S> class GenericScalarExpression {
 public:
  GenericScalarExpression(const S& s) : f_([s] { return s; }) {}
  template <class T> explicit GenericScalarExpression(const T& s, typename std::enable_if<std::is_arithmetic<T>::value>::type* = 0) { const S x(s); f_ = [x] { return x; }; }
  GenericScalarExpression(const std::function<S()>& f, const DvSet& d) : f_(f), d_(d) {}
  S toScalar() const { return f_(); } S toValue() const { return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  const DvSet& dvs() const { return d_; } const std::function<S()>& fn() const { return f_; }
  GenericScalarExpression operator+(const GenericScalarExpression& o) const { auto a = f_, b = o.f_; DvSet d = d_; d.insert(o.d_.begin(), o.d_.end()); return GenericScalarExpression([a, b] { return a() + b(); }, d); }
  GenericScalarExpression operator-(const GenericScalarExpression& o) const { auto a = f_, b = o.f_; DvSet d = d_; d.insert(o.d_.begin(), o.d_.end()); return GenericScalarExpression([a, b] { return a() - b(); }, d); }
 private: std::function<S()> f_; DvSet d_;
};
template <typename S> class GenericScalar : public DesignVariable {
 public:
  explicit GenericScalar(const S& s) : p_(s), old_(s) {}
  const S& toScalar() const { return p_; }
  GenericScalarExpression<S> toExpression() { GenericScalar* self = this; return GenericScalarExpression<S>([self] { return self->p_; }, DvSet{this}); }
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, (double)p_); }
  using DesignVariable::getParameters;
 protected:
  void updateImplementation(const double* d, int) override { old_ = p_; p_ = p_ + S(*d); }
  void revertUpdateImplementation() override { p_ = old_; }
  int minimalDimensionsImplementation() const override { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const override { v = Eigen::MatrixXd::Constant(1, 1, (double)p_); }
  void setParametersImplementation(const Eigen::MatrixXd& v) override { old_ = p_; p_ = S(v(0, 0)); }
 private: S p_, old_;
};
// --- expressions ---
namespace detail {
/// step of a central difference
inline double stepOf(DesignVariable* d) { return d->minimalDimensions() == 1 && !dynamic_cast<Scalar*>(d) ? 1e-4 : 1e-6; }
/// chain * d f / d dv for every active variable
template <class F> void differences(JacobianContainer& J, const DvSet& dvs, const Eigen::MatrixXd& chain, F f) {
  for (DesignVariable* d : dvs) {
    if (!d->isActive()) continue;
    const int n = d->minimalDimensions(); Eigen::MatrixXd D(chain.cols(), n); Eigen::MatrixXd keep; d->getParameters(keep);
    for (int i = 0; i < n; ++i) {
      const double h = stepOf(d); Eigen::VectorXd s = Eigen::VectorXd::Zero(n);
      s(i) = h; d->update(s.data(), n); const auto hi = f(); d->revertUpdate(); s(i) = -h; d->update(s.data(), n); const auto lo = f(); d->revertUpdate();
      D.col(i) = (hi - lo) / (2 * h);
    }
    J.add(d, chain * D);
  }
}
template <class A, class B> DvSet unite(const A& a, const B& b) { DvSet s; a.getDesignVariables(s); b.getDesignVariables(s); return s; }
}
template <int N> class VectorExpression {
 public:
  typedef Eigen::Matrix<double, N, 1> V; typedef std::function<V()> F;
  VectorExpression() {}
  VectorExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  V toValue() const { return f_(); } V evaluate() const { return f_(); } V toVector() const { return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  const F& fn() const { return f_; } const DvSet& dvs() const { return d_; }
 private: F f_; DvSet d_;
};
class ScalarExpression {
 public:
  typedef std::function<double()> F;
  ScalarExpression(double v = 0) : f_([v] { return v; }) {}
  ScalarExpression(Scalar* s) : f_([s] { return s->toScalar(); }), d_{s} {}
  ScalarExpression(const boost::shared_ptr<Scalar>& s) : f_([s] { return s->toScalar(); }), d_{s.get()} {}
  ScalarExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  double toScalar() const { return f_(); } double toValue() const { return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  const F& fn() const { return f_; }
  void evaluateJacobians(JacobianContainer& J) const { evaluateJacobians(J, Eigen::MatrixXd::Identity(1, 1)); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& chain) const { check(J, chain); auto f = f_; detail::differences(J, d_, chain, [f] { return Eigen::Matrix<double, 1, 1>(f()); }); }
 private:
  static void check(JacobianContainer& J, const Eigen::MatrixXd& c) { if (c.rows() != J.rows() || c.cols() != 1) throw std::logic_error("chain rule factor of the wrong size"); }
  F f_; DvSet d_;
};
class EuclideanExpression {
 public:
  typedef std::function<Eigen::Vector3d()> F;
  EuclideanExpression() { const Eigen::Vector3d z = Eigen::Vector3d::Zero(); f_ = [z] { return z; }; }
  EuclideanExpression(const Eigen::Vector3d& v) { f_ = [v] { return v; }; }
  EuclideanExpression(EuclideanPoint* p) : f_([p]() -> Eigen::Vector3d { return p->toEuclidean(); }), d_{p} {}
  EuclideanExpression(const boost::shared_ptr<EuclideanPoint>& p) : f_([p]() -> Eigen::Vector3d { return p->toEuclidean(); }), d_{p.get()} {}
  EuclideanExpression(const VectorExpression<3>& v) : f_(v.fn()), d_(v.dvs()) {}
  EuclideanExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  Eigen::Vector3d toValue() const { return f_(); } Eigen::Vector3d toEuclidean() const { return f_(); } Eigen::Vector3d evaluate() const { return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  const F& fn() const { return f_; }
  EuclideanExpression operator+(const EuclideanExpression& o) const { auto a = f_, b = o.f_; return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a() + b(); }, detail::unite(*this, o)); }
  EuclideanExpression operator-(const EuclideanExpression& o) const { auto a = f_, b = o.f_; return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a() - b(); }, detail::unite(*this, o)); }
  EuclideanExpression operator-() const { auto a = f_; return EuclideanExpression([a]() -> Eigen::Vector3d { return -a(); }, d_); }
  EuclideanExpression operator*(const ScalarExpression& s) const { auto a = f_; auto b = s.fn(); return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a() * b(); }, detail::unite(*this, s)); }
  EuclideanExpression operator/(const ScalarExpression& s) const { auto a = f_; auto b = s.fn(); return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a() / b(); }, detail::unite(*this, s)); }
  EuclideanExpression cross(const EuclideanExpression& o) const { auto a = f_, b = o.f_; return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a().cross(b()); }, detail::unite(*this, o)); }
  void evaluateJacobians(JacobianContainer& J) const { evaluateJacobians(J, Eigen::MatrixXd::Identity(3, 3)); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& chain) const { if (chain.rows() != J.rows() || chain.cols() != 3) throw std::logic_error("chain rule factor of the wrong size"); auto f = f_; detail::differences(J, d_, chain, [f] { return f(); }); }
 private: F f_; DvSet d_;
};
class RotationExpression {
 public:
  typedef std::function<Eigen::Matrix3d()> F;
  RotationExpression() { const Eigen::Matrix3d i = Eigen::Matrix3d::Identity(); f_ = [i] { return i; }; }
  RotationExpression(const Eigen::Matrix3d& C) { f_ = [C] { return C; }; }
  RotationExpression(RotationQuaternion* q) : f_([q] { return q->toRotationMatrix(); }), d_{q} {}
  RotationExpression(const boost::shared_ptr<RotationQuaternion>& q) : f_([q] { return q->toRotationMatrix(); }), d_{q.get()} {}
  RotationExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  Eigen::Matrix3d toRotationMatrix() const { return f_(); } Eigen::Matrix3d evaluate() const { return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  const F& fn() const { return f_; }
  RotationExpression operator*(const RotationExpression& o) const { auto a = f_, b = o.f_; return RotationExpression([a, b]() -> Eigen::Matrix3d { return a() * b(); }, detail::unite(*this, o)); }
  EuclideanExpression operator*(const EuclideanExpression& o) const { auto a = f_; auto b = o.fn(); return EuclideanExpression([a, b]() -> Eigen::Vector3d { return a() * b(); }, detail::unite(*this, o)); }
  RotationExpression inverse() const { auto a = f_; return RotationExpression([a]() -> Eigen::Matrix3d { return a().transpose(); }, d_); }
 private: F f_; DvSet d_;
};
class TransformationExpression {
 public:
  typedef std::function<Eigen::Matrix4d()> F;
  TransformationExpression() {}
  TransformationExpression(const RotationExpression& R, const EuclideanExpression& t) { auto a = R.fn(); auto b = t.fn(); f_ = [a, b] { return sm::kinematics::rt2Transform(a(), b()); }; d_ = detail::unite(R, t); }
  TransformationExpression(const F& f, const DvSet& d) : f_(f), d_(d) {}
  /// null when empty
  const TransformationExpression* root() const { return f_ ? this : nullptr; }
  Eigen::Matrix4d toTransformationMatrix() const { if (!f_) throw std::logic_error("empty transformation expression"); return f_(); }
  void getDesignVariables(DvSet& s) const { s.insert(d_.begin(), d_.end()); }
  TransformationExpression operator*(const TransformationExpression& o) const { auto a = f_, b = o.f_; return TransformationExpression([a, b]() -> Eigen::Matrix4d { return a() * b(); }, detail::unite(*this, o)); }
  TransformationExpression inverse() const { auto a = f_; return TransformationExpression([a]() -> Eigen::Matrix4d { const Eigen::Matrix4d T = a(); const Eigen::Matrix3d R = T.topLeftCorner<3, 3>().transpose(); const Eigen::Vector3d t = T.topRightCorner<3, 1>(); return sm::kinematics::rt2Transform(R, -R * t); }, d_); }
  /// chain is with respect to [dt; dphi] with T(dt, dphi) = [I - [dphi]x, dt; 0, 1] T
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& chain) const {
    if (chain.rows() != J.rows() || chain.cols() != 6) throw std::logic_error("chain rule factor of the wrong size");
    auto f = f_; const Eigen::Matrix4d T0 = f_(); const Eigen::Matrix3d R0t = T0.topLeftCorner<3, 3>().transpose(); const Eigen::Vector3d t0 = T0.topRightCorner<3, 1>();
    detail::differences(J, d_, chain, [f, R0t, t0] { const Eigen::Matrix4d T = f(); const Eigen::Matrix3d E = T.topLeftCorner<3, 3>() * R0t; Eigen::Matrix<double, 6, 1> v;
      const Eigen::Vector3d w(-(E(2, 1) - E(1, 2)) / 2, -(E(0, 2) - E(2, 0)) / 2, -(E(1, 0) - E(0, 1)) / 2);
      v.head<3>() = T.topRightCorner<3, 1>() - t0 - t0.cross(w); v.tail<3>() = w; return v; });
  }
 private: F f_; DvSet d_;
};
class Vector2RotationQuaternionExpressionAdapter {
 public:
  static RotationExpression adapt(const VectorExpression<4>& v) { auto f = v.fn(); return RotationExpression([f]() -> Eigen::Matrix3d { return sm::kinematics::quat2r(f()); }, v.dvs()); }
};
/// error of a transformation against a measured one: log of the difference, weighted
class ErrorTermTransformation : public ErrorTermFs<6> {
 public:
  ErrorTermTransformation(const TransformationExpression& T, const sm::kinematics::Transformation& prior, const Eigen::Matrix<double, 6, 6>& cov) : T_(T), prior_(prior), cov_(cov) { setInvR(cov.inverse()); DvSet d; T_.getDesignVariables(d); setDesignVariablesIterator(d.begin(), d.end()); }
  const sm::kinematics::Transformation& prior() const { return prior_; } const Eigen::Matrix<double, 6, 6>& covariance() const { return cov_; } const TransformationExpression& expression() const { return T_; }
 protected:
  error_t at() const { const Eigen::Matrix4d D = T_.toTransformationMatrix() * prior_.inverse().T(); error_t e; e.head<3>() = D.topRightCorner<3, 1>(); e.tail<3>() = sm::kinematics::quat2AxisAngle(sm::kinematics::r2quat(D.topLeftCorner<3, 3>())); return e; }
  double evaluateErrorImplementation() override { setError(at()); return evaluateChiSquaredError(); }
  void evaluateJacobiansImplementation(JacobianContainer& J) override { DvSet d; T_.getDesignVariables(d); const ErrorTermTransformation* self = this; detail::differences(J, d, Eigen::MatrixXd::Identity(6, 6), [self] { return self->at(); }); }
 private: TransformationExpression T_; sm::kinematics::Transformation prior_; Eigen::Matrix<double, 6, 6> cov_;
};
} }
#endif
