// Stand-in for the bsplines and aslam_splines libraries: uniform B-splines over
// nanosecond times with their vertices as design variables, vector-valued or
// unit-quaternion-valued (normalized blend of the vertices), fitted to samples by
// regularized least squares. A spline is defined on [first, last] sample time; an
// evaluation outside of it is an error, as is a delayed one outside its bounds.
#ifndef VERIF_SHIM_BSPLINES_HPP
#define VERIF_SHIM_BSPLINES_HPP
#include <aslam/backend/expressions.hpp>
#include <Eigen/Dense>
#include <deque>
#include <sm/timing/NsecTimeUtilities.hpp>
namespace aslam { namespace splines { template <class Conf> struct OPTBSpline; template <class Conf> class Curve; } }
namespace bsplines {
struct NsecTimePolicy { typedef sm::timing::NsecTime time_t; static time_t getOne() { return 1000000000LL; } static time_t getZero() { return 0; } };
template <int D, class T> struct SplineConf { struct ManifoldConf { ManifoldConf(int = D) {} }; SplineConf(const ManifoldConf&, int order) : order(order) {} int order; };
template <int K, int D, class T> struct EuclideanBSpline { struct CONF : SplineConf<D, T> { enum { Dim = D, Unit = 0 }; typedef typename SplineConf<D, T>::ManifoldConf ManifoldConf; CONF(const ManifoldConf& m, int order) : SplineConf<D, T>(m, order) {} }; typedef aslam::splines::Curve<CONF> TYPE; };
template <int K, class T> struct UnitQuaternionBSpline { struct CONF : SplineConf<4, T> { enum { Dim = 4, Unit = 1 }; typedef typename SplineConf<4, T>::ManifoldConf ManifoldConf; CONF(const ManifoldConf& m, int order) : SplineConf<4, T>(m, order) {} }; typedef aslam::splines::Curve<CONF> TYPE; };
/// weights (and derivative weights per second) of the order-k uniform B-spline at segment position u in [0, 1]
inline void basis(int k, double u, int derivative, double perSegment, std::vector<double>& w) {
  // de Boor on integer knots: N_{i,1} = 1 on the segment; order o weights from order o - 1
  auto plain = [](int o, double x) { std::vector<double> n(1, 1.0); for (int p = 2; p <= o; ++p) { std::vector<double> m(p, 0.0); for (int i = 0; i < p; ++i) { // support of vertex i starts p - 1 - i segments before
        const double s = x + (p - 1 - i); if (i >= 1) m[i] += s / (p - 1) * n[i - 1]; if (i <= p - 2) m[i] += (p - s) / (p - 1) * n[i]; } n.swap(m); } return n; };
  if (derivative > 1) throw std::logic_error("derivative order of a spline");
  if (!derivative) { w = plain(k, u); return; }
  w.assign(k, 0.0); if (k == 1) return; const auto n = plain(k - 1, u); for (int i = 0; i < k; ++i) { if (i >= 1) w[i] += n[i - 1]; if (i <= k - 2) w[i] -= n[i]; w[i] /= perSegment; }
}
}
namespace aslam { namespace splines {
namespace detail {
template <int D, int Unit> class Vertex : public aslam::backend::DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<double, D, 1> V; V v, old; Vertex() : v(V::Zero()), old(v) {}
 protected:
  void step(const double* d, std::integral_constant<int, 0>) { v += Eigen::Map<const V>(d); }
  void step(const double* d, std::integral_constant<int, 1>) { v = sm::kinematics::updateQuat(v, Eigen::Map<const Eigen::Vector3d>(d)); }
  void updateImplementation(const double* d, int) override { old = v; step(d, std::integral_constant<int, Unit>()); }
  void revertUpdateImplementation() override { v = old; }
  int minimalDimensionsImplementation() const override { return Unit ? 3 : D; }
  void getParametersImplementation(Eigen::MatrixXd& p) const override { p = v; }
  void setParametersImplementation(const Eigen::MatrixXd& p) override { old = v; v = p; }
};
template <int D, int Unit> struct State {
  typedef Vertex<D, Unit> Vx; typedef typename Vx::V V;
  int order = 0, segments = 0; int64_t t0 = 0, t1 = 0; std::vector<boost::shared_ptr<Vx>> vertices;
  double perSegment() const { return (double)(t1 - t0) * 1e-9 / segments; }
  void locate(int64_t t, int& seg, double& u) const {
    if (!segments) throw std::runtime_error("evaluation of an empty spline");
    if (t < t0 || t > t1) throw std::runtime_error("evaluation of a spline outside of its time range");
    const double x = (double)(t - t0) / (double)(t1 - t0) * segments; seg = std::min((int)x, segments - 1); u = x - seg; }
  V blend(int64_t t, int derivative) const { int s; double u; locate(t, s, u); std::vector<double> w; bsplines::basis(order, u, derivative, perSegment(), w); V r = V::Zero(); for (int i = 0; i < order; ++i) r += w[i] * vertices[s + i]->v; return r; }
  V value(int64_t t, int derivative) const { const V r = blend(t, derivative); if (!Unit) return r; if (!derivative) return r / r.norm(); const V b = blend(t, 0); const double n = b.norm(); return r / n - b * (b.dot(r) / (n * n * n)); }
  /// q' = exp(w dt) q
  Eigen::Vector3d angularVelocity(int64_t t) const { const Eigen::Vector4d q = value(t, 0), d = value(t, 1); return 2 * sm::kinematics::qplus(d, sm::kinematics::quatInv(q)).template head<3>(); }
  aslam::backend::DvSet support(int64_t lo, int64_t hi) const { int a, b; double u; locate(lo, a, u); locate(hi, b, u); aslam::backend::DvSet s; for (int i = a; i < b + order; ++i) s.insert(vertices[i].get()); return s; }
};
}
template <class Conf> class Curve {
 public:
  enum { D = Conf::Dim, Unit = Conf::Unit }; typedef Conf Conf_;
  typedef detail::State<D, Unit> St; typedef typename St::V point_t; typedef int64_t time_t;
  Curve(const Conf& c) : s_(new St) { s_->order = c.order; if (c.order < 1 || c.order > 16) throw std::invalid_argument("order of a spline"); }
  size_t numDesignVariables() const { return s_->vertices.size(); }
  aslam::backend::DesignVariable* designVariable(size_t i) { return s_->vertices.at(i).get(); }
  time_t getMinTime() const { return s_->t0; } time_t getMaxTime() const { return s_->t1; }
  int getSplineOrder() const { return s_->order; } int getNumSegments() const { return s_->segments; }
  template <int N> class Factory {
   public:
    typedef std::function<int64_t()> T;
    Factory(const boost::shared_ptr<St>& s, const T& t, const aslam::backend::DvSet& d) : s_(s), t_(t), d_(d) {}
    aslam::backend::VectorExpression<D> getValueExpression(int o = 0) const { if (o > N) throw std::logic_error("derivative beyond those asked for"); auto s = s_; auto t = t_; return aslam::backend::VectorExpression<D>([s, t, o] { return s->value(t(), o); }, d_); }
    aslam::backend::VectorExpression<3> getAngularVelocityExpression() const { static_assert(N >= 1, "derivative beyond those asked for"); auto s = s_; auto t = t_; return aslam::backend::VectorExpression<3>([s, t] { return s->angularVelocity(t()); }, d_); }
   private: boost::shared_ptr<St> s_; T t_; aslam::backend::DvSet d_; };
  template <int N> Factory<N> getExpressionFactoryAt(time_t t) const { return Factory<N>(s_, [t] { return t; }, s_->support(t, t)); }
  template <int N, class S> Factory<N> getExpressionFactoryAt(const aslam::backend::GenericScalarExpression<S>& e, time_t lo, time_t hi) const {
    aslam::backend::DvSet d = s_->support(lo, hi); e.getDesignVariables(d); auto f = e.fn();
    return Factory<N>(s_, [f, lo, hi]() -> int64_t { const int64_t t = f().getNumerator(); if (t < lo || t > hi) throw std::runtime_error("delayed time outside of its bounds"); return t; }, d); }
  struct Evaluator { point_t v, d; Eigen::Vector3d w; point_t eval() const { return v; } point_t evalD(int o) const { return o ? d : v; } Eigen::Vector3d evalAngularVelocity() const { return w; } };
  template <int N> Evaluator getEvaluatorAt(time_t t) const { Evaluator e; e.v = s_->value(t, 0); e.d = s_->value(t, 1); e.w = omega(t, std::integral_constant<int, Unit>()); return e; }
  boost::shared_ptr<St> state() const { return s_; }
 private:
  Eigen::Vector3d omega(time_t t, std::integral_constant<int, 1>) const { return s_->angularVelocity(t); }
  Eigen::Vector3d omega(time_t, std::integral_constant<int, 0>) const { return Eigen::Vector3d::Zero(); }
  boost::shared_ptr<St> s_;
};
template <class Conf> struct OPTBSpline { class BSpline : public Curve<Conf> { public: explicit BSpline(const Conf& c) : Curve<Conf>(c) {} }; };
} }
namespace bsplines {
/// what the monitors can see of a fit
struct Fit { int dimension = 0, order = 0, segments = 0; double lambda = 0; std::vector<int64_t> times; Eigen::MatrixXd samples; };
inline std::deque<Fit>& fitLog() { static thread_local std::deque<Fit> l; return l; }
template <class Spline> class BSplineFitter {
 public:
  template <class P> static void initUniformSpline(Spline& sp, const std::vector<sm::timing::NsecTime>& t, const std::vector<P>& p, int segments, double lambda) {
    auto s = sp.state(); { auto& l = fitLog(); if (l.size() >= 16) l.pop_front(); l.emplace_back(); Fit& f = l.back(); f.dimension = Spline::D; f.order = s->order; f.segments = segments; f.lambda = lambda; f.times.assign(t.begin(), t.end()); f.samples.resize(Spline::D, p.size()); for (size_t i = 0; i < p.size(); ++i) f.samples.col(i) = p[i]; }
    if (t.size() != p.size() || t.size() < 2) throw std::invalid_argument("fit of a spline to too few samples");
    if (segments < 1) throw std::invalid_argument("fit of a spline without segments");
    for (size_t i = 1; i < t.size(); ++i) if (t[i] < t[i - 1]) throw std::invalid_argument("fit of a spline to unordered times");
    if (t.back() <= t.front()) throw std::invalid_argument("fit of a spline to one instant");
    s->t0 = t.front(); s->t1 = t.back(); s->segments = segments; const int k = s->order, n = segments + k - 1;
    s->vertices.clear(); for (int i = 0; i < n; ++i) s->vertices.push_back(boost::make_shared<typename std::remove_reference<decltype(*s)>::type::Vx>());
    Eigen::MatrixXd N = Eigen::MatrixXd::Zero(n, n), B = Eigen::MatrixXd::Zero(n, Spline::D); std::vector<double> w;
    for (size_t i = 0; i < t.size(); ++i) { int g; double u; s->locate(t[i], g, u); basis(k, u, 0, 1, w); for (int a = 0; a < k; ++a) { B.row(g + a) += w[a] * p[i].transpose(); for (int b = 0; b < k; ++b) N(g + a, g + b) += w[a] * w[b]; } }
    const double r = 1e-9 + lambda; for (int i = 0; i + 2 < n; ++i) { const double c[3] = {1, -2, 1}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) N(i + a, i + b) += r * c[a] * c[b]; }
    N.diagonal().array() += 1e-13; const Eigen::MatrixXd X = N.ldlt().solve(B);
    for (int i = 0; i < n; ++i) { s->vertices[i]->v = X.row(i).transpose(); if (Spline::Unit) s->vertices[i]->v /= s->vertices[i]->v.norm(); s->vertices[i]->old = s->vertices[i]->v; }
  }
};
}
#endif
