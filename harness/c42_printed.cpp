// C42: what an object prints is what it holds, and printing changes nothing.
#include "monitor.hpp"
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/geometry/Transformation.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/Histogram.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <Eigen/Geometry>
#include <iomanip>
#include <memory>
using namespace aslam::calibration;
namespace {
struct Row { std::string label; std::vector<double> want; double tol, abs = 0; };
typedef std::vector<Row> Rows;
/// what an object holds, as known from how it was made; empties of the format are drawn by the caller
Row row(const char* l, double v) { return {l, {v}, 0}; }
template <class E> Row row(const char* l, const Eigen::MatrixBase<E>& m) { Row r{l, {}, 0}; for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) r.want.push_back((double)m(i, j)); return r; }
std::string lower(std::string s) { for (auto& c : s) c = (char)std::tolower((unsigned char)c); return s; }
bool number(const std::string& t, double& v) { if (t == "true") { v = 1; return true; } if (t == "false") { v = 0; return true; } char* e; v = std::strtod(t.c_str(), &e); return !t.empty() && !*e; }
/// where the figures of a label begin: the label is a whole line's start or follows blanks
size_t after(const std::string& t, const std::string& label) {
  for (size_t p = 0; (p = t.find(label, p)) != std::string::npos; ++p) {
    size_t b = p; while (b > 0 && (t[b - 1] == ' ' || t[b - 1] == '\t')) --b;
    if (b == 0 || t[b - 1] == '\n') { p += label.size(); while (p < t.size() && (t[p] == ' ' || t[p] == '\t')) ++p; if (p < t.size() && t[p] == ':') return p + 1; }
  }
  return std::string::npos;
}
void format(mon::Rng& r, std::ostream& o) {
  if (r.coin(0.7)) o.precision(r.range(1, 17));
  switch (r.below(4)) { case 0: o << std::scientific; break; case 1: o << std::fixed; break; default: break; }
  if (r.coin(0.2)) o << std::showpos; if (r.coin(0.2)) o << std::boolalpha; if (r.coin(0.2)) o << std::uppercase; if (r.coin(0.1)) o << std::showpoint;
}
/// the figure as the stream shows it, and its last place
double shown(std::ostream& like, double v) { std::ostringstream o; o.copyfmt(like); o << v; return std::strtod(o.str().c_str(), nullptr); }
template <class T> void judge(mon::Ctx& c, const T& obj, const char* name, const Rows& rows) {
  std::ostringstream o; format(c.rng, o); const std::string before = c.rng.coin() ? "x\n" : ""; o << before;
  const auto flags = o.flags(); const auto prec = o.precision();
  c.note("%s", name);
  std::ostream& back = c.rng.coin() ? (o << obj) : (static_cast<std::ostream&>(o) << static_cast<const Serializable&>(obj));
  c.check(&back == &o && o.good(), "stream", "%s: the stream is lost or failed", name);
  c.check(o.flags() == flags && o.precision() == prec, "format-of-stream-changed", "%s", name);
  std::string t = o.str(); if (!c.check(t.compare(0, before.size(), before) == 0, "text-before-lost", "%s", name)) return;
  t.erase(0, before.size()); const std::string low = lower(t);
  for (auto& w : rows) {
    size_t p = after(low, w.label);
    if (!c.check(p != std::string::npos, "label-missing", "%s: no \"%s\" in \"%.200s\"", name, w.label.c_str(), t.c_str())) continue;
    std::istringstream in(low.substr(p)); std::string tok; double v; bool fine = true;
    for (size_t i = 0; i < w.want.size() && fine; ++i) {
      if (!(in >> tok) || !number(tok, v)) { fine = c.check(false, "figures-missing", "%s: \"%s\" has %zu of %zu figures", name, w.label.c_str(), i, w.want.size()); break; }
      const double want = shown(o, w.want[i]);
      // a figure computed in another order may differ in its last place, which may then round the other way
      const double slack = w.tol ? w.abs + std::fabs(want) * std::max(w.tol, std::pow(10.0, 1 - (double)o.precision())) + ((o.flags() & std::ios::fixed) ? std::pow(10.0, -(double)o.precision()) : 0) : 0;
      fine = c.check(v == want || v == w.want[i] || (std::isnan(v) && std::isnan(want)) || std::fabs(v - want) <= slack, "printed-figure", "%s: \"%s\" figure %zu is %s, it holds %.17g", name, w.label.c_str(), i, tok.c_str(), w.want[i]);
    }
    if (fine && (in >> tok) && number(tok, v)) c.check(false, "too-many-figures", "%s: \"%s\" goes on with %s", name, w.label.c_str(), tok.c_str());
    c.count("figures compared", (long)w.want.size());
  }
  std::ostringstream again; again.copyfmt(o); again << obj; c.check(again.str() == t, "printing-changes-the-object", "%s: \"%.100s\" then \"%.100s\"", name, t.c_str(), again.str().c_str());
  std::ostringstream copy; copy.copyfmt(o); { const T d(obj); copy << d; } c.check(copy.str() == t, "copy-prints-otherwise", "%s", name);
  c.count(std::string("objects printed: ") + name); c.seen(mon::hcomb(mon::hashStr(t), mon::hashStr(name)));
}
/// printed, then assigned over by another and printed again
template <class T> void both(mon::Ctx& c, T& a, const Rows& ra, T& b, const Rows& rb, const char* name) {
  judge(c, a, name, ra); if (c.rng.coin()) judge(c, b, name, rb);
  if (c.rng.coin()) { a = b; judge(c, a, name, rb); judge(c, b, name, rb); }
}
double any(mon::Rng& r) { switch (r.below(6)) { case 0: return r.signedLog(1e-300, 1e300); case 1: return r.range(-9, 9); case 2: return r.signedLog(1e-6, 1e6); default: return r.normal(); } }
double pos(mon::Rng& r) { return r.coin(0.2) ? r.logu(1e-12, 1e12) : r.coin() ? 1 + (double)r.below(20) : r.logu(1e-2, 1e2); }
template <int M> Eigen::Matrix<double, M, 1> vec(mon::Rng& r, int n) { Eigen::Matrix<double, M, 1> v(n); for (int i = 0; i < n; ++i) v(i) = any(r); return v; }
template <int M> Eigen::Matrix<double, M, M> spd(mon::Rng& r, int n) { Eigen::Matrix<double, M, M> a(n, n); for (long i = 0; i < a.size(); ++i) a.data()[i] = r.normal(); Eigen::Matrix<double, M, M> s = a * a.transpose(); s = (s + s.transpose()).eval() / 2; s.diagonal().array() += 0.5; return s * r.logu(1e-3, 1e3); }
template <int M> void normalMv(mon::Ctx& c) {
  auto& r = c.rng; typedef NormalDistribution<M> D; const int n = M == Eigen::Dynamic ? 1 + (int)r.below(5) : M;
  Eigen::Matrix<double, M, 1> m = vec<M>(r, n), m2 = vec<M>(r, n); Eigen::Matrix<double, M, M> s = spd<M>(r, n), s2 = spd<M>(r, n);
  D a = r.coin() ? D(m, s) : D(std::make_tuple(m, s)), b(m2, s2); if (r.coin(0.3)) { m = vec<M>(r, n); a.setMean(m); } if (r.coin(0.3)) { s = spd<M>(r, n); a.setCovariance(s); }
  both(c, a, {row("mean", m), row("covariance", s)}, b, {row("mean", m2), row("covariance", s2)}, "normal distribution of vectors");
}
template <class X, int M> void uniformMv(mon::Ctx& c) {
  auto& r = c.rng; typedef UniformDistribution<X, M> D; typedef typename D::RandomVariable V; const int n = M == Eigen::Dynamic ? 1 + (int)r.below(4) : M;
  auto draw = [&](V& lo, V& hi) { lo = V(n); hi = V(n); for (int i = 0; i < n; ++i) { lo(i) = (X)(std::is_integral<X>::value ? r.range(-50, 50) : r.normal() * 10); hi(i) = lo(i) + (X)(std::is_integral<X>::value ? r.range(1, 30) : r.logu(1e-3, 1e3)); } };
  auto rows = [&](const V& lo, const V& hi) { long double area = 1; for (int i = 0; i < n; ++i) area *= std::is_integral<X>::value ? (long double)(hi(i) - lo(i)) + 1 : (long double)hi(i) - lo(i); Row a = row("support area", (double)area); a.tol = 1e-12; return Rows{row("minimum support", lo.template cast<double>()), row("maximum support", hi.template cast<double>()), a}; };
  V lo, hi, l2, h2; draw(lo, hi); draw(l2, h2); D a(lo, hi), b(l2, h2); if (r.coin(0.4)) { draw(lo, hi); a.setSupport(lo, hi); }
  if (r.coin(0.3)) { for (int i = 0; i < n; ++i) hi(i) = hi(i) + (X)1; a.setMaxSupport(hi); }
  both(c, a, rows(lo, hi), b, rows(l2, h2), "uniform distribution over a box");
}
template <class X> void uniform1(mon::Ctx& c) {
  auto& r = c.rng; typedef UniformDistribution<X> D; auto draw = [&](X& lo, X& hi) { lo = (X)(std::is_integral<X>::value ? r.range(-50, 50) : r.normal() * 10); hi = lo + (X)(std::is_integral<X>::value ? r.range(1, 30) : r.logu(1e-3, 1e3)); };
  X lo, hi, l2, h2; draw(lo, hi); draw(l2, h2); D a(lo, hi), b(l2, h2); if (r.coin(0.4)) { draw(lo, hi); a.setSupport(lo, hi); }
  both(c, a, {row("minimum support", lo), row("maximum support", hi)}, b, {row("minimum support", l2), row("maximum support", h2)}, "uniform distribution");
}
template <int M> void estimatorMv(mon::Ctx& c) {
  auto& r = c.rng; typedef EstimatorML<NormalDistribution<M>> E; E a, b; const int n = M;
  for (E* e : {&a, &b}) for (size_t k = r.below(12); k > 0; --k) { Eigen::Matrix<double, M, 1> v(n); for (int i = 0; i < n; ++i) v(i) = r.normal(); e->addPoint(v); }
  if (r.coin(0.2)) a.reset();
  auto rows = [&](const E& e) { return Rows{row("mean", e.getDistribution().getMean()), row("covariance", e.getDistribution().getCovariance()), row("number of points", (double)e.getNumPoints()), row("valid", e.getValid())}; };
  const Rows ra = rows(a), rb = rows(b); both(c, a, ra, b, rb, "estimator of a normal distribution of vectors");
}
void estimator1(mon::Ctx& c) {
  auto& r = c.rng; typedef EstimatorML<NormalDistribution<1>> E; E a, b;
  for (E* e : {&a, &b}) for (size_t k = r.below(6); k > 0; --k) e->addPoint(r.normal() * 10);
  auto rows = [&](const E& e) { return Rows{row("mean", e.getDistribution().getMean()), row("variance", e.getDistribution().getVariance()), row("number of points", (double)e.getNumPoints()), row("valid", e.getValid())}; };
  const Rows ra = rows(a), rb = rows(b); both(c, a, ra, b, rb, "estimator of a normal distribution");
}
/// a grid or a histogram: cells in the order of their linear index
template <class G, class Fill> void cells(mon::Ctx& c, const char* name, int n, Fill fill) {
  auto& r = c.rng; typedef typename G::Coordinate V; typedef typename V::Scalar T;
  auto make = [&](Rows& rows) { V lo(n), hi(n), res(n); for (int i = 0; i < n; ++i) { lo(i) = (T)r.range(-8, 8); res(i) = (T)(1 + r.below(3)); hi(i) = lo(i) + res(i) * (T)(1 + r.below(n > 2 ? 3 : 6)); if (!std::is_integral<T>::value && r.coin()) { lo(i) += (T)0.25; hi(i) += (T)0.25; } }
    auto g = std::make_shared<G>(lo, hi, res); fill(*g);
    Eigen::VectorXd nc(n); double tot = 1; for (int i = 0; i < n; ++i) { nc(i) = g->getNumCells()(i); tot *= nc(i); } // how many is a matter of C10
    rows = {row("minimum", lo.template cast<double>()), row("maximum", hi.template cast<double>()), row("resolution", res.template cast<double>()), row("number of cells per dim", nc), row("total number of cells", tot)};
    Row w{"cells", {}, 0}; for (auto it = g->getCellBegin(); it != g->getCellEnd(); ++it) w.want.push_back((double)*it); c.check(w.want.size() == tot, "number-of-cells", "%s", name); rows.push_back(w); return g; };
  Rows ra, rb; auto a = make(ra), b = make(rb); both(c, *a, ra, *b, rb, name);
}
template <class G> void grid(mon::Ctx& c, int n) { cells<G>(c, "grid", n, [&](G& g) { for (auto it = g.getCellBegin(); it != g.getCellEnd(); ++it) *it = (typename G::Container::value_type)(std::is_integral<typename G::Container::value_type>::value ? (double)c.rng.range(std::is_signed<typename G::Container::value_type>::value ? -99 : 0, 99) : c.rng.normal()); }); }
template <int D> void transformation(mon::Ctx& c);
template <> void transformation<2>(mon::Ctx& c) {
  auto& r = c.rng; typedef Transformation<double, 2> T; auto make = [&](Rows& rows) { const double x = r.normal(), y = r.normal(), t = r.uni(-3, 3); T o(x, y, t); Eigen::Matrix3d m; m << std::cos(t), -std::sin(t), x, std::sin(t), std::cos(t), y, 0, 0, 1; if (r.coin(0.3)) { m(0, 2) = r.normal() * 9; o.setTransformationMatrix(m); }
    rows = {row("transformation matrix", m)}; rows[0].tol = rows[0].abs = 1e-12; return o; };
  Rows ra, rb; T a = make(ra), b = make(rb); both(c, a, ra, b, rb, "transformation of the plane");
}
template <> void transformation<3>(mon::Ctx& c) {
  auto& r = c.rng; typedef Transformation<double, 3> T; auto make = [&](Rows& rows) { double p[6]; for (auto& x : p) x = r.uni(-3, 3); T o(p[0], p[1], p[2], p[3], p[4], p[5]); Eigen::Matrix4d m; m.setIdentity();
    m.topLeftCorner<3, 3>() = (Eigen::AngleAxisd(p[5], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p[4], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(p[3], Eigen::Vector3d::UnitX())).toRotationMatrix(); m.topRightCorner<3, 1>() << p[0], p[1], p[2];
    if (r.coin(0.3)) { m(1, 3) = r.normal() * 9; o.setTransformationMatrix(m); }
    rows = {row("transformation matrix", m)}; rows[0].tol = rows[0].abs = 1e-12; return o; };
  Rows ra, rb; T a = make(ra), b = make(rb); both(c, a, ra, b, rb, "transformation of space");
}
}
SECTION(printed, 4) {
  auto& r = c.rng;
  c.cases(3000, [&] { switch (r.below(20)) {
    case 0: { double m = any(r), v = pos(r), m2 = any(r), v2 = pos(r); NormalDistribution<1> a = r.coin() ? NormalDistribution<1>(m, v) : NormalDistribution<1>(std::make_tuple(m, v)), b(m2, v2); if (r.coin(0.3)) { m = any(r); a.setMean(m); } if (r.coin(0.3)) { v = pos(r); a.setVariance(v); } both(c, a, {row("mean", m), row("variance", v)}, b, {row("mean", m2), row("variance", v2)}, "normal distribution"); break; }
    case 1: normalMv<2>(c); break;
    case 2: normalMv<3>(c); break;
    case 3: normalMv<Eigen::Dynamic>(c); break;
    case 4: { double s = pos(r), k = pos(r), s2 = pos(r), k2 = pos(r); GammaDistribution<double> a(s, k), b(s2, k2); if (r.coin(0.3)) { s = pos(r); a.setShape(s); } if (r.coin(0.3)) { k = pos(r); a.setInvScale(k); } both(c, a, {row("shape", s), row("inverse scale", k)}, b, {row("shape", s2), row("inverse scale", k2)}, "gamma distribution"); break; }
    case 5: { const size_t s = 1 + r.below(30), s2 = 1 + r.below(30); const double k = pos(r), k2 = pos(r); GammaDistribution<size_t> a(s, k), b(s2, k2); both(c, a, {row("shape", s), row("inverse scale", k)}, b, {row("shape", s2), row("inverse scale", k2)}, "gamma distribution of whole shape"); break; }
    case 6: { double d = 1 + (double)r.below(60), d2 = pos(r); ChiSquareDistribution a(d), b(d2); if (r.coin(0.4)) { d = 1 + (double)r.below(90); a.setDegrees(d); } both(c, a, {row("degrees", d)}, b, {row("degrees", d2)}, "chi-square distribution"); break; }
    case 7: uniform1<double>(c); break;
    case 8: uniform1<int>(c); break;
    case 9: r.coin() ? uniformMv<double, 2>(c) : uniformMv<double, Eigen::Dynamic>(c); break;
    case 10: r.coin() ? uniformMv<int, 3>(c) : uniformMv<int, 2>(c); break;
    case 11: estimator1(c); break;
    case 12: r.coin() ? estimatorMv<2>(c) : estimatorMv<3>(c); break;
    case 13: { const double s = any(r), s2 = r.uni(1e9, 2e9); Timestamp a(s), b(s2); both(c, a, {row("seconds", s)}, b, {row("seconds", s2)}, "timestamp"); const double d = r.normal(); Timestamp e(s2); e += d; judge(c, e, "timestamp", {row("seconds", s2 + d)}); break; }
    case 14: { const double p = pos(r), q = pos(r); if (r.coin()) { IncompleteGammaPFunction a(p), b(q); both(c, a, {row("alpha", p)}, b, {row("alpha", q)}, "incomplete gamma function P"); } else { IncompleteGammaQFunction a(p), b(q); both(c, a, {row("alpha", p)}, b, {row("alpha", q)}, "incomplete gamma function Q"); } break; }
    case 15: { const size_t n = r.below(9), m = r.below(9); LogGammaFunction<double> a(n), b(m); both(c, a, {row("dimension", n)}, b, {row("dimension", m)}, "log-gamma function"); break; }
    case 16: { const unsigned s = (unsigned)r.below(1u << 31), s2 = (unsigned)r.below(1u << 31); Randomizer<double> a(s); judge(c, a, "randomizer", {row("seed", s)}); a.setSeed(s2); judge(c, a, "randomizer", {row("seed", s2)}); break; }
    case 17: switch (r.below(3)) { case 0: grid<Grid<double, double, 2>>(c, 2); break; case 1: grid<Grid<int, int, 3>>(c, 3); break; default: grid<Grid<double, size_t, Eigen::Dynamic>>(c, 1 + (int)r.below(3)); } break;
    case 18: { typedef Histogram<double, 2> H; cells<H>(c, "histogram", 2, [&](H& h) { for (size_t k = r.below(30); k > 0; --k) h.addSample(Eigen::Vector2d(r.uni(-10, 20), r.uni(-10, 20))); }); break; }
    default: r.coin() ? transformation<2>(c) : transformation<3>(c); } });
}
