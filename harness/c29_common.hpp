#ifndef VERIF_C29_HPP
#define VERIF_C29_HPP
// What a windowed calibrator offers to its estimator, and what it should offer.
#include "est.hpp"
#include <aslam/backend/expressions.hpp>
#include <bsplines/splines.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
namespace cal {
using core::DV; using core::ET; using core::Batch; using core::Inc;
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M; typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef sm::PropertyTree PT;
inline double wrap(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
inline V3 rnd(mon::Rng& r, double s) { return V3(r.normal(), r.normal(), r.normal()) * s; }
inline M cov(mon::Rng& r, int n, double lo = 1e-5, double hi = 1) { M q(n, n); for (int i = 0; i < n * n; ++i) q.data()[i] = r.normal(); M c = q * q.transpose() + M::Identity(n, n); if (r.coin(0.3)) c = M(c.diagonal().asDiagonal()); return c * r.logu(lo, hi); }
inline M3 rotation(const V3& ypr) { const double a = ypr(0), b = ypr(1), g = ypr(2); M3 Z, Y, X; Z << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; Y << std::cos(b), 0, std::sin(b), 0, 1, 0, -std::sin(b), 0, std::cos(b); X << 1, 0, 0, 0, std::cos(g), -std::sin(g), 0, std::sin(g), std::cos(g); return Z * Y * X; }
inline V3 yawPitchRoll(const M3& R) { return V3(std::atan2(R(1, 0), R(0, 0)), -std::asin(std::max(-1.0, std::min(1.0, R(2, 0)))), std::atan2(R(2, 1), R(2, 2))); }
/// one error term: residual, weight, rows that are angles
struct Term { V e; M W; std::vector<int> angles; std::string what; };
inline std::string differ(const Term& want, const ET& t) {
  const V e = t.vsError(); if (e.size() != want.e.size()) return "dimension";
  for (int i = 0; i < e.size(); ++i) { double d = e(i) - want.e(i); if (std::count(want.angles.begin(), want.angles.end(), i)) d = wrap(d); if (!(std::fabs(d) <= 1e-7 * (1 + std::fabs(want.e(i))))) return "row " + std::to_string(i) + " is " + std::to_string(e(i)) + " want " + std::to_string(want.e(i)); }
  const M W = t.vsInvR(); if (W.rows() != want.W.rows() || !((W - want.W).cwiseAbs().maxCoeff() <= 1e-6 * want.W.cwiseAbs().maxCoeff())) return "weight";
  return "";
}
/// every wanted term is there once and no other (those in `maybe` may be there)
inline void judgeTerms(mon::Ctx& c, const std::vector<Term>& want, const std::vector<Term>& maybe, const std::vector<ET*>& got) {
  std::vector<bool> taken(got.size(), false);
  auto take = [&](const Term& w, std::string& near) { for (size_t i = 0; i < got.size(); ++i) { if (taken[i]) continue; const std::string d = differ(w, *got[i]); if (d.empty()) { taken[i] = true; return true; } if (d != "dimension" && (near.empty() || near[0] == 'r')) near = d; } return false; };
  for (auto& w : want) { std::string near; c.check(take(w, near), "term-missing", "%s: no such error term in the batch of %zu terms (wanted %zu); e.g. %s", w.what.c_str(), got.size(), want.size(), near.c_str()); }
  for (auto& w : maybe) { std::string near; take(w, near); }
  const size_t left = std::count(taken.begin(), taken.end(), false); c.check(left == 0, "term-extra", "%zu error terms of the batch belong to no measurement (%zu wanted)", left, want.size());
  c.count("error terms compared", want.size());
}
/// the last fit of each kind, if both were made since the log was cleared
inline bool lastFits(bsplines::Fit& t, bsplines::Fit& q) { int n = 0; for (auto& f : bsplines::fitLog()) if (f.dimension == 3) { t = f; n |= 1; } else if (f.dimension == 4) { q = f; n |= 2; } return n == 3; }
struct FitRule { int knots, transOrder, rotOrder; double transLambda, rotLambda; };
/// poses: times, positions and attitudes the trajectory is to follow; n counts the measurements
inline void judgeFit(mon::Ctx& c, const FitRule& o, const std::vector<int64_t>& times, const std::vector<V3>& pos, const std::vector<M3>& att, size_t n) {
  bsplines::Fit t, q; if (!c.check(lastFits(t, q), "no-fit", "the trajectory was not fitted")) return;
  if (!c.check(t.times == times && q.times == times, "fit-times", "fitted to %zu and %zu instants, want %zu", t.times.size(), q.times.size(), times.size())) return;
  for (size_t i = 0; i < times.size(); ++i) {
    c.check((t.samples.col(i) - pos[i]).norm() <= 1e-9 * (1 + pos[i].norm()), "fit-position", "sample %zu off by %g", i, (t.samples.col(i) - pos[i]).norm());
    const Eigen::Vector4d x = q.samples.col(i); c.check(std::fabs(x.norm() - 1) < 1e-9 && (sm::kinematics::quat2r(x) - att[i]).norm() <= 1e-8, "fit-attitude", "sample %zu off by %g", i, (sm::kinematics::quat2r(x) - att[i]).norm());
    if (i) c.check(x.dot(q.samples.col(i - 1)) >= -1e-9, "fit-sign", "sample %zu is on the far side of the sphere", i);
  }
  const double elapsed = (double)(times.back() - times.front()) * 1e-9, rate = (double)n / elapsed, frac = rate - std::floor(rate), ks = o.knots * elapsed;
  if (std::fabs(frac - 0.5) > 1e-6 && std::fabs(ks - std::round(ks)) > 1e-6) { const int want = std::lround(rate) > o.knots ? (int)std::ceil(ks) : (int)n; c.check(t.segments == want && q.segments == want, "fit-knots", "%d and %d segments, want %d (%zu measurements in %g s, %d knots per second)", t.segments, q.segments, want, n, elapsed, o.knots); }
  c.check(t.order == o.transOrder && q.order == o.rotOrder && t.lambda == o.transLambda && q.lambda == o.rotLambda, "fit-options", "order %d %d lambda %g %g", t.order, q.order, t.lambda, q.lambda); c.count("trajectory fits compared");
}
/// variables of the batch: those of the splines in group 0, those of the calibration in group 1, once each
template <class T, class R> void judgeGroups(mon::Ctx& c, const Batch& b, const T& trans, const R& rot, const std::vector<const DV*>& calib) {
  std::map<const DV*, int> n; for (size_t i = 0; i < b.numDesignVariables(); ++i) ++n[b.designVariable(i)];
  size_t want = calib.size(); auto one = [&](const DV* d, size_t g, const char* what) { c.check(n[d] == 1 && b.isDesignVariableInProblem(d) && b.getGroupId(d) == g, "batch-variables", "%s: in the batch %d times", what, n[d]); };
  for (auto& v : trans->state()->vertices) { one(v.get(), 0, "position vertex"); c.check(v->isActive(), "batch-variables", "a position vertex is not estimated"); ++want; } for (auto& v : rot->state()->vertices) { one(v.get(), 0, "attitude vertex"); c.check(v->isActive(), "batch-variables", "an attitude vertex is not estimated"); ++want; }
  for (auto v : calib) one(v, 1, "calibration variable"); c.check(b.numDesignVariables() == want, "batch-variables", "%zu want %zu", b.numDesignVariables(), want); c.check(b.getGroupsOrdering() == std::vector<size_t>({0, 1}), "batch-order", "order of the groups");
}
/// scripted estimator: whether an offered batch is kept, what gain it brings, how the variables move
struct Script {
  core::ScriptGuard g; mon::Rng& r; double delta, kept = 0, sum = 0; bool accept = false, move = false; int offers = 0, accepted = 0; std::vector<double> gains; M basis; std::function<void(Inc&)> onOffer;
  Script(mon::Rng& r, double delta) : r(r), delta(delta) {
    g.s.light = true;
    g.o.before = [this](aslam::backend::OptimizationProblemBase& p, aslam::backend::LinearSystemSolver&, const std::vector<aslam::backend::DesignVariable*>&) { ++offers; if (onOffer) onOffer(static_cast<Inc&>(p)); accept = this->r.coin(0.3); move = this->r.coin(); const double gain = accept ? this->delta + this->r.uni(0.01, 3) : this->delta - this->r.uni(0.01, 3); sum = kept + 2 * gain; gains.push_back(0.5 * (sum - kept)); if (gains.back() > this->delta) { kept = sum; ++accepted; } };
    g.o.instead = [this](const std::vector<aslam::backend::DesignVariable*>& v, aslam::backend::SolutionReturnValue&) { if (move) for (auto d : v) { V x(d->minimalDimensions()); for (int i = 0; i < x.size(); ++i) x(i) = this->r.uni(-1, 1) * 1e-5; d->update(x.data(), x.size()); } return true; };
    g.s.analysis = [this](bool solving, std::ptrdiff_t k, const M& J, core::Analysis& a) { const int n = (int)(J.cols() - k); a.svdRank = -5; a.log2Sum = sum; a.sv = V::Ones(n); a.row.resize(n, 1 + (int)this->r.below(n)); for (int i = 0; i < a.row.size(); ++i) a.row.data()[i] = this->r.uni(-1, 1); if (solving) basis = a.row; };
  }
};
/// the report of one offer: every estimated variable with its own observability (if the scaled basis is asked for)
inline void judgeReport(mon::Ctx& c, const std::string& text, const std::vector<std::pair<std::string, const DV*>>& vars, const M& basis, bool scaled) {
  const size_t from = text.rfind("observability"); if (!c.check(from != std::string::npos, "report", "no observability reported")) return; std::map<std::string, double> got; std::istringstream in(text.substr(from)); std::string line;
  while (std::getline(in, line)) { const size_t p = line.find(':'); char* end; if (p == std::string::npos) continue; const double v = strtod(line.c_str() + p + 1, &end); std::string key = line.substr(0, p); while (!key.empty() && key.back() == ' ') key.pop_back(); if (end != line.c_str() + p + 1) { c.check(!got.count(key), "report", "%s reported twice", key.c_str()); got[key] = v; } }
  if (!scaled) return; int row = 0; for (auto& v : vars) { if (!v.second->isActive()) continue; if (!c.check(row < basis.rows(), "report-harness", "rows")) return; const double want = basis.row(row++).norm(); auto it = got.find(v.first); if (c.check(it != got.end(), "report", "%s is not reported", v.first.c_str())) c.check(std::fabs(it->second - want) <= 1e-4 * (1e-3 + want), "report", "%s is reported as %g, its observability is %g", v.first.c_str(), it->second, want); c.count("observabilities compared"); }
  c.check(row == basis.rows(), "report-harness", "%d of %ld rows", row, (long)basis.rows()); }
inline void estimatorConfig(PT& t, double delta, bool scaling = true) {
  t.setInt("estimator/groupId", 1); t.setDouble("estimator/infoGainDelta", delta); t.setBool("estimator/checkValidity", false); t.setBool("estimator/verbose", false); const std::string p = "estimator/optimizer/";
  t.setBool(p + "linearSolver/columnScaling", scaling); for (const char* k : {"epsNorm", "epsSVD", "epsQR", "svdTol", "qrTol"}) t.setDouble(p + "linearSolver/" + k, 1e-8); t.setBool(p + "linearSolver/verbose", false); t.setInt(p + "maxIterations", 20); t.setDouble(p + "convergenceDeltaJ", 1e-3); t.setDouble(p + "convergenceDeltaX", 1e-3);
}
inline void splineConfig(PT& t, mon::Rng& r, FitRule& o) {
  o.knots = r.coin(0.2) ? 50 : 1 + (int)r.below(8); o.transOrder = 3 + (int)r.below(3); o.rotOrder = 3 + (int)r.below(3); o.transLambda = r.coin() ? 0 : r.logu(1e-6, 1e-2); o.rotLambda = r.coin() ? 0 : r.logu(1e-6, 1e-2);
  t.setInt("splines/splineKnotsPerSecond", o.knots); t.setInt("splines/transSplineOrder", o.transOrder); t.setInt("splines/rotSplineOrder", o.rotOrder); t.setDouble("splines/transSplineLambda", o.transLambda); t.setDouble("splines/rotSplineLambda", o.rotLambda);
}
/// smooth motion of the sensor carrier
struct Path {
  V3 p0, dir, amp, a0, rate, wob; double f, g; bool back;
  explicit Path(mon::Rng& r) : p0(rnd(r, r.logu(1, 1e3))), dir(rnd(r, 1)), amp(rnd(r, 0.5)), a0(r.uni(-3.1, 3.1), r.uni(-0.4, 0.4), r.uni(-3.1, 3.1)), rate(r.uni(-0.8, 0.8), 0, r.coin(0.3) ? r.uni(-0.5, 0.5) : 0), wob(r.uni(-0.3, 0.3), r.uni(-0.2, 0.2), r.uni(-0.2, 0.2)), f(r.uni(0.1, 0.5)), g(r.uni(0.1, 0.6)), back(r.coin(0.3)) { const double s = r.coin(0.2) ? r.uni(0, 0.5) : r.uni(1, 15); if (r.coin(0.6)) dir = (back ? -1 : 1) * (rotation(a0) * V3(1, 0, 0)); dir *= s; }
  V3 at(double t) const { return p0 + dir * t + amp * std::sin(2 * M_PI * f * t); } V3 attitude(double t) const { return a0 + rate * t + wob * std::sin(2 * M_PI * g * t); }
};
}
#endif
