// C38: the simulations of the 2d laser example, run as a user runs them
#include "c38_common.hpp"
#include <aslam/calibration/statistics/Randomizer.h>
using namespace prog; typedef Eigen::Vector3d V3; typedef Eigen::Vector2d V2; typedef Eigen::MatrixXd M;
namespace {
struct Case { size_t steps, nl, batch = 0; double T, A, f, q[3], r[2], delta; V3 theta, guess, x0; V2 lo, hi; bool quiet; };
Case draw(mon::Rng& r, bool quiet) {
  Case k; k.quiet = quiet; k.steps = 14 + r.below(34); k.nl = 4 + r.below(4); k.batch = 5 + r.below(16); k.T = r.uni(0.15, 0.4); k.A = r.uni(1.5, 4) * (r.coin() ? 1 : -1); k.f = r.uni(0.8, 1.8) / (k.T * k.steps);
  for (double& q : k.q) q = quiet ? 1e-12 : r.logu(1e-5, 1e-3); for (double& q : k.r) q = quiet ? 1e-12 : r.logu(1e-6, 1e-4); k.delta = r.coin(0.3) ? -1e3 : r.coin(0.1) ? 1e9 : r.uni(0, 1.5);
  k.theta = V3(r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.uni(-3.1, 3.1)); k.guess = k.theta + V3(r.uni(-0.03, 0.03), r.uni(-0.03, 0.03), r.uni(-0.03, 0.03)); k.x0 = V3(r.uni(-5, 5), r.uni(-5, 5), r.uni(-3.1, 3.1)); k.lo = k.x0.head<2>() - V2(r.uni(4, 9), r.uni(4, 9)); k.hi = k.x0.head<2>() + V2(r.uni(4, 9), r.uni(4, 9)); return k;
}
#ifdef ONLINE
bool none(const Case& k) { return k.delta > 1e6; }
#else
bool none(const Case&) { return false; }
#endif
void configure(Case& k) {
  if (none(k) && k.steps % k.batch == 1) ++k.steps; // a batch without error terms is refused by the optimizer when nothing else is there // the shipped file, with the figures of this case
  sm::BoostPropertyTree t; t.loadXml(repo() + "/incremental_calibration_examples/incremental_calibration_examples_2dlrf/conf/config.xml"); const std::string p = "lrf/problem/", e = "lrf/estimator/";
  t.setInt(p + "steps", k.steps); t.setDouble(p + "timestep", k.T); t.setDouble(p + "sineWaveAmplitude", k.A); t.setDouble(p + "sineWaveFrequency", k.f); t.setInt(p + "numLandmarks", k.nl);
  t.setDouble(p + "groundMinX", k.lo(0)); t.setDouble(p + "groundMinY", k.lo(1)); t.setDouble(p + "groundMaxX", k.hi(0)); t.setDouble(p + "groundMaxY", k.hi(1));
  t.setDouble(p + "motion/sigma2_x", k.q[0]); t.setDouble(p + "motion/sigma2_y", k.q[1]); t.setDouble(p + "motion/sigma2_t", k.q[2]); t.setDouble(p + "observation/sigma2_r", k.r[0]); t.setDouble(p + "observation/sigma2_b", k.r[1]);
  for (int i = 0; i < 3; ++i) { const std::string c(1, "xyt"[i]); t.setDouble(p + "thetaTrue/" + c, k.theta(i)); t.setDouble(p + "thetaHat/" + c, k.guess(i)); t.setDouble(p + "x0/" + c, k.x0(i)); }
  t.setInt(e + "batchSize", k.batch); t.setDouble(e + "infoGainDelta", k.delta); t.setBool(e + "checkValidity", none(k)); if (none(k)) t.setInt(e + "optimizer/maxIterations", 1); /* nothing is kept */ t.setDouble(e + "optimizer/linearSolver/epsSVD", 1e-9); t.setDouble(e + "optimizer/linearSolver/epsQR", 1e-12); t.setDouble(e + "optimizer/convergenceDeltaX", 1e-8); t.setDouble(e + "optimizer/convergenceDeltaJ", 1e-8); t.saveXml("conf.xml");
}
struct Seen { core::ScriptGuard g; core::Analysis scaled, plain; M J; std::ptrdiff_t k = -1; bool late = false; Seen() { g.s.analysis = [this](bool s, std::ptrdiff_t k, const M& J, core::Analysis& a) { (s ? scaled : plain) = a; late = !s; this->k = k; this->J = J; }; } };
std::vector<V3> path(const Case& k, std::vector<V3>& u) {
  u.assign(k.steps, V3::Zero()); std::vector<V3> x(k.steps, k.x0); double was = 0; const double w = 2 * M_PI * k.f;
  for (size_t i = 1; i < k.steps; ++i) { const double a = k.A * std::cos(w * (i - 1) * k.T), b = k.A * std::cos(w * i * k.T), th = std::atan(b), h = x[i - 1](2); u[i] = V3(w * (std::sqrt(1 + a * a) + std::sqrt(1 + b * b)) / 2, 0, (th - was) / k.T); was = th; x[i] = x[i - 1] + k.T * V3(std::cos(h) * u[i](0), std::sin(h) * u[i](0), u[i](2)); }
  return x;
}
struct Noise { double n = 0, s[3] = {}, q[3] = {}; };
/// the run just made, judged; false when there is nothing to go on
struct Result { bool judged = false; double d2 = 0; };
Result judge(mon::Ctx& c, const Case& k, const Run& run, const Seen& seen, Noise& noise) {
  Result res; c.check(run.code == 0, "exit", "the program ended with %d: %s", run.code, run.err.c_str()); std::vector<V3> u; const std::vector<V3> x = path(k, u); const Rows xt = rows("x_true.txt"), xo = rows("x_odom.txt"), l = rows("l.txt");
  if (!c.check(xt.size() == k.steps && xo.size() == k.steps && l.size() == k.nl, "file-length", "%zu true poses, %zu odometry poses, %zu landmarks; want %zu %zu %zu", xt.size(), xo.size(), l.size(), k.steps, k.steps, k.nl)) return res;
  double big = 1; for (size_t i = 0; i < k.steps; ++i) { if (!c.check(xt[i].size() == 3 && xo[i].size() == 3, "file-columns", "pose %zu", i)) return res; big = std::max({big, std::fabs(xt[i][0]), std::fabs(xt[i][1]), std::fabs(xo[i][0]), std::fabs(xo[i][1])}); }
  const double rounding = 6e-6 * big;
  for (size_t i = 0; i < k.steps; ++i) c.check(std::fabs(xt[i][0] - x[i](0)) <= rounding && std::fabs(xt[i][1] - x[i](1)) <= rounding && gap(xt[i][2] - x[i](2)) <= 3e-5, "true-path", "step %zu: (%g %g %g) want (%g %g %g)", i, xt[i][0], xt[i][1], xt[i][2], x[i](0), x[i](1), x[i](2));
  for (size_t i = 0; i < k.nl; ++i) c.check(l[i].size() == 2 && l[i][0] >= k.lo(0) - rounding && l[i][0] <= k.hi(0) + rounding && l[i][1] >= k.lo(1) - rounding && l[i][1] <= k.hi(1) + rounding, "landmarks", "landmark %zu is not on the ground", i);
  c.check(gap(xo[0][2] - k.x0(2)) <= 3e-5 && std::fabs(xo[0][0] - k.x0(0)) <= rounding && std::fabs(xo[0][1] - k.x0(1)) <= rounding, "odometry", "the odometry does not start where the path starts");
  for (size_t i = 1; i < k.steps; ++i) { const double h = xo[i - 1][2], dx = (xo[i][0] - xo[i - 1][0]) / k.T, dy = (xo[i][1] - xo[i - 1][1]) / k.T, v[3] = {std::cos(h) * dx + std::sin(h) * dy, -std::sin(h) * dx + std::cos(h) * dy, std::remainder(xo[i][2] - h, 2 * M_PI) / k.T};
    for (int j = 0; j < 3; ++j) { const double e = v[j] - u[i](j), s = std::sqrt(k.q[j]), slack = (j < 2 ? 3 * rounding + 3e-5 * u[i](0) : 6e-5) / k.T; c.check(std::fabs(e) <= 9 * s + slack, "odometry", "step %zu, input %d off by %g, standard deviation %g", i, j, e, s); if (slack < 0.05 * s) { noise.s[j] += e / s; noise.q[j] += e * e / (s * s); } else if (slack > 0.3 * s) noise.n = -1e9; } noise.n += 1; }
#ifdef ONLINE
  const std::string final = "final calibration", first = "calibration before";
#else
  const std::string final = "Calibration after", first = "Calibration before";
#endif
  const auto est = figure(run.out, final), from = figure(run.out, first);
  if (!c.check(est.size() == 3 && from.size() == 3, "report", "no calibration reported")) return res;
  for (int i = 0; i < 3; ++i) c.check(close6(from[i], k.guess(i)), "report", "first guess reported as %g", from[i]);
  // what is estimated
  std::vector<size_t> held; const size_t nl = k.nl;
#ifdef ONLINE
  size_t offered = (k.steps + k.batch - 1) / k.batch, kept = 0, terms = 0, at = 0, n = 0; std::istringstream in(run.out); std::string line; std::vector<bool> verdict;
  while (std::getline(in, line)) if (line == "ACCEPTED" || line == "REJECTED") verdict.push_back(line == "ACCEPTED");
  if (!c.check(verdict.size() == offered, "batches", "%zu batches offered, want %zu", verdict.size(), offered)) return res;
  for (bool ok : verdict) { const size_t end = std::min(k.steps, at + k.batch); if (ok) { ++kept; for (size_t i = at; i < end; ++i) held.push_back(i); terms += (end - at - 1) * (1 + nl); } at = end; ++n; } (void)n;
  const auto nb = figure(run.out, "number of batches"); c.check(!nb.empty() && nb[0] == kept, "batches", "reported %g batches, %zu were accepted", nb.empty() ? -1 : nb[0], kept);
  { const size_t p = findLabel(run.out, "number of batches"); const size_t q = run.out.find("out of ", p); double m = q == std::string::npos ? -1 : strtod(run.out.c_str() + q + 7, nullptr); c.check(m == (double)offered, "batches-offered", "reported %zu out of %g batches, %zu were offered", kept, m, offered); }
  const size_t variables = held.empty() ? 0 : held.size() + nl + 1; c.check(lastOf(run.out, "number of design variables") == variables, "problem-size", "%g variables, want %zu", lastOf(run.out, "number of design variables"), variables); c.check(lastOf(run.out, "number of error terms") == terms, "problem-size", "%g error terms, want %zu", lastOf(run.out, "number of error terms"), terms);
  const size_t residuals = [&] { size_t s = 0, at = 0; for (bool ok : verdict) { const size_t end = std::min(k.steps, at + k.batch); if (ok) s += (end - at - 1) * (3 + 2 * nl); at = end; } return s; }(), cols = 3 * held.size() + 2 * nl + 3;
  if (!held.empty()) { const size_t p = findLabel(run.out, "Jacobian matrix is"); size_t a = 0, b = 0; if (p != std::string::npos) sscanf(run.out.c_str() + p, "Jacobian matrix is: %zux%zu", &a, &b); c.check(a == residuals && b == cols, "jacobian", "%zux%zu want %zux%zu", a, b, residuals, cols); }
  if (!held.empty()) { const Rows J = rows("J.txt"); c.check(!J.empty(), "jacobian", "J.txt is empty"); for (auto& e : J) if (!c.check(e.size() == 3 && e[0] >= 1 && e[0] <= cols && e[1] >= 1 && e[1] <= residuals, "jacobian", "entry outside of the matrix")) break; }
  c.check(lastOf(run.out, "marginalized group") == 2, "report", "marginalized group");
  if (held.empty()) c.count("runs that keep nothing"); c.count("batches offered", offered); c.count("batches kept", kept); const int rank = (int)lastOf(run.out, "rank of Theta"), deficiency = (int)lastOf(run.out, "rank deficiency of Theta"); const Rows cov = matrix(run.out, "covariance", 3);
  c.check(held.empty() || lastOf(run.out, "rank of Psi") + lastOf(run.out, "rank deficiency of Psi") == 3.0 * held.size() + 2 * nl, "report", "rank of Psi");
#else
  for (size_t i = 0; i < k.steps; ++i) held.push_back(i); const Rows xe = rows("x_est.txt"), le = rows("l_est.txt"); if (!c.check(xe.size() == k.steps && le.size() == nl, "file-length", "%zu estimated poses, %zu landmarks", xe.size(), le.size())) return res;
  c.check(seen.late && seen.J.rows() == (long)((k.steps - 1) * (3 + 2 * nl)) && seen.J.cols() == (long)(3 * k.steps + 2 * nl + 3) && seen.k == seen.J.cols() - 3, "problem-size", "%ldx%ld system split at %ld", (long)seen.J.rows(), (long)seen.J.cols(), (long)seen.k);
  auto vec = [&](const char* label, const Eigen::VectorXd& want, int nth = 0) { const auto f = figure(run.out, label, nth); bool ok = (long)f.size() == want.size(); for (long i = 0; ok && i < want.size(); ++i) ok = close6(f[i], want(i)); c.check(ok, "figure", "%s: reported %s", label, f.empty() ? "nothing" : "another value"); };
  auto num = [&](const char* label, double want) { vec(label, Eigen::VectorXd::Constant(1, want)); };
  auto mat = [&](const char* label, const M& want) { if (want.size() == 0) return; const Rows f = matrix(run.out, label, want.rows()); double m = want.cwiseAbs().maxCoeff(); bool ok = f.size() == (size_t)want.rows(); for (long i = 0; ok && i < want.rows(); ++i) { ok = (long)f[i].size() == want.cols(); for (long j = 0; ok && j < want.cols(); ++j) ok = close6(f[i][j], want(i, j), 1e-5 * m); } c.check(ok, "figure", "%s: another matrix is reported", label); };
  const auto &s = seen.scaled, &a = seen.plain; vec("Singular values (scaled)", s.sv); mat("Unobservable basis (scaled)", s.null); mat("Observable basis (scaled)", s.row); vec("Singular values", a.sv); num("SVD rank", a.svdRank); num("SVD rank deficiency", a.svdDef); num("SVD tolerance", a.svdTol); num("QR rank", a.qrRank); num("QR rank deficiency", a.qrDef); num("QR tolerance", a.qrTol);
  mat("Unobservable basis", a.null); mat("Observable basis", a.row); mat("Covariance", a.cov); mat("Observable covariance", a.rowCov); num("Peak memory usage (MB)", a.peak / 1024.0 / 1024.0); num("Memory usage (MB)", a.mem / 1024.0 / 1024.0); num("Flop count", a.flops); num("Log2sum of singular values", a.log2Sum);
  const int rank = (int)lastOf(run.out, "SVD rank"), deficiency = (int)lastOf(run.out, "SVD rank deficiency"); const Rows cov = matrix(run.out, "Covariance", 3);
#endif
  c.check(held.empty() || rank + deficiency == 3, "report", "rank %d, deficiency %d", rank, deficiency);
  // the estimate laid over the truth
  const Rows lt = rows("l_est_trans.txt"), xa = rows("x_est_trans.txt"); if (!c.check(lt.size() == nl && xa.size() == held.size(), "file-length", "%zu aligned landmarks, %zu aligned poses, want %zu %zu", lt.size(), xa.size(), nl, held.size())) return res;
  for (auto& r : lt) if (!c.check(r.size() == 2, "file-columns", "aligned landmark")) return res; for (auto& r : xa) if (!c.check(r.size() == 3, "file-columns", "aligned pose")) return res;
#ifndef ONLINE
  { // one rigid motion takes the estimate to the aligned one: landmarks, positions and headings
    V2 ca(0, 0), cb(0, 0); double top = 0, bot = 0, far = big; for (size_t i = 0; i < nl; ++i) { ca += V2(le[i][0], le[i][1]); cb += V2(lt[i][0], lt[i][1]); far = std::max({far, std::fabs(le[i][0]), std::fabs(le[i][1])}); } ca /= nl; cb /= nl;
    for (size_t i = 0; i < nl; ++i) { const V2 p = V2(le[i][0], le[i][1]) - ca, q = V2(lt[i][0], lt[i][1]) - cb; top += p(0) * q(1) - p(1) * q(0); bot += p.dot(q); } const double turn = std::atan2(top, bot), cs = std::cos(turn), sn = std::sin(turn); const double tol = 1e-4 * far;
    auto move = [&](double a, double b) { const V2 p = V2(a, b) - ca; return V2(cb + V2(cs * p(0) - sn * p(1), sn * p(0) + cs * p(1))); };
    for (size_t i = 0; i < nl; ++i) c.check((move(le[i][0], le[i][1]) - V2(lt[i][0], lt[i][1])).norm() <= tol, "alignment", "landmark %zu", i);
    for (size_t i = 0; i < k.steps; ++i) { c.check((move(xe[i][0], xe[i][1]) - V2(xa[i][0], xa[i][1])).norm() <= tol, "alignment", "position %zu is off by %g", i, (move(xe[i][0], xe[i][1]) - V2(xa[i][0], xa[i][1])).norm()); c.check(gap(xa[i][2] - xe[i][2] - turn) <= 1e-4, "alignment-heading", "pose %zu: the heading turns by %g, the positions by %g", i, std::remainder(xa[i][2] - xe[i][2], 2 * M_PI), turn); }
    double best = 0, got = 0; V2 cl(0, 0); for (auto& r : l) cl += V2(r[0], r[1]) / nl; top = bot = 0; for (size_t i = 0; i < nl; ++i) { const V2 p = V2(le[i][0], le[i][1]) - ca, q = V2(l[i][0], l[i][1]) - cl; top += p(0) * q(1) - p(1) * q(0); bot += p.dot(q); } const double t2 = std::atan2(top, bot);
    for (size_t i = 0; i < nl; ++i) { const V2 p = V2(le[i][0], le[i][1]) - ca; best += (cl + V2(std::cos(t2) * p(0) - std::sin(t2) * p(1), std::sin(t2) * p(0) + std::cos(t2) * p(1)) - V2(l[i][0], l[i][1])).squaredNorm(); got += (V2(lt[i][0], lt[i][1]) - V2(l[i][0], l[i][1])).squaredNorm(); }
    c.check(std::sqrt(got) <= std::sqrt(best) * 1.0001 + tol, "alignment", "another motion brings the landmarks closer: %g instead of %g", std::sqrt(best), std::sqrt(got)); if (std::fabs(turn) > 1e-3) c.count("alignments that turn"); }
#endif
  if (held.empty()) return res;
  if (rank != 3 || cov.size() != 3 || cov[0].size() != 3) { c.count("calibration not fully observed"); return res; }
  M S(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S(i, j) = cov[i][j]; V3 e(est[0] - k.theta(0), est[1] - k.theta(1), est[2] - k.theta(2)); const double worst = std::sqrt(S.trace());
  if (worst > 0.03 || (k.quiet && worst > 1e-5)) { c.count("calibration barely observed"); return res; }
  if (k.quiet) {
    c.check(e.norm() <= 2e-5 * (1 + k.theta.norm()) + 9 * worst, "calibration", "off by (%g %g %g), expected %g", e(0), e(1), e(2), worst);
    for (size_t i = 0; i < nl; ++i) c.check((V2(lt[i][0], lt[i][1]) - V2(l[i][0], l[i][1])).norm() <= 1e-3, "map", "landmark %zu off by %g", i, (V2(lt[i][0], lt[i][1]) - V2(l[i][0], l[i][1])).norm());
    for (size_t i = 0; i < held.size(); ++i) if (!k.batch || held[i] % k.batch || held[i] + 1 < k.steps) /* a batch of one pose has nothing to place it */ c.check((V2(xa[i][0], xa[i][1]) - x[held[i]].head<2>()).norm() <= 1e-3 && gap(xa[i][2] - x[held[i]](2)) <= 1e-3, "map", "pose %zu off by %g, heading by %g", held[i], (V2(xa[i][0], xa[i][1]) - x[held[i]].head<2>()).norm(), gap(xa[i][2] - x[held[i]](2)));
    c.count("calibrations recovered");
  } else { Eigen::LDLT<M> s(S); res.d2 = e.dot(s.solve(e)); c.check(res.d2 < 60, "calibration", "off by (%g %g %g), squared Mahalanobis distance %g", e(0), e(1), e(2), res.d2); c.count("calibrations judged by their covariance"); }
  res.judged = true; return res;
}
}
namespace { void drive(mon::Ctx& c) {
    auto& r = c.rng; Case k = draw(r, r.coin()); Scratch dir; configure(k); aslam::calibration::Randomizer<double>().setSeed(1 + r.below(1000000)); c.note("%zu steps of %.4g s, %zu landmarks, batches of %zu, gain %.3g, %s", k.steps, k.T, k.nl, k.batch, k.delta, k.quiet ? "hardly any noise" : "noise");
    Seen seen; const Run run = prog::run({"conf.xml"}); Noise n; judge(c, k, run, seen, n); c.seen(mon::hcomb(mon::hd(k.T), mon::hcomb(k.steps * 100 + k.nl, k.batch))); c.sample(std::to_string(k.steps) + " steps, " + std::to_string(k.nl) + " landmarks"); c.count("program runs");
} }
#ifdef REPEAT
#include "c41_repeat.hpp"
SECTION(repeat, 8) { c.cases(60, [&] { twice(c, [&] { drive(c); }); }); }
#else
SECTION(runs, 8) { c.cases(80, [&] { drive(c); }); }
SECTION(statistics, 4) {
  c.cases(4, [&] { // the noise is the configured one, and the spread of the calibration the one it reports
    auto& r = c.rng; Noise n; double s = 0; int m = 0; const int N = 16; c.note("%d runs", N);
    for (int i = 0; i < N; ++i) { Case k = draw(r, false); k.T = r.uni(0.3, 0.5); k.f = r.uni(0.8, 1.8) / (k.T * k.steps); for (double& q : k.q) q = r.logu(1e-3, 3e-3); k.delta = -1e3; Scratch dir; configure(k); aslam::calibration::Randomizer<double>().setSeed(1 + r.below(1000000)); Seen seen; const Run run = prog::run({"conf.xml"}); const Result x = judge(c, k, run, seen, n); if (x.judged) { s += x.d2; ++m; } c.count("program runs"); }
    if (n.n > 100) for (int j = 0; j < 3; ++j) { const double mean = n.s[j] / n.n, var = n.q[j] / n.n; c.check(std::fabs(mean) < 6 / std::sqrt(n.n) + 0.01, "odometry-noise", "input %d: mean %.3g standard deviations", j, mean); c.check(std::fabs(var - 1) < 6 * std::sqrt(2 / n.n) + 0.02, "odometry-noise", "input %d: variance %.3g of the configured one", j, var); }
    if (m >= 8) { c.check(s / m / 3 > 1 - 6 * std::sqrt(2.0 / (3 * m)) && s / m / 3 < 1 + 7 * std::sqrt(2.0 / (3 * m)), "spread", "the calibration spreads by %.3g of what the covariance says (%d runs)", s / m / 3, m); c.count("spreads judged"); }
    c.seen(mon::hd(s));
  });
}
SECTION(usage, 1) {
  c.cases(6, [&] { const int n = (int)c.rng.below(3) * 2; Scratch dir; std::vector<std::string> a; for (int i = 0; i < n; ++i) a.push_back("conf.xml"); if (n == 0) a.clear(); const Run run = prog::run(a); c.note("%d arguments", n); if (n == 1) return; c.check(run.code != 0 && run.err.find("Usage") != std::string::npos && !exists("x_true.txt"), "usage", "%d arguments: exit %d", n, run.code); c.seen(n); });
}
#endif
