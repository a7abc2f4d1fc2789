// C36: the adapter between the optimizer and the truncated SVD solver
#include "est.hpp"
#include <iostream>
using namespace core; using aslam::backend::AslamTruncatedSvdSolver; typedef AslamTruncatedSvdSolver::Options Opt; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
namespace {
struct Solver : AslamTruncatedSvdSolver { Solver(const Opt& o) : AslamTruncatedSvdSolver(o) {} Solver(const sm::PropertyTree& p) : AslamTruncatedSvdSolver(p) {} long live() const { return cholmod_.live; } };
bool sameOptions(const Opt& a, const Opt& b) { return a.columnScaling == b.columnScaling && a.epsNorm == b.epsNorm && a.epsSVD == b.epsSVD && a.epsQR == b.epsQR && a.svdTol == b.svdTol && a.qrTol == b.qrTol && a.verbose == b.verbose; }
Opt options(mon::Rng& r) { Opt o; o.columnScaling = r.coin(); o.epsNorm = r.logu(1e-14, 1e-3); o.epsSVD = r.logu(1e-17, 1e-3); o.epsQR = r.logu(1e-17, 1e-3); o.svdTol = r.coin() ? -1.0 : r.logu(1e-12, 1e-2); o.qrTol = r.coin() ? -1.0 : r.logu(1e-12, 1e-2); o.verbose = r.coin(0.3); return o; }
struct Muted { std::ostringstream sink; std::streambuf* old; std::ios::fmtflags f; std::streamsize p; Muted() : old(std::cout.rdbuf(sink.rdbuf())), f(std::cout.flags()), p(std::cout.precision()) {} ~Muted() { std::cout.rdbuf(old); std::cout.flags(f); std::cout.precision(p); } };
struct Problem { std::vector<VecSP> vars; std::vector<boost::shared_ptr<LinTerm>> terms; std::vector<DV*> dvs; std::vector<ET*> ets; std::vector<int> from; int cols = 0, rows = 0; };
Problem problem(mon::Rng& r) {
  Problem p; const int n = 1 + (int)r.below(5); for (int i = 0; i < n; ++i) { p.vars.push_back(boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(4)))); p.vars.back()->setActive(true); }
  for (auto& v : p.vars) { v->setBlockIndex((int)p.dvs.size()); v->setColumnBase(p.cols); p.from.push_back(p.cols); p.cols += (int)v->getValue().size(); p.dvs.push_back(v.get()); }
  const int m = 1 + (int)r.below(8); for (int i = 0; i < m; ++i) { std::vector<VecSP> v; for (auto& x : p.vars) if (r.coin(0.5)) v.push_back(x); if (v.empty()) v.push_back(r.pick(p.vars)); r.shuffle(v); p.terms.push_back(randTerm(r, v)); p.terms.back()->setRowBase(p.rows); p.rows += (int)p.terms.back()->dimension(); p.ets.push_back(p.terms.back().get()); }
  return p;
}
void reference(const Problem& p, M& J, V& e) {
  J = M::Zero(p.rows, p.cols); e = V::Zero(p.rows); int at = 0; for (auto& t : p.terms) { const int n = (int)t->dimension(); const M U = Eigen::LLT<M>(t->vsInvR()).matrixU(); V x = t->b(); for (size_t k = 0; k < t->vars().size(); ++k) { x -= t->A()[k] * t->vars()[k]->getValue(); int col = -1; for (size_t q = 0; q < p.vars.size(); ++q) if (p.vars[q] == t->vars()[k]) col = p.from[q]; J.block(at, col, n, t->A()[k].cols()) -= U * t->A()[k]; } e.segment(at, n) = -(U * x); at += n; } }
std::string differ(const AslamTruncatedSvdSolver& a, const truncated_svd_solver::TruncatedSvdSolver& b) {
  if (a.getSVDRank() != b.getSVDRank()) return "SVD rank"; if (a.getSVDRankDeficiency() != b.getSVDRankDeficiency()) return "SVD rank deficiency"; if (a.getQRRank() != b.getQRRank()) return "QR rank"; if (a.getQRRankDeficiency() != b.getQRRankDeficiency()) return "QR rank deficiency";
  auto near = [](const M& x, const M& y) { return x.rows() == y.rows() && x.cols() == y.cols() && (x.size() == 0 || (x - y).cwiseAbs().maxCoeff() <= 1e-6 * (1e-12 + y.cwiseAbs().maxCoeff())); };
  if (!near(a.getSingularValues(), b.getSingularValues())) return "singular values"; if (!near(a.getCovariance(), b.getCovariance())) return "covariance"; if (!(std::fabs(a.getSingularValuesLog2Sum() - b.getSingularValuesLog2Sum()) <= 1e-5 * (1 + std::fabs(b.getSingularValuesLog2Sum())))) return "information"; return "";
}
double after(const std::string& s, const char* key) { const size_t p = s.find(key); return p == std::string::npos ? std::nan("") : strtod(s.c_str() + p + strlen(key), 0); }
}
SECTION(adapter, 4) {
  c.cases(1500, [&] {
    auto& r = c.rng; Opt o = options(r); std::string ops; boost::shared_ptr<Solver> sp; Muted mute;
    if (r.coin()) sp.reset(new Solver(o)); else { // each option from its own key, the default where there is none
      sm::PropertyTree t; Opt d; auto take = [&](const char* k, auto& mine, const auto& dflt, const std::function<void()>& set) { (void)k; if (r.coin(0.75)) set(); else mine = dflt; };
      take("c", o.columnScaling, d.columnScaling, [&] { t.setBool("columnScaling", o.columnScaling); }); take("n", o.epsNorm, d.epsNorm, [&] { t.setDouble("epsNorm", o.epsNorm); }); take("s", o.epsSVD, d.epsSVD, [&] { t.setDouble("epsSVD", o.epsSVD); }); take("q", o.epsQR, d.epsQR, [&] { t.setDouble("epsQR", o.epsQR); }); take("st", o.svdTol, d.svdTol, [&] { t.setDouble("svdTol", o.svdTol); }); take("qt", o.qrTol, d.qrTol, [&] { t.setDouble("qrTol", o.qrTol); }); take("v", o.verbose, d.verbose, [&] { t.setBool("verbose", o.verbose); });
      sp.reset(new Solver(t)); }
    Solver& s = *sp; if (!c.check(sameOptions(s.getOptions(), o), "options", "scaling %d norm %g svd %g qr %g svdTol %g qrTol %g verbose %d; want %d %g %g %g %g %g %d", s.getOptions().columnScaling, s.getOptions().epsNorm, s.getOptions().epsSVD, s.getOptions().epsQR, s.getOptions().svdTol, s.getOptions().qrTol, s.getOptions().verbose, o.columnScaling, o.epsNorm, o.epsSVD, o.epsQR, o.svdTol, o.qrTol, o.verbose)) return;
    c.check(!s.name().empty(), "name", "no name"); ScriptGuard g; bool fail = false; int calls = 0; bool solving = false; std::ptrdiff_t seenK = -1; M seenJ; g.s.analysis = [&](bool sv, std::ptrdiff_t k, const M& J, Analysis&) { ++calls; solving = sv; seenK = k; seenJ = J; if (fail) throw std::runtime_error("scripted failure"); };
    Problem p; bool inited = false, built = false; M J; V e; std::ptrdiff_t k = 0; bool margSet = false; const int steps = 3 + (int)r.below(14); bool solved = false, reset = false;
    auto idle = [&](const char* what) { c.check(s.live() == 0, "matrix-kept", "%ld transposed matrices are still held after %s", s.live(), what); c.check(sameOptions(s.getOptions(), o), "options-changed", "by %s", what); if (margSet) c.check(s.getMargStartIndex() == k, "start-changed", "by %s", what); };
    for (int i = 0; i < steps; ++i) {
      const double u = r.u01(); const char* what = "";
      if (!inited || u < 0.12) { what = "a new structure"; ops += 'i'; p = problem(r); s.initMatrixStructure(p.dvs, p.ets, false); inited = true; built = false; const auto& Jt = s.getJacobianTranspose(); c.check((int)Jt.rows() == p.cols && (int)Jt.cols() == p.rows && s.JCols() == p.cols && s.JRows() == p.rows, "shape", "%zu x %zu want %d x %d", Jt.rows(), Jt.cols(), p.cols, p.rows);
        const truncated_svd_solver::TruncatedSvdSolver fresh; const std::string d = differ(s, fresh); c.check(d.empty(), "stale-analysis", "after a new structure the %s of the earlier one is reported", d.c_str()); if (solved) reset = true; k = (std::ptrdiff_t)p.from[r.below(p.from.size())]; s.setMargStartIndex(k); margSet = true; }
      else if (u < 0.35 || !built) { what = "building"; ops += 'b'; for (auto& v : p.vars) { const V x = randVec(r, (int)v->getValue().size()); v->setParameters(x); } const double cost = s.evaluateError(1, true); (void)cost; const size_t th = 1 + r.below(8); const bool me = r.coin(); const long before = shim::lastBuild().count; s.buildSystem(th, me); const auto& b = shim::lastBuild(); c.check(b.count == before + 1 && b.threads == th && b.mEstimator == me, "build", "asked with %zu threads, M-estimator %d; built %ld times with %zu, %d", th, me, b.count - before, b.threads, b.mEstimator); reference(p, J, e); built = true;
        const M got = s.getJacobianTranspose().toDense(); c.check(got.rows() == p.cols && got.cols() == p.rows && (got.transpose() - J).cwiseAbs().maxCoeff() <= 1e-9 * (1 + J.cwiseAbs().maxCoeff()), "jacobian", "the Jacobian differs"); }
      else if (u < 0.42) { what = "moving the start"; ops += 'm'; k = r.coin() ? (std::ptrdiff_t)p.from[r.below(p.from.size())] : (std::ptrdiff_t)r.below(p.cols); s.setMargStartIndex(k); }
      else if (u < 0.47) { what = "changed options"; ops += 'o'; const bool keep = o.columnScaling; (void)keep; o = options(r); s.getOptions() = o; }
      else if (u < 0.52) { what = "a refused structure"; ops += 'd'; c.check(mon::throwsAny([&] { s.initMatrixStructure(p.dvs, p.ets, true); }), "conditioner", "a diagonal conditioner is not refused"); inited = false; }
      else if (u < 0.57) { what = "the steepest-descent helper"; ops += 'r'; c.check(s.rhsJtJrhs() == 0.0, "rhs", "not zero"); }
      else if (u < 0.63) { what = "a failed transposition"; ops += 'F'; shim::failingTransposes() = 1; const int before = calls; bool ok; V dx = V::Constant(2, 7.0); if (r.coin()) ok = s.solveSystem(dx); else ok = s.analyzeMarginal(); c.check(!ok, "failure-hidden", "a failed transposition is reported as success"); c.check(calls == before, "failure-hidden", "the solver ran without a matrix"); shim::failingTransposes() = 0; c.count("failed transpositions"); }
      else if (u < 0.67) { what = "a failed solve"; ops += 'X'; fail = true; V dx; c.check(mon::throwsAny([&] { if (r.coin()) s.solveSystem(dx); else s.analyzeMarginal(); }), "failure-hidden", "a failure of the solver is swallowed"); fail = false; c.count("failed solves"); }
      else if (u < 0.86) { what = "a solve"; ops += 's'; mute.sink.str(""); const int before = calls; V dx = randVec(r, (int)r.below(4)); const bool ok = s.solveSystem(dx); if (!c.check(ok && calls == before + 1 && solving, "solve", "returned %d after %d calls", ok, calls - before)) return; M want = J; V sc = V::Ones(p.cols); if (o.columnScaling) for (int q = 0; q < p.cols; ++q) { const double n = J.col(q).norm(); sc(q) = n > o.epsNorm ? 1 / n : 0; want.col(q) *= sc(q); }
        c.check(seenK == k, "start", "marginalized from %ld, want %ld", (long)seenK, (long)k); c.check(seenJ.rows() == want.rows() && seenJ.cols() == want.cols() && (seenJ - want).cwiseAbs().maxCoeff() <= 1e-9 * (1 + want.cwiseAbs().maxCoeff()), "matrix", "the solver sees another matrix (%ld x %ld, want %ld x %ld)", (long)seenJ.rows(), (long)seenJ.cols(), (long)want.rows(), (long)want.cols());
        // the step of the solver on the same system
        truncated_svd_solver::TruncatedSvdSolver ref(o); cholmod_sparse js; std::vector<std::ptrdiff_t> cp(1, 0), ri; std::vector<double> xs; for (int q = 0; q < p.cols; ++q) { for (int w = 0; w < p.rows; ++w) if (J(w, q) != 0) { ri.push_back(w); xs.push_back(J(w, q)); } cp.push_back((std::ptrdiff_t)xs.size()); } js.nrow = p.rows; js.ncol = p.cols; js.nzmax = xs.size(); js.p = cp.data(); js.i = ri.data(); js.x = xs.data(); cholmod_dense b; b.nrow = p.rows; b.ncol = 1; b.x = e.data(); V x; auto* keep = shim::solverScript(); shim::solverScript() = nullptr; ref.solve(&js, &b, k, x); shim::solverScript() = keep;
        c.check(dx.size() == p.cols && (dx - x).cwiseAbs().maxCoeff() <= 1e-6 * (1 + x.cwiseAbs().maxCoeff()), "step", "the step is not that of the solver (%ld of %d entries)", (long)dx.size(), p.cols); const std::string d = differ(s, ref); c.check(d.empty(), "figures", "%s of the solve", d.c_str()); solved = true; c.count("solves compared");
        const std::string text = mute.sink.str(); if (!o.verbose) c.check(text.empty(), "verbose", "a quiet solve reports"); else { c.check(after(text, "SVD rank: ") == s.getSVDRank() && after(text, "SVD rank deficiency: ") == s.getSVDRankDeficiency() && after(text, "QR rank: ") == s.getQRRank() && after(text, "QR rank deficiency: ") == s.getQRRankDeficiency(), "report", "ranks %ld %ld %ld %ld are reported as %s", (long)s.getSVDRank(), (long)s.getSVDRankDeficiency(), (long)s.getQRRank(), (long)s.getQRRankDeficiency(), text.substr(0, 120).c_str()); c.check(std::cout.precision() == mute.p && std::cout.flags() == mute.f, "output-format", "reporting leaves the output at %ld digits, was %ld", (long)std::cout.precision(), (long)mute.p); c.count("reports read"); } }
      else { what = "an analysis"; ops += 'a'; const int before = calls; const bool ok = s.analyzeMarginal(); if (!c.check(ok && calls == before + 1 && !solving, "analysis", "returned %d after %d calls", ok, calls - before)) return; c.check(seenK == k, "start", "marginalized from %ld, want %ld", (long)seenK, (long)k); c.check(seenJ.rows() == J.rows() && seenJ.cols() == J.cols() && (seenJ - J).cwiseAbs().maxCoeff() <= 1e-9 * (1 + J.cwiseAbs().maxCoeff()), "matrix", "the analysis sees another matrix"); solved = true; c.count("analyses compared"); }
      idle(what); if (built && inited) { const M got = s.getJacobianTranspose().toDense(); c.check(got.rows() == J.cols() && got.cols() == J.rows() && (got.transpose() - J).cwiseAbs().maxCoeff() <= 1e-9 * (1 + J.cwiseAbs().maxCoeff()), "jacobian-changed", "by %s", what); }
    }
    if (reset) c.count("analyses cleared by a new structure"); if (solved) c.seen(mon::hashStr(ops)); c.sample(ops);
  });
}
