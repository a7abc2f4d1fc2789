// C07 (and the twin comparison of C02): linear problems solved for real.
#include "est.hpp"
using namespace core;
namespace {
const size_t MARG = 1;
/// a measurement with its own local variables; built anew for every estimator that needs it
struct World {
  std::vector<VecSP> theta, nuis; std::vector<size_t> nuisGroup; std::vector<Eigen::MatrixXd> P; std::vector<Eigen::VectorXd> truth; std::map<const DV*, Eigen::VectorXd> init;
  explicit World(mon::Rng r) {
    const double scale = r.logu(0.05, 20);
    for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i) { const int d = 1 + (int)r.below(3); theta.push_back(boost::make_shared<Vec>(randVec(r, d))); theta.back()->setActive(i == 0 || r.coin(0.85)); truth.push_back(randVec(r, d, scale)); Eigen::MatrixXd p = Eigen::MatrixXd::Identity(d, d); if (r.coin(0.4)) { Eigen::VectorXd u = randVec(r, d).normalized(); p -= u * u.transpose(); } P.push_back(p); }
    for (int i = 0, n = (int)r.below(3); i < n; ++i) { nuis.push_back(boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(2)))); nuis.back()->setActive(r.coin(0.85)); nuisGroup.push_back(r.coin() ? 0 : 5); }
  }
  BatchSP batch(mon::Rng r) const {
    BatchSP b = boost::make_shared<Batch>(); std::vector<std::pair<VecSP, size_t>> vs; std::vector<TermSP> ts;
    for (int u = 0, U = 1 + (int)r.below(2); u < U; ++u) {
      std::vector<VecSP> lv; for (int i = 0, n = (int)r.below(3); i < n; ++i) { lv.push_back(boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(2)))); lv.back()->setActive(true); vs.push_back({lv.back(), r.coin(0.7) ? 0 : 3}); }
      for (auto& l : lv) { const int d = (int)l->getValue().size(); std::vector<Eigen::MatrixXd> A(1, Eigen::MatrixXd::Identity(d, d)); ts.push_back(boost::make_shared<LinTerm>(std::vector<VecSP>(1, l), A, randVec(r, d), Eigen::MatrixXd(Eigen::MatrixXd::Identity(d, d) * r.uni(0.1, 4)))); }
      for (int t = 0, T = 1 + (int)r.below(3); t < T; ++t) {
        const int m = 1 + (int)r.below(3); std::vector<VecSP> v; std::vector<Eigen::MatrixXd> A; Eigen::VectorXd y = randVec(r, m, 0.1);
        for (size_t i = 0; i < theta.size(); ++i) if (r.coin(0.7) || (i == 0 && t == 0 && u == 0)) { v.push_back(theta[i]); A.push_back(randMat(r, m, (int)truth[i].size()) * P[i]); y += A.back() * truth[i]; if (std::find_if(vs.begin(), vs.end(), [&](const std::pair<VecSP, size_t>& p) { return p.first == theta[i]; }) == vs.end()) vs.push_back({theta[i], MARG}); }
        for (size_t i = 0; i < nuis.size(); ++i) if (r.coin(0.3)) { v.push_back(nuis[i]); A.push_back(randMat(r, m, (int)nuis[i]->getValue().size())); if (std::find_if(vs.begin(), vs.end(), [&](const std::pair<VecSP, size_t>& p) { return p.first == nuis[i]; }) == vs.end()) vs.push_back({nuis[i], nuisGroup[i]}); }
        for (auto& l : lv) if (r.coin(0.7)) { v.push_back(l); A.push_back(randMat(r, m, (int)l->getValue().size())); }
        if (v.empty()) continue;
        const Eigen::MatrixXd q = randMat(r, m, m); ts.push_back(boost::make_shared<LinTerm>(v, A, y, Eigen::MatrixXd((q * q.transpose() + Eigen::MatrixXd::Identity(m, m)) * r.uni(0.3, 3))));
      }
    }
    r.shuffle(vs); for (auto& d : vs) b->addDesignVariable(d.first, d.second);
    r.shuffle(ts); for (auto& t : ts) b->addErrorTerm(t);
    return b;
  }
};
typedef Eigen::Matrix<long double, -1, -1> ML; typedef Eigen::Matrix<long double, -1, 1> VL;
/// direct solution of everything held
struct Dense { bool clear = true; int rank = 0, n = 0; VL sv; ML row, cov; VL theta; double cost = 0; long double log2 = 0; };
Dense dense(const World& w, const std::vector<BatchSP>& held) {
  Dense o; std::map<const DV*, int> col; int psi = 0; std::vector<const LinTerm*> terms; int rows = 0; std::set<const DV*> present;
  for (auto& b : held) { for (size_t i = 0; i < b->numDesignVariables(); ++i) { const DV* d = b->designVariable(i); if (!present.insert(d).second || !d->isActive() || b->getGroupId(d) == MARG) continue; col[d] = psi; psi += d->minimalDimensions(); } for (auto& t : b->getErrorTerms()) { terms.push_back(static_cast<const LinTerm*>(t.get())); rows += (int)terms.back()->dimension(); } }
  std::vector<const Vec*> th; int n = 0; for (auto& b : held) for (size_t i = 0; i < b->numDesignVariables(); ++i) { const DV* d = b->designVariable(i); if (b->getGroupId(d) != MARG || !d->isActive() || col.count(d)) continue; col[d] = psi + n; n += d->minimalDimensions(); th.push_back(static_cast<const Vec*>(d)); }
  o.n = n; ML J = ML::Zero(rows, psi + n); VL e(rows); int at = 0;
  for (auto t : terms) { const int m = (int)t->dimension(); const ML U = Eigen::LLT<ML>(t->vsInvR().cast<long double>()).matrixU(); VL r = t->b().cast<long double>(); for (size_t k = 0; k < t->vars().size(); ++k) { const Vec* v = t->vars()[k].get(); const ML A = t->A()[k].cast<long double>(); auto it = col.find(v); if (it == col.end()) r -= A * v->getValue().cast<long double>(); else J.block(at, it->second, m, A.cols()) += U * A; } e.segment(at, m) = U * r; at += m; }
  const ML Jp = J.leftCols(psi), Jt = J.rightCols(n); ML Q(rows, 0);
  if (psi) { Eigen::SelfAdjointEigenSolver<ML> s(Jp.transpose() * Jp); const long double mx = s.eigenvalues().maxCoeff(); int r = 0; for (int i = 0; i < psi; ++i) { if (s.eigenvalues()(i) > 1e-7L * mx) ++r; else if (s.eigenvalues()(i) > 1e-15L * mx) o.clear = false; } Q = Jp * s.eigenvectors().rightCols(r); for (int i = 0; i < r; ++i) Q.col(i).normalize(); for (int i = 0; i < r; ++i) { for (int k = 0; k < i; ++k) Q.col(i) -= Q.col(k) * Q.col(k).dot(Q.col(i)); Q.col(i).normalize(); } }
  ML R = Jt - Q * (Q.transpose() * Jt); R -= Q * (Q.transpose() * R); const VL f = e - Q * (Q.transpose() * e);
  Eigen::SelfAdjointEigenSolver<ML> s(R.transpose() * R); const long double mx = n ? s.eigenvalues().maxCoeff() : 0; const long double full = n ? Jt.squaredNorm() : 0; o.sv = VL::Zero(n); if (n == 0 || mx <= 1e-7L * full || mx < 1e-9L) { o.clear = false; return o; }
  for (int i = 0; i < n; ++i) { const long double v = std::max(0.0L, s.eigenvalues()(n - 1 - i)); if (v > 1e-6L * mx) { o.sv(o.rank++) = v; o.log2 += std::log2(v); } else if (v > 1e-16L * mx) o.clear = false; }
  o.row = s.eigenvectors().rightCols(o.rank).rowwise().reverse(); o.cov = o.row * o.sv.head(o.rank).cwiseInverse().asDiagonal() * o.row.transpose(); o.theta = o.cov * (R.transpose() * f); o.cost = (double)(f - R * o.theta).squaredNorm();
  return o;
}
/// active calibration values in the order of the columns
Eigen::VectorXd thetaNow(const Est& e) { Eigen::VectorXd v; Inc* p = const_cast<Inc*>(e.getProblem()); for (size_t i = 0; i < p->numDesignVariables(); ++i) { Vec* d = static_cast<Vec*>(p->designVariable(i)); if (p->getGroupId(d) != MARG || !d->isActive()) continue; const Eigen::VectorXd x = d->getValue(); v.conservativeResize(v.size() + x.size()); v.tail(x.size()) = x; } return v; }
std::vector<int> thetaOrder(const Est& e, const std::vector<BatchSP>& held) { // position of each column of the reference among the columns of the estimator
  std::map<const DV*, int> at; int c = 0; Inc* p = const_cast<Inc*>(e.getProblem()); for (size_t i = 0; i < p->numDesignVariables(); ++i) { const DV* d = p->designVariable(i); if (p->getGroupId(d) == MARG && d->isActive()) { at[d] = c; c += d->minimalDimensions(); } }
  std::vector<int> o; std::set<const DV*> seen; for (auto& b : held) for (size_t i = 0; i < b->numDesignVariables(); ++i) { const DV* d = b->designVariable(i); if (b->getGroupId(d) != MARG || !d->isActive() || !seen.insert(d).second) continue; for (int k = 0; k < d->minimalDimensions(); ++k) o.push_back(at[d] + k); }
  return o;
}
double rel(const ML& a, const ML& b) { const double s = (double)(b.size() ? b.cwiseAbs().maxCoeff() : 0); return a.rows() != b.rows() || a.cols() != b.cols() ? 1e300 : a.size() ? (double)(a - b).cwiseAbs().maxCoeff() / (s + 1e-300) : 0; }
void compare(mon::Ctx& c, Est& e, const World& w, const std::vector<BatchSP>& held, const Dense& D, const char* when, bool cost) {
  const int n = D.n; std::vector<int> o = thetaOrder(e, held); ML row(n, D.rank), cov(n, n); VL theta(n); if ((int)o.size() != n) { c.check(false, "columns", "%zu calibration columns want %d", o.size(), n); return; }
  for (int i = 0; i < n; ++i) { row.row(o[i]) = D.row.row(i); theta(o[i]) = D.theta(i); for (int k = 0; k < n; ++k) cov(o[i], o[k]) = D.cov(i, k); }
  const double cond = (double)(D.sv(0) / D.sv(D.rank - 1)), tol = 1e-9 * cond * cond + 1e-9; if (tol > 1e-3) return;
  if (!c.check(e.getRankTheta() == D.rank && e.getRankThetaDeficiency() == n - D.rank, "rank", "rank %td deficiency %td %s, want %d and %d", e.getRankTheta(), e.getRankThetaDeficiency(), when, D.rank, n - D.rank)) return;
  const ML sv = e.getSingularValues().cast<long double>(), rb = e.getObsBasis().cast<long double>(), nb = e.getNobsBasis().cast<long double>(), cv = e.getSigma2Theta().cast<long double>(), rc = e.getSigma2ThetaObs().cast<long double>();
  c.check(sv.rows() == n && rel(sv.topRows(D.rank), D.sv.head(D.rank)) < tol, "singular-values", "off by %.3g %s", sv.rows() == n ? rel(sv.topRows(D.rank), D.sv.head(D.rank)) : -1.0, when);
  c.check(rb.rows() == n && rb.cols() == D.rank && rel(rb * rb.transpose(), row * row.transpose()) < tol, "row-space", "%s", when);
  c.check(nb.rows() == n && nb.cols() == n - D.rank && (nb.cols() == 0 || (double)(nb.transpose() * row).cwiseAbs().maxCoeff() < tol), "null-space", "%s", when);
  c.check(rel(cv, cov) < tol, "covariance", "off by %.3g %s", rel(cv, cov), when);
  c.check(rc.rows() == D.rank && rc.cols() == D.rank && rel(rb * rc * rb.transpose(), cov) < tol, "row-space-covariance", "%s", when);
  const VL got = thetaNow(e).cast<long double>(); const VL a = row * (row.transpose() * got), b = row * (row.transpose() * theta); const double s = (double)(1 + got.cwiseAbs().maxCoeff() + theta.cwiseAbs().maxCoeff());
  c.check((double)(a - b).cwiseAbs().maxCoeff() < 10 * tol * s, "estimate", "off by %.3g %s (rank %d of %d)", (double)(a - b).cwiseAbs().maxCoeff(), when, D.rank, n);
  if (cost) c.check(std::fabs(e.getFinalCost() - D.cost) < 1e-7 * (1 + D.cost) * (1 + cond * 1e-6), "cost", "%.17g want %.17g %s", e.getFinalCost(), D.cost, when);
  c.count("states compared with the direct solution"); if (D.rank < n) c.count("rank-deficient states"); if (held.size() > 2) c.count("states of three or more batches");
}
std::string outcome(const Ret& x) { char b[200]; std::snprintf(b, sizeof b, "%d %td %td %td %zu %.6g %.6g %.6g", x.batchAccepted, x.rankTheta, x.rankThetaDeficiency, x.rankPsi, x.numIterations, x.informationGain, x.JStart, x.JFinal); return b; }
void one(mon::Ctx& c) {
  auto& r = c.rng; const uint64_t seed = r.next(); World w{mon::Rng(seed)}; Est::Options eo; eo.infoGainDelta = r.coin(0.3) ? 0.2 : r.coin(0.2) ? 0 : r.uni(-0.5, 3); eo.checkValidity = r.coin(0.3); LinearSolverOptions lo; lo.columnScaling = r.coin(0.4); lo.epsSVD = 1e-15; Est::OptimizerOptions oo; oo.maxIterations = 3 + r.below(20); oo.numThreadsJacobian = 1 + r.below(3); oo.numThreadsError = 1 + r.below(3); mon::Rng r1 = r;
  auto est = makeEst(r1, MARG, eo, lo, oo); Est& e = *est; e.getOptimizerOptions() .numThreadsJacobian = oo.numThreadsJacobian;
#if PART == 2
  World w2{mon::Rng(seed)}; mon::Rng r2 = r; auto twin = makeEst(r2, MARG, eo, lo, oo); std::map<const Batch*, BatchSP> other; bool twinOk = true;
#endif
  std::vector<BatchSP> held, dropped; std::vector<uint64_t> seeds; std::string h; double log2 = 0; int rank = -1; bool known = true; uint64_t hash = 0; int rejections = 0;
  for (int step = 0, N = 4 + (int)r.below(12); step < N; ++step) {
    const int op = (int)r.below(12); bool solved = true;
    if (op < 8 || held.empty()) {
      const uint64_t bs = r.next(); BatchSP b; const bool again = !dropped.empty() && r.coin(0.2); if (again) { const size_t k = r.below(dropped.size()); b = dropped[k]; dropped.erase(dropped.begin() + k); } else b = w.batch(mon::Rng(bs));
      const bool force = r.coin(0.25); h += force ? "force" : "offer"; c.note("%s", h.c_str());
#if PART == 2
      BatchSP b2 = again ? other[b.get()] : w2.batch(mon::Rng(bs)); other[b.get()] = b2;
#endif
      std::vector<BatchSP> with = held; with.push_back(b); const Dense D = dense(w, with); const Ret x = e.addBatch(b, force);
      if (x.batchAccepted) held = with; else { dropped.push_back(b); ++rejections; c.count("offers rejected"); } h += x.batchAccepted ? "+ " : "- ";
#if PART == 2
      if (x.batchAccepted && twinOk) { const Ret y = twin->addBatch(b2, force); twinOk = c.check(outcome(x) == outcome(y), "decision-depends-on-rejected-batches", "'%s' with, '%s' without %d rejected offers", outcome(x).c_str(), outcome(y).c_str(), rejections); }
#else
      if (D.clear) {
        c.check(x.rankTheta == D.rank, "rank", "candidate of rank %td want %d", x.rankTheta, D.rank);
        if (known) { const double gain = 0.5 * (double)(D.log2 - log2); c.check(std::fabs(x.informationGain - gain) < 1e-5 * (1 + std::fabs(gain)), "information-gain", "%.12g want %.12g", x.informationGain, gain);
          const bool valid = !eo.checkValidity || (x.numIterations != oo.maxIterations && x.JFinal < x.JStart);
          if (std::fabs(gain - eo.infoGainDelta) > 1e-4) { const bool keep = force || (valid && (gain > eo.infoGainDelta || D.rank > rank)); c.check(keep == x.batchAccepted, "decision", "gain %.9g threshold %.9g rank %d after %d, forced %d, valid %d", gain, eo.infoGainDelta, D.rank, rank, force, valid); c.count("decisions compared"); } }
      }
#endif
      if (x.batchAccepted) { known = D.clear; log2 = (double)D.log2; rank = D.rank; } else solved = false;
    } else if (op < 10) {
      const size_t i = r.below(held.size()); bool left = false; for (size_t k = 0; k < held.size(); ++k) left |= k != i; if (!left) continue; h += "remove "; c.note("%s", h.c_str());
#if PART == 2
      if (twinOk) twin->removeBatch(other[held[i].get()]);
#endif
      e.removeBatch(held[i]); dropped.push_back(held[i]); held.erase(held.begin() + i); c.count("removals");
    } else { h += "again "; c.note("%s", h.c_str()); e.reoptimize();
#if PART == 2
      if (twinOk) twin->reoptimize();
#endif
    }
    hash = mon::hcomb(hash, mon::hashStr(h)); if (held.empty()) continue;
#if PART == 2
    if (twinOk && rejections) { const std::string a = differ(figures(e), figures(*twin)); std::string d = a; 
      auto va = thetaNow(e), vb = thetaNow(*twin); if (va.size() != vb.size() || (va.size() && (va - vb).cwiseAbs().maxCoeff() > 1e-9 * (1 + va.cwiseAbs().maxCoeff()))) d += " estimates"; 
      const Figures fa = figures(e), fb = figures(*twin); auto close = [](const Eigen::MatrixXd& p, const Eigen::MatrixXd& q) { return p.rows() == q.rows() && p.cols() == q.cols() && (p.size() == 0 || (p - q).cwiseAbs().maxCoeff() <= 1e-9 * (1 + p.cwiseAbs().maxCoeff())); };
      if (!a.empty() && close(fa.sv, fb.sv) && close(fa.cov, fb.cov) && close(fa.svS, fb.svS) && fa.rankT == fb.rankT && fa.rankP == fb.rankP && std::fabs(fa.gain - fb.gain) < 1e-9 && std::fabs(fa.J1 - fb.J1) < 1e-9 * (1 + fa.J1)) d = d.substr(a.size());
      c.check(d.empty(), "estimate-depends-on-rejected-batches", "%s after %d rejected offers", d.c_str(), rejections); c.count("states compared with the twin"); if (solved) c.count("of those, just solved"); }
#else
    const Dense D = dense(w, held); if (!D.clear) { known = false; rank = (int)e.getRankTheta(); continue; } rank = D.rank; log2 = (double)D.log2; known = true;
    compare(c, e, w, held, D, ("after " + h.substr(h.size() > 60 ? h.size() - 60 : 0)).c_str(), solved);
#endif
  }
  c.seen(hash ^ seed); c.sample(h);
}
}
#ifndef WORLD_ONLY
SECTION(linear, 8) { c.cases(2500, [&] { one(c); }); }
#endif
