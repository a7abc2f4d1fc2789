#ifndef VERIF_EST_HPP
#define VERIF_EST_HPP
// Snapshots and scripts for the incremental estimator.
#include "core.hpp"
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <sm/PropertyTree.hpp>
namespace core {
typedef IncrementalEstimator Est; typedef Est::ReturnValue Ret; typedef IncrementalOptimizationProblem Inc;
using shim::Analysis;
/// all figures the estimator reports
struct Figures {
  double gain = 0, svdTol = 0, qrTol = -1, flops = 0, J0 = 0, J1 = 0; std::ptrdiff_t rankT = -1, defT = -1, rankP = -1, defP = -1; size_t peak = 0, mem = 0;
  Eigen::MatrixXd null, row, cov, rowCov, nullS, rowS, covS, rowCovS; Eigen::VectorXd sv, svS;
};
inline Figures figures(const Est& e) {
  Figures f; f.gain = e.getInformationGain(); f.svdTol = e.getSVDTolerance(); f.qrTol = e.getQRTolerance(); f.flops = e.getNumFlops(); f.J0 = e.getInitialCost(); f.J1 = e.getFinalCost(); f.rankT = e.getRankTheta(); f.defT = e.getRankThetaDeficiency(); f.rankP = e.getRankPsi(); f.defP = e.getRankPsiDeficiency(); f.peak = e.getPeakMemoryUsage(); f.mem = e.getMemoryUsage();
  f.null = e.getNobsBasis(); f.row = e.getObsBasis(); f.cov = e.getSigma2Theta(); f.rowCov = e.getSigma2ThetaObs(); f.sv = e.getSingularValues(); f.nullS = e.getNobsBasis(true); f.rowS = e.getObsBasis(true); f.covS = e.getSigma2Theta(true); f.rowCovS = e.getSigma2ThetaObs(true); f.svS = e.getSingularValues(true); return f;
}
inline bool eqd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
/// which figure differs
inline std::string differ(const Figures& a, const Figures& b) {
#define D_(x) if (!eqd((double)a.x, (double)b.x)) return std::string(#x) + " " + std::to_string((double)a.x) + " want " + std::to_string((double)b.x);
  D_(gain) D_(svdTol) D_(qrTol) D_(flops) D_(J0) D_(J1) D_(rankT) D_(defT) D_(rankP) D_(defP) D_(peak) D_(mem)
#undef D_
#define D_(x) if (!same(a.x, b.x)) return std::string(#x);
  D_(null) D_(row) D_(cov) D_(rowCov) D_(sv) D_(nullS) D_(rowS) D_(covS) D_(rowCovS) D_(svS)
#undef D_
  return "";
}
/// the structure of what the estimator holds
struct Shape { std::vector<const Batch*> batches; std::vector<size_t> order; std::map<size_t, std::vector<const DV*>> groups; std::vector<const ET*> terms; std::vector<const DV*> flat; size_t num = 0; };
inline Shape shape(const Est& e) {
  Shape s; const Inc* p = e.getProblem(); for (auto& b : p->getOptimizationProblems()) s.batches.push_back(b.get()); s.order = p->getGroupsOrdering(); for (auto& g : p->getDesignVariablesGroups()) s.groups[g.first] = g.second;
  for (size_t i = 0; i < p->numErrorTerms(); ++i) s.terms.push_back(p->errorTerm(i)); for (size_t i = 0; i < p->numDesignVariables(); ++i) s.flat.push_back(p->designVariable(i)); s.num = e.getNumBatches(); return s;
}
inline std::string differ(const Shape& a, const Shape& b) {
  if (a.num != b.num || a.num != a.batches.size()) return "number of batches"; if (a.batches != b.batches) return "batches"; if (a.order != b.order) return "groups ordering"; if (a.groups != b.groups) return "groups"; if (a.terms != b.terms) return "error terms"; if (a.flat != b.flat) return "variable order"; return "";
}
/// analysis whose every figure is recognizable
inline Analysis scripted(mon::Rng& r, double tag, std::ptrdiff_t rank, double log2Sum) {
  Analysis a; const int n = 1 + (int)r.below(4); auto m = [&](int i, int j) { Eigen::MatrixXd x = randMat(r, i, j); x.array() += tag; return x; };
  a.sv = m(n, 1); a.null = m(n, 1 + (int)r.below(2)); a.row = m(n, 2); a.cov = m(n, n); a.rowCov = m(2, 2); a.V = m(n, n); a.log2Sum = log2Sum; a.svdTol = tag + r.u01(); a.qrTol = tag + r.u01(); a.flops = tag + r.u01();
  a.svdRank = rank; a.svdDef = (std::ptrdiff_t)r.below(1000); a.qrRank = (std::ptrdiff_t)r.below(1000); a.qrDef = (std::ptrdiff_t)r.below(1000); a.peak = r.below(100000); a.mem = r.below(100000); return a;
}
inline void fill(Figures& f, const Analysis& scaled, const Analysis& plain, bool scaling, double J0, double J1, double gain) {
  f = Figures(); f.gain = gain; f.svdTol = plain.svdTol; f.qrTol = plain.qrTol; f.flops = plain.flops; f.J0 = J0; f.J1 = J1; f.rankT = plain.svdRank; f.defT = plain.svdDef; f.rankP = plain.qrRank; f.defP = plain.qrDef; f.peak = plain.peak; f.mem = plain.mem;
  f.null = plain.null; f.row = plain.row; f.cov = plain.cov; f.rowCov = plain.rowCov; f.sv = plain.sv; if (scaling) { f.nullS = scaled.null; f.rowS = scaled.row; f.covS = scaled.cov; f.rowCovS = scaled.rowCov; f.svS = scaled.sv; }
}
/// the figures inside a return value (those a return value has)
inline Figures figures(const Ret& x, const Figures& rest) {
  Figures f = rest; f.gain = x.informationGain; f.svdTol = x.svdTolerance; f.qrTol = x.qrTolerance; f.J0 = x.JStart; f.J1 = x.JFinal; f.rankT = x.rankTheta; f.defT = x.rankThetaDeficiency; f.rankP = x.rankPsi; f.defP = x.rankPsiDeficiency;
  f.null = x.nobsBasis; f.row = x.obsBasis; f.cov = x.sigma2Theta; f.rowCov = x.sigma2ThetaObs; f.sv = x.singularValues; f.nullS = x.nobsBasisScaled; f.rowS = x.obsBasisScaled; f.covS = x.sigma2ThetaScaled; f.rowCovS = x.sigma2ThetaObsScaled; f.svS = x.singularValuesScaled; return f;
}
/// weighted Jacobian and right-hand side of what a problem holds, columns in flat order of the active variables
inline void system(Inc* p, Eigen::MatrixXd& J, Eigen::VectorXd& e) {
  int rows = 0, cols = 0; std::map<const DV*, int> col; for (size_t i = 0; i < p->numDesignVariables(); ++i) { DV* d = p->designVariable(i); if (d->isActive()) { col[d] = cols; cols += d->minimalDimensions(); } }
  for (size_t i = 0; i < p->numErrorTerms(); ++i) rows += p->errorTerm(i)->dimension();
  J = Eigen::MatrixXd::Zero(rows, cols); e = Eigen::VectorXd::Zero(rows); int at = 0;
  for (size_t i = 0; i < p->numErrorTerms(); ++i) { LinTerm* t = static_cast<LinTerm*>(p->errorTerm(i)); const int n = t->dimension(); Eigen::MatrixXd U = Eigen::LLT<Eigen::MatrixXd>(t->vsInvR()).matrixU(); Eigen::VectorXd r = t->b(); for (size_t k = 0; k < t->vars().size(); ++k) { r -= t->A()[k] * t->vars()[k]->getValue(); auto it = col.find(t->vars()[k].get()); if (it != col.end()) J.block(at, it->second, n, t->A()[k].cols()) -= U * t->A()[k]; } e.segment(at, n) = U * r; at += n; }
}
struct ScriptGuard { shim::OptimizerScript o; shim::SolverScript s; ScriptGuard() { shim::optimizerScript() = &o; shim::solverScript() = &s; } ~ScriptGuard() { shim::optimizerScript() = nullptr; shim::solverScript() = nullptr; } };
/// estimator from options or from a configuration
inline boost::shared_ptr<Est> makeEst(mon::Rng& r, size_t marg, Est::Options o, LinearSolverOptions l, Est::OptimizerOptions q) {
  if (r.coin()) return boost::make_shared<Est>(marg, o, l, q);
  sm::PropertyTree c; c.setInt("groupId", (int)marg); c.setDouble("infoGainDelta", o.infoGainDelta); c.setBool("checkValidity", o.checkValidity); c.setBool("verbose", o.verbose);
  c.setBool("optimizer/linearSolver/columnScaling", l.columnScaling); c.setDouble("optimizer/linearSolver/epsNorm", l.epsNorm); c.setDouble("optimizer/linearSolver/epsSVD", l.epsSVD); c.setDouble("optimizer/linearSolver/epsQR", l.epsQR); c.setDouble("optimizer/linearSolver/svdTol", l.svdTol); c.setDouble("optimizer/linearSolver/qrTol", l.qrTol); c.setBool("optimizer/linearSolver/verbose", l.verbose);
  c.setInt("optimizer/maxIterations", (int)q.maxIterations); c.setDouble("optimizer/convergenceDeltaJ", q.convergenceDeltaJ); c.setDouble("optimizer/convergenceDeltaX", q.convergenceDeltaX);
  return boost::make_shared<Est>(c);
}
}
#endif
