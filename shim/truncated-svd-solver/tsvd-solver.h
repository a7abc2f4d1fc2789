// Stand-in for the truncated SVD solver: the same quantities by dense algebra.
#pragma once
#include <Eigen/Dense>
#include <cholmod.h>
#include <cmath>
#include <cstddef>
#include <functional>
#include <limits>
#include <memory>
#include <vector>
#include <truncated-svd-solver/tsvd-solver-options.h>
namespace shim {
/// every figure of one marginal analysis
struct Analysis {
  Eigen::VectorXd sv; Eigen::MatrixXd null, row, cov, rowCov, V; double log2Sum = 0, svdTol = 0, qrTol = 0, flops = 0;
  std::ptrdiff_t svdRank = 0, svdDef = 0, qrRank = 0, qrDef = 0; size_t peak = 0, mem = 0;
};
inline Eigen::MatrixXd dense(const cholmod_sparse* s) {
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(s->nrow, s->ncol); const std::ptrdiff_t *p = (const std::ptrdiff_t*)s->p, *i = (const std::ptrdiff_t*)s->i; const double* x = (const double*)s->x;
  for (size_t c = 0; c < s->ncol; ++c) for (std::ptrdiff_t k = p[c]; k < p[c + 1]; ++k) m(i[k], c) = x[k];
  return m;
}
/// what the monitors can replace in a solver
struct SolverScript {
  bool light = false; // no analysis of its own, no step
  std::function<void(bool scaled, std::ptrdiff_t marg, const Eigen::MatrixXd& J, Analysis& a)> analysis; // sees and may replace an analysis
};
inline SolverScript*& solverScript() { static thread_local SolverScript* s = nullptr; return s; }
/// marginal analysis of [Jpsi | Jtheta]
inline Analysis analyse(const Eigen::MatrixXd& J, std::ptrdiff_t k, double qrTolOpt, double svdTolOpt, double epsQR, double epsSVD, Eigen::MatrixXd* Q = nullptr, std::unique_ptr<Eigen::ColPivHouseholderQR<Eigen::MatrixXd>>* keep = nullptr) {
  Analysis a; const int m = (int)J.rows(), n = (int)J.cols() - (int)k;
  const Eigen::MatrixXd Jp = J.leftCols(k), Jt = J.rightCols(n);
  Eigen::MatrixXd R = Jt;
  a.qrTol = qrTolOpt >= 0 ? qrTolOpt : 20.0 * (double)(J.rows() + J.cols()) * std::max(epsQR, std::numeric_limits<double>::epsilon()) * (J.size() ? std::sqrt(J.colwise().squaredNorm().maxCoeff()) : 0.0);
  Eigen::MatrixXd U(m, 0);
  if (k > 48 && m > 0) { // large systems: rank-revealing QR instead
    Eigen::ColPivHouseholderQR<Eigen::MatrixXd> q(Jp); const auto d = q.matrixQR().diagonal(); int r = 0; while (r < d.size() && std::fabs(d(r)) > a.qrTol) ++r;
    U = q.householderQ() * Eigen::MatrixXd::Identity(m, r); a.qrRank = r; a.qrDef = k - r; R -= U * (U.transpose() * R); R -= U * (U.transpose() * R);
    if (keep) { keep->reset(new Eigen::ColPivHouseholderQR<Eigen::MatrixXd>(q)); }
  } else if (k > 0 && m > 0) {
    Eigen::JacobiSVD<Eigen::MatrixXd> s(Jp, Eigen::ComputeThinU | Eigen::ComputeThinV);
    int r = 0; while (r < s.singularValues().size() && s.singularValues()(r) > a.qrTol) ++r;
    U = s.matrixU().leftCols(r); a.qrRank = r; a.qrDef = k - r;
    R -= U * (U.transpose() * R); R -= U * (U.transpose() * R);
  }
  if (n > 0) {
    Eigen::JacobiSVD<Eigen::MatrixXd> s(R, Eigen::ComputeFullV | (m >= n ? Eigen::ComputeThinU : Eigen::ComputeFullU));
    a.sv = Eigen::VectorXd::Zero(n); for (int i = 0; i < std::min(m, n); ++i) a.sv(i) = s.singularValues()(i) * s.singularValues()(i);
    a.svdTol = svdTolOpt >= 0 ? svdTolOpt : (a.sv.size() ? a.sv(0) : 0) * std::max(epsSVD, 1e-20) * n * 1e3 + 1e-18;
    int r = 0; while (r < n && a.sv(r) > a.svdTol) ++r;
    a.svdRank = r; a.svdDef = n - r; a.V = s.matrixV();
    a.row = a.V.leftCols(r); a.null = a.V.rightCols(n - r);
    a.rowCov = a.sv.head(r).cwiseInverse().asDiagonal(); a.cov = a.row * a.rowCov * a.row.transpose();
    for (int i = 0; i < r; ++i) a.log2Sum += std::log2(a.sv(i));
  }
  a.peak = 1000 + J.size() * 8; a.mem = 500 + J.size() * 4; a.flops = 2.0 * J.size();
  if (Q) *Q = U;
  return a;
}
}
namespace truncated_svd_solver {
class TruncatedSvdSolver {
 public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& o = Options()) : tsvd_options_(o) {}
  virtual ~TruncatedSvdSolver() {}
  TruncatedSvdSolver(const TruncatedSvdSolver&) = delete; TruncatedSvdSolver& operator=(const TruncatedSvdSolver&) = delete;
  const Options& getOptions() const { return tsvd_options_; } Options& getOptions() { return tsvd_options_; }
  void setMargStartIndex(std::ptrdiff_t i) { margStartIndex_ = i; } std::ptrdiff_t getMargStartIndex() const { return margStartIndex_; }
  void clear() { a_ = shim::Analysis(); }
  /// least squares step; keeps the analysis of the (scaled, if so configured) system
  void solve(cholmod_sparse* Jcs, cholmod_dense* b, std::ptrdiff_t k, Eigen::VectorXd& x) {
    Eigen::MatrixXd J = shim::dense(Jcs); Eigen::Map<const Eigen::VectorXd> e(b->x, b->nrow);
    Eigen::VectorXd scale = Eigen::VectorXd::Ones(J.cols());
    if (tsvd_options_.columnScaling) for (int c = 0; c < J.cols(); ++c) { const double n = J.col(c).norm(); scale(c) = n > tsvd_options_.epsNorm ? 1 / n : 0; J.col(c) *= scale(c); }
    if (shim::solverScript() && shim::solverScript()->light) { a_ = shim::Analysis(); x = Eigen::VectorXd::Zero(J.cols()); if (shim::solverScript()->analysis) shim::solverScript()->analysis(true, k, J, a_); return; }
    Eigen::MatrixXd U; std::unique_ptr<Eigen::ColPivHouseholderQR<Eigen::MatrixXd>> qr; a_ = shim::analyse(J, k, tsvd_options_.qrTol, tsvd_options_.svdTol, tsvd_options_.epsQR, tsvd_options_.epsSVD, &U, &qr);
    const int n = (int)(J.cols() - k); x.resize(J.cols()); x.setZero();
    if (n > 0 && J.rows() > 0) {
      const Eigen::MatrixXd Jt = J.rightCols(n); Eigen::MatrixXd R = Jt - U * (U.transpose() * Jt); R -= U * (U.transpose() * R);
      x.tail(n) = a_.cov * (R.transpose() * e);
    }
    if (qr) { // basic solution of the leading part
      const int r = (int)a_.qrRank; Eigen::VectorXd y = Eigen::VectorXd::Zero(k), z = U.transpose() * (e - J.rightCols(n) * x.tail(n));
      qr->matrixQR().topLeftCorner(r, r).triangularView<Eigen::Upper>().solveInPlace(z); y.head(r) = z; x.head(k) = qr->colsPermutation() * y;
    } else if (k > 0 && J.rows() > 0) {
      Eigen::JacobiSVD<Eigen::MatrixXd> s(J.leftCols(k), Eigen::ComputeThinU | Eigen::ComputeThinV);
      const Eigen::VectorXd rhs = s.matrixU().transpose() * (e - J.rightCols(n) * x.tail(n)); Eigen::VectorXd y = Eigen::VectorXd::Zero(k);
      for (int i = 0; i < s.singularValues().size(); ++i) if (s.singularValues()(i) > a_.qrTol) y += s.matrixV().col(i) * (rhs(i) / s.singularValues()(i));
      x.head(k) = y;
    }
    x = x.cwiseProduct(scale);
    if (shim::solverScript() && shim::solverScript()->analysis) shim::solverScript()->analysis(true, k, J, a_);
  }
  void analyzeMarginal(cholmod_sparse* Jcs, std::ptrdiff_t k) {
    const Eigen::MatrixXd J = shim::dense(Jcs); if (shim::solverScript() && shim::solverScript()->light) a_ = shim::Analysis(); else a_ = shim::analyse(J, k, tsvd_options_.qrTol, tsvd_options_.svdTol, tsvd_options_.epsQR, tsvd_options_.epsSVD);
    if (shim::solverScript() && shim::solverScript()->analysis) shim::solverScript()->analysis(false, k, J, a_);
  }
  const Eigen::VectorXd& getSingularValues() const { return a_.sv; }
  const Eigen::MatrixXd& getNullSpace() const { return a_.null; } const Eigen::MatrixXd& getRowSpace() const { return a_.row; }
  const Eigen::MatrixXd& getCovariance() const { return a_.cov; } const Eigen::MatrixXd& getRowSpaceCovariance() const { return a_.rowCov; }
  const Eigen::MatrixXd& getMatrixV() const { return a_.V; }
  double getSingularValuesLog2Sum() const { return a_.log2Sum; } double getSVDTolerance() const { return a_.svdTol; } double getQRTolerance() const { return a_.qrTol; }
  std::ptrdiff_t getSVDRank() const { return a_.svdRank; } std::ptrdiff_t getSVDRankDeficiency() const { return a_.svdDef; }
  std::ptrdiff_t getQRRank() const { return a_.qrRank; } std::ptrdiff_t getQRRankDeficiency() const { return a_.qrDef; }
  size_t getPeakMemoryUsage() const { return a_.peak; } size_t getMemoryUsage() const { return a_.mem; } double getNumFlops() const { return a_.flops; }
  double getLinearSolverTime() const { return 1e-3; } double getMarginalAnalysisTime() const { return 1e-3; } double getSymbolicFactorizationTime() const { return 1e-3; } double getNumericFactorizationTime() const { return 1e-3; }
 protected:
  Options tsvd_options_; cholmod_common cholmod_; std::ptrdiff_t margStartIndex_ = 0; shim::Analysis a_;
};
}
