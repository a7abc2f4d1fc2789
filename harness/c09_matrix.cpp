// C09: computeSumLogDiagR / checkColumnIndices against a direct sum.
#include "monitor.hpp"
#include <Eigen/Core>
#include <aslam/calibration/algorithms/matrixOperations.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <set>
using namespace aslam::calibration;
namespace {
// Sparse upper-triangular matrix that watches what is asked of it.
struct Watched {
  size_t n; std::map<std::pair<size_t, size_t>, double> v;
  mutable std::set<std::pair<size_t, size_t>> asked; mutable bool outside;
  Watched(size_t n) : n(n), outside(false) {}
  std::ptrdiff_t rows() const { return n; }
  std::ptrdiff_t cols() const { return n; }
  double operator()(size_t r, size_t c) const {
    if (r >= n || c >= n) { outside = true; return std::nan(""); }
    asked.insert({r, c});
    auto it = v.find({r, c}); return it == v.end() ? 0.0 : it->second;
  }
  double coeff(size_t r, size_t c) const { return (*this)(r, c); }
};
double entry(mon::Rng& r) {
  switch (r.below(8)) {
    case 0: return 0.0;
    case 1: return r.signedLog(1e-300, 1e-20);
    case 2: return r.signedLog(1e100, 1e300);
    case 3: return r.coin() ? 1 : -1;
    case 4: return r.signedLog(1e-14, 1e-3);
    default: return r.normal() * 10;
  }
}
bool ambiguous(double d) { d = std::fabs(d); return d > 1e-16 && d < 1e-15; }
template <class M> void sums(mon::Ctx& c, const M& R, size_t n, const std::vector<double>& diag, const char* nm) {
  size_t b = c.rng.below(n + 2), e = c.rng.below(n + 3);
  if (c.rng.coin(0.6) && n >= 2) { b = c.rng.below(n - 1); e = b + 1 + c.rng.below(n - 1 - b); }
  if (c.rng.coin(0.03)) e = std::numeric_limits<size_t>::max();
  if (c.rng.coin(0.03)) b = std::numeric_limits<size_t>::max() - 1;
  c.note("%s n=%zu begin=%zu end=%zu", nm, n, b, e);
  const bool bad = b >= e || e >= n;
  double got = 0; int threw = 0, threw2 = 0;
  try { got = computeSumLogDiagR(R, b, e); } catch (const OutOfBoundException<size_t>&) { threw = 1; }
  try { checkColumnIndices(R, b, e); } catch (const OutOfBoundException<size_t>&) { threw2 = 1; }
  c.check(threw == bad, bad ? "bad-range-accepted" : "good-range-refused", "n=%zu [%zu,%zu]", n, b, e);
  c.check(threw2 == bad, bad ? "check-accepts-bad-range" : "check-refuses-good-range", "n=%zu [%zu,%zu]", n, b, e);
  c.count(bad ? "refused ranges" : "sums");
  if (bad || threw) return;
  long double want = 0, mag = 0; int used = 0;
  for (size_t i = b; i <= e; ++i) if (std::fabs(diag[i]) > std::numeric_limits<double>::epsilon()) {
    long double l = std::log2(std::fabs((long double)diag[i])); want += l; mag += std::fabs(l); ++used; }
  c.check(std::fabs((double)(got - want)) <= 1e-12 * (double)(1 + mag), "wrong-sum", "got %.17g want %.17Lg", got, want);
  if (used >= 2) c.seen(mon::hcomb(mon::hd(got), b * 1000 + e));
}
}
SECTION(sparse, 2) {
  c.cases(4000, [&] {
    size_t n = 1 + c.rng.below(c.rng.coin(0.9) ? 12 : 80);
    Watched R(n); std::vector<double> d(n, 0);
    for (size_t i = 0; i < n; ++i) {
      if (!c.rng.coin(0.15)) { double x; do x = entry(c.rng); while (ambiguous(x)); d[i] = x; if (x != 0) R.v[{i, i}] = x; }
      for (size_t j = 0; j < n; ++j) if (j != i && c.rng.coin(0.3)) R.v[{i, j}] = j > i ? entry(c.rng) : c.rng.normal();
    }
    sums(c, R, n, d, "sparse");
    c.check(!R.outside, "reads-outside-matrix");
    c.sample(c.crumb);
  });
}
SECTION(dense, 2) {
  c.cases(4000, [&] {
    size_t n = 1 + c.rng.below(10);
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(n, n); std::vector<double> d(n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double x; do x = entry(c.rng); while (ambiguous(x)); R(i, j) = x; if (i == j) d[i] = x; }
    const Eigen::MatrixXd R0 = R;
    sums(c, R, n, d, "dense");
    c.check(R == R0, "matrix-modified");
  });
}
// splitting a range in two adds up; scaling a diagonal entry by 2 adds one
SECTION(laws, 2) {
  c.cases(2000, [&] {
    size_t n = 5 + c.rng.below(20);
    Eigen::MatrixXd R = Eigen::MatrixXd::Random(n, n);
    for (size_t i = 0; i < n; ++i) R(i, i) = c.rng.signedLog(1e-10, 1e10);
    size_t b = c.rng.below(n - 3), m = b + 1 + c.rng.below(n - b - 3), e = m + 2 + c.rng.below(n - m - 2);
    c.note("n=%zu b=%zu m=%zu e=%zu", n, b, m, e);
    double all = computeSumLogDiagR(R, b, e), lo = computeSumLogDiagR(R, b, m), hi = computeSumLogDiagR(R, m + 1, e);
    c.check(std::fabs(all - lo - hi) < 1e-10 * (1 + std::fabs(lo) + std::fabs(hi)) * n, "not-additive", "%g %g %g", all, lo, hi);
    size_t k = b + c.rng.below(e - b + 1); Eigen::MatrixXd S = R; S(k, k) *= -2;
    c.check(std::fabs(computeSumLogDiagR(S, b, e) - all - 1) < 1e-9, "doubling-does-not-add-one");
    S = R; for (size_t i = 0; i < n; ++i) if (i < b || i > e) S(i, i) = 1e30;
    c.check(computeSumLogDiagR(S, b, e) == all, "outside-range-matters");
    c.seen(mon::hd(all));
  });
}
