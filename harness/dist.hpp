// Generators shared by the distribution monitors.
#ifndef VERIF_DIST_HPP
#define VERIF_DIST_HPP
#include "monitor.hpp"
#include "ref.hpp"
#include <Eigen/Core>
namespace gen {
using ref::L;
/// well-conditioned correlation, arbitrary scales
template <int M> Eigen::Matrix<double, M, M> cov(mon::Ctx& c, double lo, double hi, std::vector<double>* sd = nullptr) {
  Eigen::Matrix<double, M, M> A, C;
  for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) A(i, j) = c.rng.normal();
  C = A * A.transpose() / M;
  for (int i = 0; i < M; ++i) C(i, i) += 0.3;
  std::vector<double> s(M);
  const int mode = c.rng.below(4); const double common = c.rng.logu(lo, hi);
  for (int i = 0; i < M; ++i) s[i] = mode ? common * c.rng.logu(0.3, 3) : c.rng.logu(lo, hi);
  if (mode == 3) { C.setIdentity(); }
  for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) C(i, j) *= s[i] * s[j];
  for (int i = 0; i < M; ++i) for (int j = 0; j < i; ++j) C(i, j) = C(j, i);
  if (sd) *sd = s;
  return C;
}
template <class Mx> std::vector<L> rowMajor(const Mx& m) {
  std::vector<L> v; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) v.push_back(m(i, j)); return v;
}
template <class V1, class V2> std::vector<L> diff(const V1& a, const V2& b) {
  std::vector<L> v; for (int i = 0; i < a.size(); ++i) v.push_back((L)a(i) - (L)b(i)); return v;
}
}
#endif
