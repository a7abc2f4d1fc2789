#pragma once
#include <aslam/backend/core.hpp>
#include <cholmod.h>
#include <ostream>
namespace aslam { namespace backend {
/// compressed columns; a dense copy is kept beside
template <typename I = int> class CompressedColumnMatrix {
 public:
  size_t rows() const { return _dense.rows(); } size_t cols() const { return _dense.cols(); }
  size_t nnz() const { return _x.size(); }
  Eigen::MatrixXd toDense() const { return _dense; }
  /// one line for each entry: row, column (both from one), value
  void writeMATLAB(std::ostream& o) const { for (size_t c = 0; c + 1 < _p.size(); ++c) for (I k = _p[c]; k < _p[c + 1]; ++k) o << _i[k] + 1 << " " << c + 1 << " " << _x[k] << std::endl; }
  void assign(const Eigen::MatrixXd& d) {
    _dense = d; _p.assign(1, 0); _i.clear(); _x.clear();
    for (int c = 0; c < d.cols(); ++c) { for (int r = 0; r < d.rows(); ++r) if (d(r, c) != 0) { _i.push_back(r); _x.push_back(d(r, c)); } _p.push_back((I)_x.size()); }
  }
  void getView(cholmod_sparse* cs) { cs->nrow = rows(); cs->ncol = cols(); cs->p = _p.data(); cs->i = _i.data(); cs->x = _x.data(); cs->nzmax = _x.size(); cs->owned = false; }
 private:
  Eigen::MatrixXd _dense; std::vector<I> _p = std::vector<I>(1, 0); std::vector<I> _i; std::vector<double> _x;
};
} }
