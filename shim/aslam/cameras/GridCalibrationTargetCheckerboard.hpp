#pragma once
#include <Eigen/Core>
#include <cstddef>
#include <stdexcept>
namespace aslam { namespace cameras {
class GridCalibrationTargetCheckerboard {
 public:
  struct CheckerboardOptions { CheckerboardOptions() : useAdaptiveThreshold(true), normalizeImage(true), performFastCheck(true), filterQuads(false), doSubpixelRefinement(true), showExtractionVideo(false) {} bool useAdaptiveThreshold, normalizeImage, performFastCheck, filterQuads, doSubpixelRefinement, showExtractionVideo; };
  GridCalibrationTargetCheckerboard(size_t rows, size_t cols, double rs, double cs, const CheckerboardOptions& o = CheckerboardOptions()) : rows_(rows), cols_(cols), rs_(rs), cs_(cs), o_(o) {}
  size_t size() const { return rows_ * cols_; } size_t rows() const { return rows_; } size_t cols() const { return cols_; } double rowSpacing() const { return rs_; } double colSpacing() const { return cs_; }
  Eigen::Vector3d point(size_t i) const { if (i >= size()) throw std::out_of_range("no such corner"); return Eigen::Vector3d(rs_ * (double)(i / cols_), cs_ * (double)(i % cols_), 0); }
  const CheckerboardOptions& options() const { return o_; }
 private: size_t rows_, cols_; double rs_, cs_; CheckerboardOptions o_;
};
} }
