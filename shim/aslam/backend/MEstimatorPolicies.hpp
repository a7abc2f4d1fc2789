#pragma once
#include <aslam/backend/core.hpp>
namespace aslam { namespace backend {
class MEstimator { public: virtual ~MEstimator() {} virtual double getWeight(double) const = 0; };
class BlakeZissermanMEstimator : public MEstimator { public: explicit BlakeZissermanMEstimator(size_t df, double pCut = 0.999, double wCut = 0.1) : df_(df), pCut_(pCut), wCut_(wCut) {} double getWeight(double) const override { return 1; } size_t df() const { return df_; } double pCut() const { return pCut_; } double wCut() const { return wCut_; } private: size_t df_; double pCut_, wCut_; };
} }
