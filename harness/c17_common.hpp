// C17: the sequence of draws is a function of the seed and the calls
#ifndef VERIF_C17_HPP
#define VERIF_C17_HPP
#include "dist.hpp"
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <memory>
using namespace aslam::calibration;
typedef std::vector<double> Log;
typedef std::function<void(Log&)> Op;
template <class T> struct Ops {
  /// every sampler of a generator, through one of several generators
  static Op draw(mon::Ctx& c, const std::vector<std::shared_ptr<Randomizer<T>>>& g) {
    auto r = g[c.rng.below(g.size())]; const double a = c.rng.uni(0.3, 5);
    switch (c.rng.below(6)) {
      case 0: return [=](Log& l) { l.push_back(r->sampleUniform(T(0), T(1000))); };
      case 1: return [=](Log& l) { l.push_back(r->sampleNormal(T(0), T(10000))); };
      case 2: return [=](Log& l) { l.push_back(r->sampleExponential(a)); };
      case 3: return [=](Log& l) { l.push_back(r->sampleGamma(a, 2)); };
      case 4: return [=](Log& l) { l.push_back(r->samplePoisson(a * 10)); };
      default: return [=](Log& l) { l.push_back(r->sampleGeometric(0.05)); };
    }
  }
};
#endif
