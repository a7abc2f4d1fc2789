#pragma once
#include <aslam/backend/core.hpp>
#include <aslam/backend/LinearSystemSolver.hpp>
#include <aslam/backend/GaussNewtonTrustRegionPolicy.hpp>
namespace aslam { namespace backend {
struct Optimizer2Options {
  double convergenceDeltaJ = 1e-3, convergenceDeltaX = 1e-3; size_t maxIterations = 20; bool doSchurComplement = false, verbose = false, linearSolverMaximumFails = false; size_t numThreadsJacobian = 1, numThreadsError = 1, nThreads = 1;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver; boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
