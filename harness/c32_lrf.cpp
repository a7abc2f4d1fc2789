// C32: noise-free 2d laser problems, batch by batch, end with the true calibration
#include "est.hpp"
#include "aslam/calibration/2dlrf/ErrorTermMotion.h"
#include "aslam/calibration/2dlrf/ErrorTermObservation.h"
#include "aslam/calibration/2dlrf/utils.h"
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace aslam::calibration; using namespace core; typedef Eigen::Vector2d V2; typedef Eigen::Vector3d V3;
namespace { double wrap(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); } }
SECTION(laser, 6) {
  c.cases(240, [&] {
    auto& r = c.rng; const size_t steps = 24 + r.below(60), nl = 3 + r.below(6); const double T = r.uni(0.05, 0.5), A = r.uni(1, 6) * (r.coin() ? 1 : -1), f = r.uni(0.5, 3) / (T * steps);
    std::vector<V3> u; genSineWavePath(u, steps, A, f, T); if (!c.check(u.size() == steps, "path", "%zu inputs", u.size())) return;
    const V3 theta(r.uni(-0.6, 0.6), r.uni(-0.6, 0.6), r.uni(-3.1, 3.1)), guess = theta + V3(r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), r.uni(-0.04, 0.04));
    std::vector<V3> x(steps); x[0] = V3(r.uni(-5, 5), r.uni(-5, 5), r.uni(-3.1, 3.1)); double turned = 0, lo = 1e9, hi = -1e9;
    for (size_t k = 1; k < steps; ++k) { const double h = x[k - 1](2); x[k] = x[k - 1] + T * V3(std::cos(h) * u[k](0) - std::sin(h) * u[k](1), std::sin(h) * u[k](0) + std::cos(h) * u[k](1), u[k](2)); x[k](2) = wrap(x[k](2)); turned += std::fabs(T * u[k](2)); lo = std::min(lo, u[k](2)); hi = std::max(hi, u[k](2)); }
    V2 lo2(1e9, 1e9), hi2(-1e9, -1e9); for (auto& p : x) { lo2 = lo2.cwiseMin(p.head<2>()); hi2 = hi2.cwiseMax(p.head<2>()); } const double size = std::max(3.0, (hi2 - lo2).maxCoeff());
    std::vector<V2> l(nl); for (auto& p : l) for (int tries = 0;; ++tries) { p = 0.5 * (lo2 + hi2) + size * V2(r.uni(-1, 1), r.uni(-1, 1)); bool ok = true; for (auto& q : x) ok = ok && (q.head<2>() - p).norm() > 1.5; if (ok || tries > 2000) break; }
    for (auto& p : l) for (auto& q : x) if ((q.head<2>() - p).norm() < 1.3) return;
    std::vector<std::vector<double>> R(steps, std::vector<double>(nl, 0)), B = R;
    for (size_t k = 1; k < steps; ++k) for (size_t j = 0; j < nl; ++j) { const double h = x[k](2); const V2 s = x[k].head<2>() + V2(std::cos(h) * theta(0) - std::sin(h) * theta(1), std::sin(h) * theta(0) + std::cos(h) * theta(1)), d = l[j] - s; R[k][j] = d.norm(); B[k][j] = wrap(std::atan2(d(1), d(0)) - h - theta(2)); }
    Eigen::Matrix3d Q = V3(r.logu(1e-6, 1e-2), r.logu(1e-6, 1e-2), r.logu(1e-6, 1e-2)).asDiagonal(); Eigen::Matrix2d S = V2(r.logu(1e-6, 1e-2), r.logu(1e-6, 1e-2)).asDiagonal();
    std::vector<V2> lh; initLandmarks(lh, x, guess, R, B); if (!c.check(lh.size() == nl, "landmarks", "%zu", lh.size())) return;
    std::vector<boost::shared_ptr<VectorDesignVariable<2>>> dl; for (auto& p : lh) { dl.push_back(boost::make_shared<VectorDesignVariable<2>>(p)); dl.back()->setActive(true); }
    auto dt = boost::make_shared<VectorDesignVariable<3>>(guess); dt->setActive(true);
    Est::Options o; o.infoGainDelta = r.coin(0.7) ? r.uni(-0.5, 3) : 1e9; o.checkValidity = false; LinearSolverOptions lo_; lo_.columnScaling = r.coin(); Est::OptimizerOptions q; q.maxIterations = 40; q.convergenceDeltaJ = 1e-14; q.convergenceDeltaX = 1e-11; const bool forced = o.infoGainDelta > 1e8;
    auto est = makeEst(r, 2, o, lo_, q); const size_t batch = r.coin(0.3) ? steps : 8 + r.below(steps); int kept = 0, offers = 0; c.note("%zu steps of %.3g s, amplitude %.3g frequency %.3g, %zu landmarks, batches of %zu%s", steps, T, A, f, nl, batch, forced ? ", forced" : "");
    for (size_t i = 0; i + 1 < steps; i += batch) {
      auto b = boost::make_shared<Est::Batch>(); auto xk = boost::make_shared<VectorDesignVariable<3>>(x[i]); xk->setActive(true); b->addDesignVariable(xk, 0); b->addDesignVariable(dt, 2); for (auto& d : dl) b->addDesignVariable(d, 1);
      for (size_t j = i + 1; j < i + batch && j < steps; ++j) { auto n = boost::make_shared<VectorDesignVariable<3>>(x[j]); n->setActive(true); b->addDesignVariable(n, 0); b->addErrorTerm(boost::make_shared<ErrorTermMotion>(xk.get(), n.get(), T, u[j], Q)); for (size_t k = 0; k < nl; ++k) b->addErrorTerm(boost::make_shared<ErrorTermObservation>(n.get(), dl[k].get(), dt.get(), R[j][k], B[j][k], S)); xk = n; }
      if (!b->numErrorTerms()) continue; const auto ret = est->addBatch(b, forced); ++offers; kept += ret.batchAccepted;
      if (!c.check(std::isfinite(ret.JFinal) && ret.JFinal <= ret.JStart * (1 + 1e-9) + 1e-9, "cost", "offer %d: cost from %g to %g", offers, ret.JStart, ret.JFinal)) return;
    }
    const V3 e = dt->getValue() - theta; const double err = std::max(std::hypot(e(0), e(1)), std::fabs(wrap(e(2)))); const auto rank = est->getRankTheta();
    c.check(kept > 0 && (size_t)kept == est->getNumBatches(), "kept", "%d of %d", kept, offers);
    c.count("batches offered", offers); c.count("batches kept", kept);
    if (rank < 3) { c.count("calibration not fully observed"); return; } // too little motion
    const auto sv = est->getSingularValues(); if (sv(2) < 1e-5 * sv(0)) { c.count("calibration barely observed"); return; }
    c.check(err < 1e-6, "calibration", "off by %.3g (x %g y %g angle %g) after %d of %d batches", err, e(0), e(1), e(2), kept, offers); c.check(est->getFinalCost() < 1e-6, "cost", "final cost %g of noise-free data", est->getFinalCost());
    // landmarks lie where they are, seen from the first pose of a kept batch
    c.count("calibrations recovered"); c.seen(mon::hcomb(mon::hd(theta(0)), steps)); c.sample(std::to_string(steps) + " steps, " + std::to_string(nl) + " landmarks, " + std::to_string(kept) + " of " + std::to_string(offers) + " batches kept");
  });
}
