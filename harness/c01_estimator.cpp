// C01, C02, C03: the incremental estimator with scripted solver outcomes.
#include "est.hpp"
using namespace core;
namespace {
const size_t MARG = 2;
struct World {
  mon::Rng& r; std::vector<VecSP> calib; std::vector<std::pair<VecSP, size_t>> shared; std::vector<VecSP> all;
  explicit World(mon::Rng& r) : r(r) { for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i) calib.push_back(var(0.85)); for (int i = 0, n = (int)r.below(3); i < n; ++i) shared.push_back({var(0.8), group()}); }
  VecSP var(double act) { VecSP v = boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(3))); v->setActive(r.coin(act)); all.push_back(v); return v; }
  size_t group() { static const size_t g[] = {0, 1, 3, 7}; return g[r.below(4)]; }
  /// marg: with variables of the marginalized group
  BatchSP batch(bool marg = true) {
    BatchSP b = boost::make_shared<Batch>(); std::vector<std::pair<VecSP, size_t>> v; for (int i = 0, n = (int)r.below(4); i < n; ++i) v.push_back({var(0.9), group()});
    for (auto& s : shared) if (r.coin(0.4)) v.push_back(s);
    if (marg) { bool any = false; for (auto& d : calib) if (r.coin(0.7)) { v.push_back({d, MARG}); any = true; } if (!any) v.push_back({r.pick(calib), MARG}); } else if (v.empty()) v.push_back({var(1), 0});
    r.shuffle(v); for (auto& d : v) b->addDesignVariable(d.first, d.second);
    for (int i = 0, n = 1 + (int)r.below(4); i < n; ++i) { std::vector<VecSP> t; for (auto& d : v) if (t.size() < 3 && r.coin(0.5)) t.push_back(d.first); if (t.empty()) t.push_back(v[0].first); b->addErrorTerm(randTerm(r, t)); }
    bool active = false; for (auto& d : v) active |= d.first->isActive(); if (!active) v[0].first->setActive(true);
    return b;
  }
  std::map<const DV*, Eigen::VectorXd> values() const { std::map<const DV*, Eigen::VectorXd> m; for (auto& v : all) m[v.get()] = v->getValue(); return m; }
};
Est::Options randomOptions(mon::Rng& r) { Est::Options o; o.infoGainDelta = r.coin(0.3) ? 0.2 : r.coin(0.2) ? 0 : r.uni(-2, 4); o.checkValidity = r.coin(0.4); return o; }
struct Trouble : std::runtime_error { Trouble() : std::runtime_error("trouble") {} };
void one(mon::Ctx& c) {
  auto& r = c.rng; World w(r); Est::Options eo = randomOptions(r); LinearSolverOptions lo; lo.columnScaling = r.coin(); lo.epsNorm = r.logu(1e-14, 1e-8); lo.epsSVD = r.logu(1e-16, 1e-10); lo.epsQR = r.logu(1e-16, 1e-10); if (r.coin(0.3)) lo.svdTol = r.logu(1e-12, 1e-6); if (r.coin(0.3)) lo.qrTol = r.logu(1e-12, 1e-6);
  Est::OptimizerOptions oo; oo.maxIterations = 1 + r.below(30); oo.convergenceDeltaJ = r.logu(1e-6, 1e-1); oo.convergenceDeltaX = r.logu(1e-6, 1e-1);
  auto est = makeEst(r, MARG, eo, lo, oo); Est& e = *est;
#if PART == 1
  { const Est& k = e; c.check(k.getMargGroupId() == MARG && k.getOptions().infoGainDelta == eo.infoGainDelta && k.getOptions().checkValidity == eo.checkValidity && k.getOptions().verbose == eo.verbose, "options", "options are not the configured ones"); const LinearSolverOptions& l = k.getLinearSolverOptions();
    c.check(l.columnScaling == lo.columnScaling && l.epsNorm == lo.epsNorm && l.epsSVD == lo.epsSVD && l.epsQR == lo.epsQR && l.svdTol == lo.svdTol && l.qrTol == lo.qrTol && l.verbose == lo.verbose, "solver-options", "solver options are not the configured ones");
    c.check(k.getOptimizerOptions().maxIterations == oo.maxIterations && k.getOptimizerOptions().convergenceDeltaJ == oo.convergenceDeltaJ && k.getOptimizerOptions().convergenceDeltaX == oo.convergenceDeltaX, "optimizer-options", "optimizer options are not the configured ones");
    c.check(differ(figures(k), Figures()).empty() && k.getNumBatches() == 0, "initial-figures", "%s", differ(figures(k), Figures()).c_str()); }
#endif
  Figures now; double log2Sum = 0; std::vector<BatchSP> held; std::vector<BatchSP> offered; std::string h; uint64_t hash = eo.checkValidity * 2 + lo.columnScaling;
  ScriptGuard g; Analysis scaled, plain; aslam::backend::SolutionReturnValue srv; int solves = 0, analyses = 0; bool plainSeen = false;
  double wantRank = 0, wantSum = 0; int fail = 0; // where the next solve ends in an error
  g.o.before = [&](aslam::backend::OptimizationProblemBase& p, aslam::backend::LinearSystemSolver& s, const std::vector<DV*>& active) {
    ++solves; if (fail == 1) throw Trouble();
#if PART == 3
    Inc& q = static_cast<Inc&>(p); const std::vector<size_t> ord = q.getGroupsOrdering(); c.check(!ord.empty() && ord.back() == MARG, "marginalized-group-not-last", "at position %zu of %zu", (size_t)(std::find(ord.begin(), ord.end(), MARG) - ord.begin()), ord.size());
    std::ptrdiff_t k = 0; size_t firstMarg = active.size(); std::ptrdiff_t col = 0, at = -1; for (size_t i = 0; i < active.size(); ++i) { const bool m = q.getGroupId(active[i]) == MARG; if (m && firstMarg == active.size()) { firstMarg = i; at = col; } if (!m) { k += active[i]->minimalDimensions(); c.check(firstMarg == active.size(), "variable-after-marginalized", "variable %zu of group %zu", i, q.getGroupId(active[i])); } col += active[i]->minimalDimensions(); }
    const std::ptrdiff_t got = dynamic_cast<LinearSolver&>(s).getMargStartIndex(); c.check(got == k && (at < 0 || got == at), "split-column", "split at %td, %td columns before the group of %td", got, k, col);
    size_t n = 0; for (size_t i = 0; i < q.numDesignVariables(); ++i) if (q.designVariable(i)->isActive()) { c.check(n < active.size() && active[n] == q.designVariable(i), "column-order", "column block %zu", n); ++n; } c.check(n == active.size(), "column-count", "%zu of %zu", active.size(), n);
    c.count("solves observed"); if (k && at >= 0) c.count("splits inside the system"); if (ord.size() > 2) c.count("solves with three or more groups");
#else
    (void)p; (void)s; (void)active;
#endif
  };
  g.o.instead = [&](const std::vector<DV*>& active, aslam::backend::SolutionReturnValue& out) {
    for (int k = 0, n = 1 + (int)r.below(3); k < n; ++k) for (DV* d : active) { const Eigen::VectorXd s = randVec(r, d->minimalDimensions()); switch (r.below(6)) { case 0: break; case 1: d->update(s.data(), (int)s.size()); d->revertUpdate(); break; case 2: d->setParameters(s); break; default: d->update(s.data(), (int)s.size()); } }
    if (fail == 2) throw Trouble(); out = srv; return true;
  };
  g.s.analysis = [&](bool sc, std::ptrdiff_t, const Eigen::MatrixXd&, Analysis& a) { ++analyses; if (fail == (sc ? 3 : 4)) throw Trouble(); if (sc) a = scaled; else { a = plain; plainSeen = true; } };
  auto script = [&](double delta) {
    wantRank = r.coin(0.5) ? (double)now.rankT : (double)now.rankT + r.range(-2, 2); if (wantRank < 0) wantRank = (double)r.below(3); if (held.empty() && r.coin(0.5)) wantRank = 0;
    double gain = delta; switch (r.below(7)) { case 0: gain = delta; break; case 1: gain = std::nextafter(delta, 1e9); break; case 2: gain = delta + r.uni(0, 3); break; case 3: gain = delta - r.uni(0, 3); break; case 4: gain = r.uni(-5, 5); break; case 5: gain = r.coin(0.3) ? NAN : delta - 1e-3; break; default: gain = delta + 1e-3; }
    wantSum = log2Sum + 2 * gain;
    plain = scripted(r, 10, (std::ptrdiff_t)wantRank, wantSum); scaled = scripted(r, 1000, (std::ptrdiff_t)r.below(9), r.uni(-9, 9)); plainSeen = false;
    srv = aslam::backend::SolutionReturnValue(); srv.iterations = r.coin(0.3) ? e.getOptimizerOptions().maxIterations : r.below(e.getOptimizerOptions().maxIterations + 3); srv.JStart = r.uni(0, 9); srv.JFinal = r.coin(0.25) ? srv.JStart : r.coin(0.3) ? srv.JStart + r.uni(0, 2) : srv.JStart * r.u01();
  };
  for (int step = 0, N = 4 + (int)r.below(14); step < N; ++step) {
    const int op = (int)r.below(14); std::string what; const Shape s0 = shape(e); const Figures f0 = figures(e); auto v0 = w.values(); const int solves0 = solves;
    auto unchanged = [&](const char* sig) { const std::string a = differ(shape(e), s0), b = differ(figures(e), f0); c.check(a.empty() && b.empty(), sig, "%s %s after %s", a.c_str(), b.c_str(), what.c_str()); int bad = 0; for (auto& v : w.all) if (v0.count(v.get()) && !same(v->getValue(), v0[v.get()])) ++bad; c.check(bad == 0, sig, "%d variables changed by %s", bad, what.c_str()); };
    auto jacobian = [&] { if (e.getNumBatches()) { Eigen::MatrixXd J; Eigen::VectorXd rhs; system(const_cast<Inc*>(e.getProblem()), J, rhs); const Eigen::MatrixXd got = e.getJacobianTranspose().toDense().transpose(); c.check(got.rows() == J.rows() && got.cols() == J.cols() && (got - J).cwiseAbs().maxCoeff() < 1e-10 * (1 + J.cwiseAbs().maxCoeff()), "jacobian-of-rejected-batch", "the reported Jacobian is %ld x %ld, the problem %ld x %ld", (long)got.rows(), (long)got.cols(), (long)J.rows(), (long)J.cols()); } };
    (void)jacobian;
    if (op < 8) { // offer a batch
      BatchSP b = !offered.empty() && r.coin(0.15) ? r.pick(offered) : w.batch(); if (std::find(held.begin(), held.end(), b) != held.end()) b = w.batch();
      bool clash = false; for (auto& x : held) for (auto& t : x->getErrorTerms()) for (auto& u : b->getErrorTerms()) clash |= t == u; if (clash) continue;
      bool anyActive = false; for (size_t i = 0; i < b->numDesignVariables(); ++i) anyActive |= b->designVariable(i)->isActive(); if (!anyActive) continue;
      if (r.coin(0.1)) { e.getOptions().infoGainDelta = r.uni(-2, 4); e.getOptions().checkValidity = r.coin(); } if (r.coin(0.05)) e.getLinearSolverOptions().columnScaling = !e.getLinearSolverOptions().columnScaling;
      const double delta = e.getOptions().infoGainDelta; const bool force = r.coin(0.2), scaling = e.getLinearSolverOptions().columnScaling; script(delta); offered.push_back(b); v0 = w.values();
      what = force ? "forcing a batch" : "offering a batch"; h += what; c.note("%s", h.c_str());
      Ret x; fail = r.coin(0.1) ? 1 + (int)r.below(4) : 0;
      if (fail) { // the optimizer or the solver gives up: as if never offered
        what += " that cannot be solved"; h += "!; "; c.note("%s", h.c_str()); bool thrown = false; try { x = e.addBatch(b, force); } catch (const Trouble&) { thrown = true; } fail = 0; c.check(thrown, "error-swallowed", "%s", what.c_str()); unchanged("failed-batch-leaves-a-trace"); c.count("offers that ended in an error"); if (e.getNumBatches() != held.size()) return;
#if PART == 2
        jacobian();
#endif
        continue;
      }
      std::string err = kind([&] { x = e.addBatch(b, force); }); if (!c.check(err.empty(), "unexpected-exception", "%s", err.c_str())) return;
      const double gain = 0.5 * (wantSum - log2Sum); const bool valid = !e.getOptions().checkValidity || (srv.iterations != e.getOptimizerOptions().maxIterations && srv.JFinal < srv.JStart);
      const bool up = (std::ptrdiff_t)wantRank > now.rankT, keep = force || (valid && (gain > delta || up));
#if PART == 1
      c.check(x.batchAccepted == keep, keep ? "batch-wrongly-rejected" : "batch-wrongly-kept", "force %d valid %d gain %.17g threshold %.17g rank %g was %td", force, valid, gain, delta, wantRank, now.rankT);
      Figures want; fill(want, scaled, plain, scaling, srv.JStart, srv.JFinal, gain); std::string d = differ(figures(x, want), want); c.check(d.empty(), "return-value", "%s is not that of the candidate", d.c_str()); c.check(x.numIterations == srv.iterations, "return-value", "iterations %zu want %zu", x.numIterations, srv.iterations); c.check(x.elapsedTime >= 0 && x.elapsedTime < 1000, "elapsed-time", "%g", x.elapsedTime);
      c.check(solves == solves0 + 1 && plainSeen, "not-solved-once", "%d solves", solves - solves0);
      c.count(keep ? "kept" : "rejected"); if (force && !(valid && (gain > delta || up))) c.count("kept only by force"); if (!valid && (gain > delta || up) && !force) c.count("rejected as invalid"); if (up && !(gain > delta)) c.count("rank went up without gain"); if ((std::ptrdiff_t)wantRank < now.rankT && keep && !force) c.count("kept although the rank went down");
#endif
      const bool k = x.batchAccepted;
      if (k) { held.push_back(b); fill(now, scaled, plain, scaling, srv.JStart, srv.JFinal, gain); log2Sum = wantSum; }
#if PART == 2
      if (!k) {
        unchanged("rejected-batch-leaves-a-trace"); c.count("rejections observed"); if (s0.num) c.count("rejections with other batches held");
        jacobian();
      }
#endif
      what += k ? " (kept)" : " (rejected)"; h += k ? "+; " : "-; ";
    } else if (op == 8) { // removal
      if (held.empty()) continue; const size_t i = r.below(held.size()); bool left = false; for (size_t k = 0; k < held.size(); ++k) if (k != i) left |= held[k]->isGroupInProblem(MARG);
      bool act = false; for (size_t k = 0; k < held.size(); ++k) if (k != i) for (size_t q = 0; q < held[k]->numDesignVariables(); ++q) act |= held[k]->designVariable(q)->isActive(); if (left && !act) continue;
      script(0); what = "removing a batch"; h += what + "; "; c.note("%s", h.c_str()); const bool scaling = e.getLinearSolverOptions().columnScaling; const bool byIndex = r.coin();
      const std::string err = kind([&] { if (byIndex) e.removeBatch(i); else e.removeBatch(held[i]); });
      if (!left) {
#if PART == 3
        c.check(err == "operation", "removal-of-the-marginalized-group-accepted", "'%s'", err.c_str()); unchanged("refused-removal-leaves-a-trace"); c.count("removals refused");
#endif
        if (e.getNumBatches() != held.size()) return; continue;
      }
      if (!c.check(err.empty(), "unexpected-exception", "removal: %s", err.c_str())) return;
      held.erase(held.begin() + i); fill(now, scaled, plain, scaling, srv.JStart, srv.JFinal, 0); log2Sum = wantSum;
    } else if (op == 9) { // unknown things
      what = "removing the unknown"; h += what + "; "; c.note("%s", h.c_str()); const size_t k = badIndex(r, held.size()); if (k < held.size()) continue;
      if (r.coin()) { const std::string err = kind([&] { e.removeBatch(k); }); c.check(err == "bound" || err == "operation", "bad-removal-accepted", "index %zu of %zu: '%s'", k, held.size(), err.c_str()); } else { kind([&] { e.removeBatch(w.batch()); }); kind([&] { e.removeBatch(BatchSP()); }); }
      v0 = w.values(); unchanged("refused-removal-leaves-a-trace"); c.check(solves == solves0, "solved-for-nothing", "after removing the unknown");
    } else if (op == 10) { // refused offers
      BatchSP b; std::string want; switch (r.below(3)) { case 0: want = "null"; break; case 1: if (held.empty()) continue; b = r.pick(held); want = "operation"; break; default: { if (held.empty()) continue; b = w.batch(); const DV* d = held[0]->designVariable(0); b = boost::make_shared<Batch>(); VecSP o = w.var(1), v; for (auto& x : w.all) if (x.get() == d) v = x; if (r.coin()) { b->addDesignVariable(o, 9); b->addErrorTerm(randTerm(r, {o})); } b->addDesignVariable(v, held[0]->getGroupId(d) + 11); b->addErrorTerm(randTerm(r, {v})); want = "operation"; } }
      what = "offering the unacceptable"; h += what + "; "; c.note("%s", h.c_str()); const bool force = r.coin(); v0 = w.values(); const std::string err = kind([&] { e.addBatch(b, force); }); c.check(err == want, "bad-batch-accepted", "'%s' want '%s'", err.c_str(), want.c_str()); unchanged("refused-batch-leaves-a-trace");
    } else if (op == 11) { // a first batch without the marginalized group
      if (!held.empty()) { BatchSP b = w.batch(false); bool act = false; for (size_t i = 0; i < b->numDesignVariables(); ++i) act |= b->designVariable(i)->isActive(); if (!act) continue; script(e.getOptions().infoGainDelta); const bool scaling = e.getLinearSolverOptions().columnScaling; const double gain = 0.5 * (wantSum - log2Sum); what = "a batch without the group"; h += what + "; "; c.note("%s", h.c_str()); Ret x = e.addBatch(b, true); if (!c.check(x.batchAccepted, "batch-wrongly-rejected", "forced")) return; held.push_back(b); fill(now, scaled, plain, scaling, srv.JStart, srv.JFinal, gain); log2Sum = wantSum; }
      else { BatchSP b = w.batch(false); what = "only a batch without the group"; h += what + "; "; c.note("%s", h.c_str()); v0 = w.values(); const bool force = r.coin(); script(0); const std::string err = kind([&] { e.addBatch(b, force); });
#if PART == 3
        c.check(err == "operation", "batch-without-the-group-accepted", "'%s'", err.c_str()); unchanged("refused-batch-leaves-a-trace"); c.count("batches refused for want of the group");
#endif
        if (e.getNumBatches()) return; }
    } else { // solve again
      script(0); const bool scaling = e.getLinearSolverOptions().columnScaling; what = "reoptimizing"; h += what + "; "; c.note("%s", h.c_str());
      if (held.empty()) { const std::string err = kind([&] { e.reoptimize(); }); c.check(err == "operation", "reoptimized-nothing", "'%s'", err.c_str()); unchanged("refused-reoptimization-leaves-a-trace"); continue; }
      Ret x; const std::string err = kind([&] { x = e.reoptimize(); }); if (!c.check(err.empty(), "unexpected-exception", "reoptimize: %s", err.c_str())) return;
      fill(now, scaled, plain, scaling, srv.JStart, srv.JFinal, 0); log2Sum = wantSum;
#if PART == 1
      const std::string d = differ(figures(x, now), now); c.check(d.empty() && x.numIterations == srv.iterations && x.batchAccepted, "return-value", "%s is not that of the solution", d.c_str());
#endif
    }
    hash = mon::hcomb(hash, mon::hashStr(what));
#if PART == 1
    const std::string d = differ(figures(e), now); c.check(d.empty(), "reported-figures", "%s after %s", d.c_str(), what.c_str());
    std::vector<const Batch*> hb; for (auto& b : held) hb.push_back(b.get()); c.check(shape(e).batches == hb && e.getNumBatches() == hb.size(), "batches-held", "after %s", what.c_str());
#endif
    c.count("operations");
  }
  c.seen(hash); c.sample(h.substr(0, 200));
}
}
SECTION(scripted, 8) { c.cases(6000, [&] { one(c); }); }
