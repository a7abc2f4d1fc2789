// C41: the same history of the estimator, run twice on storage of another order and content
#define WORLD_ONLY
#include "c07_linear.cpp"
#include "c41_heap.hpp"
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
namespace {
struct Log { std::vector<std::string> lines; void line(const std::string& s) { lines.push_back(s); } void num(const char* n, double v) { char b[96]; std::snprintf(b, sizeof b, "%s %a", n, v); line(b); } void mat(const char* n, const Eigen::MatrixXd& m) { std::string s = std::string(n) + " " + std::to_string(m.rows()) + "x" + std::to_string(m.cols()); char b[40]; for (long i = 0; i < m.size(); ++i) { std::snprintf(b, sizeof b, " %a", m.data()[i]); s += b; } line(s); } };
void state(Log& l, Est& e, const World& w, const std::vector<BatchSP>& all, const std::map<const Batch*, int>& id) {
  const Figures f = figures(e);
  l.num("gain", f.gain); l.num("svdTol", f.svdTol); l.num("qrTol", f.qrTol); l.num("flops", f.flops); l.num("J0", f.J0); l.num("J1", f.J1); l.num("rankTheta", (double)f.rankT); l.num("defTheta", (double)f.defT); l.num("rankPsi", (double)f.rankP); l.num("defPsi", (double)f.defP); l.num("peak", (double)f.peak); l.num("mem", (double)f.mem);
  l.mat("null", f.null); l.mat("row", f.row); l.mat("cov", f.cov); l.mat("rowCov", f.rowCov); l.mat("nullS", f.nullS); l.mat("rowS", f.rowS); l.mat("covS", f.covS); l.mat("rowCovS", f.rowCovS); l.mat("sv", f.sv); l.mat("svS", f.svS);
  for (auto& v : w.theta) l.mat("theta", v->getValue()); for (auto& v : w.nuis) l.mat("nuisance", v->getValue());
  std::map<const DV*, std::string> name; for (size_t i = 0; i < w.theta.size(); ++i) name[w.theta[i].get()] = "t" + std::to_string(i); for (size_t i = 0; i < w.nuis.size(); ++i) name[w.nuis[i].get()] = "n" + std::to_string(i);
  for (auto& b : all) for (size_t i = 0; i < b->numDesignVariables(); ++i) { DV* d = b->designVariable(i); if (name.count(d)) continue; name[d] = "b" + std::to_string(id.at(b.get())) + "." + std::to_string(i); l.mat("local", static_cast<Vec*>(d)->getValue()); }
  const Inc* p = e.getProblem(); std::string s = "batches"; for (auto& b : p->getOptimizationProblems()) s += " " + std::to_string(id.at(b.get())); l.line(s); s = "groups"; for (size_t g : p->getGroupsOrdering()) s += " " + std::to_string(g); l.line(s); s = "variables"; for (size_t i = 0; i < p->numDesignVariables(); ++i) { DV* d = const_cast<Inc*>(p)->designVariable(i); s += " " + name[d] + "@" + std::to_string(d->blockIndex()) + "," + std::to_string(d->columnBase()); } l.line(s);
  std::map<const ET*, std::string> tn; for (auto& b : all) { size_t k = 0; for (auto& t : b->getErrorTerms()) tn[t.get()] = std::to_string(id.at(b.get())) + "." + std::to_string(k++); } s = "terms"; for (size_t i = 0; i < p->numErrorTerms(); ++i) s += " " + tn[const_cast<Inc*>(p)->errorTerm(i)]; l.line(s);
  const auto& J = const_cast<Est&>(e).getJacobianTranspose(); std::vector<Eigen::Index> rows; l.num("jacobian rows", (double)J.rows()); l.num("jacobian columns", (double)J.cols()); if (J.rows() && J.cols()) { std::ostringstream o; o << std::hexfloat; J.writeMATLAB(o); l.line(o.str()); }
}
Log history(mon::Ctx& c, mon::Rng r, bool count) {
  Log l; const uint64_t seed = r.next(); World w{mon::Rng(seed)}; Est::Options eo; eo.infoGainDelta = r.coin(0.3) ? 0.2 : r.coin(0.2) ? 0 : r.uni(-0.5, 3); eo.checkValidity = r.coin(0.3); LinearSolverOptions lo; lo.columnScaling = r.coin(0.4); lo.epsSVD = 1e-15; Est::OptimizerOptions oo; oo.maxIterations = 3 + r.below(20); oo.numThreadsJacobian = 1 + r.below(3); oo.numThreadsError = 1; mon::Rng r1 = r;
  auto est = makeEst(r1, MARG, eo, lo, oo); Est& e = *est; std::vector<BatchSP> held, dropped, all; std::map<const Batch*, int> id; std::string h;
  for (int step = 0, N = 4 + (int)r.below(10); step < N; ++step) {
    const int op = (int)r.below(12);
    if (op < 8 || held.size() < 2) {
      BatchSP b; const uint64_t bs = r.next(); const bool again = !dropped.empty() && r.coin(0.25); if (again) { const size_t k = r.below(dropped.size()); b = dropped[k]; dropped.erase(dropped.begin() + k); } else { b = w.batch(mon::Rng(bs)); id[b.get()] = (int)all.size(); all.push_back(b); }
      const Ret x = e.addBatch(b, r.coin(0.25)); if (x.batchAccepted) held.push_back(b); else dropped.push_back(b); h += x.batchAccepted ? '+' : '-';
      l.line(std::string("offer ") + (x.batchAccepted ? "kept" : "dropped")); l.num("iterations", (double)x.numIterations); l.num("gain", x.informationGain); l.num("start", x.JStart); l.num("final", x.JFinal); l.num("rank", (double)x.rankTheta); l.num("psi", (double)x.rankPsi); l.mat("basis", x.obsBasis); l.mat("covariance", x.sigma2Theta); l.mat("values", x.singularValuesScaled);
    } else if (op < 10) { const size_t i = r.below(held.size()); e.removeBatch(held[i]); dropped.push_back(held[i]); held.erase(held.begin() + i); h += 'r'; l.line("remove"); }
    else { const Ret x = e.reoptimize(); h += 'o'; l.line("again"); l.num("final", x.JFinal); }
    state(l, e, w, all, id);
  }
  if (count) { c.note("%s", h.c_str()); c.sample(h); c.count("histories"); c.count("operations", h.size()); } return l;
}
bool judge(mon::Ctx& c, const Log& a, const Log& b) {
  uint64_t h = 0; if (!c.check(a.lines.size() == b.lines.size(), "length", "%zu lines and %zu", a.lines.size(), b.lines.size())) return false; for (size_t i = 0; i < a.lines.size(); ++i) { h = mon::hcomb(h, mon::hashStr(a.lines[i])); if (!c.check(a.lines[i] == b.lines[i], ("differs-" + a.lines[i].substr(0, a.lines[i].find(' '))).c_str(), "line %zu of %zu: '%.120s' in one run, '%.120s' in the other", i, a.lines.size(), a.lines[i].c_str(), b.lines[i].c_str())) return false; }
  c.seen(h); c.count("figures compared bit by bit", a.lines.size()); return true;
}
}
SECTION(estimator, 8) { c.cases(900, [&] { const mon::Rng start = c.rng; const uint64_t s = c.rng.next(); heap::shuffle(mon::hcomb(s, 1)); const Log a = history(c, start, true); heap::shuffle(mon::hcomb(s, 2)); const Log b = history(c, start, false); judge(c, a, b); }); }
SECTION(samples, 8) { c.cases(4000, [&] { // draws after a seed are the same draws
  auto& r = c.rng; const uint64_t s = r.next(), seed = r.below(1000000); const int before = (int)r.below(5), n = 1 + (int)r.below(20); const mon::Rng start = r; Log l[2]; c.note("seed %llu, %d draws", (unsigned long long)seed, n);
  for (int i = 0; i < 2; ++i) { mon::Rng q = start; heap::shuffle(mon::hcomb(s, i + 1)); Randomizer<double> R; for (int k = 0; k < before * (i + 1); ++k) { R.sampleNormal(); R.sampleUniform(); } R.setSeed(seed);
    for (int k = 0; k < n; ++k) switch (q.below(6)) { case 0: l[i].num("uniform", R.sampleUniform(-1, q.uni(0, 5))); break; case 1: l[i].num("normal", R.sampleNormal(0, q.uni(0.1, 5))); break; case 2: l[i].num("poisson", (double)R.samplePoisson(q.uni(0.1, 20))); break; case 3: { Eigen::Vector3d m(q.uni(-1, 1), 2, 3); Eigen::Matrix3d C = Eigen::Matrix3d::Identity() * q.uni(0.1, 2); C(0, 1) = C(1, 0) = 0.05; l[i].mat("gaussian", NormalDistribution<3>(m, C).getSample()); break; } case 4: l[i].num("geometric", (double)R.sampleGeometric(q.uni(0.1, 0.9))); break; default: l[i].num("exponential", R.sampleExponential(q.uni(0.1, 5))); }
  } judge(c, l[0], l[1]);
}); }
