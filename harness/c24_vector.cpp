// C24: vector design variables
#include "core.hpp"
using namespace core;
namespace {
template <int M> struct Def { static boost::shared_ptr<VectorDesignVariable<M>> make() { return boost::make_shared<VectorDesignVariable<M>>(); } };
template <> struct Def<Eigen::Dynamic> { static boost::shared_ptr<Vec> make() { return boost::make_shared<Vec>(Eigen::VectorXd::Zero(1)); } };
template <int M> void one(mon::Ctx& c) {
  typedef VectorDesignVariable<M> T; typedef typename T::Container C; auto& r = c.rng;
  const int n = M == Eigen::Dynamic ? 1 + (int)r.below(9) : M;
  struct Model { Eigen::VectorXd now, old; bool active; };
  auto mk = [&] { C v(n); for (int i = 0; i < n; ++i) v(i) = r.coin(0.1) ? r.signedLog(1e-300, 1e300) : r.coin(0.05) ? (r.coin() ? INFINITY : NAN) : r.normal(); return v; };
  std::vector<boost::shared_ptr<T>> o; std::vector<Model> m; std::string h = "n=" + std::to_string(n); uint64_t hash = n;
  for (int i = 0; i < 3; ++i) { C v = mk(); if (M != Eigen::Dynamic && i == 2) { o.push_back(Def<M>::make()); v.setZero(); } else o.push_back(boost::shared_ptr<T>(new T(v))); m.push_back({v, v, false}); }
  for (int step = 0, N = 4 + (int)r.below(20); step < N; ++step) {
    const int k = (int)r.below(3), j = (int)r.below(3), op = (int)r.below(10); h += " " + std::to_string(op) + ":" + std::to_string(k) + std::to_string(j); c.note("%s", h.c_str()); hash = mon::hcomb(hash, op * 9 + k * 3 + j);
    DV& d = *o[k];
    switch (op) {
      case 0: case 1: { C s = mk(); if (r.coin(0.1)) s.setZero(); d.update(s.data(), n); m[k].old = m[k].now; m[k].now = m[k].now + Eigen::VectorXd(s); break; }
      case 2: d.revertUpdate(); m[k].now = m[k].old; break;
      case 3: { C v = mk(); o[k]->setValue(v); m[k].old = m[k].now; m[k].now = v; break; }
      case 4: { const C v = mk(); d.setParameters(v); m[k].old = m[k].now; m[k].now = v; break; }
      case 5: { Eigen::MatrixXd v; switch (r.below(5)) { case 0: v = Eigen::MatrixXd::Ones(n + 1, 1); break; case 1: v = Eigen::MatrixXd::Ones(n - 1, 1); break; case 2: v = Eigen::MatrixXd::Ones(n, 2); break; case 3: v = Eigen::MatrixXd::Ones(n, 0); break; default: v = Eigen::MatrixXd::Ones(1, n + 1); }
        c.check(mon::throwsAs<OutOfBoundException<int>>([&] { d.setParameters(v); }), "wrong-size-accepted", "%ld x %ld into %d", (long)v.rows(), (long)v.cols(), n); c.count("refused parameter matrices"); break; }
      case 6: *o[k] = *o[j]; m[k] = m[j]; break;
      case 7: { T cp(*o[j]); o[k] = boost::shared_ptr<T>(new T(cp)); m[k] = m[j]; break; }
      case 8: { const bool a = r.coin(); d.setActive(a); m[k].active = a; break; }
      default: { Eigen::MatrixXd v; d.getParameters(v); d.setParameters(v); m[k].old = m[k].now; }
    }
    if (step + 1 < N && r.coin(0.3)) continue;
    for (int i = 0; i < 3; ++i) {
      Eigen::MatrixXd v(3, 5); o[i]->getParameters(v);
      auto eq = [](const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long q = 0; q < a.size(); ++q) if (!(a.data()[q] == b.data()[q] || (std::isnan(a.data()[q]) && std::isnan(b.data()[q])))) return false; return true; };
      c.check(eq(v, m[i].now), "parameters", "object %d after operation %d", i, op); c.check(eq(o[i]->getValue(), m[i].now), "value", "object %d after operation %d", i, op);
      c.check(o[i]->minimalDimensions() == n, "dimension", "%d want %d", o[i]->minimalDimensions(), n); c.check(o[i]->isActive() == m[i].active, "active-flag", "object %d after operation %d", i, op);
      std::ostringstream s, w; s << *o[i]; w << m[i].now.transpose(); c.check(s.str() == w.str(), "printed-value", "%s want %s", s.str().c_str(), w.str().c_str());
    }
  }
  c.seen(hash); c.sample(c.crumb);
}
}
SECTION(fixed1, 1) { c.cases(800, [&] { one<1>(c); }); }
SECTION(fixed2, 1) { c.cases(800, [&] { one<2>(c); }); }
SECTION(fixed3, 1) { c.cases(800, [&] { one<3>(c); }); }
SECTION(fixed7, 1) { c.cases(800, [&] { one<7>(c); }); }
SECTION(dynamic, 2) { c.cases(1600, [&] { one<Eigen::Dynamic>(c); }); }
