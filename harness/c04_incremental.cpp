// C04, C06: the incremental problem against a list of batches
#include "core.hpp"
using namespace core;
namespace {
typedef IncrementalOptimizationProblem Inc;
struct B { BatchSP sp; std::vector<std::pair<VecSP, size_t>> vars; std::vector<TermSP> terms; };
/// a batch over some variables, each in its group; own terms, possibly one of another batch
B makeBatch(mon::Rng& r, const std::vector<std::pair<VecSP, size_t>>& pool, const std::vector<TermSP>& other, bool mismatch, size_t maxTerms) {
  B b; b.sp = boost::make_shared<Batch>(); std::vector<std::pair<VecSP, size_t>> v = pool; r.shuffle(v); v.resize(r.below(std::min<size_t>(v.size(), 6) + 1));
  if (mismatch && !v.empty()) { auto& w = v[r.below(v.size())]; w.second = w.second + 1 + r.below(2); }
  for (auto& d : v) b.sp->addDesignVariable(d.first, d.second);
  if (r.coin(0.3) && b.sp->getNumGroups() > 1) { auto o = b.sp->getGroupsOrdering(); r.shuffle(o); b.sp->setGroupsOrdering(o); }
  for (size_t i = 0, n = r.below(maxTerms + 1); i < n; ++i) { std::vector<VecSP> t; for (auto& d : v) if (r.coin(0.4) && t.size() < 3) t.push_back(d.first); b.terms.push_back(randTerm(r, t)); }
  for (auto& t : other) { bool ok = true; for (auto* d : t->designVariables()) if (!b.sp->isDesignVariableInProblem(d)) ok = false; if (ok && r.coin(0.5)) { b.terms.push_back(t); break; } }
  r.shuffle(b.terms); for (auto& t : b.terms) b.sp->addErrorTerm(t);
  for (size_t i = 0; i < b.sp->numDesignVariables(); ++i) { DV* d = b.sp->designVariable(i); for (auto& x : v) if (x.first.get() == d) b.vars.push_back(x); }
  return b;
}
struct Model {
  std::vector<B> held; std::vector<size_t> order; std::map<size_t, std::vector<Vec*>> groups; std::map<Vec*, size_t> count, group; std::map<Vec*, Eigen::VectorXd> saved; std::set<Vec*> doubtful;
  std::string refuse(const B& b) const {
    for (auto& v : b.vars) { auto it = group.find(v.first.get()); if (it != group.end() && it->second != v.second) return "operation"; }
    for (auto& t : b.terms) for (auto& h : held) if (std::find(h.terms.begin(), h.terms.end(), t) != h.terms.end()) return "operation";
    return "";
  }
  void add(const B& b) { for (auto& v : b.vars) { Vec* d = v.first.get(); if (!groups.count(v.second)) order.push_back(v.second); auto& g = groups[v.second]; if (!count[d]++) { g.push_back(d); group[d] = v.second; } } held.push_back(b); }
  void remove(size_t i) {
    for (auto& v : held[i].vars) { Vec* d = v.first.get(); if (--count[d] == 0) { count.erase(d); group.erase(d); auto& g = groups[v.second]; g.erase(std::find(g.begin(), g.end(), d)); if (g.empty()) { groups.erase(v.second); order.erase(std::find(order.begin(), order.end(), v.second)); } if (saved.count(d)) { saved.erase(d); doubtful.insert(d); } } }
    held.erase(held.begin() + i);
  }
  void clear() { for (auto& s : saved) doubtful.insert(s.first); saved.clear(); held.clear(); order.clear(); groups.clear(); count.clear(); group.clear(); }
};
void compare(mon::Ctx& c, Inc& p, const Model& m, const std::vector<std::pair<VecSP, size_t>>& pool, const std::vector<B>& batches, const char* after) {
  const Inc& q = p; std::vector<Vec*> flat; for (size_t g : m.order) for (Vec* d : m.groups.at(g)) flat.push_back(d);
  // a few single queries in any order: what the sweep below asks first must not hide what it asks later
  auto& r = c.rng; std::vector<ET*> ts; for (auto& b : m.held) for (auto& t : b.terms) ts.push_back(t.get());
  for (int n = (int)r.below(5); n-- > 0;) {
    const size_t g = r.below(7); auto& d = r.pick(pool).first; const size_t i = r.below(ts.size() + 1), j = r.below(flat.size() + 1), b = r.below(m.held.size() + 1);
    switch (r.below(8)) {
      case 0: case 1: case 2: if (i < ts.size()) { ET* got = 0; std::string k = kind([&] { got = r.coin() ? p.errorTerm(i) : const_cast<ET*>(q.errorTerm(i)); }); c.check(k.empty() && got == ts[i], "term-order", "after %s, asked alone: index %zu %s", after, i, k.c_str()); } break;
      case 3: if (j < flat.size()) { const DV* got = 0; std::string k = kind([&] { got = r.coin() ? p.designVariable(j) : q.designVariable(j); }); c.check(k.empty() && got == flat[j], "flat-index", "after %s, asked alone: index %zu %s", after, j, k.c_str()); } break;
      case 4: { size_t dim = 0, got = 0; auto it = m.groups.find(g); if (it != m.groups.end()) { for (Vec* v : it->second) if (v->isActive()) dim += v->getValue().size(); std::string k = kind([&] { got = q.getGroupDim(g); }); c.check(k.empty() && got == dim, "group-dimension", "after %s, asked alone: group %zu has %zu want %zu", after, g, got, dim); } else c.check(!q.isGroupInProblem(g), "group-membership", "after %s, asked alone: group %zu", after, g); break; }
      case 5: c.check(q.isDesignVariableInProblem(d.get()) == (m.count.count(d.get()) > 0), "variable-membership", "after %s, asked alone", after); break;
      case 6: if (b < m.held.size()) c.check(q.getOptimizationProblem(b) == m.held[b].sp.get() && q.getErrorTerms(b) == m.held[b].terms, "batch-order", "after %s, asked alone: index %zu", after, b); break;
      default: c.check(q.numErrorTerms() == ts.size() && q.numDesignVariables() == flat.size() && q.getNumGroups() == m.groups.size(), "number-of-terms", "after %s, asked alone", after);
    }
  }
  if (r.coin(0.4)) { c.count("operations in a row without a full look"); return; }
  c.check(q.getGroupsOrdering() == m.order, "groups-ordering", "after %s: %zu groups want %zu", after, q.getGroupsOrdering().size(), m.order.size());
  c.check(q.getNumGroups() == m.groups.size() && q.getDesignVariablesGroups().size() == m.groups.size(), "number-of-groups", "after %s: %zu want %zu", after, q.getNumGroups(), m.groups.size());
  if (c.check(q.numDesignVariables() == flat.size(), "number-of-variables", "after %s: %zu want %zu", after, q.numDesignVariables(), flat.size()) && q.getGroupsOrdering() == m.order)
    for (size_t i = 0; i < flat.size(); ++i) { DV* got = 0; std::string k = kind([&] { got = p.designVariable(i); }); c.check(k.empty() && got == flat[i] && q.designVariable(i) == flat[i], "flat-index", "after %s: index %zu %s", after, i, k.c_str()); }
  for (size_t g = 0; g < 7; ++g) {
    const bool in = m.groups.count(g); c.check(q.isGroupInProblem(g) == in, "group-membership", "after %s: group %zu", after, g);
    if (!in || !q.isGroupInProblem(g)) { if (!in) c.check(kind([&] { q.getDesignVariablesGroup(g); }) == "bound" && kind([&] { q.getGroupDim(g); }) == "bound", "unknown-group-accepted", "after %s: group %zu", after, g); continue; }
    auto& got = q.getDesignVariablesGroup(g); c.check(got.size() == m.groups.at(g).size() && std::equal(got.begin(), got.end(), m.groups.at(g).begin(), [](const DV* a, Vec* b) { return a == b; }), "group-content", "after %s: group %zu", after, g);
    size_t dim = 0; for (Vec* d : m.groups.at(g)) if (d->isActive()) dim += d->getValue().size(); c.check(q.getGroupDim(g) == dim, "group-dimension", "after %s: group %zu has %zu want %zu", after, g, q.getGroupDim(g), dim);
  }
  for (auto& d : pool) {
    const bool in = m.count.count(d.first.get()); c.check(q.isDesignVariableInProblem(d.first.get()) == in, "variable-membership", "after %s", after);
    if (in != q.isDesignVariableInProblem(d.first.get())) continue;
    if (!in) c.check(kind([&] { q.getGroupId(d.first.get()); }) == "operation", "group-of-unknown-variable", "after %s", after); else c.check(q.getGroupId(d.first.get()) == m.group.at(d.first.get()), "group-of-variable", "after %s", after);
  }
  if (c.check(q.numErrorTerms() == ts.size(), "number-of-terms", "after %s: %zu want %zu", after, q.numErrorTerms(), ts.size())) for (size_t i = 0; i < ts.size(); ++i) c.check(p.errorTerm(i) == ts[i] && q.errorTerm(i) == ts[i], "term-order", "after %s: index %zu", after, i);
  if (c.check(q.getNumOptimizationProblems() == m.held.size() && q.getOptimizationProblems().size() == m.held.size(), "number-of-batches", "after %s", after))
    for (size_t i = 0; i < m.held.size(); ++i) {
      c.check(p.getOptimizationProblem(i) == m.held[i].sp.get() && q.getOptimizationProblem(i) == m.held[i].sp.get() && q.getOptimizationProblems()[i] == m.held[i].sp, "batch-order", "after %s: index %zu", after, i);
      c.check(p.getOptimizationProblem(p.getOptimizationProblemBegin() + i) == m.held[i].sp.get() && p.getOptimizationProblemBegin() + m.held.size() == p.getOptimizationProblemEnd(), "batch-iterators", "after %s: index %zu", after, i);
      c.check(q.getErrorTerms(i) == m.held[i].terms, "terms-of-batch", "after %s: index %zu", after, i);
    }
  for (auto& b : batches) {
    size_t at = m.held.size(); for (size_t i = m.held.size(); i-- > 0;) if (m.held[i].sp == b.sp) at = i;
    c.check((size_t)std::distance(p.getOptimizationProblemBegin(), p.getOptimizationProblem(b.sp)) == at, "lookup-of-batch", "after %s", after);
    for (auto& t : b.terms) { const bool in = std::find(ts.begin(), ts.end(), t.get()) != ts.end(); c.check(q.isErrorTermInProblem(t.get()) == in, "term-membership", "after %s", after); }
  }
  size_t k = badIndex(r, flat.size()); if (k >= flat.size()) c.check(kind([&] { p.designVariable(k); }) == "bound" && kind([&] { q.designVariable(k); }) == "bound", "index-outside-accepted", "variable %zu of %zu", k, flat.size());
  k = badIndex(r, ts.size()); if (k >= ts.size()) c.check(kind([&] { p.errorTerm(k); }) == "bound" && kind([&] { q.errorTerm(k); }) == "bound", "index-outside-accepted", "term %zu of %zu", k, ts.size());
  c.check(kind([&] { p.getOptimizationProblem(p.getOptimizationProblemEnd()); }) == "bound", "end-accepted", "a batch behind the last of %zu", m.held.size());
  k = badIndex(r, m.held.size()); if (k >= m.held.size()) { c.check(kind([&] { p.getOptimizationProblem(k); }) == "bound" && kind([&] { q.getOptimizationProblem(k); }) == "bound", "index-outside-accepted", "batch %zu of %zu", k, m.held.size()); c.check(kind([&] { q.getErrorTerms(k); }) == "bound", "index-outside-accepted", "terms of batch %zu of %zu", k, m.held.size()); }
}
void one(mon::Ctx& c, bool backup) {
  auto& r = c.rng; std::vector<std::pair<VecSP, size_t>> pool; boost::shared_ptr<Inc> pp = boost::make_shared<Inc>(); Inc& p = *pp; Model m; std::vector<B> batches; std::string h; uint64_t hash = 0;
  const int groups = 1 + (int)r.below(4);
  for (int i = 0, n = 2 + (int)r.below(9); i < n; ++i) { pool.push_back({boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(4))), r.below(groups)}); pool.back().first->setActive(r.coin(0.8)); }
  std::map<Vec*, Eigen::VectorXd> val; for (auto& d : pool) val[d.first.get()] = d.first->getValue();
  auto anyBatch = [&] { return batches.empty() ? B() : r.pick(batches); };
  for (int step = 0, N = 8 + (int)r.below(backup ? 40 : 30); step < N; ++step) {
    const int op = backup && r.coin(0.55) ? 11 + (int)r.below(5) : (int)r.below(11); std::string what;
    switch (op) {
      case 0: case 1: case 2: case 3: { B b; if (r.coin(0.2) && !batches.empty()) b = anyBatch(); else { std::vector<TermSP> other; if (r.coin(0.25) && !batches.empty()) other = anyBatch().terms; b = makeBatch(r, pool, other, r.coin(0.15), 3); batches.push_back(b); }
        const std::string want = m.refuse(b), got = kind([&] { p.add(b.sp); }); what = want.empty() ? "adding a batch" : "adding an unacceptable batch"; c.check(got == want, want.empty() ? "batch-refused" : "batch-accepted", "%s", got.c_str()); if (want.empty()) m.add(b); c.count(want.empty() ? "batches added" : "batches refused"); break; }
      case 4: { const size_t i = m.held.empty() || r.coin(0.15) ? badIndex(r, m.held.size()) : r.below(m.held.size()); const bool ok = i < m.held.size(); what = ok ? "removing by index" : "removing by a bad index"; const std::string got = kind([&] { p.remove(i); }); c.check(got == (ok ? "" : "bound"), ok ? "removal-refused" : "bad-removal-accepted", "%zu of %zu: %s", i, m.held.size(), got.c_str()); if (ok) m.remove(i); break; }
      case 5: { B b = anyBatch(); size_t at = m.held.size(); for (size_t i = m.held.size(); i-- > 0;) if (m.held[i].sp == b.sp) at = i; const bool ok = at < m.held.size(); what = ok ? "removing a batch" : "removing an unknown batch"; const std::string got = kind([&] { p.remove(b.sp); }); c.check(got == (ok ? "" : "operation"), ok ? "removal-refused" : "bad-removal-accepted", "%s", got.c_str()); if (ok) m.remove(at); break; }
      case 6: { const size_t i = r.below(m.held.size() + 1); const bool ok = i < m.held.size(); what = ok ? "removing by iterator" : "removing the end"; const std::string got = kind([&] { p.remove(p.getOptimizationProblemBegin() + i); }); c.check(got == (ok ? "" : "bound"), ok ? "removal-refused" : "bad-removal-accepted", "%s", got.c_str()); if (ok) m.remove(i); break; }
      case 7: { bool ok; auto pm = permutation(r, m.held.size(), ok); what = ok ? "permuting the batches" : "permuting the batches wrongly"; const bool t = mon::throwsAny([&] { p.permuteOptimizationProblems(pm); }); c.check(t == !ok, ok ? "permutation-refused" : "wrong-permutation-accepted", "batches"); if (ok) m.held = permuted(m.held, pm); break; }
      case 8: { const size_t g = r.below(5); bool ok; auto it = m.groups.find(g); auto pm = permutation(r, it != m.groups.end() ? it->second.size() : 2, ok); if (it == m.groups.end()) ok = false; what = ok ? "permuting a group" : "permuting a group wrongly"; const bool t = mon::throwsAny([&] { p.permuteDesignVariables(pm, g); }); c.check(t == !ok, ok ? "permutation-refused" : "wrong-permutation-accepted", "group %zu", g); if (ok) it->second = permuted(it->second, pm); break; }
      case 9: { std::vector<size_t> o = m.order; r.shuffle(o); bool ok = true; if (r.coin(0.4)) switch (r.below(4)) { case 0: o.push_back(r.below(5)); ok = false; break; case 1: if (!o.empty()) { o.pop_back(); ok = false; } break; case 2: if (o.size() > 1) { o[0] = o[1]; ok = false; } break; default: if (!o.empty()) { o[r.below(o.size())] = 17; ok = false; } }
        what = ok ? "ordering the groups" : "ordering the groups wrongly"; const std::string k = kind([&] { p.setGroupsOrdering(o); }); c.check(k == (ok ? "" : "bound"), ok ? "ordering-refused" : "wrong-ordering-accepted", "%s", k.c_str()); if (ok) m.order = o; break; }
      case 10: if (r.coin(backup ? 0.5 : 0.15)) { what = "clearing"; p.clear(); m.clear(); if (r.coin()) { what = "clearing and destroying"; batches.clear(); val.clear(); m.doubtful.clear(); for (auto& d : pool) { const bool a = d.first->isActive(); d.first = boost::make_shared<Vec>(randVec(r, d.first->getValue().size())); d.first->setActive(a); val[d.first.get()] = d.first->getValue(); } } }
        else if (r.coin(0.3)) { what = "adding nothing"; c.check(kind([&] { p.add(BatchSP()); }) == "null", "null-accepted", "null batch"); c.check(kind([&] { p.remove(BatchSP()); }) == "operation", "bad-removal-accepted", "null batch"); }
        else if (r.coin(0.4)) { what = "destroying what is not held"; std::vector<B> keep; for (auto& b : batches) { bool in = false; for (auto& x : m.held) in |= x.sp == b.sp; if (in) keep.push_back(b); } batches.swap(keep); keep.clear(); for (auto& d : pool) if (!m.count.count(d.first.get()) && d.first.use_count() == 1) { val.erase(d.first.get()); m.doubtful.erase(d.first.get()); const bool a = d.first->isActive(); d.first.reset(); d.first = boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(4))); d.first->setActive(a); val[d.first.get()] = d.first->getValue(); c.count("variables destroyed"); } }
        else { auto& d = pool[r.below(pool.size())]; d.first->setActive(!d.first->isActive()); what = "switching a variable"; } break;
      case 11: { what = "saving"; p.saveDesignVariables(); m.doubtful.clear(); for (auto& d : m.count) m.saved[d.first] = d.first->getValue(); c.count("saves"); break; }
      case 12: { what = "restoring"; p.restoreDesignVariables(); for (auto& s : m.saved) val[s.first] = s.second; c.count("restores"); if (!m.saved.empty()) c.count("restores of something");
        break; }
      case 13: { VecSP d = r.pick(pool).first; const Eigen::VectorXd s = randVec(r, d->getValue().size()); what = "updating"; static_cast<DV&>(*d).update(s.data(), (int)s.size()); val[d.get()] = val[d.get()] + s; break; }
      case 14: { VecSP d = r.pick(pool).first; const Eigen::VectorXd s = randVec(r, d->getValue().size(), 1e3); what = "update and revert"; const Eigen::VectorXd b = d->getValue(); d->update(s.data(), (int)s.size()); d->revertUpdate(); c.check(same(b, d->getValue()), "revert", "not the value before"); break; }
      default: { VecSP d = r.pick(pool).first; const Eigen::VectorXd s = randVec(r, d->getValue().size(), 10); what = "writing"; d->setValue(s); val[d.get()] = s; break; }
    }
    h += what + "; "; c.note("%s", h.c_str()); hash = mon::hcomb(hash, mon::hashStr(what)); c.count("operations");
    if (!backup) compare(c, p, m, pool, batches, what.c_str());
    for (auto& d : pool) {
      Vec* v = d.first.get(); if (same(v->getValue(), val[v])) continue;
      // removed and added again between save and restore: the saved value may come back
      if (what == "restoring" && m.count.count(v) && m.doubtful.count(v)) { val[v] = v->getValue(); continue; }
      if (!c.check(false, "variable-value", "a variable %s the problem after %s", m.count.count(v) ? "in" : "outside", what.c_str())) break;
    }
  }
  c.seen(hash); c.sample(h.substr(0, 200));
}
}
#if PART == 4
SECTION(incremental, 8) { c.cases(4000, [&] { one(c, false); }); }
#else
SECTION(incremental, 6) { c.cases(4000, [&] { one(c, true); }); }
#endif
