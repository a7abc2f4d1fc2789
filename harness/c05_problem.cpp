// C05, C06: an optimization problem against a list-of-lists model; save and restore of its variables
#include "core.hpp"
using namespace core;
namespace {
struct Model {
  std::vector<size_t> order; std::map<size_t, std::vector<VecSP>> groups; std::vector<TermSP> terms; std::map<Vec*, std::pair<VecSP, Eigen::VectorXd>> saved;
  bool has(Vec* v) const { for (auto& g : groups) for (auto& d : g.second) if (d.get() == v) return true; return false; }
  bool has(const TermSP& t) const { return std::find(terms.begin(), terms.end(), t) != terms.end(); }
};
void compare(mon::Ctx& c, Batch& p, const Model& m, const std::vector<VecSP>& pool, const std::vector<TermSP>& terms, const char* after) {
  const Batch& q = p; std::vector<VecSP> flat; for (size_t g : m.order) for (auto& d : m.groups.at(g)) flat.push_back(d);
  // a few single queries in any order: what the sweep below asks first must not hide what it asks later
  auto& r = c.rng;
  for (int n = (int)r.below(5); n-- > 0;) {
    const size_t g = r.below(6), i = r.below(m.terms.size() + 1), j = r.below(flat.size() + 1); auto& d = r.pick(pool);
    switch (r.below(6)) {
      case 0: case 1: if (i < m.terms.size()) { const ET* got = 0; std::string k = kind([&] { got = r.coin() ? p.errorTerm(i) : q.errorTerm(i); }); c.check(k.empty() && got == m.terms[i].get(), "term-order", "after %s, asked alone: index %zu %s", after, i, k.c_str()); } break;
      case 2: if (j < flat.size()) { const DV* got = 0; std::string k = kind([&] { got = r.coin() ? p.designVariable(j) : q.designVariable(j); }); c.check(k.empty() && got == flat[j].get(), "flat-index", "after %s, asked alone: index %zu %s", after, j, k.c_str()); } break;
      case 3: { size_t dim = 0, got = 0; auto it = m.groups.find(g); if (it != m.groups.end()) { for (auto& v : it->second) if (v->isActive()) dim += v->getValue().size(); std::string k = kind([&] { got = q.getGroupDim(g); }); c.check(k.empty() && got == dim, "group-dimension", "after %s, asked alone: group %zu has %zu want %zu", after, g, got, dim); } else c.check(!q.isGroupInProblem(g), "group-membership", "after %s, asked alone: group %zu", after, g); break; }
      case 4: c.check(q.isDesignVariableInProblem(d.get()) == m.has(d.get()), "variable-membership", "after %s, asked alone", after); break;
      default: c.check(q.numErrorTerms() == m.terms.size() && q.numDesignVariables() == flat.size() && q.getNumGroups() == m.order.size(), "number-of-terms", "after %s, asked alone", after);
    }
  }
  if (r.coin(0.4)) { c.count("operations in a row without a full look"); return; }
  c.check(q.getGroupsOrdering() == m.order, "groups-ordering", "after %s", after);
  c.check(q.getNumGroups() == m.order.size() && q.getDesignVariablesGroups().size() == m.order.size(), "number-of-groups", "after %s: %zu want %zu", after, q.getNumGroups(), m.order.size());
  if (c.check(q.numDesignVariables() == flat.size(), "number-of-variables", "after %s: %zu want %zu", after, q.numDesignVariables(), flat.size()))
    for (size_t i = 0; i < flat.size(); ++i) c.check(p.designVariable(i) == flat[i].get() && q.designVariable(i) == flat[i].get(), "flat-index", "after %s: index %zu", after, i);
  for (size_t g = 0; g < 6; ++g) {
    const bool in = m.groups.count(g); c.check(q.isGroupInProblem(g) == in, "group-membership", "after %s: group %zu", after, g);
    if (!in) { c.check(kind([&] { q.getDesignVariablesGroup(g); }) == "bound" && kind([&] { q.getGroupDim(g); }) == "bound", "unknown-group-accepted", "after %s: group %zu", after, g); continue; }
    if (!q.isGroupInProblem(g)) continue;
    c.check(q.getDesignVariablesGroup(g).size() == m.groups.at(g).size() && std::equal(m.groups.at(g).begin(), m.groups.at(g).end(), q.getDesignVariablesGroup(g).begin()), "group-content", "after %s: group %zu", after, g);
    size_t dim = 0; for (auto& d : m.groups.at(g)) if (d->isActive()) dim += d->getValue().size();
    c.check(q.getGroupDim(g) == dim, "group-dimension", "after %s: group %zu has %zu want %zu", after, g, q.getGroupDim(g), dim);
  }
  for (auto& d : pool) {
    const bool in = m.has(d.get()); c.check(q.isDesignVariableInProblem(d.get()) == in, "variable-membership", "after %s", after);
    if (in != q.isDesignVariableInProblem(d.get())) continue;
    if (!in) { c.check(kind([&] { q.getGroupId(d.get()); }) == "operation", "group-of-unknown-variable", "after %s", after); continue; }
    size_t want = 99; for (auto& g : m.groups) if (std::find(g.second.begin(), g.second.end(), d) != g.second.end()) want = g.first;
    c.check(q.getGroupId(d.get()) == want, "group-of-variable", "after %s: %zu want %zu", after, q.getGroupId(d.get()), want);
  }
  if (c.check(q.numErrorTerms() == m.terms.size() && q.getErrorTerms().size() == m.terms.size(), "number-of-terms", "after %s: %zu want %zu", after, q.numErrorTerms(), m.terms.size()))
    for (size_t i = 0; i < m.terms.size(); ++i) c.check(p.errorTerm(i) == m.terms[i].get() && q.errorTerm(i) == m.terms[i].get() && q.getErrorTerms()[i] == m.terms[i], "term-order", "after %s: index %zu", after, i);
  for (auto& t : terms) c.check(q.isErrorTermInProblem(t.get()) == m.has(t), "term-membership", "after %s", after);
  for (auto& d : pool) {
    std::set<ET*> got, want; for (auto& t : m.terms) { auto& dv = t->designVariables(); if (std::find(dv.begin(), dv.end(), d.get()) != dv.end()) want.insert(t.get()); }
    p.getErrors(d.get(), got); c.check(got == want, "terms-of-variable", "after %s: %zu want %zu", after, got.size(), want.size());
  }
  size_t bi = badIndex(c.rng, flat.size()); if (bi >= flat.size()) c.check(kind([&] { p.designVariable(bi); }) == "bound" && kind([&] { q.designVariable(bi); }) == "bound", "index-outside-accepted", "variable %zu of %zu", bi, flat.size());
  bi = badIndex(c.rng, m.terms.size()); if (bi >= m.terms.size()) c.check(kind([&] { p.errorTerm(bi); }) == "bound" && kind([&] { q.errorTerm(bi); }) == "bound", "index-outside-accepted", "term %zu of %zu", bi, m.terms.size());
}
/// focus: weight of save/restore operations
void one(mon::Ctx& c, bool backup) {
  auto& r = c.rng; std::vector<VecSP> pool; std::vector<TermSP> terms; boost::shared_ptr<Batch> pp = boost::make_shared<Batch>(); Batch& p = *pp; Model m; std::string h; uint64_t hash = 0;
  for (int i = 0, n = 3 + (int)r.below(8); i < n; ++i) { pool.push_back(boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(4)))); pool.back()->setActive(r.coin(0.8)); }
  for (int i = 0; i < 8; ++i) { std::vector<VecSP> v; for (int k = 0, n = (int)r.below(4); k < n; ++k) v.push_back(r.pick(pool)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); terms.push_back(randTerm(r, v)); }
  std::map<Vec*, Eigen::VectorXd> val; for (auto& d : pool) val[d.get()] = d->getValue();
  for (int step = 0, N = 8 + (int)r.below(backup ? 40 : 30); step < N; ++step) {
    const int op = backup && r.coin(0.6) ? 10 + (int)r.below(6) : (int)r.below(10); std::string what;
    switch (op) {
      case 0: case 1: case 2: { VecSP d = r.pick(pool); const size_t g = r.coin(0.1) ? 5 : r.below(4); const bool in = m.has(d.get()); what = in ? "adding a variable again" : "adding a variable";
        const bool def = g == 0 && r.coin(); const std::string k = kind([&] { if (def) p.addDesignVariable(d); else p.addDesignVariable(d, g); }); c.check(k == (in ? "operation" : ""), in ? "variable-twice-accepted" : "variable-refused", "%s", k.c_str());
        if (!in) { if (!m.groups.count(g)) m.order.push_back(g); m.groups[g].push_back(d); } break; }
      case 3: case 4: case 5: { TermSP t = r.pick(terms); bool ok = !m.has(t); for (auto* d : t->designVariables()) if (!m.has(static_cast<Vec*>(d))) ok = false; what = ok ? "adding a term" : "adding an unacceptable term";
        const std::string k = kind([&] { p.addErrorTerm(t); }); c.check(k == (ok ? "" : "operation"), ok ? "term-refused" : "term-accepted", "%s", k.c_str()); if (ok) m.terms.push_back(t); c.count(ok ? "terms added" : "terms refused"); break; }
      case 6: { bool ok; auto pm = permutation(r, m.terms.size(), ok); what = ok ? "permuting the terms" : "permuting the terms wrongly"; const bool t = mon::throwsAny([&] { p.permuteErrorTerms(pm); }); c.check(t == !ok, ok ? "permutation-refused" : "wrong-permutation-accepted", "terms"); if (ok) m.terms = permuted(m.terms, pm); break; }
      case 7: { const size_t g = r.below(6); bool ok; auto pm = permutation(r, m.groups.count(g) ? m.groups[g].size() : 2, ok); if (!m.groups.count(g)) { m.groups.erase(g); ok = false; } what = ok ? "permuting a group" : "permuting a group wrongly"; const bool t = mon::throwsAny([&] { p.permuteDesignVariables(pm, g); }); c.check(t == !ok, ok ? "permutation-refused" : "wrong-permutation-accepted", "group %zu", g); if (ok) m.groups[g] = permuted(m.groups[g], pm); break; }
      case 8: { std::vector<size_t> o = m.order; r.shuffle(o); bool ok = true; if (r.coin(0.4)) switch (r.below(4)) { case 0: o.push_back(r.below(5)); ok = false; break; case 1: if (!o.empty()) { o.pop_back(); ok = false; } break; case 2: if (o.size() > 1) { o[0] = o[1]; ok = false; } break; default: if (!o.empty()) { o[r.below(o.size())] = 17; ok = false; } }
        what = ok ? "ordering the groups" : "ordering the groups wrongly"; const std::string k = kind([&] { p.setGroupsOrdering(o); }); c.check(k == (ok ? "" : "bound"), ok ? "ordering-refused" : "wrong-ordering-accepted", "%s", k.c_str()); if (ok) m.order = o; break; }
      case 9: if (r.coin(0.3)) { what = "clearing"; p.clear(); m = Model(); }
        else if (r.coin(0.4)) { what = "adding nothing"; c.check(kind([&] { p.addDesignVariable(VecSP(), 0); }) == "null" && kind([&] { p.addErrorTerm(TermSP()); }) == "null", "null-accepted", "null"); }
        else { VecSP d = r.pick(pool); d->setActive(!d->isActive()); what = "switching a variable"; } break;
      case 10: { what = "saving"; p.saveDesignVariables(); for (auto& g : m.groups) for (auto& d : g.second) m.saved[d.get()] = {d, d->getValue()}; c.count("saves"); break; }
      case 11: { what = "restoring"; p.restoreDesignVariables(); for (auto& s : m.saved) val[s.first] = s.second.second; c.count("restores"); if (!m.saved.empty()) c.count("restores of something"); break; }
      case 12: { VecSP d = r.pick(pool); const Eigen::VectorXd s = randVec(r, d->getValue().size()); what = "updating"; static_cast<DV&>(*d).update(s.data(), (int)s.size()); val[d.get()] = val[d.get()] + s; break; }
      case 13: { VecSP d = r.pick(pool); const Eigen::VectorXd s = randVec(r, d->getValue().size(), 1e3); what = "update and revert"; const Eigen::VectorXd b = d->getValue(); d->update(s.data(), (int)s.size()); d->revertUpdate(); c.check(same(b, d->getValue()), "revert", "not the value before"); break; }
      case 14: { VecSP d = r.pick(pool); const Eigen::VectorXd s = randVec(r, d->getValue().size(), 10); what = "writing"; d->setValue(s); val[d.get()] = s; break; }
      default: { // a variable nobody else holds goes away
        if (m.order.empty() && m.saved.empty() && !pool.empty()) { what = "replacing a free variable"; terms.clear(); for (auto& d : pool) { val.erase(d.get()); d = boost::make_shared<Vec>(randVec(r, d->getValue().size())); val[d.get()] = d->getValue(); } for (int i = 0; i < 8; ++i) { std::vector<VecSP> v; if (r.coin(0.7)) v.push_back(r.pick(pool)); terms.push_back(randTerm(r, v)); } } else what = "nothing"; }
    }
    h += what + "; "; c.note("%s", h.c_str()); hash = mon::hcomb(hash, mon::hashStr(what)); c.count("operations");
    if (!backup) compare(c, p, m, pool, terms, what.c_str());
    for (auto& d : pool) if (!c.check(same(d->getValue(), val[d.get()]), backup ? "variable-value" : "variable-touched", "a variable %s the problem after %s", m.has(d.get()) ? "in" : "outside", what.c_str())) break;
  }
  c.seen(hash); c.sample(h.substr(0, 200));
}
}
#if PART == 5
SECTION(problem, 8) { c.cases(6000, [&] { one(c, false); }); }
#else
SECTION(problem, 4) { c.cases(4000, [&] { one(c, true); }); }
#endif
