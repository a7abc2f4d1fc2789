// Stand-in for the few parts of CHOLMOD used by the solver adapter.
#pragma once
#include <cstddef>
#include <vector>
struct cholmod_common { long live = 0; };
namespace shim { inline int& failingTransposes() { static thread_local int n = 0; return n; } } // how many of the next transpositions run out of memory
struct cholmod_sparse { size_t nrow = 0, ncol = 0, nzmax = 0; void *p = nullptr, *i = nullptr, *x = nullptr; bool owned = false; };
struct cholmod_dense { size_t nrow = 0, ncol = 0; double* x = nullptr; };
inline cholmod_sparse* cholmod_l_transpose(const cholmod_sparse* a, int values, cholmod_common* c) {
  if (shim::failingTransposes() > 0) { --shim::failingTransposes(); return nullptr; }
  typedef std::ptrdiff_t I; const I* p = (const I*)a->p; const I* i = (const I*)a->i; const double* x = (const double*)a->x; const size_t n = p[a->ncol];
  cholmod_sparse* t = new cholmod_sparse; t->nrow = a->ncol; t->ncol = a->nrow; t->nzmax = n; t->owned = true;
  I* tp = new I[a->nrow + 1](); I* ti = new I[n + 1]; double* tx = new double[n + 1];
  for (size_t k = 0; k < n; ++k) ++tp[i[k] + 1];
  for (size_t r = 0; r < a->nrow; ++r) tp[r + 1] += tp[r];
  std::vector<I> at(tp, tp + a->nrow);
  for (size_t col = 0; col < a->ncol; ++col) for (I k = p[col]; k < p[col + 1]; ++k) { const I q = at[i[k]]++; ti[q] = (I)col; tx[q] = values ? x[k] : 0.0; }
  t->p = tp; t->i = ti; t->x = tx; ++c->live; return t;
}
inline int cholmod_l_free_sparse(cholmod_sparse** s, cholmod_common* c) {
  if (s && *s) { if ((*s)->owned) { delete[] (std::ptrdiff_t*)(*s)->p; delete[] (std::ptrdiff_t*)(*s)->i; delete[] (double*)(*s)->x; } delete *s; *s = nullptr; --c->live; }
  return 1;
}
