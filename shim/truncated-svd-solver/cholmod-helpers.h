#pragma once
#include <cholmod.h>
namespace truncated_svd_solver {
template <class T> struct SelfFreeingCholmodPtr {
  SelfFreeingCholmodPtr(T* p, cholmod_common& c) : _p(p), _c(c) {} ~SelfFreeingCholmodPtr() { cholmod_l_free_sparse(&_p, &_c); }
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete; SelfFreeingCholmodPtr& operator=(const SelfFreeingCholmodPtr&) = delete;
  void reset(T* p = nullptr) { if (_p) cholmod_l_free_sparse(&_p, &_c); _p = p; } SelfFreeingCholmodPtr& operator=(T* p) { reset(p); return *this; } T** operator&() { return &_p; }
  operator T*() { return _p; } operator T*() const { return _p; } T* operator->() { return _p; } const T* operator->() const { return _p; } bool operator==(std::nullptr_t) const { return _p == nullptr; } bool operator!=(std::nullptr_t) const { return _p != nullptr; }
 private: T* _p; cholmod_common& _c;
};
}
