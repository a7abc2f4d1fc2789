#include "c41_heap.hpp"
#include <cstdlib>
#include <malloc.h>
#include <mutex>
#include <new>
namespace {
const size_t Step = 32, Classes = 64, Slots = 16; void* slot[Classes][Slots]; uint64_t state = 1; unsigned char fill = 0x5a; std::mutex lock;
uint64_t next() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
void* take(size_t n) {
  const size_t k = (n + Step - 1) / Step; if (k == 0 || k >= Classes) return std::malloc(n ? n : 1);
  std::lock_guard<std::mutex> g(lock); void*& s = slot[k][next() % Slots]; void* p = s; s = std::malloc(k * Step); if (!p) p = std::malloc(k * Step); if (p) for (size_t i = 0; i < k * Step; ++i) static_cast<unsigned char*>(p)[i] = fill; return p;
}
}
namespace heap { void shuffle(uint64_t seed) { { std::lock_guard<std::mutex> g(lock); state = seed | 1; for (int i = 0; i < 20; ++i) next(); fill = (unsigned char)next(); } mallopt(M_PERTURB, 1 + (int)(seed % 254)); } }
void* operator new(size_t n) { if (void* p = take(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = take(n)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
