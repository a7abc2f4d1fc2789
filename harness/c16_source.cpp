#include "c16_source.hpp"
namespace src { std::vector<long> script; unsigned long long state = 1; long calls = 0, limit = 200000000; }
extern "C" long random() noexcept {
  using namespace src;
  if (++calls > limit) { fprintf(stderr, "Assertion: a draw consumed %ld source values without finishing\n", calls); _exit(71); }
  if (!script.empty()) { long v = script.back(); script.pop_back(); return v; }
  state += 0x9e3779b97f4a7c15ULL; unsigned long long x = state;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; x ^= x >> 31;
  return (long)(x >> 33);
}
extern "C" void srandom(unsigned s) noexcept { src::state = s; }
