// The random source under the library's samplers, replaced by a scripted one.
#ifndef VERIF_SOURCE_HPP
#define VERIF_SOURCE_HPP
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <unistd.h>
namespace src {
extern std::vector<long> script;      // served first
extern unsigned long long state;      // then a splitmix64 stream
extern long calls, limit;
inline void reset(unsigned long long s) { script.clear(); state = s; calls = 0; }
}
#endif
