// Stand-in for sm_timing: nanoseconds since the epoch
#ifndef SHIM_SM_NSEC_HPP
#define SHIM_SM_NSEC_HPP
#include <stddef.h>
#include <cstdint>
namespace sm { namespace timing {
typedef int64_t NsecTime;
inline NsecTime secToNsec(double s) { const int64_t w = (int64_t)s; return w * 1000000000LL + (int64_t)((s - (double)w) * 1e9 + (s < 0 ? -0.5 : 0.5)); }
inline double nsecToSec(NsecTime t) { return (double)(t / 1000000000LL) + (double)(t % 1000000000LL) / 1e9; }
}}
#endif
