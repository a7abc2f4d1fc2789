// Stand-in for the clock translation of sm_timing: the time of reception, moved back by a little that depends on how the sender's clock has advanced
#ifndef SHIM_SM_TIMESTAMP_CORRECTOR_HPP
#define SHIM_SM_TIMESTAMP_CORRECTOR_HPP
#include <cmath>
namespace sm { namespace timing {
template <typename TIME_T> class TimestampCorrector { public: typedef TIME_T time_t; TimestampCorrector() : first_(0), any_(false) {}
  TIME_T correctTimestamp(const TIME_T& remote, const TIME_T& local) { if (!any_) { first_ = remote; any_ = true; } return local - (TIME_T)(std::fmod(std::fabs((double)(remote - first_)), 977.0)); }
 private: TIME_T first_; bool any_; };
}}
#endif
