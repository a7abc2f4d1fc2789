#pragma once
#include <sstream>
#include <stdexcept>
namespace shim { struct CheckFailed { bool ok; std::ostringstream s; ~CheckFailed() noexcept(false) { if (!ok) throw std::logic_error("CHECK failed: " + s.str()); } template <class T> CheckFailed& operator<<(const T& t) { s << t; return *this; } }; }
#define CHECK(x) shim::CheckFailed{static_cast<bool>(x), {}}
