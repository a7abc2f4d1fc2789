#ifndef C22_COMMON_HPP
#define C22_COMMON_HPP
// Hostile values, and uses of results that make their definedness observable.
#include "monitor.hpp"
#include <Eigen/Core>
#include <climits>
#include <sstream>
#include <vector>
namespace hostile {
inline double real(mon::Rng& r) {
  static const double s[] = {0.0, -0.0, 1, -1, 0.5, 2, 1e-300, 5e-324, -5e-324, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, -INFINITY, NAN, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 1e19, -1e19, 2.2250738585072014e-308, 1e-16, 3.14159265358979323846, 1e15, -1e15};
  switch (r.below(6)) { case 0: case 1: return s[r.below(sizeof s / sizeof *s)]; case 2: return r.normal(); case 3: return r.signedLog(1e-12, 1e12); case 4: return (double)r.range(-20, 20); default: return r.uni(-1, 1); }
}
inline double tame(mon::Rng& r) { return r.coin(0.15) ? real(r) : r.coin() ? r.normal() : r.uni(0.01, 9); }
template <class T> T integer(mon::Rng& r) {
  switch (r.below(6)) { case 0: return std::numeric_limits<T>::max() - (T)r.below(3); case 1: return std::numeric_limits<T>::min() + (T)r.below(3); case 2: return (T)r.next(); case 3: return (T)(1ULL << r.below(sizeof(T) * 8)); default: return (T)r.range(std::numeric_limits<T>::is_signed ? -9 : 0, 9); }
}
/// a conversion that stays defined: out-of-range values end at the limits
template <class T> T to(double d) { if (!std::numeric_limits<T>::is_integer) return (T)d; if (!(d > (double)std::numeric_limits<T>::min())) return std::numeric_limits<T>::min(); if (d >= (double)std::numeric_limits<T>::max()) return std::numeric_limits<T>::max(); return (T)d; }
template <class T> T val(mon::Rng& r, std::true_type) { return integer<T>(r); }
template <class T> T val(mon::Rng& r, std::false_type) { return (T)real(r); }
template <class T> T value(mon::Rng& r) { return val<T>(r, std::is_integral<T>()); }
template <class T, int M> Eigen::Matrix<T, M, 1> vec(mon::Rng& r, int n = M) { Eigen::Matrix<T, M, 1> v(n); const bool mild = std::is_floating_point<T>::value && r.coin(); for (int i = 0; i < n; ++i) v(i) = mild ? (T)tame(r) : value<T>(r); return v; }
/// branch on every value: undefined ones are reported by valgrind
inline void use(mon::Ctx& c, double d) { if (d > 0) c.count("positive results"); else if (d != d) c.count("not-a-number results"); else c.count("other results"); }
template <class M> void useM(mon::Ctx& c, const M& m) { for (int i = 0; i < m.size(); ++i) use(c, (double)m.data()[i]); }
template <class T> void text(mon::Ctx& c, const T& x) { std::ostringstream s; s << x; long h = 0; for (char k : s.str()) h += k & 1; if (h) c.count("texts written"); }
/// a call: results and exceptions are both answers
template <class F> bool call(mon::Ctx& c, const char* what, F f) {
  c.noteAdd("%s ", what); c.check(true, what); try { f(); c.count("answers"); return true; } catch (const std::exception& e) { if (e.what()[0] == 1) c.count("odd"); c.count("refusals"); return false; } catch (...) { c.check(false, "call ended with something that is no std::exception", "%s", what); return false; }
}
}
#endif
