// Independent reference formulas in extended precision.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <cmath>
#include <cxxabi.h>
#include <string>
#include <typeinfo>
#include <vector>
namespace ref {
typedef long double L;
const L PI = 3.14159265358979323846264338327950288L;

inline L lgam(L x) { int s; return ::lgammal_r(x, &s); }

/// digamma by upward recurrence and the asymptotic series (x > 0)
inline L digamma(L x) {
  L r = 0;
  while (x < 30) { r -= 1 / x; x += 1; }
  const L i = 1 / x, i2 = i * i;
  return r + std::log(x) - i / 2 - i2 * (1.0L / 12 - i2 * (1.0L / 120 - i2 * (1.0L / 252 - i2 * (1.0L / 240 -
    i2 * (1.0L / 132 - i2 * (691.0L / 32760 - i2 / 12))))));
}
/// log of x^a e^-x / Gamma(a+1), without cancellation for large a
inline L logPrefix(L a, L x) {
  if (a < 50) return a * std::log(x) - x - lgam(a + 1);
  // Stirling: lgamma(a+1) = a log a - a + 0.5 log(2 pi a) + 1/(12a) - 1/(360 a^3) + 1/(1260 a^5) - ...
  const L d = (x - a) / a, i = 1 / a, i2 = i * i;
  // a (log(x/a) + 1 - x/a) = a (log1p(d) - d)
  L t;
  if (std::fabs(d) < 0.1L) { // series of log1p(d) - d
    t = 0; L p = d; for (int k = 2; k < 60; ++k) { p *= -d; t += p / k; } 
  } else t = std::log1p(d) - d;
  return a * t - 0.5L * std::log(2 * PI * a) - i * (1.0L / 12 - i2 * (1.0L / 360 - i2 * (1.0L / 1260 - i2 / 1680)));
}
/// regularized incomplete gamma functions; P + Q = 1, the small one is accurate
inline void gammaPQ(L a, L x, L& P, L& Q) {
  if (x <= 0) { P = 0; Q = 1; return; }
  if (std::isinf((double)x)) { P = 1; Q = 0; return; }
  const L pre = logPrefix(a, x);
  if (x < a + 1) {
    L sum = 1, t = 1;
    for (long n = 1; n < 4000000; ++n) { t *= x / (a + n); sum += t; if (t < sum * 1e-21L) break; }
    P = std::exp(pre) * sum; if (P > 1) P = 1; Q = 1 - P;
  } else {
    // Q = x^a e^-x / Gamma(a) * CF; prefix has Gamma(a+1) = a Gamma(a)
    const L tiny = 1e-4000L; L b = x + 1 - a, c = 1 / tiny, d = 1 / b, h = d;
    for (long i = 1; i < 4000000; ++i) {
      const L an = -(L)i * (i - a); b += 2; d = an * d + b; if (std::fabs(d) < tiny) d = tiny;
      c = b + an / c; if (std::fabs(c) < tiny) c = tiny; d = 1 / d; const L del = d * c; h *= del;
      if (std::fabs(del - 1) < 1e-19L) break;
    }
    Q = std::exp(pre + std::log(a)) * h; if (Q > 1) Q = 1; P = 1 - Q;
  }
}
/// dense symmetric positive definite tools (row-major n x n)
struct Spd {
  int n; std::vector<L> a, l; bool ok; L logdet;
  Spd(int n_, const std::vector<L>& m) : n(n_), a(m), l(n_ * n_, 0), ok(true), logdet(0) {
    for (int j = 0; j < n; ++j) {
      L s = a[j * n + j]; for (int k = 0; k < j; ++k) s -= l[j * n + k] * l[j * n + k];
      if (!(s > 0)) { ok = false; return; }
      l[j * n + j] = std::sqrt(s); logdet += std::log(s);
      for (int i = j + 1; i < n; ++i) {
        L t = a[i * n + j]; for (int k = 0; k < j; ++k) t -= l[i * n + k] * l[j * n + k];
        l[i * n + j] = t / l[j * n + j];
      }
    }
  }
  std::vector<L> solve(std::vector<L> b) const {
    for (int i = 0; i < n; ++i) { for (int k = 0; k < i; ++k) b[i] -= l[i * n + k] * b[k]; b[i] /= l[i * n + i]; }
    for (int i = n - 1; i >= 0; --i) { for (int k = i + 1; k < n; ++k) b[i] -= l[k * n + i] * b[k]; b[i] /= l[i * n + i]; }
    return b;
  }
  L quad(const std::vector<L>& v) const { auto w = solve(v); L s = 0; for (int i = 0; i < n; ++i) s += v[i] * w[i]; return s; }
};
inline std::string typeName(const std::exception& e) {
  int st; char* p = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); std::string s = p ? p : typeid(e).name(); free(p); return s;
}
/// name of the exception a call ends with, "" for none
template <class F> std::string outcome(F f) {
  try { f(); } catch (const std::exception& e) { return typeName(e); } catch (...) { return "?"; }
  return "";
}
inline bool isBadArgument(const std::string& s) { return s.find("BadArgumentException") != std::string::npos; }
} // namespace ref
#endif
