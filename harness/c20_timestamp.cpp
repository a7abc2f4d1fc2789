// C20: timestamps against exact arithmetic and an independent calendar
#include "monitor.hpp"
#include "ref.hpp"
#include <aslam/calibration/base/Timestamp.h>
#include <ctime>
using namespace aslam::calibration;
typedef long double L;
namespace {
struct Date { long y; int m, d, H, M, S; };
/// proleptic Gregorian calendar by counting, from days since 1970-01-01
Date civil(long long t) {
  long long day = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --day; }
  Date r; r.H = s / 3600; r.M = s / 60 % 60; r.S = s % 60;
  auto leap = [](long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  long long c400 = day >= 0 ? day / 146097 : -((-day + 146096) / 146097); day -= c400 * 146097; long y = 1970 + 400 * c400;
  while (day >= (leap(y) ? 366 : 365)) { day -= leap(y) ? 366 : 365; ++y; }
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0;
  for (;; ++m) { const int n = len[m] + (m == 1 && leap(y)); if (day < n) break; day -= n; }
  r.y = y; r.m = m + 1; r.d = day + 1; return r;
}
long long daysTo(long y, int m, int d) { // inverse, Howard-Hinnant free: count
  auto leap = [](long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
  long long n = 0; long b = 1970; long long c4 = 0; while (y < b) { y += 400; --c4; } while (y >= b + 400) { y -= 400; ++c4; }
  for (long k = b; k < y; ++k) n += leap(k) ? 366 : 365;
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (int k = 0; k < m - 1; ++k) n += len[k] + (k == 1 && leap(y));
  return n + d - 1 + c4 * 146097;
}
int weekday(long long day) { return (int)(((day + 4) % 7 + 7) % 7); }
struct Zone { const char* tz; long off; bool eu; };
const Zone zones[] = {{"UTC0", 0, false}, {"AAA-05:30", 19800, false}, {"BBB+08", -28800, false}, {"CCC-13:45", 49500, false}, {"DDD+00:00:01", -1, false}, {"EEE+11:30", -41400, false}, {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, true}};
long offset(const Zone& z, long long t) {
  if (!z.eu) return z.off;
  const long y = civil(t).y; long long a = daysTo(y, 3, 31), b = daysTo(y, 10, 31); a -= weekday(a); b -= weekday(b);
  return t >= a * 86400 + 3600 && t < b * 86400 + 3600 ? 7200 : 3600;
}
bool parse(const std::string& s, Date& d, bool dashes) {
  int n = -1; const char* p = s.c_str();
  sscanf(p, dashes ? "%ld-%2d-%2d-%2d-%2d-%2d%n" : "%ld-%2d-%2d %2d:%2d:%2d%n", &d.y, &d.m, &d.d, &d.H, &d.M, &d.S, &n);
  return n == (int)s.size();
}
double instant(mon::Ctx& c) {
  switch (c.rng.below(9)) {
    case 0: return c.rng.range(-100, 100); case 1: return c.rng.range(-4000000000L, 8000000000L); case 2: return c.rng.uni(0, 2e9); case 3: return c.rng.uni(-2e9, 4e9);
    case 4: return c.rng.range(-1000000, 1000000) + c.rng.below(1000000000) * 1e-9; case 5: return c.rng.signedLog(1e-12, 1e3); case 6: return std::nextafter((double)c.rng.range(-1000, 1000), c.rng.coin() ? 1e9 : -1e9);
    case 7: return c.rng.signedLog(1, 1e12); default: { const double s[] = {0, -0.0, 1, -1, 0.5, -0.5, 2147483647, 2147483648.0, -2147483648.0, 4294967296.0, 951782400, 951868799, 0.999999999, -0.999999999, -1e-9, 1e-9}; return s[c.rng.below(16)]; }
  }
}
} // namespace
SECTION(arithmetic, 2) {
  c.cases(20000, [&] {
    double a = instant(c), b = c.rng.coin(0.3) ? a : c.rng.coin(0.2) ? std::nextafter(a, c.rng.coin() ? INFINITY : -INFINITY) : instant(c); if (c.rng.coin(0.02)) a = INFINITY; if (c.rng.coin(0.02)) b = -INFINITY;
    c.note("a = %.17g, b = %.17g", a, b); Timestamp A(a), B(b), C(A), D(0); D = B; D = *&D;
    c.check(A.getSeconds() == a && (double)A == a && C.getSeconds() == a && D.getSeconds() == b, "holds-instant", "%.17g %.17g %.17g", A.getSeconds(), C.getSeconds(), D.getSeconds());
    c.check((A == B) == (a == b) && (A == b) == (a == b), "equal", "=="); c.check((A != B) == (a != b) && (A != b) == (a != b), "not-equal", "!=");
    c.check((A < B) == (a < b) && (A < b) == (a < b), "less", "<"); c.check((A > B) == (a > b) && (A > b) == (a > b), "greater", ">");
    c.check((A <= B) == (a <= b) && (A <= b) == (a <= b), "less-equal", "<="); c.check((A >= B) == (a >= b) && (A >= b) == (a >= b), "greater-equal", ">=");
    auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    c.check(eq(A + b, a + b) && eq(A + B, a + b), "sum", "%.17g", A + b); c.check(eq(A - b, a - b) && eq(A - B, a - b), "difference", "%.17g", A - B);
    Timestamp& r = (C += b); c.check(eq(C.getSeconds(), a + b) && &r == &C, "add-assign", "%.17g", C.getSeconds()); Timestamp E(A); Timestamp& q = (E -= b); c.check(eq(E.getSeconds(), a - b) && &q == &E, "subtract-assign", "%.17g", E.getSeconds());
    c.check(A.getSeconds() == a && B.getSeconds() == b, "operand-changed", "an operand changed"); c.seen(mon::hcomb(mon::hd(a), mon::hd(b)));
  });
}
SECTION(timespecs, 2) {
  c.cases(20000, [&] {
    const double a = c.rng.coin(0.1) ? c.rng.signedLog(1e9, 1e18) : instant(c); c.note("%.17g", a); const timespec t = Timestamp(a);
    c.check(t.tv_nsec >= 0 && t.tv_nsec < 1000000000L, "nanosecond-range", "%ld", t.tv_nsec);
    const L off = ((L)t.tv_sec - (L)a) + (L)t.tv_nsec * 1e-9L; c.check(std::fabs((double)off) <= 1.001e-9, "timespec-instant", "%lld s %ld ns for %.17g", (long long)t.tv_sec, t.tv_nsec, a);
    Timestamp B(t.tv_sec + t.tv_nsec / 1e9); c.check(std::fabs(B - Timestamp(a)) <= 1.001e-9 + 2.3e-16 * std::fabs(a), "round-trip", "%.17g", B.getSeconds()); c.seen(mon::hd(a));
  });
  c.cases(100, [&] { const double s[] = {INFINITY, -INFINITY, NAN, 1e19, -1e19, 9.3e18, 1e300}; const double a = s[c.rng.below(7)]; c.note("%g", a); timespec t; const std::string o = ref::outcome([&] { t = Timestamp(a); }); c.check(!o.empty(), "unrepresentable-instant", "converted without an error"); const std::string p = ref::outcome([&] { Timestamp::getDate(a); }); c.check(!p.empty(), "unrepresentable-date", "printed without an error"); });
}
SECTION(dates, 2) {
  c.cases(12000, [&] {
    const Zone& z = zones[c.rng.below(7)]; setenv("TZ", z.tz, 1);
    double a = c.rng.coin(0.2) ? c.rng.signedLog(1, 2e11) : instant(c); if (z.eu) { a = std::fabs(a); if (a > 4e9) a = std::fmod(a, 4e9); if (c.rng.coin(0.3)) { const int y = 1997 + c.rng.below(80); long long d = daysTo(y, c.rng.coin() ? 3 : 10, 31); d -= weekday(d); a = d * 86400.0 + 3600 + c.rng.range(-2, 2) + c.rng.u01(); } if (a < 852076800) a += 852076800; }
    c.note("%s %.17g", z.tz, a); const long long t = (long long)std::floor(a); const Date w = civil(t + offset(z, t)); Date g = {0, 0, 0, 0, 0, 0}; const std::string s = Timestamp::getDate(a);
    c.check(parse(s, g, true) && g.y == w.y && g.m == w.m && g.d == w.d && g.H == w.H && g.M == w.M && g.S == w.S, "date", "\"%s\" want %ld-%02d-%02d-%02d-%02d-%02d", s.c_str(), w.y, w.m, w.d, w.H, w.M, w.S);
    c.seen(mon::hcomb(mon::hashStr(z.tz), t));
  });
}
SECTION(clock, 1) {
  auto rd = [] { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec + t.tv_nsec * 1e-9; };
  c.cases(3000, [&] {
    double b = rd(), n = Timestamp::now(), a = rd(); c.check(n >= b - 1e-5 && n <= a + 1e-5, "clock", "reading %.9f not in [%.9f, %.9f]", n, b, a);
    b = rd(); Timestamp T; a = rd(); c.check(T.getSeconds() >= b - 1e-5 && T.getSeconds() <= a + 1e-5, "default-construction", "holds %.9f not in [%.9f, %.9f]", T.getSeconds(), b, a); c.seen(mon::hd(n)); usleep(c.rng.below(200));
  }, false);
  c.cases(400, [&] {
    const Zone& z = zones[c.rng.below(7)]; setenv("TZ", z.tz, 1); c.note("%s now", z.tz); double b = rd(); const std::string s = Timestamp::getDate(); double a = rd(); Date g;
    if (!c.check(parse(s, g, false), "date-now", "\"%s\" is not a date", s.c_str())) return;
    const long long local = daysTo(g.y, g.m, g.d) * 86400 + g.H * 3600 + g.M * 60 + g.S; bool ok = false; for (long long t = (long long)std::floor(b); t <= (long long)std::floor(a); ++t) ok = ok || t + offset(z, t) == local;
    c.check(ok, "date-now", "\"%s\" between %.3f and %.3f", s.c_str(), b, a); c.seen(local);
  }, false);
}
