// Runtime monitor shared by every harness: case loop with per-case PRNG,
// breadcrumb for crashes, violation log, coverage counters.
#ifndef VERIF_MONITOR_HPP
#define VERIF_MONITOR_HPP

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#ifdef MON_THREADS
#include <atomic>
#include <memory>
#include <sched.h>
#include <thread>
#include <unistd.h>
#endif
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h);
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }
inline uint64_t hd(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

/// splitmix64 stream: identical on every platform and library version
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  bool coin(double p = 0.5) { return u01() < p; }
  double normal() { double a = 1.0 - u01(), b = u01();
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
  double signedLog(double lo, double hi) { return (coin() ? 1 : -1) * logu(lo, hi); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct Violation { std::string sig, msg; long cs; std::string desc; };

class Ctx {
 public:
  std::string section; uint64_t seed; double scale; long shard, nshards, onlyCase;
  bool thorough;
  Rng rng;
  char* crumb; static const size_t CRUMB = 4096;
  long curCase; long evaluations; long checks;
  std::map<std::string, long> counters, sigCount;
  std::vector<Violation> viols; std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  std::string outPath;

  Ctx() : seed(1), scale(1), shard(0), nshards(1), onlyCase(-1), thorough(false),
    crumb(nullptr), curCase(-1), evaluations(0), checks(0) {}

  /// Describe the current case; survives a crash.
  void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, f); vsnprintf(crumb, CRUMB, f, ap); va_end(ap);
  }
  void noteAdd(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    breathe();
    size_t n = strnlen(crumb, CRUMB);
    va_list ap; va_start(ap, f);
    if (n + 1 < CRUMB) vsnprintf(crumb + n, CRUMB - n, f, ap);
    va_end(ap);
  }
#ifdef MON_THREADS
  /// Called between operations of a monitored thread: delays it, and notes the interleaving. The ticket is
  /// relaxed, so it orders nothing that the race detector could take for synchronization.
  static std::atomic<uint64_t>& ticket() { static std::atomic<uint64_t> t(0); return t; }
  uint64_t lastTicket = 0, window = 0, windowLen = 0; Rng delays; bool threaded = false;
  void breathe() {
    if (!threaded) return;
    const uint64_t t = ticket().fetch_add(1, std::memory_order_relaxed), gap = t - lastTicket; lastTicket = t;
    if (gap > 1) ++switches;
    window = hcomb(window, gap); if (++windowLen % 8 == 0) { if (window != allAlone()) interleavings.insert(window); window = 0; }
    const uint64_t d = delays.below(64);
    if (d < 6) sched_yield(); else if (d == 6) usleep(delays.below(40)); else if (d == 7) for (volatile int i = delays.below(2000); i > 0; --i) {}
  }
  static uint64_t allAlone() { uint64_t w = 0; for (int i = 0; i < 8; ++i) w = hcomb(w, 1); return w; }
  long switches = 0; std::unordered_set<uint64_t> interleavings;
#else
  void breathe() {}
#endif
  void count(const std::string& k, long n = 1) { counters[k] += n; }
  /// A distinct, non-trivial situation was observed.
  void seen(uint64_t h) { distinct.insert(hcomb(h, hashStr(section))); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }

  bool check(bool ok, const char* sig, const char* f = "", ...)
      __attribute__((format(printf, 4, 5))) {
    ++checks;
    breathe();
    if (ok) return true;
    char buf[1500]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    report(sig, buf);
    return false;
  }
  void report(const std::string& sig, const std::string& msg) {
#ifdef MON_NO_ORACLE  // run for the instrumentation only: the behaviour is judged by its own check
    (void)sig; (void)msg; return;
#endif
    if (++sigCount[sig] <= 3)
      viols.push_back({sig, msg, curCase, std::string(crumb)});
  }
  /// |a-b| <= rel*max(|a|,|b|) + abs, with equal infinities / NaN==NaN allowed
  static bool near(double a, double b, double rel, double abs_ = 0) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs_;
  }
  bool checkNear(double got, double want, double rel, double abs_, const char* sig, const char* what) {
    return check(near(got, want, rel, abs_), sig, "%s: got %.17g want %.17g", what, got, want);
  }
  /// Run n (scaled) cases, each with its own PRNG.
  void cases(long n, const std::function<void()>& f, bool scaled = true) {
    long N = scaled ? (long)std::ceil(n * scale) : n;
    const long base = caseBase_; caseBase_ += N;
    for (long i = 0; i < N; ++i) {
      const long id = base + i;
      if (onlyCase >= 0 ? id != onlyCase : (id % nshards) != shard) continue;
      curCase = id; ++evaluations; crumb[0] = 0;
      rng = Rng(hcomb(hcomb(seed, hashStr(section)), (uint64_t)id));
      try { f(); }
      catch (const std::exception& e) { report("unexpected-exception:" + section, e.what()); }
      catch (...) { report("unexpected-exception:" + section, "unknown type"); }
    }
  }
 private:
  long caseBase_ = 0;
};

typedef void (*SectionFn)(Ctx&);
struct Section { std::string name; SectionFn fn; int shards; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const std::string& n, SectionFn f, int shards) { sections().push_back({n, f, shards}); } };

#ifdef MON_THREADS  // several harnesses in one program: their sections are told apart by file
inline std::string inFile(const char* n, const char* f) { const char* b = std::strrchr(f, '/'); return std::string(n) + "-" + std::string(b ? b + 1 : f, std::strcspn(b ? b + 1 : f, ".")); }
#define MON_NAME(name) mon::inFile(#name, __FILE__)
#else
#define MON_NAME(name) #name
#endif
#define SECTION(name, nsh) \
  static void sec_##name(mon::Ctx& c); \
  static mon::Reg reg_##name(MON_NAME(name), sec_##name, nsh); \
  static void sec_##name(mon::Ctx& c)

inline std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

/// Outcome of a call: which exception, if any
template <class E, class F> bool throwsAs(F f) {
  try { f(); } catch (const E&) { return true; } catch (...) { return false; }
  return false;
}
template <class F> bool throwsAny(F f) { try { f(); } catch (...) { return true; } return false; }

#ifdef MON_THREADS
/// The section in several threads at once, each with a monitor and objects of its own. The section "mixed"
/// runs a different section in every thread.
inline void runThreads(Ctx& c, const Section& s) {
  const int n = MON_THREADS; std::vector<std::unique_ptr<Ctx>> t; std::vector<std::thread> th; std::atomic<int> ready(0);
  for (int i = 0; i < n; ++i) {
    t.emplace_back(new Ctx(c)); Ctx& x = *t.back(); x.crumb = (char*)calloc(1, Ctx::CRUMB); x.threaded = true;
    x.shard = c.shard * n + i; x.nshards = c.nshards * n; x.delays = Rng(hcomb(hcomb(c.seed, 77), x.shard)); x.rng = Rng(hcomb(c.rng.next(), i));
  }
  for (int i = 0; i < n; ++i) {
    SectionFn f = s.fn;
    if (!f) { do f = sections()[c.rng.below(sections().size())].fn; while (!f); }
    th.emplace_back([&, i, f] {
      Ctx& x = *t[i];
      ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield();
      try { f(x); } catch (const std::exception& e) { x.report("unexpected-exception:" + x.section, e.what()); }
    });
  }
  for (auto& x : th) x.join();
  for (auto& p : t) {
    Ctx& x = *p; c.evaluations += x.evaluations; c.checks += x.checks; for (auto& k : x.counters) c.counters[k.first] += k.second;
    for (auto& v : x.viols) c.viols.push_back(v); for (auto& k : x.samples) c.sample(k);
    c.counters["switches between threads observed"] += x.switches; for (auto h : x.interleavings) c.distinct.insert(h);
    free(x.crumb);
  }
  c.counters["distinct interleavings of eight operations"] += c.distinct.size();
}
#endif
inline int run(int argc, char** argv) {
  Ctx c; std::string crumbPath;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--list") {
      for (auto& s : sections()) std::printf("%s %d\n", s.name.c_str(), s.shards);
      return 0;
    } else if (a == "--section") c.section = v();
    else if (a == "--seed") c.seed = std::strtoull(v().c_str(), 0, 10);
    else if (a == "--scale") c.scale = std::atof(v().c_str());
    else if (a == "--shard") c.shard = std::atol(v().c_str());
    else if (a == "--nshards") c.nshards = std::atol(v().c_str());
    else if (a == "--case") c.onlyCase = std::atol(v().c_str());
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--out") c.outPath = v();
    else if (a == "--crumb") crumbPath = v();
    else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 99; }
  }
  int fd = crumbPath.empty() ? -1 : open(crumbPath.c_str(), O_RDWR | O_CREAT, 0600);
  if (fd >= 0 && ftruncate(fd, Ctx::CRUMB) == 0)
    c.crumb = (char*)mmap(0, Ctx::CRUMB, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  else c.crumb = (char*)calloc(1, Ctx::CRUMB);
  for (auto& s : sections()) if (s.name == c.section) {
    c.rng = Rng(hcomb(c.seed, hashStr(c.section)));
#ifdef MON_THREADS
    runThreads(c, s);
#else
    try { s.fn(c); }
    catch (const std::exception& e) { c.report("unexpected-exception:" + c.section, e.what()); }
#endif
    FILE* o = c.outPath.empty() ? stdout : fopen(c.outPath.c_str(), "w");
    if (!o) return 98;
    std::fprintf(o, "{\"evaluations\":%ld,\"checks\":%ld,\"samples\":[", c.evaluations, c.checks);
    for (size_t i = 0; i < c.samples.size(); ++i) std::fprintf(o, "%s\"%s\"", i ? "," : "", jesc(c.samples[i]).c_str());
    std::fprintf(o, "],\"counters\":{"); bool f = true;
    for (auto& k : c.counters) { std::fprintf(o, "%s\"%s\":%ld", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; }
    std::fprintf(o, "},\"violations\":[");
    for (size_t i = 0; i < c.viols.size(); ++i)
      std::fprintf(o, "%s{\"sig\":\"%s\",\"msg\":\"%s\",\"case\":%ld,\"desc\":\"%s\"}", i ? "," : "",
        jesc(c.viols[i].sig).c_str(), jesc(c.viols[i].msg).c_str(), c.viols[i].cs, jesc(c.viols[i].desc).c_str());
    std::fprintf(o, "],\"distinct\":["); f = true; long nd = 0;
    for (auto h : c.distinct) { if (++nd > 60000) break; std::fprintf(o, "%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
    std::fprintf(o, "],\"ndistinct\":%zu}\n", c.distinct.size());
    if (o != stdout) fclose(o);
    return 0;
  }
  std::fprintf(stderr, "no such section\n");
  return 97;
}

/// an object built where something else was: what its constructor leaves out shows
template <class T, class... A> T dirty(A&&... a) {
  void* m = ::operator new(sizeof(T)); std::memset(m, 0x41, sizeof(T)); asm volatile("" : : "r"(m) : "memory");
  struct Hold { void* m; T* p; ~Hold() { if (p) p->~T(); ::operator delete(m); } } h{m, nullptr}; h.p = new (m) T(std::forward<A>(a)...); return T(*h.p);
}
} // namespace mon
#endif
