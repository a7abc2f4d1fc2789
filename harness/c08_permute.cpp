// C08: permute() against a naive reference model.
#include "monitor.hpp"
#include <aslam/calibration/algorithms/permute.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <algorithm>
#include <memory>
#include <numeric>
using namespace aslam::calibration;

namespace {
template <class I> bool isPerm(const std::vector<I>& p, size_t n) {
  if (p.size() != n) return false;
  std::vector<char> s(n, 0);
  for (auto i : p) {
    if ((long double)i < 0 || (long double)i >= (long double)n) return false;
    if (s[(size_t)i]) return false;
    s[(size_t)i] = 1;
  }
  return true;
}
template <class I> std::string show(const std::vector<I>& p) {
  std::ostringstream o;
  for (size_t i = 0; i < p.size() && i < 40; ++i) o << (i ? "," : "") << (long long)p[i];
  return o.str();
}
// element types: plain, heap owning, move-only-ish (shared), pair
template <class T> T make(size_t i);
template <> int make<int>(size_t i) { return (int)i * 7 + 1; }
template <> double make<double>(size_t i) { return i * 0.5 - 3; }
template <> std::string make<std::string>(size_t i) { return "element-with-a-long-heap-allocated-name-" + std::to_string(i); }
template <> std::shared_ptr<int> make<std::shared_ptr<int>>(size_t i) { return std::make_shared<int>((int)i); }
template <> std::vector<int> make<std::vector<int>>(size_t i) { return std::vector<int>(i % 5 + 1, (int)i); }

template <class T, class I> void one(mon::Ctx& c, const std::vector<I>& p, size_t n, const char* nm) {
  std::vector<T> v; v.reserve(n);
  for (size_t i = 0; i < n; ++i) v.push_back(make<T>(i));
  const std::vector<T> old = v;
  const std::vector<I> pc = p;
  c.note("%s n=%zu perm=[%s]", nm, n, show(p).c_str());
  const bool ok = isPerm(p, n);
  int threw = 0;
  try { permute(v, pc); }
  catch (const OutOfBoundException<I>&) { threw = 1; }
  c.check(pc == p, "index-list-modified");
  if (ok) {
    c.count("permutations");
    c.check(threw == 0, "valid-permutation-refused", "n=%zu", n);
    c.check(v.size() == n, "size-changed");
    for (size_t i = 0; i < n && i < v.size(); ++i)
      if (!c.check(v[i] == old[(size_t)p[i]], "wrong-element", "position %zu does not hold element %lld", i, (long long)p[i])) break;
  } else {
    c.count("malformed lists");
    c.check(threw == 1, "malformed-list-accepted", "n=%zu", n);
    c.check(v == old, "refused-call-changed-container", "n=%zu", n);
  }
  uint64_t h = mon::hashStr(nm); for (auto x : p) h = mon::hcomb(h, (uint64_t)(long long)x);
  if (n > 1) c.seen(mon::hcomb(h, n));
}
template <class I> void anyT(mon::Ctx& c, const std::vector<I>& p, size_t n, const char* in) {
  switch (c.rng.below(5)) {
    case 0: one<int, I>(c, p, n, (std::string("int/") + in).c_str()); break;
    case 1: one<double, I>(c, p, n, (std::string("double/") + in).c_str()); break;
    case 2: one<std::string, I>(c, p, n, (std::string("string/") + in).c_str()); break;
    case 3: one<std::shared_ptr<int>, I>(c, p, n, (std::string("shared_ptr/") + in).c_str()); break;
    default: one<std::vector<int>, I>(c, p, n, (std::string("vector/") + in).c_str());
  }
}
template <class I> std::vector<I> randPerm(mon::Ctx& c, size_t n) {
  std::vector<I> p(n);
  for (size_t i = 0; i < n; ++i) p[i] = (I)i;
  switch (c.rng.below(5)) {
    case 0: c.rng.shuffle(p); break;
    case 1: if (n) { size_t k = c.rng.below(n); std::rotate(p.begin(), p.begin() + k, p.end()); } break;
    case 2: std::reverse(p.begin(), p.end()); break;
    case 3: // one long cycle
      { std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); c.rng.shuffle(o);
        for (size_t i = 0; i < n; ++i) p[o[i]] = (I)o[(i + 1) % n]; } break;
    default: for (size_t k = 0; n > 1 && k < 3; ++k) std::swap(p[c.rng.below(n)], p[c.rng.below(n)]);
  }
  return p;
}
}

// every index list over {0..n} (n itself is out of range) for n<=5, every permutation for n<=7
SECTION(exhaustive_small, 4) {
  for (size_t n = 0; n <= 7; ++n) {
    // complete enumeration, one case per size
    c.cases(1, [&] {
      std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0);
      do one<int, size_t>(c, p, n, "int/size_t"); while (std::next_permutation(p.begin(), p.end()));
      std::iota(p.begin(), p.end(), 0);
    }, false);
  }
  for (size_t n = 1; n <= 5; ++n) c.cases(1, [&] {
    std::vector<int> q(n, -1);
    for (;;) { // all lists over {-1..n}
      one<int, int>(c, q, n, "int/int");
      size_t i = 0; while (i < n && q[i] == (int)n) q[i++] = -1;
      if (i == n) break;
      ++q[i];
    }
  }, false);
  c.sample("all permutations of up to 7 positions and all index lists over {-1..n} of up to 5");
}

SECTION(random_permutations, 4) {
  c.cases(1500, [&] {
    size_t n = c.rng.coin(0.8) ? c.rng.below(30) : c.rng.below(600);
    switch (c.rng.below(5)) {
      case 0: anyT<size_t>(c, randPerm<size_t>(c, n), n, "size_t"); break;
      case 1: anyT<int>(c, randPerm<int>(c, n), n, "int"); break;
      case 2: anyT<long>(c, randPerm<long>(c, n), n, "long"); break;
      case 3: n = std::min<size_t>(n, 256); if (c.rng.coin(0.2)) n = 256;
              anyT<unsigned char>(c, randPerm<unsigned char>(c, n), n, "uchar"); break;
      default: n = std::min<size_t>(n, 128); if (c.rng.coin(0.1)) n = 128;
              anyT<signed char>(c, randPerm<signed char>(c, n), n, "schar");
    }
    c.sample(c.crumb);
  });
}

SECTION(malformed_lists, 4) {
  c.cases(1500, [&] {
    size_t n = 1 + c.rng.below(40);
    std::vector<long> p = randPerm<long>(c, n);
    size_t at = c.rng.below(n);
    switch (c.rng.below(7)) {
      case 0: p[at] = p[c.rng.below(n)]; break;
      case 1: p[at] = (long)n; break;
      case 2: p[at] = -1 - (long)c.rng.below(3); break;
      case 3: p[at] = std::numeric_limits<long>::max() - (long)c.rng.below(2); break;
      case 4: p[at] = std::numeric_limits<long>::min(); break;
      case 5: p.pop_back(); break;
      default: p.push_back((long)n);
    }
    if (c.rng.coin()) anyT<long>(c, p, n, "long");
    else { std::vector<size_t> q(p.begin(), p.end()); anyT<size_t>(c, q, n, "size_t"); }
    c.sample(c.crumb);
  });
}
// composing with the inverse gives the identity; composition law
SECTION(algebra, 2) {
  c.cases(500, [&] {
    size_t n = c.rng.below(60);
    auto p = randPerm<size_t>(c, n), q = randPerm<size_t>(c, n);
    std::vector<size_t> inv(n), pq(n);
    for (size_t i = 0; i < n; ++i) { inv[p[i]] = i; pq[i] = p[q[i]]; }
    c.note("n=%zu p=[%s] q=[%s]", n, show(p).c_str(), show(q).c_str());
    std::vector<std::string> v; for (size_t i = 0; i < n; ++i) v.push_back(make<std::string>(i));
    auto a = v; permute(a, p); permute(a, inv);
    c.check(a == v, "inverse-does-not-undo");
    auto b = v, d = v; permute(b, p); permute(b, q); permute(d, pq);
    c.check(b == d, "composition-wrong");
    uint64_t h = 1; for (auto x : p) h = mon::hcomb(h, x);
    if (n > 2) c.seen(h);
  });
}
