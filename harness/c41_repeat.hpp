// The same run made twice, on storage of another order and content
#pragma once
#include "c38_common.hpp"
#include "c41_heap.hpp"
namespace {
template <class F> void twice(mon::Ctx& c, F f) {
  const mon::Rng start = c.rng; mon::Rng mine(start); const uint64_t s = mine.next(); prog::Trace t[2]; bool ran[2] = {false, false};
  for (int i = 0; i < 2; ++i) { c.rng = start; heap::shuffle(mon::hcomb(s, i + 1)); prog::trace() = &t[i]; try { f(); } catch (prog::Done&) { ran[i] = true; } catch (...) { prog::trace() = nullptr; throw; } prog::trace() = nullptr; }
  if (!ran[0] || !ran[1]) { c.check(ran[0] == ran[1], "harness", "only one of two runs was made"); return; } uint64_t h = 0; size_t bytes = 0;
  for (auto& x : t[0].left) { auto y = t[1].left.find(x.first); if (!c.check(y != t[1].left.end(), "files-differ", "%s is left by one run only", x.first.c_str())) continue; const std::string &a = x.second, &b = y->second; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; const bool eq = a == b; const size_t from = a.rfind('\n', i ? i - 1 : 0) == std::string::npos ? 0 : a.rfind('\n', i ? i - 1 : 0) + 1; c.check(eq, "runs-differ", "%s: '%.70s' in one run, '%.70s' in the other", x.first.c_str(), a.substr(from, a.find('\n', i) - from).c_str(), b.substr(std::min(from, b.size()), b.find('\n', i) - from).c_str()); bytes += a.size(); h = mon::hcomb(h, mon::hashStr(a)); c.count("files compared byte by byte"); }
  for (auto& y : t[1].left) c.check(t[0].left.count(y.first) > 0, "files-differ", "%s is left by one run only", y.first.c_str()); c.count("bytes compared", bytes); c.count("program runs", 2); c.seen(h); c.sample(std::to_string(t[0].left.size()) + " files, " + std::to_string(bytes) + " bytes: " + t[0].left["(end)"]);
}
}
