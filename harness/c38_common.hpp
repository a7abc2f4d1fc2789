// Running a program of the repository inside a scratch directory, and reading what it leaves there
#pragma once
#include "est.hpp"
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sm/BoostPropertyTree.hpp>
#include <sys/stat.h>
int program_main(int argc, char** argv);
namespace prog {
inline std::string repo() { const char* r = getenv("VERIF_REPO"); return r && *r ? r : "/repo"; }
inline void wipe(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) { const std::string n = e->d_name; if (n == "." || n == "..") continue; const std::string p = dir + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) wipe(p); else unlink(p.c_str()); } closedir(d); }
  rmdir(dir.c_str());
}
/// working directory of one run
struct Scratch {
  std::string dir, back;
  Scratch() { char b[4096]; back = getcwd(b, sizeof b) ? b : "/"; const char* t = getenv("TMPDIR"); std::string n = std::string(t && *t ? t : "/tmp") + "/prog-XXXXXX"; if (!mkdtemp(&n[0]) || chdir(n.c_str())) throw std::runtime_error("no scratch directory"); dir = n; }
  ~Scratch() { if (chdir(back.c_str())) {} wipe(dir); }
};
struct Run { int code = 0; std::string out, err; };
inline std::string text(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
#ifdef REPEAT
/// everything a run leaves behind: file by file, what it prints, how it ends
struct Trace { std::map<std::string, std::string> left; };
inline Trace*& trace() { static Trace* t = nullptr; return t; }
struct Done {};
/// text without the time the run took
inline std::string timeless(const std::string& s) { std::string r, l; std::istringstream i(s); while (std::getline(i, l)) { std::string k = l; for (char& c : k) c = (char)std::tolower((unsigned char)c); if (k.find("elapsed") == std::string::npos && k.find("time [") == std::string::npos) r += l + "\n"; } return r; }
inline void collect(const std::string& dir, const std::string& as, Trace& t) {
  if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) { const std::string n = e->d_name; if (n == "." || n == "..") continue; const std::string p = dir + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { t.left[as + n + "/"] = "folder"; collect(p, as + n + "/", t); } else t.left[as + n] = text(p); } closedir(d); }
}
#endif
inline Run run(std::vector<std::string> args) {
  args.insert(args.begin(), "program"); std::vector<char*> v; for (auto& a : args) v.push_back(&a[0]); v.push_back(nullptr); std::ostringstream o, e; Run r;
  const auto f = std::cout.flags(); const auto p = std::cout.precision(); auto ob = std::cout.rdbuf(o.rdbuf()); auto eb = std::cerr.rdbuf(e.rdbuf()); auto back = [&] { std::cout.rdbuf(ob); std::cerr.rdbuf(eb); std::cout.flags(f); std::cout.precision(p); };
#ifdef REPEAT
  std::string end = "returned"; try { r.code = program_main((int)args.size(), v.data()); } catch (std::exception& x) { end = std::string("threw ") + x.what(); } back(); if (trace()) { Trace& t = *trace(); collect(".", "", t); t.left["(output)"] = timeless(o.str()); t.left["(errors)"] = timeless(e.str()); t.left["(end)"] = end + " " + std::to_string(r.code); } throw Done();
#endif
  try { r.code = program_main((int)args.size(), v.data()); } catch (...) { back(); throw; } back(); r.out = o.str(); r.err = e.str(); return r;
}
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
typedef std::vector<std::vector<double>> Rows;
inline std::vector<double> numbers(const std::string& l) { std::vector<double> r; const char* p = l.c_str(); char* e; for (;;) { const double v = strtod(p, &e); if (e == p) break; r.push_back(v); p = e; } return r; }
inline Rows rows(std::istream& i) { Rows r; std::string l; while (std::getline(i, l)) r.push_back(numbers(l)); return r; }
inline Rows rows(const std::string& f) { std::ifstream i(f); return rows(i); }
/// what stands behind a label of the output (n-th occurrence), and the matrix below it
inline size_t findLabel(const std::string& out, const std::string& label, int n = 0) { size_t at = 0; for (;;) { at = out.find(label + ":", at); if (at == std::string::npos) return at; if (at == 0 || out[at - 1] == '\n') { if (n-- == 0) return at; } ++at; } }
inline bool has(const std::string& out, const std::string& label) { return findLabel(out, label) != std::string::npos; }
inline std::vector<double> figure(const std::string& out, const std::string& label, int n = 0) { const size_t at = findLabel(out, label, n); if (at == std::string::npos) return {}; const size_t from = at + label.size() + 1; return numbers(out.substr(from, out.find('\n', from) - from)); }
inline Rows matrix(const std::string& out, const std::string& label, size_t n) { Rows r; const size_t at = findLabel(out, label); if (at == std::string::npos) return r; std::istringstream i(out.substr(out.find('\n', at) + 1)); std::string l; while (r.size() < n && std::getline(i, l)) r.push_back(numbers(l)); return r; }
inline double lastOf(const std::string& out, const std::string& label) { double v = NAN; for (int n = 0;; ++n) { auto f = figure(out, label, n); if (findLabel(out, label, n) == std::string::npos) return v; if (!f.empty()) v = f[0]; } }
inline bool close6(double got, double want, double slack = 0) { return std::fabs(got - want) <= 6e-6 * std::fabs(want) + 1e-300 + slack; }
inline double gap(double a) { return std::fabs(std::remainder(a, 2 * M_PI)); }
/// the figures of a file, line by line
inline void compare(mon::Ctx& c, const char* file, const Rows& want, double rel, double abs = 0) {
  if (!c.check(exists(file), "file-missing", "%s", file)) return; const Rows got = rows(std::string(file)); if (!c.check(got.size() == want.size(), "file-length", "%s has %zu lines, want %zu", file, got.size(), want.size())) return;
  for (size_t i = 0; i < want.size(); ++i) { if (!c.check(got[i].size() == want[i].size(), "file-columns", "%s line %zu: %zu figures, want %zu", file, i, got[i].size(), want[i].size())) return; for (size_t j = 0; j < want[i].size(); ++j) if (!c.check(std::fabs(got[i][j] - want[i][j]) <= rel * std::fabs(want[i][j]) + abs + 1e-17 || (std::isnan(got[i][j]) && std::isnan(want[i][j])), "file-content", "%s line %zu figure %zu: %.12g want %.12g", file, i, j, got[i][j], want[i][j])) return; }
  c.count("files compared"); c.count("lines compared", want.size());
}
inline std::vector<double> row(std::initializer_list<Eigen::VectorXd> l) { std::vector<double> r; for (auto& v : l) for (int i = 0; i < v.size(); ++i) r.push_back(v(i)); return r; }
}
