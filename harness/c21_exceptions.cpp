// C21: exceptions carry message, argument and location
#include "monitor.hpp"
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/Exception.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <Eigen/Core>
#include <exception>
#include <memory>
using namespace aslam::calibration;
namespace {
struct Loc { std::string msg, file, fun; size_t line; int given; };
std::string text(mon::Ctx& c, bool mayBeEmpty = true) {
  static const char* odd[] = {"", " ", "%s%n%d", "[file = x][line = 3]", "\n\t\r", "\xff\xfe\xc3\x28", "\xe6\x97\xa5\xe6\x9c\xac", "\"quoted\" \\ back", ": ", "]", "a is a null pointer"};
  if (c.rng.coin(0.35)) { std::string s = odd[c.rng.below(11)]; if (s.size() > 1 || (mayBeEmpty && c.rng.coin())) return s; }
  std::string s; for (int n = 1 + (c.rng.coin(0.1) ? c.rng.below(5000) : c.rng.below(40)); n-- > 0;) s += (char)(1 + c.rng.below(255)); return s + "#" + std::to_string(c.rng.below(100000));
}
Loc loc(mon::Ctx& c) { Loc l; l.msg = text(c); l.given = c.rng.below(4); l.file = text(c, false); l.fun = text(c, false); l.line = c.rng.coin(0.1) ? std::numeric_limits<size_t>::max() : 1 + c.rng.below(1000000000); return l; }
bool has(const std::string& t, const std::string& s) { return t.find(s) != std::string::npos; }
template <class X> std::string shown(const X& x) { std::ostringstream o; o << x; return o.str(); }
/// the exception must hold everything it was given
void text(mon::Ctx& c, const std::exception& e, const Loc& l, const std::vector<std::string>& args) {
  const std::string t = e.what(), u = e.what(); c.check(t == u, "unstable", "two readings differ");
  c.check(has(t, l.msg), "message", "\"%.200s\" lost its message", t.c_str());
  if (l.given >= 1) c.check(has(t, l.file), "file", "\"%.200s\" lost its file", t.c_str());
  if (l.given >= 2) c.check(has(t, std::to_string(l.line)), "line", "\"%.200s\" lost its line %zu", t.c_str(), l.line);
  if (l.given >= 3) c.check(has(t, l.fun), "function", "\"%.200s\" lost its function", t.c_str());
  for (auto& a : args) c.check(has(t, a), "argument", "\"%.200s\" lost its argument \"%.60s\"", t.c_str(), a.c_str());
}
template <class E> E make0(const Loc& l) { return l.given == 0 ? E(l.msg) : l.given == 1 ? E(l.msg, l.file) : l.given == 2 ? E(l.msg, l.file, l.line) : E(l.msg, l.file, l.line, l.fun); }
template <class E, class X> E make1(const X& x, const Loc& l) { return l.given == 0 ? E(x, l.msg) : l.given == 1 ? E(x, l.msg, l.file) : l.given == 2 ? E(x, l.msg, l.file, l.line) : E(x, l.msg, l.file, l.line, l.fun); }
template <class E, class X> E make2(const X& x, const X& b, const Loc& l) { return l.given == 0 ? E(x, b, l.msg) : l.given == 1 ? E(x, b, l.msg, l.file) : l.given == 2 ? E(x, b, l.msg, l.file, l.line) : E(x, b, l.msg, l.file, l.line, l.fun); }
/// life of an exception: thrown, caught by each base, copied, assigned, outliving its source, rethrown from a pointer
template <class E> void life(mon::Ctx& c, const E& e, const E& other, const Loc& l, const std::vector<std::string>& args) {
  c.note("%s, location given %d, message %.200s", typeid(E).name(), l.given, l.msg.c_str());
  text(c, e, l, args); const std::string t = e.what(), o = other.what();
  bool caught = false; try { throw e; } catch (const std::exception& x) { caught = t == x.what(); } c.check(caught, "thrown", "as std::exception");
  caught = false; try { throw e; } catch (const Exception& x) { caught = t == x.what(); } c.check(caught, "thrown", "as the library's exception");
  caught = false; try { try { throw e; } catch (E& x) { E y(x); throw y; } } catch (Exception x) { caught = t == x.what(); } c.check(caught, "thrown", "rethrown copy, caught by value");
  std::exception_ptr p; try { throw e; } catch (...) { p = std::current_exception(); } caught = false; try { std::rethrow_exception(p); } catch (const std::exception& x) { caught = t == x.what(); } c.check(caught, "thrown", "from a pointer");
  std::unique_ptr<E> a(new E(e)), b(new E(other)); const std::string before = a->what(); *b = *a; a.reset(); c.check(before == t && t == b->what(), "copy", "copy or assignment changed the text, or did not outlive its source");
  E d(e), f(other); d = f; c.check(o == d.what() && t == e.what() && o == f.what(), "assign", "assignment is not independent"); d = *&d; c.check(o == d.what(), "self-assign", "self assignment changed the text");
  static_assert(noexcept(std::declval<const E&>().what()), "what() must not throw"); c.seen(mon::hcomb(mon::hashStr(t), typeid(E).hash_code()));
}
} // namespace
SECTION(exceptions, 4) {
  auto one = [&](auto tag) { typedef decltype(tag) E; Loc l = loc(c), m = loc(c); life<E>(c, make0<E>(l), make0<E>(m), l, {}); };
  c.cases(2500, [&] { one(Exception()); });
  c.cases(2500, [&] { one(InvalidOperationException()); });
  c.cases(2500, [&] { one(NullPointerException()); });
  auto withArg = [&](auto x, auto y) { typedef decltype(x) X; Loc l = loc(c), m = loc(c); typedef BadArgumentException<X> B; typedef OutOfBoundException<X> O;
    life<B>(c, make1<B>(x, l), make1<B>(y, m), l, {shown(x)}); life<O>(c, make1<O>(x, l), make1<O>(y, m), l, {shown(x)}); life<O>(c, make2<O>(x, y, l), make2<O>(y, x, m), l, {shown(x), shown(y)}); };
  c.cases(1000, [&] { withArg((int)c.rng.next(), (int)c.rng.next()); });
  c.cases(1000, [&] { withArg((size_t)c.rng.next(), (size_t)c.rng.below(100)); });
  c.cases(1000, [&] { withArg(c.rng.coin(0.1) ? INFINITY : c.rng.coin(0.1) ? NAN : c.rng.signedLog(1e-300, 1e300), c.rng.normal()); });
  c.cases(1000, [&] { withArg(std::make_pair(1, 2).first + (long)c.rng.next(), -(long)c.rng.below(1000)); });
  c.cases(500, [&] { Eigen::Vector3d a(c.rng.normal(), c.rng.normal(), 0), b(1, 2, c.rng.normal()); withArg(a, b); });
  c.cases(500, [&] { Eigen::VectorXd a(c.rng.below(5)), b(c.rng.below(5)); a.setOnes(); b.setConstant(2); withArg(a, b); });
  c.cases(300, [&] { Exception e; InvalidOperationException i; NullPointerException n; c.check(std::string(e.what()).find('[') == std::string::npos && std::string(i.what()).find('[') == std::string::npos, "default", "a default exception shows a location"); c.check(has(n.what(), "null pointer"), "null-pointer", "\"%s\"", n.what()); Loc l = loc(c); NullPointerException k(make0<NullPointerException>(l)); c.check(has(k.what(), "null pointer"), "null-pointer", "\"%.100s\"", k.what()); });
}
