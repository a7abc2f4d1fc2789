#ifndef C10_GRID_HPP
#define C10_GRID_HPP
// C10: Grid against its definition.
#include "monitor.hpp"
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
using namespace aslam::calibration;
namespace {
typedef long double LD;
template <class T> struct IsInt { static const bool v = std::numeric_limits<T>::is_integer; };

template <class T, int M> struct Gen {
  typedef Grid<T, int, M> G; typedef typename G::Coordinate Co; typedef typename G::Index Ix;
  mon::Ctx& c; int d; Co mn, mx, rs;
  Gen(mon::Ctx& c, int d) : c(c), d(d), mn(Co::Zero(d)), mx(Co::Zero(d)), rs(Co::Zero(d)) {}
  void make() {
    int cap = d == 1 ? 60 : d == 2 ? 14 : d == 3 ? 7 : d == 4 ? 5 : d <= 6 ? 4 : 3;
    for (int i = 0; i < d; ++i) {
      int n = 1 + (int)c.rng.below(cap);
      if (IsInt<T>::v) {
        long lo = std::numeric_limits<T>::is_signed ? c.rng.range(-50, 50) : c.rng.range(0, 50);
        long r = 1 + c.rng.below(7);
        long w = r * n + (c.rng.coin() ? (long)c.rng.below(r) : 0);
        if (w < r) w = r;
        mn(i) = (T)lo; mx(i) = (T)(lo + w); rs(i) = (T)r;
      } else {
        double r, lo;
        switch (c.rng.below(5)) {
          case 0: r = 0.1 * (1 + c.rng.below(10)); lo = (double)c.rng.range(-20, 20) * r; break;
          case 1: r = 1.0 / (1 + c.rng.below(12)); lo = -1; break;
          case 2: r = c.rng.logu(1e-6, 1e6); lo = c.rng.normal() * r * 100; break;
          case 3: r = c.rng.logu(1e-3, 1e3); lo = c.rng.signedLog(1, 1e7) * r; break;
          default: r = 1 + c.rng.below(4); lo = (double)c.rng.range(-9, 9);
        }
        double w = c.rng.coin() ? r * n : r * (n - 1 + c.rng.u01() + 0.001);
        if (w < r) w = r;
        mn(i) = (T)lo; rs(i) = (T)r; mx(i) = (T)((double)mn(i) + w);
        while (!(rs(i) <= mx(i) - mn(i))) mx(i) = std::max<T>(mx(i) + rs(i) / 4, std::nextafter((T)mx(i), (T)1e30));
      }
    }
  }
  std::string str() const {
    std::ostringstream o; o.precision(17);
    o << (IsInt<T>::v ? "int" : sizeof(T) == 4 ? "float" : "double") << " d=" << d << " min=" << mn.transpose() << " max=" << mx.transpose() << " res=" << rs.transpose();
    return o.str();
  }
  LD tol(int i) const { // rounding slack of one coordinate computation
    LD m = std::max<LD>(std::max(std::fabs((LD)mn(i)), std::fabs((LD)mx(i))), (LD)rs(i));
    return IsInt<T>::v ? 0 : 8 * m * (LD)std::numeric_limits<T>::epsilon();
  }
  /// cell counts allowed per dimension
  bool countOk(int i, long n) const {
    LD q = ((LD)mx(i) - (LD)mn(i)) / (LD)rs(i);
    if (IsInt<T>::v) return n == (long)std::floor(q) + 1;
    LD s = tol(i) / (LD)rs(i) + q * 4 * (LD)std::numeric_limits<T>::epsilon();
    return n == (long)std::ceil(q) || n == (long)std::ceil(q - s) || n == (long)std::ceil(q + s);
  }
};

template <class T, int M> void one(mon::Ctx& c, int d) {
  Gen<T, M> g(c, d); g.make();
  typedef typename Gen<T, M>::G G; typedef typename G::Coordinate Co; typedef typename G::Index Ix;
  c.note("%s", g.str().c_str());
  G grid(g.mn, g.mx, g.rs);
  c.sample(c.crumb);
  c.check(grid.getMinimum() == g.mn && grid.getMaximum() == g.mx && grid.getResolution() == g.rs, "limits-not-kept");
  const Ix nc = grid.getNumCells();
  c.check(nc.size() == d, "wrong-dimension");
  size_t tot = 1;
  for (int i = 0; i < d; ++i) {
    c.check(g.countOk(i, nc(i)), "wrong-cell-count", "dimension %d has %d cells", i, nc(i));
    tot *= nc(i);
  }
  c.check(grid.getNumCellsTot() == tot && grid.getCells().size() == tot, "wrong-total", "%zu want %zu", grid.getNumCellsTot(), tot);
  c.check((size_t)std::distance(grid.getCellBegin(), grid.getCellEnd()) == tot, "iterators-do-not-span-cells");
  for (int v : grid.getCells()) if (!c.check(v == 0, "cell-not-default")) break;
  // walk: every cell exactly once, ends on number of cells
  std::vector<char> vis(tot, 0); Ix idx = Ix::Zero(d); size_t steps = 0; int tag = 1;
  std::map<size_t, int> content;
  while (steps <= tot) {
    if (idx == nc) break;
    if (!c.check(grid.isValidIndex(idx), "walk-leaves-grid")) break;
    size_t lin = grid.computeLinearIndex(idx);
    if (!c.check(lin < tot, "linear-index-outside", "%zu of %zu", lin, tot)) break;
    c.check(!vis[lin], "cell-visited-twice-or-linear-index-collision");
    vis[lin] = 1; grid[idx] = tag; content[lin] = tag; ++tag; ++steps;
    const Co ctr = grid.getCoordinates(idx);
    bool inside = true;
    for (int i = 0; i < d; ++i) {
      LD lo = (LD)g.mn(i) + (LD)idx(i) * (LD)g.rs(i), want = lo + 0.5L * (LD)g.rs(i);
      if (IsInt<T>::v) c.check((LD)ctr(i) >= lo && (LD)ctr(i) < lo + (LD)g.rs(i), "centre-not-in-cell", "dim %d idx %d centre %Lg", i, idx(i), (LD)ctr(i));
      else c.check(std::fabs((LD)ctr(i) - want) <= g.tol(i), "centre-wrong", "dim %d idx %d centre %.17Lg want %.17Lg", i, idx(i), (LD)ctr(i), want);
      if (!(ctr(i) <= g.mx(i) && ctr(i) >= g.mn(i))) inside = false;
    }
    bool resolved = true; for (int i = 0; i < d; ++i) if (g.tol(i) * 4 > (LD)g.rs(i)) resolved = false;
    if (inside && resolved) c.check(grid.getIndex(ctr) == idx, "centre-maps-to-other-cell");
    Ix& r = grid.incrementIndex(idx);
    c.check(&r == &idx, "increment-returns-other-object");
  }
  c.check(steps == tot && idx == nc, "walk-does-not-cover-grid", "%zu of %zu cells", steps, tot);
  for (auto& kv : content) if (!c.check(grid.getCells()[kv.first] == kv.second, "write-reached-other-cell")) break;
  // points
  for (int k = 0; k < 40; ++k) {
    Co p(d); bool inr = true; int what = (int)c.rng.below(6);
    for (int i = 0; i < d; ++i) {
      if (IsInt<T>::v) {
        long lo = (long)g.mn(i), hi = (long)g.mx(i);
        long x = what == 0 ? c.rng.range(lo - 3, hi + 3) : what == 1 ? hi : what == 2 ? lo : c.rng.range(lo, hi);
        if (!std::numeric_limits<T>::is_signed && x < 0) x = 0;
        p(i) = (T)x;
      } else {
        double lo = (double)g.mn(i), hi = (double)g.mx(i), r = (double)g.rs(i);
        switch (what) {
          case 0: p(i) = (T)c.rng.uni(lo - 2 * r, hi + 2 * r); break;
          case 1: p(i) = g.mx(i); if (c.rng.coin()) p(i) = std::nextafter((T)g.mx(i), (T)-1e30); break;
          case 2: p(i) = g.mn(i); if (c.rng.coin(0.2)) p(i) = std::nextafter((T)g.mn(i), (T)-1e30); break;
          case 3: p(i) = (T)(lo + (double)c.rng.below(nc(i) + 1) * r); // cell border
                  if (c.rng.coin(0.3)) p(i) = std::nextafter((T)p(i), (T)1e30); else if (c.rng.coin(0.3)) p(i) = std::nextafter((T)p(i), (T)-1e30); break;
          case 4: p(i) = (T)c.rng.uni(lo, hi); if (c.rng.coin(0.03)) p(i) = (T)NAN; if (c.rng.coin(0.02)) p(i) = (T)INFINITY; break;
          default: p(i) = (T)c.rng.uni(lo, hi);
        }
      }
      if (!(p(i) >= g.mn(i) && p(i) <= g.mx(i))) inr = false;
    }
    std::ostringstream ps; ps.precision(17); ps << p.transpose();
    c.note("%s point=%s", g.str().c_str(), ps.str().c_str());
    c.check(grid.isInRange(p) == inr, "in-range-wrong");
    Ix ip; int threw = 0;
    try { ip = grid.getIndex(p); } catch (const OutOfBoundException<Co>&) { threw = 1; }
    c.check(threw == !inr, inr ? "point-in-box-refused" : "point-outside-accepted");
    if (!inr) {
      c.count("points outside");
      c.check(mon::throwsAs<OutOfBoundException<Co>>([&] { (void)grid(p); }), "access-outside-accepted");
      c.check(mon::throwsAs<OutOfBoundException<Co>>([&] { (void)const_cast<const G&>(grid)(p); }), "const-access-outside-accepted");
      continue;
    }
    c.count("points inside");
    if (threw) continue;
    if (!c.check(grid.isValidIndex(ip), "point-in-box-has-invalid-index")) continue;
    for (int i = 0; i < d; ++i) {
      LD lo = (LD)g.mn(i) + (LD)ip(i) * (LD)g.rs(i), x = (LD)p(i), t = g.tol(i);
      bool last = ip(i) == nc(i) - 1 && p(i) == g.mx(i);
      if (IsInt<T>::v) c.check(x >= lo && x < lo + (LD)g.rs(i), "cell-does-not-contain-point", "dim %d index %d", i, ip(i));
      else c.check(x >= lo - t && (x <= lo + (LD)g.rs(i) + t || last), "cell-does-not-contain-point", "dim %d index %d", i, ip(i));
    }
    // the three ways of reaching a cell are the same cell
    const size_t lin = grid.computeLinearIndex(ip);
    const std::vector<int> before = grid.getCells();
    int nv = 1000000 + k;
    switch (c.rng.below(4)) { case 0: grid(p) = nv; break; case 1: grid[ip] = nv; break; case 2: grid.getCell(ip) = nv; break;
      default: *(grid.getCellBegin() + lin) = nv; }
    const G& cg = grid;
    c.check(grid(p) == nv && cg(p) == nv && grid[ip] == nv && cg[ip] == nv && cg.getCell(ip) == nv && cg.getCells()[lin] == nv && *(cg.getCellBegin() + lin) == nv, "access-paths-disagree");
    int changed = 0; for (size_t q = 0; q < tot; ++q) changed += before[q] != cg.getCells()[q];
    c.check(changed == 1, "write-touched-other-cells", "%d cells changed", changed);
    c.seen(mon::hcomb(mon::hashStr(g.str()), lin));
  }
  // indices outside
  for (int k = 0; k < 12; ++k) {
    Ix q(d); bool ok = true;
    for (int i = 0; i < d; ++i) {
      switch (c.rng.below(6)) { case 0: q(i) = -1 - (int)c.rng.below(3); break; case 1: q(i) = nc(i) + (int)c.rng.below(2); break;
        case 2: q(i) = c.rng.coin() ? std::numeric_limits<int>::min() : std::numeric_limits<int>::max(); break; default: q(i) = (int)c.rng.below(nc(i)); }
      if (q(i) < 0 || q(i) >= nc(i)) ok = false;
    }
    std::ostringstream ps; ps << q.transpose(); c.note("%s index=%s", g.str().c_str(), ps.str().c_str());
    const G& cg = grid;
    c.check(grid.isValidIndex(q) == ok, ok ? "valid-index-refused" : "invalid-index-declared-valid");
    if (!ok) {
      c.count("indices outside");
      if (grid.isValidIndex(q)) continue; // already reported; access would be out of bounds
      c.check(mon::throwsAs<OutOfBoundException<Ix>>([&] { (void)grid[q]; }), "bad-index-accepted");
      c.check(mon::throwsAs<OutOfBoundException<Ix>>([&] { (void)cg[q]; }), "bad-index-accepted");
      c.check(mon::throwsAs<OutOfBoundException<Ix>>([&] { (void)grid.getCell(q); }), "bad-index-accepted");
      c.check(mon::throwsAs<OutOfBoundException<Ix>>([&] { (void)cg.getCell(q); }), "bad-index-accepted");
      c.check(mon::throwsAs<OutOfBoundException<Ix>>([&] { (void)cg.getCoordinates(q); }), "bad-index-accepted");
    }
  }
  // copies are equal and independent
  G cp(grid); G as(g.mn, g.mx, g.rs); as = grid; as = *&as;
  c.check(cp.getCells() == grid.getCells() && as.getCells() == grid.getCells(), "copy-differs");
  c.check(cp.getNumCells() == nc && as.getNumCells() == nc && cp.getNumCellsTot() == tot && as.getNumCellsTot() == tot, "copy-differs");
  c.check(as.getMinimum() == g.mn && as.getMaximum() == g.mx && as.getResolution() == g.rs && cp.getMinimum() == g.mn && cp.getMaximum() == g.mx && cp.getResolution() == g.rs, "copy-differs");
  // assignment onto a grid of another geometry
  { Gen<T, M> g2(c, d); g2.make(); G other(g2.mn, g2.mx, g2.rs); other = grid;
    Ix z = nc; for (int i = 0; i < d; ++i) z(i) -= 1;
    c.check(other.getCells() == grid.getCells() && other[z] == grid[z] && other.computeLinearIndex(z) == grid.computeLinearIndex(z), "assigned-grid-differs"); }
  const std::vector<int> keep = grid.getCells();
  cp.reset();
  for (int v : cp.getCells()) if (!c.check(v == 0, "reset-leaves-cell")) break;
  c.check(cp.getCells().size() == tot, "reset-resizes");
  c.check(grid.getCells() == keep && as.getCells() == keep, "copies-share-cells");
}
}
#endif
