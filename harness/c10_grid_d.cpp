#include "c10_grid.hpp"
SECTION(long3, 1) { c.cases(150, [&] { one<long, 3>(c, 3); }); }
SECTION(dynamic, 1) { c.cases(250, [&] { one<double, Eigen::Dynamic>(c, 1 + (int)c.rng.below(8)); }); }
SECTION(long5, 1) { c.cases(80, [&] { one<long, 5>(c, 5); }); }
SECTION(float6, 1) { c.cases(80, [&] { one<float, 6>(c, 6); }); }
// senseless constructor arguments
SECTION(refused, 2) {
  typedef Grid<double, char, 2> G; typedef G::Coordinate Co;
  c.cases(1500, [&] {
    Co mn(c.rng.uni(-5, 0), c.rng.uni(-5, 0)), mx(c.rng.uni(1, 5), c.rng.uni(1, 5)), rs(c.rng.uni(0.2, 1), c.rng.uni(0.2, 1));
    bool bad = true; int i = (int)c.rng.below(2), k = (int)c.rng.below(11);
    switch (k) {
      case 0: rs(i) = 0; break; case 1: rs(i) = -rs(i); break; case 2: std::swap(mn(i), mx(i)); break; case 3: mx(i) = mn(i); break;
      case 4: rs(i) = (mx(i) - mn(i)) * 1.001; break; case 5: rs(i) = NAN; break; case 6: mn(i) = NAN; break; case 7: mx(i) = NAN; break;
      case 8: if (c.rng.coin()) mx(i) = INFINITY; else mn(i) = -INFINITY; break; case 9: rs(i) = c.rng.coin() ? INFINITY : 1e-300; break;
      default: bad = false;
    }
    std::ostringstream o; o.precision(17); o << "min=" << mn.transpose() << " max=" << mx.transpose() << " res=" << rs.transpose();
    c.note("%s", o.str().c_str());
    int threw = 0; try { G g(mn, mx, rs); } catch (const BadArgumentException<Co>&) { threw = 1; }
    c.check(threw == bad, bad ? "senseless-arguments-accepted" : "sensible-arguments-refused", "kind %d", k);
    c.seen(mon::hashStr(o.str())); c.count(bad ? "refused" : "accepted");
  });
  typedef Grid<int, char, 1> GI; typedef GI::Coordinate Ci;
  c.cases(300, [&] {
    int mn = (int)c.rng.range(-9, 9), mx = (int)c.rng.range(-9, 20), rs = (int)c.rng.range(-2, 9);
    if (c.rng.coin(0.1)) { mn = std::numeric_limits<int>::min(); mx = std::numeric_limits<int>::max(); }
    Ci a, b, r; a << mn; b << mx; r << rs; c.note("int min=%d max=%d res=%d", mn, mx, rs);
    bool bad = rs <= 0 || mn >= mx || (long)rs > (long)mx - mn || ((long)mx - mn) / rs + 1 > std::numeric_limits<int>::max();
    if (!bad && ((long)mx - mn) / rs > 100000) return; // large but sensible
    int threw = 0; try { GI g(a, b, r); } catch (const BadArgumentException<Ci>&) { threw = 1; }
    c.check(threw == bad, bad ? "senseless-arguments-accepted" : "sensible-arguments-refused");
  });
}
