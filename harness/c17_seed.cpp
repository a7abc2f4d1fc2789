#include "c17_common.hpp"
namespace {
template <class T> std::vector<std::shared_ptr<Randomizer<T>>> pool(int n) { std::vector<std::shared_ptr<Randomizer<T>>> v; for (int i = 0; i < n; ++i) v.push_back(std::make_shared<Randomizer<T>>()); return v; }
template <int M> Op distMv(mon::Ctx& c) {
  Eigen::Matrix<double, M, 1> a = Eigen::Matrix<double, M, 1>::Zero(), b = a; b.setConstant(10);
  if (c.rng.coin()) return [=](Log& l) { UniformDistribution<double, M> d(a, b); auto x = d.getSample(); for (int i = 0; i < M; ++i) l.push_back(x(i)); };
  return [=](Log& l) { NormalDistribution<M> d; auto x = d.getSample(); for (int i = 0; i < M; ++i) l.push_back(x(i)); };
}
Op dist(mon::Ctx& c) {
  switch (c.rng.below(13)) {
    case 0: return [](Log& l) { l.push_back(NormalDistribution<1>(3, 4).getSample()); };
    case 1: return [](Log& l) { l.push_back(UniformDistribution<double>(-3, 4).getSample()); };
    case 2: return [](Log& l) { l.push_back(UniformDistribution<int>(-300, 400).getSample()); };
    case 3: return [](Log& l) { l.push_back(UniformDistribution<float>(-3, 4).getSample()); };
    case 4: return [](Log& l) { l.push_back(UniformDistribution<long>(-300000, 400000).getSample()); };
    case 5: return [](Log& l) { l.push_back(GammaDistribution<double>(2.5, 1).getSample()); };
    case 6: return [](Log& l) { l.push_back(ChiSquareDistribution(5).getSample()); };
    case 7: return [](Log& l) { std::vector<double> s; NormalDistribution<1>(0, 1).getSamples(s, 3); l.insert(l.end(), s.begin(), s.end()); };
    case 8: return [](Log& l) { Eigen::Vector4d p(0.1, 0.2, 0.3, 0.4); Randomizer<double, 4> r; l.push_back(r.sampleCategorical(p)); };
    case 9: return distMv<2>(c);
    case 10: return distMv<3>(c);
    case 11: return distMv<4>(c);
    default: return [](Log& l) { l.push_back(GammaDistribution<int>(3, 1).getSample()); };
  }
}
/// things that must not disturb the sequence
void bystand(mon::Ctx& c, std::vector<std::shared_ptr<Randomizer<double>>>& gd, std::vector<std::shared_ptr<Randomizer<int>>>& gi) {
  switch (c.rng.below(10)) {
    case 0: { Randomizer<double> r; (void)r; break; }
    case 1: { Randomizer<int> r; Randomizer<float> f; Randomizer<long> q; Randomizer<double, 3> m; break; }
    case 2: { Randomizer<double> r(*gd[0]); Randomizer<double> s; s = *gd.back(); break; }
    case 3: { Randomizer<int> r(*gi[0]); *gi.back() = r; break; }
    case 4: { NormalDistribution<1> d(1, 2); NormalDistribution<1> e(d); e = d; e.pdf(0.5); break; }
    case 5: { NormalDistribution<3> d; NormalDistribution<3> e(d); d = e; break; }
    case 6: { UniformDistribution<double> d(0, 3); UniformDistribution<int> i(0, 3); i.pmf(2); d.getMean(); break; }
    case 7: { GammaDistribution<double> g(2, 3); ChiSquareDistribution q(4); g.cdf(1); q.invcdf(0.5); break; }
    case 8: { std::ostringstream o; o << *gd[0] << *gi[0]; break; }
    default: { Randomizer<double>::getSeed(); Randomizer<int>::getSeed(); std::vector<double> s(4); NormalDistribution<1>().getSamples(s, 0); }
  }
}
template <class T> void seedBy(int how, long seed, std::vector<std::shared_ptr<Randomizer<T>>>& g) {
  if (how == 0) g[0]->setSeed(T(seed)); else if (how == 1) g.back()->setSeed(T(seed)); else { Randomizer<T> r((T(seed))); }
}
} // namespace

SECTION(sequences, 8) { // each shard process also meets first uses at its own points
  auto gd = pool<double>(3); auto gi = pool<int>(3); auto gf = pool<float>(2); auto gl = pool<long>(2); auto gu = pool<size_t>(2);
  c.cases(1500, [&] {
    std::vector<Op> prog; const int n = 4 + c.rng.below(24); std::vector<int> kinds;
    for (int i = 0; i < n; ++i) { const int k = c.rng.below(8); kinds.push_back(k);
      prog.push_back(k < 2 ? Ops<double>::draw(c, gd) : k == 2 ? Ops<int>::draw(c, gi) : k == 3 ? Ops<float>::draw(c, gf) : k == 4 ? Ops<long>::draw(c, gl) : dist(c)); }
    const long seed = c.rng.coin(0.2) ? (long)c.rng.below(4) : c.rng.coin() ? c.rng.range(2, 16777216) : c.rng.range(2, 2000000000);
    const int how = c.rng.below(3), who = c.rng.below(4); c.note("seed %ld by %d/%d, program", seed, how, who); for (int k : kinds) c.noteAdd(" %d", k);
    auto seedIt = [&](long s) { if (who == 0) seedBy(how, s, gd); else if (who == 1) seedBy(how, s, gi); else if (who == 2) seedBy(how, s, gl); else seedBy(how, s, gu); };
    Log a, b, d, e;
    seedIt(seed); const double got = who == 1 ? (double)Randomizer<int>::getSeed() : Randomizer<double>::getSeed(); c.check(got == (double)seed, "seed-reported", "set %ld, reported %.17g", seed, got);
    for (auto& o : prog) o(a);
    { Log junk; for (int i = c.rng.below(5); i-- > 0;) prog[c.rng.below(prog.size())](junk); }
    seedIt(seed); for (auto& o : prog) { if (c.rng.coin(0.6)) bystand(c, gd, gi); o(b); }
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    c.check(a.size() == b.size() && i == a.size(), "same-seed-differs", "draw %zu of %zu: %.17g then %.17g", i, a.size(), i < a.size() ? a[i] : NAN, i < b.size() ? b[i] : NAN);
    { Randomizer<long> r(seed); for (auto& o : prog) o(e); c.check(e == a, "seed-type-matters", "seeding through another generator type gives another sequence"); }
    long other = seed + 1 + c.rng.below(1000); if (seed < 2) other += 2;
    seedIt(other); Log a4, d4; for (int k = 0; k < 4; ++k) d4.push_back(gd[0]->sampleUniform()); seedIt(seed); for (int k = 0; k < 4; ++k) a4.push_back(gd[0]->sampleUniform());
    c.check(a4 != d4, "different-seeds-agree", "seeds %ld and %ld give the same draws", seed, other);
    c.check(!(a4[0] == a4[1] && a4[1] == a4[2]), "constant-draws", "three equal draws %g", a4[0]);
    uint64_t h = seed; for (int k : kinds) h = mon::hcomb(h, k); c.seen(h); c.count("draws", a.size() * 3);
  });
  c.cases(200, [&] { // seeds at the limits repeat too
    const double s[] = {-1, -5, 4294967295.0, 4294967296.0, 1e15, -1e15, 0.5, 1e300, -1e300}; const double x = s[c.rng.below(9)]; c.note("seed %g", x);
    Log a, b; gd[0]->setSeed(x); for (int k = 0; k < 5; ++k) a.push_back(gd[1]->sampleUniform()); gd[2]->setSeed(x); for (int k = 0; k < 5; ++k) b.push_back(gd[0]->sampleUniform());
    c.check(a == b, "same-seed-differs", "limit seed"); c.seen(mon::hd(x));
    for (int v : {-1, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}) { Log p, q; gi[0]->setSeed(v); for (int k = 0; k < 5; ++k) p.push_back(gi[1]->sampleUniform(0, 1000)); gi[2]->setSeed(v); for (int k = 0; k < 5; ++k) q.push_back(gi[0]->sampleUniform(0, 1000)); c.check(p == q, "same-seed-differs", "limit seed %d", v); }
    Log before, after; gd[0]->setSeed(42); before.push_back(gd[0]->sampleUniform()); bool t = mon::throwsAny([&] { gd[0]->setSeed(NAN); }); after.push_back(gd[0]->sampleUniform());
    gd[0]->setSeed(42); before.push_back(gd[0]->sampleUniform()); double nx = gd[0]->sampleUniform(); if (t) c.check(nx == after[0] && before[0] == before[1], "refused-seed-disturbs", "a refused seed changed the sequence");
  });
}
SECTION(first_use, 16) { // a draw that instantiates its generator for the first time, in the middle of a sequence
  c.cases(16, [&] {
    const int id = c.shard % 16; c.note("first use %d", id);
    Op o[16] = {
      [](Log& l) { l.push_back(NormalDistribution<1>(0, 1).getSample()); }, [](Log& l) { l.push_back(UniformDistribution<double>(0, 9).getSample()); },
      [](Log& l) { l.push_back(UniformDistribution<int>(0, 999).getSample()); }, [](Log& l) { l.push_back(UniformDistribution<float>(0, 9).getSample()); },
      [](Log& l) { l.push_back(UniformDistribution<long>(0, 999).getSample()); }, [](Log& l) { l.push_back(GammaDistribution<double>(2.5, 9).getSample()); },
      [](Log& l) { l.push_back(GammaDistribution<int>(2, 9).getSample()); }, [](Log& l) { l.push_back(ChiSquareDistribution(4).getSample()); },
      [](Log& l) { l.push_back(NormalDistribution<2>().getSample()(0)); }, [](Log& l) { l.push_back(NormalDistribution<3>().getSample()(0)); },
      [](Log& l) { l.push_back(NormalDistribution<5>().getSample()(0)); }, [](Log& l) { l.push_back(UniformDistribution<double, 2>(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 1)).getSample()(0)); },
      [](Log& l) { l.push_back(UniformDistribution<int, 2>(Eigen::Vector2i(0, 0), Eigen::Vector2i(100, 100)).getSample()(0)); }, [](Log& l) { Randomizer<float> r; l.push_back(r.sampleUniform()); },
      [](Log& l) { Randomizer<short> r; l.push_back(r.sampleUniform(0, 10000)); }, [](Log& l) { Randomizer<double, 6> r; l.push_back(r.sampleCategorical()); l.push_back(r.sampleNormal()); }};
    Log a, b; Randomizer<double> r; r.setSeed(1234 + id);
    a.push_back(r.sampleUniform()); o[id](a); for (int k = 0; k < 6; ++k) a.push_back(r.sampleNormal());
    usleep(1500); // a generator that seeds itself from the clock would now choose another seed
    r.setSeed(1234 + id); b.push_back(r.sampleUniform()); o[id](b); for (int k = 0; k < 6; ++k) b.push_back(r.sampleNormal());
    c.check(a == b, "first-use-disturbs", "the sequence after the first use of sampler %d is not repeated", id); c.seen(id);
  });
}
