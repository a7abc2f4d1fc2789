#include "c16_common.hpp"

SECTION(law_uniform, 2) {
  c.cases(6, [&] {
    const double a = c.rng.signedLog(1e-3, 1e3), b = a + c.rng.logu(1e-2, 1e4); c.note("uniform [%g, %g]", a, b); normalStream(c);
    Randomizer<double> r; UniformDistribution<double> d(a, b); std::vector<double> u, v, w;
    for (long i = 0; i < N(c); ++i) { u.push_back((r.sampleUniform(a, b) - a) / (b - a)); v.push_back((d.getSample() - a) / (b - a)); w.push_back(r.sampleUniform()); }
    uniformity(c, u, "uniform"); uniformity(c, v, "uniform-distribution"); uniformity(c, w, "uniform-default"); c.seen(mon::hcomb(mon::hd(a), mon::hd(b))); c.count("draws", 3 * N(c));
  });
  c.cases(3, [&] {
    const float a = (float)c.rng.uni(-100, 100), b = a + (float)c.rng.logu(1, 1e4); c.note("uniform<float> [%g, %g]", a, b); normalStream(c);
    Randomizer<float> r; std::vector<double> u; for (long i = 0; i < N(c); ++i) u.push_back(((double)r.sampleUniform(a, b) - a) / ((double)b - a));
    uniformity(c, u, "uniform-float"); c.seen(mon::hcomb(mon::hd(a), mon::hd(b)));
  });
  auto ints = [&](auto tag, const char* tn) { typedef decltype(tag) T;
    const T a = c.rng.range(-30, 30), b = a + 1 + c.rng.below(12); c.note("uniform<%s> [%ld, %ld]", tn, (long)a, (long)b); normalStream(c);
    Randomizer<T> r; UniformDistribution<T> d(a, b); const size_t n = b - a + 1; std::vector<long> k(n), k2(n);
    for (long i = 0; i < N(c); ++i) { long x = (long)r.sampleUniform(a, b) - a, y = (long)d.getSample() - a; if (x < 0 || x >= (long)n || y < 0 || y >= (long)n) { c.check(false, "support:uniform-int", "drew %ld, %ld", x + a, y + a); return; } ++k[x]; ++k2[y]; }
    cells(c, k, std::vector<double>(n, 1.0 / n), N(c), "uniform-int"); cells(c, k2, std::vector<double>(n, 1.0 / n), N(c), "uniform-int-distribution"); c.seen(mon::hcomb(a, b)); c.count("draws", 2 * N(c)); };
  c.cases(12, [&] { ints(int(), "int"); });
  c.cases(6, [&] { ints(long(), "long"); });
  c.cases(3, [&] { ints(short(), "short"); });
  c.cases(4, [&] { // wide integer range, as a continuous law
    const int a = c.rng.range(-1000000000, 0), b = a + 1000000000 + c.rng.below(100000000); c.note("uniform<int> wide [%d, %d]", a, b); normalStream(c);
    Randomizer<int> r; std::vector<double> u; for (long i = 0; i < N(c); ++i) u.push_back(((double)r.sampleUniform(a, b) - a + 0.5) / ((double)b - a + 1));
    uniformity(c, u, "uniform-int-wide"); c.seen(mon::hcomb(a, b));
  });
  c.cases(4, [&] { // multivariate: margins, pairwise independence
    Eigen::Vector3d a, b; for (int i = 0; i < 3; ++i) { a(i) = c.rng.uni(-10, 10); b(i) = a(i) + c.rng.logu(0.1, 100); } c.note("uniform3 from %g", a(0)); normalStream(c);
    UniformDistribution<double, 3> d(a, b); std::vector<Eigen::Vector3d> s; s.resize(5, a); d.getSamples(s, N(c));
    c.check((long)s.size() == N(c), "samples-size", "asked %ld got %zu", N(c), s.size());
    std::vector<std::vector<double>> u(3); for (auto& x : s) for (int i = 0; i < 3; ++i) u[i].push_back((x(i) - a(i)) / (b(i) - a(i)));
    for (int i = 0; i < 3; ++i) { uniformity(c, u[i], "uniform-mv"); double r = 0; for (size_t k = 0; k < s.size(); ++k) r += (u[i][k] - 0.5) * (u[(i + 1) % 3][k] - 0.5); r *= 12 / std::sqrt((double)s.size()); c.check(std::fabs(r) < 6.5, "dependent:uniform-mv", "components correlate by %g sigma", r); }
    c.seen(mon::hd(a(0)));
  });
  c.cases(3, [&] {
    Eigen::Vector2i a(c.rng.range(-5, 5), c.rng.range(-5, 5)), b = a + Eigen::Vector2i(1 + c.rng.below(3), 1 + c.rng.below(3)); c.note("uniform2i"); normalStream(c);
    UniformDistribution<int, 2> d(a, b); const int w = b(0) - a(0) + 1, h = b(1) - a(1) + 1; std::vector<long> k(w * h);
    for (long i = 0; i < N(c); ++i) { Eigen::Vector2i x = d.getSample() - a; if (x(0) < 0 || x(0) >= w || x(1) < 0 || x(1) >= h) { c.check(false, "support:uniform-mv-int", "outside"); return; } ++k[x(0) * h + x(1)]; }
    cells(c, k, std::vector<double>(w * h, 1.0 / (w * h)), N(c), "uniform-mv-int"); c.seen(mon::hcomb(a(0), b(1) * 64 + a(1)));
  });
}

SECTION(law_normal, 2) {
  c.cases(6, [&] {
    const double m = c.rng.signedLog(1e-2, 1e3), v = c.rng.logu(1e-4, 1e6), sd = std::sqrt(v); c.note("normal(%g, %g)", m, v); normalStream(c);
    Randomizer<double> r; NormalDistribution<1> d(m, v); std::vector<double> u, w, s; for (long i = 0; i < N(c); ++i) { u.push_back(Phi((r.sampleNormal(m, v) - m) / sd)); w.push_back(Phi((d.getSample() - m) / sd)); s.push_back(Phi(r.sampleNormal())); }
    uniformity(c, u, "normal"); uniformity(c, w, "normal-distribution"); uniformity(c, s, "normal-default"); c.seen(mon::hcomb(mon::hd(m), mon::hd(v))); c.count("draws", 3 * N(c));
    const double m2 = m + 3 * sd, v2 = v * 4; d.setMean(m2); d.setVariance(v2); std::vector<double> xs(3, 0), u2; d.getSamples(xs, N(c)); c.check((long)xs.size() == N(c), "samples-size", "asked %ld got %zu", N(c), xs.size());
    for (double x : xs) u2.push_back(Phi((x - m2) / (2 * sd))); uniformity(c, u2, "normal-distribution-after-set");
  });
  c.cases(6, [&] {
    const int m = c.rng.range(-20, 20), v = c.rng.range(1, 60); const double sd = std::sqrt((double)v); c.note("normal<int>(%d, %d)", m, v); normalStream(c);
    Randomizer<int> r; const int h = (int)std::ceil(3 * sd); std::vector<long> k(2 * h + 3); std::vector<double> p(2 * h + 3);
    for (int i = -h - 1; i <= h + 1; ++i) p[i + h + 1] = i == -h - 1 ? Phi((i + 0.5) / sd) : i == h + 1 ? Phi(-(i - 0.5) / sd) : Phi((i + 0.5) / sd) - Phi((i - 0.5) / sd);
    for (long i = 0; i < N(c); ++i) { int x = r.sampleNormal(m, v) - m; ++k[std::max(-h - 1, std::min(h + 1, x)) + h + 1]; }
    cells(c, k, p, N(c), "normal-int"); c.seen(mon::hcomb(m, v));
  });
  auto mv = [&](auto tag) { const int M = decltype(tag)::value; typedef Eigen::Matrix<double, M, 1> V;
    Eigen::Matrix<double, M, M> C = gen::cov<M>(c, 1e-2, 1e2); V m; for (int i = 0; i < M; ++i) m(i) = c.rng.signedLog(1e-2, 1e2); c.note("normal%d mean %g var %g", M, m(0), C(0, 0)); normalStream(c);
    NormalDistribution<M> d(m, C); if (c.rng.coin()) { d.setCovariance(Eigen::Matrix<double, M, M>::Identity()); d.setCovariance(C); }
    ref::Spd S(M, gen::rowMajor(C)); std::vector<std::vector<double>> z(M), u(M); const long n = N(c);
    std::vector<V, Eigen::aligned_allocator<V>> s; for (long k = 0; k < n; ++k) { V x = d.getSample(); auto e = gen::diff(x, m); for (int i = 0; i < M; ++i) { L t = e[i]; for (int j = 0; j < i; ++j) t -= S.l[i * M + j] * (L)z[j].back(); z[i].push_back((double)(t / S.l[i * M + i])); u[i].push_back(Phi(z[i].back())); } }
    for (int i = 0; i < M; ++i) { uniformity(c, u[i], "normal-mv"); for (int j = 0; j < i; ++j) { double r = 0, q = 0; for (long k = 0; k < n; ++k) { r += z[i][k] * z[j][k]; q += (z[i][k] * z[i][k] - 1) * (z[j][k] * z[j][k] - 1); } r /= std::sqrt((double)n); q /= 2 * std::sqrt((double)n);
      c.check(std::fabs(r) < 6.5, "covariance:normal-mv", "whitened components %d, %d correlate by %g sigma", i, j, r); c.check(std::fabs(q) < 10, "dependent:normal-mv", "squares of whitened components %d, %d correlate by %g sigma", i, j, q); } }
    c.seen(mon::hcomb(M, mon::hd(C(0, 0)))); c.count("draws", n * M); };
  c.cases(4, [&] { mv(std::integral_constant<int, 2>()); });
  c.cases(4, [&] { mv(std::integral_constant<int, 3>()); });
  c.cases(2, [&] { mv(std::integral_constant<int, 5>()); });
}

