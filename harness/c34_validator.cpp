// C34: the camera validator
#include "c33_common.hpp"
using namespace aslam::calibration; using namespace cam; typedef CameraValidator Val;
namespace {
SECTION(validator, 4) {
  c.cases(150, [&] {
    auto& r = c.rng; const Camera camera(r); Camera used = camera; for (int i = 0; i < used.p.size(); ++i) used.p(i) *= r.uni(0.99, 1.01); used.ru = camera.ru - (int)r.below(120); Board board{2 + r.below(5), 2 + r.below(5), r.uni(0.02, 0.2), r.uni(0.02, 0.2)}; Val::Options o; boardOptions(r, o, board); o.sigma2 = r.logu(0.5, 200); o.cameraProjectionType = r.coin() ? "omni" : "pinhole"; PT t, in; boardTree(t, o); used.write(in, "");
    Muted mute; shim::detection() = shim::Detection(); if (r.coin(0.04)) { in.setString("projection/type", "fisheye"); std::string k; try { if (r.coin()) Val x(in, t); else Val x(in, o); } catch (const BadArgumentException<std::string>&) { k = "argument"; } catch (...) { k = "other"; } c.check(k == "argument", "unknown-type", "a camera of unknown type is not refused"); return; }
    boost::shared_ptr<Val> vp(r.coin() ? new Val(in, t) : new Val(in, o)); Val& v = *vp; judgeVision(c, o, v.getOptions(), camera.omni); const Camera held(*shim::detection().geometry); c.check(held.p == used.p && held.d == used.d && held.ru == used.ru && held.rv == used.rv, "intrinsics", "the camera is not the one given");
    std::vector<V2> err; std::vector<std::shared_ptr<const shim::Scene>> obs; std::string ops; const int steps = 1 + (int)r.below(10); double when = 0; int id = 1;
    auto errors = [&](const shim::Scene& s, std::vector<V2>& e, std::vector<size_t>* which = nullptr) { for (size_t i = 0; i < board.size(); ++i) { V2 k; if (s.seen[i] && used.see(s.pose, board.point(i), k)) { e.push_back(k - s.corner[i]); if (which) which->push_back(i); } } };
    for (int s = 0; s <= steps; ++s) {
      if (s) { if (r.coin(0.2)) { ops += 'b'; c.check(!v.addImage(blank(r), 5), "blank-accepted", "result"); } else { TF T = pose(r, board, 0.7); if (r.coin(0.2)) T = TF(T.q(), T.t() + rnd(r, 0.3)); const cv::Mat m = image(r, camera, board, T, r.uni(0, 3), r.coin() ? 0 : r.uni(0, 0.8), id++); when += r.uni(0.01, 5); ops += 'a'; c.check(v.addImage(m, (sm::timing::NsecTime)(when * 1e9)), "image-refused", "result"); c.check(std::fabs(shim::detection().times.back() - when) < 1e-6, "time", "searched at another time"); errors(*m.scene, err); obs.push_back(m.scene); } }
      std::vector<std::shared_ptr<const shim::Scene>> got; for (auto& x : v.getObservations()) got.push_back(x->image().scene); c.check(got == obs, "observations", "%zu want %zu", got.size(), obs.size());
      const auto& e = v.getErrors(); const auto& md = v.getMahalanobisDistances(); if (!c.check(e.size() == err.size() && md.size() == err.size(), "errors", "%zu errors, %zu distances, %zu corners", e.size(), md.size(), err.size())) return;
      size_t edges = 0; const double p = r.coin() ? 0.975 : r.uni(0.05, 0.999); size_t n = 0; std::vector<bool> taken(err.size(), false); for (size_t i = 0; i < e.size(); ++i) { bool ok = (e[i] - err[i]).norm() < 1e-7 * (1 + err[i].norm()); c.check(ok, "errors", "error %zu is (%g, %g) want (%g, %g)", i, e[i](0), e[i](1), err[i](0), err[i](1)); const double x = err[i].squaredNorm() / o.sigma2; c.check(std::fabs(md[i] - x) <= 1e-7 * (1 + x), "distances", "error %zu: %g want %g", i, md[i], x); n += x > quantile(p); edges += std::fabs(x - quantile(p)) < 1e-6; }
      const size_t out = p == 0.975 ? v.getNumOutliers() : v.getNumOutliers(p); c.check(edges || out == n, "outliers", "%zu beyond quantile %g, want %zu", out, p, n);
      const Stats st = stats(err); const double tol = 1e-7 * (1 + st.max.norm()); c.check(std::fabs(v.getReprojectionErrorMaxXError() - st.max(0)) < tol && std::fabs(v.getReprojectionErrorMaxYError() - st.max(1)) < tol, "maxima", "%g %g want %g %g", v.getReprojectionErrorMaxXError(), v.getReprojectionErrorMaxYError(), st.max(0), st.max(1));
      if (st.sound) { c.check(v.getReprojectionErrorMean().size() == 2 && (v.getReprojectionErrorMean() - V(st.mean)).norm() < tol, "mean", "mean"); c.check(v.getReprojectionErrorVariance().size() == 2 && (v.getReprojectionErrorVariance() - V(st.var)).norm() < tol * (1 + st.max.norm()), "variance", "variance"); c.check(v.getReprojectionErrorStandardDeviation().size() == 2 && (v.getReprojectionErrorStandardDeviation() - V(st.var.cwiseSqrt())).norm() < 1e-6 * (1 + st.max.norm()), "deviation", "standard deviation"); c.count("statistics compared"); }
      else if (err.empty()) c.check(!v.getReprojectionErrorMean().size() && !v.getReprojectionErrorVariance().size() && !v.getReprojectionErrorStandardDeviation().size(), "mean", "statistics of nothing");
      // the picture of the last board
      cv::Mat m; std::vector<V2> le; std::vector<size_t> which; if (!obs.empty()) errors(*obs.back(), le, &which); if (obs.empty()) { v.getLastImage(m); c.check(m.empty(), "last-image", "a picture of nothing"); continue; } const Stats ls = stats(le); if (!ls.sound) continue; v.getLastImage(m); if (!c.check(!m.empty() && m.scene == obs.back() && m.drawn, "last-image", "not the last image")) continue;
      c.check(obs.back() && m.rows == camera.rv && m.cols == camera.ru, "last-image", "size"); auto mark = [&](char kind, int b, int g, int rr) { std::multiset<std::pair<int, int>> q; for (auto& d : *m.drawn) if (d.kind == kind && d.b == b && d.g == g && d.r == rr) q.insert({d.x0, d.y0}); return q; };
      std::multiset<std::pair<int, int>> green, red; bool fuzzy = false; for (size_t i = 0; i < which.size(); ++i) { const V2 a = obs.back()->corner[which[i]], b = a + le[i]; for (double z : {a(0), a(1), b(0), b(1)}) fuzzy |= std::fabs(z - std::floor(z) - 0.5) < 1e-6; green.insert({(int)std::lrint(a(0)), (int)std::lrint(a(1))}); red.insert({(int)std::lrint(b(0)), (int)std::lrint(b(1))}); } if (!fuzzy) { c.check(mark('c', 0, 255, 0) == green, "last-image-marks", "measured corners"); c.check(mark('c', 0, 0, 255) == red, "last-image-marks", "predicted corners"); }
      std::string text; for (auto& d : *m.drawn) if (d.kind == 't') text += d.text + "\n"; auto num = [&](const std::string& k, size_t from = 0) { const size_t q = text.find(k, from); return q == std::string::npos ? std::nan("") : std::strtod(text.c_str() + q + k.size(), nullptr); }; auto same = [](double a, double b) { return std::fabs(a - b) <= 2e-5 * (1e-6 + std::fabs(b)); };
      c.check(same(num("avg = "), ls.norm / (double)ls.n), "last-image-average", "average %g, want %g over %zu of %zu corners", num("avg = "), ls.norm / (double)ls.n, ls.n, board.size()); c.check(same(num("max = "), ls.maxNorm), "last-image-max", "maximum %g want %g", num("max = "), ls.maxNorm); size_t lo = 0, lg = 0; for (auto& x : le) { const double d = x.squaredNorm() / o.sigma2; lo += d > quantile(0.975); lg += std::fabs(d - quantile(0.975)) < 1e-6; } c.check(lg || num("outliers = ") == (double)lo, "last-image-outliers", "%g want %zu", num("outliers = "), lo); const size_t second = text.find("mean = ["); c.check(std::fabs(num("mean = [") - ls.mean(0)) <= 2e-5 * (1e-3 + std::fabs(ls.mean(0))), "last-image-mean", "mean"); c.check(same(num("std = ["), std::sqrt(ls.var(0))), "last-image-deviation", "deviation"); c.check(same(num("max = [", second), ls.max(0)), "last-image-maxima", "maxima"); c.count("pictures compared");
    }
    if (err.size()) c.seen(mon::hcomb(mon::hashStr(ops), mon::hd(err[0](0)))); c.count("corners compared", err.size()); c.sample(std::string(camera.name()) + " " + ops);
  });
}
}
