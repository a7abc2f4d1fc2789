// C27: geodetic conversions of the car example against the definition of the ellipsoid
#include "monitor.hpp"
#include <Eigen/Dense>
#include <aslam/calibration/car/geo/geodetic.h>
using namespace aslam::calibration; typedef Eigen::Vector3d V; typedef Eigen::Matrix3d M;
namespace {
double latitude(mon::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return r.coin() ? M_PI / 2 : -M_PI / 2; case 2: return (r.coin() ? 1 : -1) * (M_PI / 2 - r.logu(1e-12, 1e-2)); case 3: return r.signedLog(1e-12, 1e-2); case 4: return (r.coin() ? 1 : -1) * M_PI / 4; default: return r.uni(-M_PI / 2, M_PI / 2); } }
double longitude(mon::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return r.coin() ? M_PI : -M_PI; case 2: return (r.coin() ? 1 : -1) * (M_PI - r.logu(1e-12, 1e-2)); case 3: return r.coin() ? M_PI / 2 : -M_PI / 2; case 4: return r.uni(0, 2 * M_PI); default: return r.uni(-M_PI, M_PI); } }
double altitude(mon::Rng& r) { switch (r.below(4)) { case 0: return 0; case 1: return r.uni(-11000, 9000); case 2: return r.logu(1e-3, 4e7); default: return r.uni(0, 500); } }
V up(double lat, double lon) { return V(std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)); }
V east(double lon) { return V(-std::sin(lon), std::cos(lon), 0); }
V north(double lat, double lon) { return V(-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)); }
V ecef(double lat, double lon, double h) { V p; wgs84ToEcef(lat, lon, h, p(0), p(1), p(2)); return p; }
const double A = 6378137, B = A * (1 - 1 / 298.257223563);
}
SECTION(ellipsoid, 3) {
  c.cases(60000, [&] {
    const double lat = latitude(c.rng), lon = longitude(c.rng), h = altitude(c.rng); c.note("latitude %.17g longitude %.17g altitude %.17g", lat, lon, h);
    const V p = ecef(lat, lon, h), n = up(lat, lon), s = p - h * n; const double tol = 1e-3 + 1e-9 * std::fabs(h);
    // the foot of the altitude lies on the ellipsoid and the normal there is the direction asked for
    const V g(s(0) / (A * A), s(1) / (A * A), s(2) / (B * B)); const double gap = (s(0) * s(0) + s(1) * s(1)) / (A * A) + s(2) * s(2) / (B * B) - 1;
    c.check(std::fabs(gap) / (2 * g.norm()) <= tol, "not-on-ellipsoid", "off the ellipsoid by %.6g m", gap / (2 * g.norm()));
    c.check((g.normalized() - n).norm() * A <= 2 * tol, "normal", "the ellipsoid's normal is off by %.6g m", (g.normalized() - n).norm() * A);
    c.check(g.dot(n) > 0, "normal", "pointing inwards");
    // and small steps go where they should
    const double d = 1e-5; const V dn = (ecef(lat + d, lon, h) - ecef(lat - d, lon, h)) / (2 * d), de = (ecef(lat, lon + d, h) - ecef(lat, lon - d, h)) / (2 * d), du = (ecef(lat, lon, h + 100) - ecef(lat, lon, h - 100)) / 200; const double R = A + std::fabs(h);
    c.check(dn.dot(north(lat, lon)) > 0.9 * (B * B / A + h) && dn.cross(north(lat, lon)).norm() < 1e-6 * R, "north-step", "latitude step"); c.check(de.cross(east(lon)).norm() < 1e-6 * R && de.dot(east(lon)) >= -1e-6 * R, "east-step", "longitude step"); c.check((du - n).norm() < 1e-8 * (1 + R / A), "up-step", "altitude step");
    c.count("points"); c.seen(mon::hcomb(mon::hd(lat), mon::hcomb(mon::hd(lon), mon::hd(h)))); c.sample(std::to_string(lat) + " " + std::to_string(lon) + " " + std::to_string(h));
  });
}
SECTION(frames, 3) {
  c.cases(40000, [&] {
    const double lat = latitude(c.rng), lon = longitude(c.rng); const V o = c.rng.coin(0.7) ? ecef(lat, lon, altitude(c.rng)) : V(c.rng.normal() * 1e6, c.rng.normal() * 1e6, c.rng.normal() * 1e6);
    c.note("latitude %.17g longitude %.17g origin %.17g %.17g %.17g", lat, lon, o(0), o(1), o(2)); M enu, ned; enu << east(lon), north(lat, lon), up(lat, lon); ned << north(lat, lon), east(lon), -up(lat, lon);
    struct K { const char* name; sm::kinematics::Transformation to, from; M axes; } k[2] = {{"east-north-up", ecef2enu(o(0), o(1), o(2), lat, lon), enu2ecef(o(0), o(1), o(2), lat, lon), enu}, {"north-east-down", ecef2ned(o(0), o(1), o(2), lat, lon), ned2ecef(o(0), o(1), o(2), lat, lon), ned}};
    const V q = o + V(c.rng.normal(), c.rng.normal(), c.rng.normal()) * c.rng.logu(1e-2, 1e6); const double tol = 1e-12 * (o.norm() + q.norm()) * 10 + 1e-12;
    for (auto& f : k) {
      const M R = f.from.C(); c.check((R.transpose() * R - M::Identity()).norm() < 1e-12 && std::fabs(R.determinant() - 1) < 1e-12, "not-rigid", "%s", f.name);
      c.check((R - f.axes).norm() < 1e-9, "axes", "%s: axes off by %.3g", f.name, (R - f.axes).norm());
      c.check((f.from.t() - o).norm() == 0 && (f.from * V(0, 0, 0) - o).norm() == 0, "origin", "%s", f.name); c.check((f.to * o).norm() <= tol, "origin", "%s: origin at %.3g", f.name, (f.to * o).norm());
      c.check((f.to * q - f.axes.transpose() * (q - o)).norm() <= tol + 1e-9 * (q - o).norm(), "coordinates", "%s", f.name);
      c.check((f.from * (f.to * q) - q).norm() <= tol && (f.to * (f.from * (q - o)) - (q - o)).norm() <= tol, "not-inverse", "%s", f.name);
      c.check(std::fabs((f.to * q - f.to * o).norm() - (q - o).norm()) <= tol, "not-rigid", "%s: distance", f.name);
    }
    const V e = k[0].to * q, n = k[1].to * q; c.check((V(e(1), e(0), -e(2)) - n).norm() <= tol + 1e-9 * (q - o).norm(), "frames-disagree", "the two frames");
    c.count("origins"); c.seen(mon::hcomb(mon::hd(lat), mon::hcomb(mon::hd(lon), mon::hd(o(0)))));
  });
}
