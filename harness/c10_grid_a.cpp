#include "c10_grid.hpp"
SECTION(double1, 1) { c.cases(400, [&] { one<double, 1>(c, 1); }); }
SECTION(double2, 1) { c.cases(250, [&] { one<double, 2>(c, 2); }); }
SECTION(double3, 1) { c.cases(150, [&] { one<double, 3>(c, 3); }); }
