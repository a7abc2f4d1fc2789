#include "c10_grid.hpp"
SECTION(double4, 1) { c.cases(100, [&] { one<double, 4>(c, 4); }); }
SECTION(float2, 1) { c.cases(250, [&] { one<float, 2>(c, 2); }); }
SECTION(float1, 1) { c.cases(250, [&] { one<float, 1>(c, 1); }); }
