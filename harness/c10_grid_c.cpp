#include "c10_grid.hpp"
SECTION(int1, 1) { c.cases(400, [&] { one<int, 1>(c, 1); }); }
SECTION(int2, 1) { c.cases(250, [&] { one<int, 2>(c, 2); }); }
