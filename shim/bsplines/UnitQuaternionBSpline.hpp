#pragma once
#include <bsplines/splines.hpp>
