// Stand-in for numpy_eigen: Boost.Python with Eigen; matrices reach Python by value through a converter
// registered by the monitor, as the numpy_eigen module does with arrays.
#pragma once
#include <boost/python.hpp>
#include <Eigen/Core>
