#include <poslv/standin.hpp>
