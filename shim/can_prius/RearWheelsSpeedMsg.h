#include <can_prius/standin.hpp>
