#include <sm/kinematics/kin.hpp>
