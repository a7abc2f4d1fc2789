#include <sm/kinematics/kin_base.hpp>
