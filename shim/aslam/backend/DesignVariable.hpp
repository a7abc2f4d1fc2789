#pragma once
#include <aslam/backend/core.hpp>
