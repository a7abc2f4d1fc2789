#pragma once
#include <aslam/backend/expressions.hpp>
