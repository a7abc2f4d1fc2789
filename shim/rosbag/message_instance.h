#include <ros/standin.hpp>
