// Stand-in for the messages of the car's bus
#ifndef SHIM_CAN_PRIUS_HPP
#define SHIM_CAN_PRIUS_HPP
#include <ros/standin.hpp>
namespace can_prius {
struct FrontWheelsSpeedMsg { std_msgs::Header header; double Left = 0, Right = 0; };
struct RearWheelsSpeedMsg { std_msgs::Header header; double Left = 0, Right = 0; };
struct Steering1Msg { std_msgs::Header header; double value = 0; };
SHIM_MESSAGE(FrontWheelsSpeedMsg) SHIM_MESSAGE(RearWheelsSpeedMsg) SHIM_MESSAGE(Steering1Msg)
}
#endif
