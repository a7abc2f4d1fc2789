// Stand-in for the messages of the navigation unit
#ifndef SHIM_POSLV_HPP
#define SHIM_POSLV_HPP
#include <ros/standin.hpp>
namespace poslv {
struct TimeDistance { double time1 = 0, time2 = 0, distanceTag = 0; };
struct VehicleNavigationSolutionMsg { std_msgs::Header header; TimeDistance timeDistance; double latitude = 0, longitude = 0, altitude = 0, northVelocity = 0, eastVelocity = 0, downVelocity = 0, roll = 0, pitch = 0, heading = 0, wander = 0, trackAngle = 0, speed = 0, angularRateLong = 0, angularRateTrans = 0, angularRateDown = 0, accLong = 0, accTrans = 0, accDown = 0; };
struct VehicleNavigationPerformanceMsg { std_msgs::Header header; TimeDistance timeDistance; double northPositionRMSError = 0, eastPositionRMSError = 0, downPositionRMSError = 0, northVelocityRMSError = 0, eastVelocityRMSError = 0, downVelocityRMSError = 0, rollRMSError = 0, pitchRMSError = 0, headingRMSError = 0; };
struct TimeTaggedDMIDataMsg { std_msgs::Header header; TimeDistance timeDistance; double signedDistanceTraveled = 0, unsignedDistanceTraveled = 0; };
SHIM_MESSAGE(VehicleNavigationSolutionMsg) SHIM_MESSAGE(VehicleNavigationPerformanceMsg) SHIM_MESSAGE(TimeTaggedDMIDataMsg)
}
#endif
