#pragma once
#include <opencv2/core/core.hpp>
#include <ros/standin.hpp>
namespace sensor_msgs { struct Image { std_msgs::Header header; cv::Mat pixels; }; SHIM_MESSAGE(Image) }
