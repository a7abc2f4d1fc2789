#pragma once
#include <sensor_msgs/Image.h>
namespace cv_bridge {
struct CvImage { std_msgs::Header header; std::string encoding; cv::Mat image; };
typedef boost::shared_ptr<CvImage> CvImagePtr; typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) { auto r = boost::make_shared<CvImage>(); r->header = m->header; r->encoding = encoding; r->image = m->pixels.clone(); return r; }
}
