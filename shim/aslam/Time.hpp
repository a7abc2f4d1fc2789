#pragma once
namespace aslam { class Time { public: Time(double s = 0) : s_(s) {} double toSec() const { return s_; } private: double s_; }; }
