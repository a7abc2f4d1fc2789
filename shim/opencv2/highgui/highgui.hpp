// Stand-in for OpenCV's windows and files: what is shown and written is recorded
#pragma once
#include <fstream>
#include <opencv2/core/core.hpp>
#include <stdexcept>
#define CV_WINDOW_AUTOSIZE 1
namespace shim { struct Shown { std::string name; cv::Mat image; int wait = -1; }; struct Screen { std::vector<std::string> windows; std::vector<Shown> shown, written; }; inline Screen& screen() { static thread_local Screen s; return s; } }
namespace cv {
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
inline void namedWindow(const std::string& n, int = 1) { shim::screen().windows.push_back(n); }
inline void imshow(const std::string& n, const Mat& m) { if (m.empty()) throw Exception("imshow: no image"); shim::Shown s; s.name = n; s.image = m; shim::screen().shown.push_back(s); }
inline int waitKey(int ms = 0) { if (!shim::screen().shown.empty()) shim::screen().shown.back().wait = ms; return -1; }
inline bool imwrite(const std::string& f, const Mat& m) { if (m.empty()) throw Exception("imwrite: no image"); std::ofstream o(f.c_str()); if (!o) return false; o << "image\n"; shim::Shown s; s.name = f; s.image = m; shim::screen().written.push_back(s); return true; }
}
