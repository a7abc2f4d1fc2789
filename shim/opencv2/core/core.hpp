// Stand-in for OpenCV: an image that carries the scene it shows, and drawings that are recorded.
#ifndef VERIF_SHIM_CV_HPP
#define VERIF_SHIM_CV_HPP
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#define CV_8UC1 0
#define CV_8UC3 16
#define CV_AA 16
#define CV_GRAY2RGB 8
namespace shim { struct Scene; struct Drawn { char kind; int x0, y0, x1, y1, b, g, r; std::string text; }; }
namespace cv {
struct Point { int x, y; Point(int x = 0, int y = 0) : x(x), y(y) {} };
struct Scalar { double val[4]; Scalar(double a = 0, double b = 0, double c = 0, double d = 0) : val{a, b, c, d} {} };
enum { FONT_HERSHEY_COMPLEX = 3, COLOR_GRAY2RGB = 8, LINE_AA = 16 };
/// copies share their pixels (here: the list of drawings), like OpenCV's
class Mat {
 public:
  Mat() : rows(0), cols(0), data(nullptr), type_(0) {}
  Mat(int r, int c, int t) : rows(r), cols(c), data(nullptr), drawn(new std::vector<shim::Drawn>), type_(t), px_(new unsigned char(0)) { data = px_.get(); }
  int type() const { return type_; } bool empty() const { return !data; }
  Mat clone() const { Mat m(rows, cols, type_); m.scene = scene; if (drawn) *m.drawn = *drawn; return m; }
  void copyTo(Mat& o) const { o = clone(); }
  int rows, cols; unsigned char* data; std::shared_ptr<const shim::Scene> scene; std::shared_ptr<std::vector<shim::Drawn>> drawn;
 private: int type_; std::shared_ptr<unsigned char> px_;
};
inline int cvRoundImpl(double x) { return (int)std::lrint(x); }
}
inline int cvRound(double x) { return (int)std::lrint(x); }
#endif
