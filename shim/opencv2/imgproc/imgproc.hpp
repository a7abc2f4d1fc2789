#ifndef VERIF_SHIM_CV_IMGPROC_HPP
#define VERIF_SHIM_CV_IMGPROC_HPP
#include <opencv2/core/core.hpp>
namespace cv {
inline void cvtColor(const Mat& from, Mat& to, int, int = 0) { Mat m(from.rows, from.cols, CV_8UC3); m.scene = from.scene; to = m; }
inline void draw(Mat& m, char k, Point a, Point b, const Scalar& c, const std::string& t) { if (m.drawn) m.drawn->push_back(shim::Drawn{k, a.x, a.y, b.x, b.y, (int)c.val[0], (int)c.val[1], (int)c.val[2], t}); }
inline void circle(Mat& m, Point p, int r, const Scalar& c, int = 1, int = 8, int = 0) { draw(m, 'c', p, Point(r, r), c, ""); }
inline void line(Mat& m, Point a, Point b, const Scalar& c, int = 1, int = 8, int = 0) { draw(m, 'l', a, b, c, ""); }
inline void putText(Mat& m, const std::string& s, Point p, int, double, const Scalar& c, int = 1, int = 8, bool = false) { draw(m, 't', p, p, c, s); }
}
#endif
