// Stand-in for the few parts of OpenCV which src/common/CollisionGridMap2d.cpp (nothing) and
// evaluation/MapGenerators.hpp (points, rectangles, 8 bit images, filled rectangles) use.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stack>
#include <vector>
#ifndef CV_8U
#define CV_8U 0
#define CV_8UC1 0
#define CV_FILLED -1
#endif

namespace cv {

enum { FILLED = -1 };

template <class T> inline T saturate_to(double v) { return (T) v; }
template <> inline int saturate_to<int>(double v) { return (int) std::lrint(v); }    // like OpenCV: to the nearest, ties to even

template <class T> struct Size_ {
    T width, height;
    Size_() : width(0), height(0) {}
    Size_(T w, T h) : width(w), height(h) {}
    T area() const { return width * height; }
    bool operator==(const Size_ &o) const { return width == o.width && height == o.height; }
};
template <class T> struct Point_ {
    T x, y;
    Point_() : x(0), y(0) {}
    Point_(T x_, T y_) : x(x_), y(y_) {}
    template <class U> Point_(const Point_<U> &o) : x(saturate_to<T>(o.x)), y(saturate_to<T>(o.y)) {}
    Point_ &operator+=(const Point_ &o) { x += o.x; y += o.y; return *this; }
    Point_ &operator-=(const Point_ &o) { x -= o.x; y -= o.y; return *this; }
};
template <class T> Point_<T> operator+(const Point_<T> &a, const Point_<T> &b) { return Point_<T>(a.x + b.x, a.y + b.y); }
template <class T> Point_<T> operator-(const Point_<T> &a, const Point_<T> &b) { return Point_<T>(a.x - b.x, a.y - b.y); }
template <class T> Point_<T> operator*(const Point_<T> &a, int b) { return Point_<T>(a.x * b, a.y * b); }
template <class T> Point_<T> operator*(int b, const Point_<T> &a) { return a * b; }
template <class T> Point_<T> operator*(const Point_<T> &a, double b) { return Point_<T>(saturate_to<T>(a.x * b), saturate_to<T>(a.y * b)); }
template <class T> Point_<T> operator*(double b, const Point_<T> &a) { return a * b; }
template <class T> Point_<T> operator/(const Point_<T> &a, int b) { return Point_<T>(saturate_to<T>((double) a.x / b), saturate_to<T>((double) a.y / b)); }
template <class T> Point_<T> operator/(const Point_<T> &a, double b) { return Point_<T>(saturate_to<T>(a.x / b), saturate_to<T>(a.y / b)); }
template <class T> bool operator==(const Point_<T> &a, const Point_<T> &b) { return a.x == b.x && a.y == b.y; }
template <class T> bool operator!=(const Point_<T> &a, const Point_<T> &b) { return !(a == b); }
template <class T> struct Rect_ {
    T x, y, width, height;
    Rect_() : x(0), y(0), width(0), height(0) {}
    Rect_(T x_, T y_, T w, T h) : x(x_), y(y_), width(w), height(h) {}
    Rect_(const Point_<T> &p, const Size_<T> &s) : x(p.x), y(p.y), width(s.width), height(s.height) {}
    Rect_(const Point_<T> &a, const Point_<T> &b) : x(std::min(a.x, b.x)), y(std::min(a.y, b.y)), width(std::max(a.x, b.x) - x), height(std::max(a.y, b.y) - y) {}
    Point_<T> tl() const { return Point_<T>(x, y); }
    Point_<T> br() const { return Point_<T>(x + width, y + height); }
    Size_<T> size() const { return Size_<T>(width, height); }
    T area() const { return width * height; }
    bool contains(const Point_<T> &p) const { return x <= p.x && p.x < x + width && y <= p.y && p.y < y + height; }
};
template <class T> Rect_<T> operator&(const Rect_<T> &a, const Rect_<T> &b) {
    T x = std::max(a.x, b.x), y = std::max(a.y, b.y), w = std::min(a.x + a.width, b.x + b.width) - x, h = std::min(a.y + a.height, b.y + b.height) - y;
    return w <= 0 || h <= 0 ? Rect_<T>() : Rect_<T>(x, y, w, h);
}
template <class T> Rect_<T> operator|(const Rect_<T> &a, const Rect_<T> &b) {
    if (a.width <= 0 || a.height <= 0) return b;
    if (b.width <= 0 || b.height <= 0) return a;
    T x = std::min(a.x, b.x), y = std::min(a.y, b.y);
    return Rect_<T>(x, y, std::max(a.x + a.width, b.x + b.width) - x, std::max(a.y + a.height, b.y + b.height) - y);
}
template <class T> Rect_<T> operator+(const Rect_<T> &a, const Point_<T> &b) { return Rect_<T>(a.x + b.x, a.y + b.y, a.width, a.height); }
typedef Point_<int> Point; typedef Point_<int> Point2i; typedef Point_<float> Point2f; typedef Point_<double> Point2d;
typedef Size_<int> Size; typedef Rect_<int> Rect;
struct Scalar {
    double val[4];
    Scalar(double a = 0, double b = 0, double c = 0, double d = 0) : val{a, b, c, d} {}
    static Scalar all(double v) { return Scalar(v, v, v, v); }
    double operator[](int i) const { return val[i]; }
};
// an image of bytes; copies share the pixels
struct Mat {
    int rows, cols;
    Mat() : rows(0), cols(0) {}
    Mat(int r, int c, int) : rows(r), cols(c), px(std::make_shared<std::vector<uint8_t>>((size_t) r * c)) {}
    Mat(int r, int c, int, const Scalar &s) : rows(r), cols(c), px(std::make_shared<std::vector<uint8_t>>((size_t) r * c, (uint8_t) s[0])) {}
    template <class T> T &at(int y, int x) { static_assert(sizeof(T) == 1, "bytes only"); assert(x >= 0 && y >= 0 && x < cols && y < rows); return *(T *) &(*px)[(size_t) y * cols + x]; }
    template <class T> const T &at(int y, int x) const { return const_cast<Mat *>(this)->at<T>(y, x); }
    template <class T> T &at(const Point &p) { return at<T>(p.y, p.x); }
    Size size() const { return Size(cols, rows); }
    bool empty() const { return rows == 0 || cols == 0; }
    Mat clone() const { Mat m(*this); if (px) m.px = std::make_shared<std::vector<uint8_t>>(*px); return m; }
    Mat &setTo(const Scalar &s) { std::fill(px->begin(), px->end(), (uint8_t) s[0]); return *this; }
private:
    std::shared_ptr<std::vector<uint8_t>> px;
};
// only filled rectangles; what lies outside of the image is not drawn
inline void rectangle(Mat m, const Rect &r, const Scalar &s, int thickness = 1, int = 8, int = 0) {
    assert(thickness < 0 && "only filled rectangles"); (void) thickness;
    for (int y = std::max(0, r.y); y < std::min(m.rows, r.y + r.height); ++y) for (int x = std::max(0, r.x); x < std::min(m.cols, r.x + r.width); ++x) m.at<uint8_t>(y, x) = (uint8_t) s[0];
}
inline void rectangle(Mat m, const Point &a, const Point &b, const Scalar &s, int thickness = 1, int l = 8, int h = 0) {      // both corners belong to it
    Rect r(a, b); r.width++; r.height++; rectangle(m, r, s, thickness, l, h);
}
inline void circle(Mat, const Point &, int, const Scalar &, int = 1, int = 8, int = 0) {}
inline void line(Mat, const Point &, const Point &, const Scalar &, int = 1, int = 8, int = 0) {}

} // namespace cv
