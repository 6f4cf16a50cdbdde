// Stand-in for the missing dependency cslibs_navigation_utilities/MathHelper.h (only the parts this library uses).
#ifndef MATHHELPER_H_STANDIN
#define MATHHELPER_H_STANDIN
#include <Eigen/Core>
#include <Eigen/Dense>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <set>
#include <stack>
#include <string>
#include <utility>
#include <vector>

class MathHelper {
public:
    // angle in [-pi, pi)
    static double AngleClamp(double a) {
        if (a >= -M_PI && a < M_PI) return a;
        double r = std::fmod(a + M_PI, 2.0 * M_PI);
        if (r < 0) r += 2.0 * M_PI;
        r -= M_PI;
        if (r >= M_PI) r -= 2.0 * M_PI;
        if (r < -M_PI) r = -M_PI;
        return r;
    }
    // signed difference to - from, in [-pi, pi)
    static double AngleDelta(double from, double to) { return AngleClamp(to - from); }
    static double Angle(const Eigen::Vector2d &v) { return std::atan2(v(1), v(0)); }
};

typedef std::pair<double, double> point2D;

// intersection of the segments a-b and c-d; s and t are the positions along them. Parallel segments do not intersect.
inline bool segmentIntersection(point2D a, point2D b, point2D c, point2D d, point2D &pt, double &s, double &t, double tol) {
    double rx = b.first - a.first, ry = b.second - a.second, sx = d.first - c.first, sy = d.second - c.second;
    double den = rx * sy - ry * sx;
    if (std::fabs(den) < 1e-12) return false;
    double qx = c.first - a.first, qy = c.second - a.second;
    s = (qx * sy - qy * sx) / den;
    t = (qx * ry - qy * rx) / den;
    double ts = tol / std::max(1e-12, std::hypot(rx, ry)), tt = tol / std::max(1e-12, std::hypot(sx, sy));
    if (s < -ts || s > 1 + ts || t < -tt || t > 1 + tt) return false;
    pt = point2D(a.first + s * rx, a.second + s * ry);
    return true;
}
#endif
