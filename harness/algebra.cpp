// C27: arithmetic of points, poses and paths; rounding.
#include "gen.h"
#include <cslibs_path_planning/common/Path.h>
#include <cslibs_path_planning/common/TmpMath.hpp>
#include <complex>
using namespace lib_path;
using pbt::Case;

namespace {

const double PI = M_PI, TAU = 2 * M_PI;
typedef std::complex<double> Z;
double coord(Case &c) { double k = c.oneOf<double>({10, 1, 1000, 1e-3}); return c.real(-k, k); }
Point2d point(Case &c) { double x = coord(c), y = coord(c); return Point2d(x, y); }
Z z(const Point2d &p) { return Z(p.x, p.y); }
bool close(Z a, Z b, double scale) { return std::abs(a - b) <= 1e-12 * (std::abs(scale)) + 1e-300; }
double diff(double a, double b) { return std::remainder(a - b, TAU); }
std::string str(const Point2d &p) { std::ostringstream os; os << std::setprecision(17) << p.x << "," << p.y; return os.str(); }

} // namespace

LAW("C27", "points", 500000, 40000000, "both points are off the origin and the axes") {
    Point2d a = point(c), b = point(c); double f = coord(c), ang = c.angle(-TAU, TAU);
    c.note() << "a " << str(a) << " b " << str(b) << std::setprecision(17) << " factor " << f << " angle " << ang;
    Z za = z(a), zb = z(b); double sc = std::abs(za) + std::abs(zb), la = std::abs(za);
    REQUIRE(close(z(a + b), Z(a.x + b.x, a.y + b.y), sc) && close(z(a - b), Z(a.x - b.x, a.y - b.y), sc) && z(-a) == Z(-a.x, -a.y), "sum, difference or negation");
    REQUIRE(close(z(a * f), za * f, la * f), "product " << str(a * f));
    if (f != 0) REQUIRE(close(z(a / f), za / f, la / f), "quotient " << str(a / f));
    Point2d m = a, ret = (m *= f); REQUIRE(close(z(m), za * f, la * f) && z(ret) == z(m), "a *= f gives " << str(m));
    REQUIRE((a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b) && a == Point2d(a.x, a.y), "comparison");
    { Point2d q(a.x, b.y); REQUIRE((a == q) == (a.y == b.y), "comparison of points with the same x"); Point2d q2(b.x, a.y); REQUIRE((a == q2) == (a.x == b.x), "comparison of points with the same y"); }
    REQUIRE(std::fabs(a.length() - la) <= 1e-14 * la + 1e-300 && std::fabs(a.distance_to_origin() - la) <= 1e-14 * la + 1e-300, "length " << a.length());
    if (la > 0) {
        REQUIRE(std::fabs(diff(a.angle(), std::arg(za))) < 1e-12, "angle " << a.angle());
        Point2d n = a.normalize(), r = a.resize(f);
        REQUIRE(close(z(n), za / la, 1), "normalized to " << str(n));
        REQUIRE(close(z(r), za / la * f, f), "resized to " << str(r));
        REQUIRE(close(z(Point2d::from_polar(a.angle(), a.length())), za, 4 * la), "polar coordinates do not lead back");
    }
    REQUIRE(close(z(Point2d::from_polar(ang, f)), std::polar(1.0, ang) * f, 4 * f), "from polar " << str(Point2d::from_polar(ang, f)));
    Point2d rot = a.rotate(ang); REQUIRE(close(z(rot), za * std::polar(1.0, ang), 4 * la), "rotated to " << str(rot));
    REQUIRE(close(z(rot.rotate(-ang)), za, 8 * la), "rotating back gives " << str(rot.rotate(-ang)));
    Point2d o = a.ortho(); REQUIRE(std::fabs(a.x * o.x + a.y * o.y) <= 1e-14 * la * la && std::fabs(o.length() - la) <= 1e-14 * la, "orthogonal " << str(o));
    Pose2d pose(a.x, a.y, ang); REQUIRE(z(Point2d(pose)) == za, "position of a pose");
    std::ostringstream os; os << std::setprecision(17) << a; double x = 0, y = 0; char sep; std::istringstream is(os.str()); is >> sep >> x >> sep >> y;
    REQUIRE(x == a.x && y == a.y, "printed as " << os.str());
    (void) sc; c.nontrivial(a.x != 0 && a.y != 0 && b.x != 0 && b.y != 0);
}

LAW("C27", "poses", 500000, 40000000, "position and heading differ by about the tolerance, or the headings lie on both sides of half a turn") {
    double k = c.oneOf<double>({10, 1, 1000});
    Pose2d a(c.real(-k, k), c.real(-k, k), c.angle(-PI, PI)), b(c.real(-k, k), c.real(-k, k), c.angle(-2 * TAU, 2 * TAU));
    double de = c.real(0, 2), te = c.angle(0, PI);
    bool near = c.pick(3) != 0;
    if (near) { double d = de * c.fine(0, 2), h = c.angle(); b.x = a.x + d * std::cos(h); b.y = a.y + d * std::sin(h); b.theta = a.theta + (c.boolean() ? 1 : -1) * std::min(PI, te * c.fine(0, 2)) + TAU * c.integerNear(-2, 2, 0); }
    c.note() << std::setprecision(17) << "a " << a.x << "," << a.y << "," << a.theta << " b " << b.x << "," << b.y << "," << b.theta << " tolerances " << de << "," << te;
    double d = std::hypot(a.x - b.x, a.y - b.y), t = std::fabs(diff(a.theta, b.theta)), e = 1e-9 * k;
    REQUIRE(std::fabs(a.distance_to(b) - d) <= e && std::fabs(a.distance_to(b) - b.distance_to(a)) <= e, "distance " << a.distance_to(b) << " and " << b.distance_to(a) << " instead of " << d);
    REQUIRE(std::fabs(a.distance_to_origin() - std::hypot(a.x, a.y)) <= e, "distance to the origin " << a.distance_to_origin());
    if (std::fabs(d - de) > e && std::fabs(t - te) > 1e-9) {
        bool want = d <= de && t <= te;
        REQUIRE(a.isEqual(b, de, te) == want && b.isEqual(a, de, te) == want, "poses " << d << " and " << t << " apart are " << (want ? "not " : "") << "equal up to " << de << " and " << te);
        c.label(want ? "equal" : d <= de ? "heading differs" : t <= te ? "position differs" : "both differ");
    }
    REQUIRE(a.isEqual(a, 0, 0), "a pose differs from itself");
    Pose2d s = a + b, m = a - b;
    REQUIRE(std::fabs(s.x - (a.x + b.x)) <= e && std::fabs(s.y - (a.y + b.y)) <= e && std::fabs(m.x - (a.x - b.x)) <= e && std::fabs(m.y - (a.y - b.y)) <= e, "sum or difference");
    float f = (float) c.oneOf<double>({2, 0.5, -3, 1, 0.3}); if (c.boolean()) f = (float) c.real(-100, 100);
    Pose2d p = a * f, q = f * a;
    REQUIRE(std::fabs(p.x - a.x * f) <= 1e-12 * std::fabs(a.x * f) && std::fabs(p.y - a.y * f) <= 1e-12 * std::fabs(a.y * f) && std::fabs(q.x - p.x) <= 1e-12 * std::fabs(p.x) && std::fabs(q.y - p.y) <= 1e-12 * std::fabs(p.y), "product with " << f << ": " << p.x << "," << p.y);
    if (f != 0) { Pose2d v = a / f; REQUIRE(std::fabs(v.x - a.x / f) <= 1e-12 * std::fabs(a.x / f) && std::fabs(v.y - a.y / f) <= 1e-12 * std::fabs(a.y / f), "quotient"); }
    REQUIRE(std::fabs(dot(a, b) - (a.x * b.x + a.y * b.y)) <= 1e-12 * k * k && std::fabs(dot(a, b) - dot(b, a)) <= 1e-12 * k * k, "dot product " << dot(a, b));
    { std::ostringstream os; os << std::setprecision(17) << a; double x = 0, y = 0, th = 0; char sep; std::istringstream is(os.str()); is >> sep >> x >> sep >> y >> sep >> th;
      REQUIRE(x == a.x && y == a.y && std::fabs(th - a.theta * 180 / PI) < 1e-9, "printed as " << os.str()); }
    Pose2d none; REQUIRE(none.x == 0 && none.y == 0 && none.theta == 0, "the default pose is not the origin");
    bool wraps = std::fabs(a.theta - b.theta) > PI;
    c.nontrivial((near && d > 0) || wraps); if (wraps) c.label("wraps around");
}

static void paths(Case &c, bool many) {
    auto gen = [&](Path &p, std::vector<double> &m) { int n = !many ? (int) c.integer(0, 6) : c.pick(3) ? (int) c.integer(200, 300) : (int) c.integer(33000, 70000); uint64_t r = many ? c.draw(0xffff) : 0; for (int i = 0; i < n; ++i) { Pose2d q; if (many) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; q = Pose2d((double) (r >> 40), (double) ((r >> 20) & 0xfffff), i); } else q = Pose2d(c.real(-9, 9), c.real(-9, 9), c.angle()); p.push_back(q); m.push_back(q.x); m.push_back(q.y); m.push_back(q.theta); } };
    Path all; std::vector<double> model; gen(all, model);
    int k = (int) c.integer(1, 4); size_t big = all.size() >= 2;
    for (int i = 0; i < k; ++i) {
        Path p; std::vector<double> m; gen(p, m); Path before = p; all += p; model.insert(model.end(), m.begin(), m.end()); big += p.size() >= 2;
        REQUIRE(p.size() == before.size(), "the appended path changed");
        REQUIRE(all.size() * 3 == model.size(), "the path has " << all.size() << " poses instead of " << model.size() / 3);
        for (size_t j = 0; j < all.size(); ++j) REQUIRE(all[j].x == model[3 * j] && all[j].y == model[3 * j + 1] && all[j].theta == model[3 * j + 2], "pose " << j << " is not the one appended");
    }
    c.note() << all.size() << " poses, " << k << " appended paths"; c.nontrivial(big >= 2);
}

LAW("C27", "paths", 100000, 5000000, "both paths have at least two poses") {
    paths(c, false);
}
LAW("C27", "paths-long", 100, 4000, "as paths, with up to 70000 poses each") { paths(c, true); }

LAW("C27", "rounding", 1500000, 100000000, "the number is within a millionth of a half, or within a few representable numbers of it") {
    double v; int kind = (int) c.pick(5);
    long n = c.pick(3) ? c.integerNear(-1000, 1000, 0) : c.integerNear(-2147483645L, 2147483645L, 0);
    if (kind == 0) v = (double) n;
    else if (kind == 1) v = n + 0.5;
    else if (kind == 2) { v = n + 0.5; int k = (int) c.integer(1, 4); double dir = c.boolean() ? INFINITY : -INFINITY; for (int i = 0; i < k; ++i) v = std::nextafter(v, dir); }
    else if (kind == 3) v = n + 0.5 + c.fine(-1e-6, 1e-6);
    else v = c.fine(-2147483646.0, 2147483646.0);
    c.note() << std::setprecision(20) << v;
    long want = std::lround(v); int got = tmpmath::round(v);
    REQUIRE((long) got == want, "rounded to " << got << " instead of " << want);
    c.nontrivial(kind >= 1 && kind <= 3); c.label(v < 0 ? "negative" : "positive");
}
