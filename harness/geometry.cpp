// C21: lines.  C22: circles and arcs.  C23: intersections.  C24: tangent arcs and paths.
#include "gen.h"
#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/tangentor.h>
using namespace path_geom;
using pbt::Case;
typedef Eigen::Vector2d V;

namespace {

const double PI = M_PI, TAU = 2 * M_PI;
struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };

double wrap(double a) { a = std::fmod(a, TAU); if (a < 0) a += TAU; if (a >= TAU) a -= TAU; return a; }
double adiff(double a, double b) { double d = wrap(a - b); return d > PI ? d - TAU : d; }
bool near(const V &a, const V &b, double t = 1e-9) { return (a - b).norm() <= t * (1 + a.norm()); }
V polar(double a, double r) { return V(r * std::cos(a), r * std::sin(a)); }
std::string s(const V &v) { std::ostringstream o; o << std::setprecision(12) << "(" << v.x() << "," << v.y() << ")"; return o.str(); }

double coord(Case &c) { return c.pick(3) == 0 ? (double) c.integerNear(-20, 20, 0) : c.real(-20, 20); }
V pt(Case &c) { double x = coord(c), y = coord(c); return V(x, y); }
double len(Case &c, double lo, double hi) { return c.pick(3) == 0 ? std::max(lo, (double) c.integer((long) std::ceil(lo), (long) hi)) : c.fine(lo, hi); }
void note(Case &c, const char *n, const V &v) { c.note() << std::setprecision(17) << " " << n << " " << v.x() << "," << v.y(); }

// ---------------------------------------------------------------------------------------------------------------- C21
struct Seg { V a, b; };
Seg seg(Case &c, double minlen = 0.01) {
    Seg g; g.a = pt(c);
    switch (c.pick(4)) {
    case 0: g.b = V(g.a.x() + (c.boolean() ? 1 : -1) * len(c, minlen, 20), g.a.y()); break;
    case 1: g.b = V(g.a.x(), g.a.y() + (c.boolean() ? 1 : -1) * len(c, minlen, 20)); break;
    default: g.b = g.a + polar(c.angle(), len(c, minlen, c.pick(3) ? 20 : 200));
    }
    note(c, "line from", g.a); note(c, "to", g.b);
    return g;
}
double segDist(const Seg &g, const V &p, V *near = nullptr) {
    V d = g.b - g.a; double t = d.squaredNorm() > 0 ? (p - g.a).dot(d) / d.squaredNorm() : 0; t = std::max(0.0, std::min(1.0, t));
    V q = g.a + t * d; if (near) *near = q; return (p - q).norm();
}

LAW("C21", "points_and_segments", 720000, 8000000, "the point is neither an end of the segment nor on the line") {
    Seg g = seg(c); Line l(g.a, g.b);
    V d = (g.b - g.a), u = d.normalized(), n(-u.y(), u.x()); double L = d.norm();
    double t = c.pick(4) == 0 ? c.oneOf<double>({0, 1, 0.5}) : c.pick(3) ? c.real(-1, 2) : c.real(-30, 30), h = c.pick(4) == 0 ? 0 : c.pick(3) ? c.real(-15, 15) : c.real(-1e-3, 1e-3);
    V p = g.a + t * d + h * n; note(c, "point", p); c.note() << " (position " << t << ", " << h << " to the left)";
    c.nontrivial(h != 0 && t != 0 && t != 1);
    double e = 1e-9 * (1 + L * (1 + std::fabs(t)) + std::fabs(h));
    REQUIRE(near(l.startPoint(), g.a, 0) && near(l.endPoint(), g.b, 0), "the line runs from " << s(l.startPoint()) << " to " << s(l.endPoint()));
    REQUIRE(std::fabs(l.pointSignedDistance(p) - h) < e, "signed distance " << l.pointSignedDistance(p));
    V foot = g.a + t * d;
    REQUIRE((l.footPoint(p) - foot).norm() < e && (l.projectPoint(p) - foot).norm() < e, "foot point " << s(l.footPoint(p)) << ", projection " << s(l.projectPoint(p)) << " instead of " << s(foot));
    double tol = c.pick(3) ? DIST_EPS : c.pick(6) == 5 ? 1e-7 : c.fine(1e-4, 2);
    int pos = l.pointRelativePosition(p, c.pick(4) ? tol : -tol), ex = h > tol ? 1 : h < -tol ? -1 : 0;
    if (std::fabs(std::fabs(h) - tol) > 1e-9 + e) REQUIRE(pos == ex, "relative position " << pos << " with the tolerance " << tol);
    V q; double dist = segDist(g, p, &q);
    REQUIRE(std::fabs(l.distanceTo(p) - dist) < 2e-5, "distance " << l.distanceTo(p) << " instead of " << dist);
    REQUIRE((l.nearestPointTo(p) - q).norm() < 2e-5, "nearest point " << s(l.nearestPointTo(p)) << " instead of " << s(q));
    bool on = l.isPointOnSegment(p, tol);
    if (h == 0 && t >= 0 && t <= 1) REQUIRE(on, "a point of the segment is said to be off it");
    if (dist < 0.49 * tol - e) REQUIRE(on, "a point " << dist << " off the segment is said to be off it with the tolerance " << tol);
    if (dist > std::sqrt(2 * L * tol + tol * tol) / 2 + tol / 2 + 1e-6) REQUIRE(!on, "a point " << dist << " off is said to be on the segment");
    // parallels
    double off = c.real(-5, 5); Line pl = Line::parallel(l, off);
    REQUIRE(near(pl.startPoint(), V(g.a + off * n)) && near(pl.endPoint(), V(g.b + off * n)), "the parallel at " << off << " runs from " << s(pl.startPoint()) << " to " << s(pl.endPoint()));
}

LAW("C21", "construction_and_end_selection", 360000, 4000000, "at least one end was moved and one rejected") {
    PathPose pose; V p = pt(c); double th = c.angle(-2 * PI, 2 * PI); pose.assign(p, th);
    double L = len(c, 0.01, 30) * (c.pick(4) == 3 ? -1 : 1); int dir = c.boolean() ? 1 : -1; if (c.pick(4) == 3) dir *= (int) c.integer(2, 5);
    note(c, "pose", p); c.note() << "," << th << " length " << L << " direction " << dir;
    Line l(pose, L, dir);
    V a = dir > 0 ? p : V(p - polar(th, std::fabs(L))), b = dir > 0 ? V(p + polar(th, std::fabs(L))) : p;
    REQUIRE(near(l.startPoint(), a) && near(l.endPoint(), b), "the line runs from " << s(l.startPoint()) << " to " << s(l.endPoint()) << " instead of " << s(a) << " to " << s(b));
    a = l.startPoint(); b = l.endPoint();
    Line orig(l); std::shared_ptr<Shape> sp = make_aligned<Line>(l); std::shared_ptr<Shape> dc = Shape::deepCopy(sp);
    int moved = 0, refused = 0;
    for (int i = 0, n = (int) c.integer(1, 6); i < n; ++i) {
        if ((b - a).norm() < 0.05) break;
        V u = (b - a).normalized(), nn(-u.y(), u.x()); double t = c.real(-2, 3), tol = c.pick(3) ? DIST_EPS : c.fine(1e-4, 1);
        double h = c.pick(2) ? 0 : c.oneOf<double>({2.0, -2.0, 0.5, -0.5, 10}) * tol; bool st = c.boolean();
        V q = a + t * (b - a) + h * nn; note(c, st ? "start at" : "end at", q); c.note() << " (" << h / tol << " tolerances off)";
        bool r = st ? l.selectStartPoint(q, tol) : l.selectEndPoint(q, tol), ex = std::fabs(h) <= tol;
        REQUIRE(r == ex, "a new " << (st ? "start" : "end") << " " << std::fabs(h) << " off the line was " << (r ? "accepted" : "refused") << " with the tolerance " << tol);
        if (r) (st ? a : b) = q;
        moved += r; refused += !r;
        REQUIRE(near(l.startPoint(), a, 0) && near(l.endPoint(), b, 0), "after selecting an end the line runs from " << s(l.startPoint()) << " to " << s(l.endPoint()) << " instead of " << s(a) << " to " << s(b));
    }
    c.nontrivial(moved && refused);
    REQUIRE(dc && dc.get() != sp.get() && near(dc->startPoint(), orig.startPoint(), 0) && near(dc->endPoint(), orig.endPoint(), 0), "the copy differs");
    sp->selectEndPoint(sp->startPoint());
    REQUIRE(near(dc->endPoint(), orig.endPoint(), 0), "changing a line changed its copy");
}

LAW("C21", "sampling", 480000, 5000000, "at least three samples") {
    Seg g = seg(c); Line l(g.a, g.b); double L = (g.b - g.a).norm(), res = c.pick(3) == 0 ? L / (double) c.integer(1, 12) : len(c, std::max(0.01, L / 300), 5);
    c.note() << " resolution " << res;
    V u = (g.b - g.a).normalized(); double th = std::atan2(u.y(), u.x());
    const double e = 1e-8 * (1 + g.a.norm() + L);
    std::vector<V> pts(c.pick(4), V(77, 77)); l.toPoints(res, pts);
    c.nontrivial(pts.size() >= 3);
    REQUIRE(!pts.empty() && (pts.back() - g.b).norm() < e, "the last point is not the end of the line");
    if (pts.size() > 1) REQUIRE((pts.front() - g.a).norm() < e, "the first point is not the start of the line");
    for (size_t i = 0; i + 1 < pts.size(); ++i) {
        REQUIRE((pts[i] - (g.a + u * (res * i))).norm() < e, "point " << i << " is " << s(pts[i]) << " instead of " << s(V(g.a + u * (res * i))));
        REQUIRE((pts[i + 1] - pts[i]).norm() < 2 * res + e, "points " << i << " and the next one are " << (pts[i + 1] - pts[i]).norm() << " apart");
    }
    if (pts.size() == 1) REQUIRE(L < res + e, "a line of " << L << " yields one point");
    int dir = c.boolean() ? FORWARD : BACKWARD; bool with = c.boolean(); c.note() << (dir > 0 ? " forward" : " backward") << (with ? " with start" : "");
    PathPoseVec po(c.pick(4)); l.toPoses(res, po, dir, with);
    V from = dir > 0 ? g.a : g.b, step = u * (dir * res);
    double n = L / res; size_t first = with ? 0 : 1;
    REQUIRE(std::fabs((double) po.size() - (with ? 1 : 0) - std::floor(n)) < 0.5 || (std::fabs(n - std::round(n)) < 1e-6 && std::fabs((double) po.size() - (with ? 1 : 0) - n) < 1.5), po.size() << " poses on a line of " << n << " resolutions");
    for (size_t i = 0; i < po.size(); ++i) {
        V ex = from + step * (double) (i + first);
        REQUIRE((po[i].pos_ - ex).norm() < e, "pose " << i << " of " << po.size() << " is at " << s(po[i].pos_) << " instead of " << s(ex));
        REQUIRE(std::fabs(adiff(po[i].theta_, th)) < 1e-9, "pose " << i << " of " << po.size() << " has the heading " << po[i].theta_ << " instead of " << th);
    }
    { PathPoseVec x, y, z; l.toPoses(res, x, dir); l.toPoses(res, y, dir, true); REQUIRE(x.size() == y.size(), "a line is not sampled with its start by default"); Shape &sh = l; sh.toPoses(res, x, dir); l.toPoses(res, z, dir, false); REQUIRE(x.size() == z.size() && x.size() + 1 == y.size(), "a shape is not sampled without its start by default"); }
    l.toPoses(0, po, dir, with); REQUIRE(po.empty(), "a resolution of zero yields poses");
}

LAW("C21", "path_poses", 360000, 3000000, "the poses differ by less than ten tolerances in position and heading") {
    V p = pt(c); double th = c.angle(-3 * PI, 3 * PI), dt = c.pick(3) ? DIST_EPS : c.fine(1e-4, 1), at = c.pick(3) ? ANGLE_EPS : c.fine(1e-4, 1);
    double d = c.oneOf<double>({0, 0.5, 0.98, 1.02, 3, 50}) * dt, a = c.oneOf<double>({0, 0.5, -0.5, 0.98, -0.98, 1.02, -1.02, 3, -3, 50, -50}) * at; if (std::fabs(a) > 3) a = 3;
    double turns = (double) c.integerNear(-1, 1, 0) * TAU;
    V q = p + polar(c.angle(), d);
    PathPose x(p.x(), p.y(), th), y(q.x(), q.y(), th + a + turns);
    note(c, "pose", p); c.note() << "," << th << " other " << d << " away, turned by " << a << "+" << turns << " tolerances " << dt << "," << at;
    c.nontrivial(d < 10 * dt && std::fabs(a) < 10 * at);
    bool ex = d < dt && std::fabs(a) < at;
    REQUIRE(x.isIdentical(y, dt, at) == ex, "the poses are said to be " << (ex ? "different" : "identical"));
    REQUIRE(y.isIdentical(x, dt, at) == ex, "the poses are said to be " << (ex ? "different" : "identical") << " in reverse order");
    REQUIRE(x.isIdentical(q, dt) == (d < dt), "the position is said to be " << (d < dt ? "different" : "identical"));
    PathPose z(y); REQUIRE(z.isIdentical(y) && z.weight_ == 0, "a copy differs"); PathPose def; REQUIRE(def.pos_ == V(0, 0) && def.theta_ == 0 && def.weight_ == 0, "a default pose is not zero");
}

// ---------------------------------------------------------------------------------------------------------------- C22
struct Arc { V m; double r; int dir; double start, arc; };      // arc in [0, 2 pi]
V at(const Arc &a, double f) { return a.m + polar(a.start + a.dir * a.arc * f, a.r); }
double headingAt(const Arc &a, double f) { return a.start + a.dir * a.arc * f + a.dir * PI / 2; }
Arc arc(Case &c, double rmin = 0.1) {
    Arc a; a.m = pt(c); a.r = len(c, rmin, 10); a.dir = c.boolean() ? 1 : -1; a.start = wrap(c.angle(0, TAU)); a.arc = c.pick(5) == 0 ? TAU : c.angle(0, TAU);
    note(c, "arc around", a.m); c.note() << " radius " << a.r << (a.dir > 0 ? " left" : " right") << " from " << a.start << " over " << a.arc;
    return a;
}
Circle make(const Arc &a) { Circle k(a.m, a.r, a.dir); k.setArc(a.start, a.arc, a.dir); return k; }
// angle driven along the arc until the direction of p; in [0, 2 pi)
double along(const Arc &a, const V &p) { V d = p - a.m; return wrap(a.dir * (std::atan2(d.y(), d.x()) - a.start)); }
double arcDist(const Arc &a, const V &p, V *q = nullptr) {
    double best = 1e18; V b = at(a, 0);
    for (double f : {0.0, 1.0}) { V e = at(a, f); if ((e - p).norm() < best) { best = (e - p).norm(); b = e; } }
    if ((p - a.m).norm() > 1e-9 && along(a, p) <= a.arc) { double d = std::fabs((p - a.m).norm() - a.r); if (d <= best) { best = d; b = a.m + (p - a.m).normalized() * a.r; } }
    if (q) *q = b; return best;
}
void checkState(const Circle &k, const Arc &a) {
    const double e = 1e-9;
    REQUIRE(near(k.center(), a.m, e) && std::fabs(k.radius() - a.r) < e && k.direction() == a.dir, "centre " << s(k.center()) << " radius " << k.radius() << " direction " << k.direction());
    REQUIRE(std::fabs(adiff(k.startAngle(), a.start)) < e, "the start angle is " << k.startAngle() << " instead of " << a.start);
    REQUIRE(std::fabs(std::fabs(k.getArcAngle()) - a.arc) < e, "the arc angle is " << k.getArcAngle() << " instead of " << a.arc);
    REQUIRE(std::fabs(adiff(k.endAngle(), a.start + a.dir * a.arc)) < e, "the end angle is " << k.endAngle() << " instead of " << a.start + a.dir * a.arc);
    REQUIRE(std::fabs(std::fabs(k.getArcLength()) - a.arc * a.r) < e * (1 + a.r) * 10, "the length is " << k.getArcLength() << " instead of " << a.arc * a.r);
    // which points belong to it, and how far others are away
    for (double f : {0.02, 0.35, 0.98}) REQUIRE(k.isPointOnArc(at(a, f)) && k.distanceTo(at(a, f)) < 1e-5, "the point at the fraction " << f << " of the arc is said to be off it");
    if (TAU - a.arc > 1e-3) for (double f : {0.1, 0.5, 0.9}) {
        V out = a.m + polar(a.start - a.dir * (TAU - a.arc) * f, a.r); double d = std::min((out - at(a, 0)).norm(), (out - at(a, 1)).norm());
        if (d > 3e-5) REQUIRE(!k.isPointOnArc(out), "the point " << s(out) << " of the circle is outside of the arc, but said to be on it");
        REQUIRE(std::fabs(k.distanceTo(out) - d) < 3e-5, "the distance of " << s(out) << " is " << k.distanceTo(out) << " instead of " << d);
    }
    REQUIRE(near(k.startPoint(), at(a, 0), 1e-8) && near(k.endPoint(), at(a, 1), 1e-8), "the arc runs from " << s(k.startPoint()) << " to " << s(k.endPoint()));
}

LAW("C22", "changing_arcs", 480000, 5000000, "at least three changes, one of them of the start and one of the end") {
    V m = pt(c); double r = len(c, 0.1, 10); int dir = c.boolean() ? 1 : -1, mul = c.pick(4) == 3 ? (int) c.integer(2, 4) : 1; bool neg = c.pick(5) == 4;
    note(c, "circle around", m); c.note() << " radius " << (neg ? -r : r) << " direction " << dir * mul;
    Circle k(m, neg ? -r : r, dir * mul);
    Arc a{m, r, dir, 0, TAU}; checkState(k, a);
    int ns = 0, ne = 0, n = (int) c.integer(1, 8);
    for (int i = 0; i < n; ++i) {
        double ang = c.pick(8) == 7 ? c.angle(-30 * PI, 30 * PI) : c.angle(-4 * PI, 4 * PI); double end = a.start + a.dir * a.arc; Arc old = a;
        int op = (int) c.pick(7); bool off = false; V q;
        if (op >= 4) { double d = c.pick(3) ? 0 : c.oneOf<double>({0.5, -0.5, 3, -3}); q = m + polar(ang, r + d * 1e-5); off = std::fabs(d) > 1; }
        switch (op) {
        case 0: case 4: {
            bool ok = true; if (op == 0) { k.setStartAngle(ang); c.note() << " start=" << ang; } else { ok = k.selectStartPoint(q); note(c, "start at", q); REQUIRE(ok == !off, "the start point was " << (ok ? "accepted" : "refused")); }
            if (ok) { a.start = wrap(ang); a.arc = wrap(a.dir * (end - a.start)); ns++; } break; }
        case 1: case 5: {
            bool ok = true; if (op == 1) { k.setEndAngle(ang); c.note() << " end=" << ang; } else { ok = k.selectEndPoint(q); note(c, "end at", q); REQUIRE(ok == !off, "the end point was " << (ok ? "accepted" : "refused")); }
            if (ok) { a.arc = wrap(a.dir * (ang - a.start)); ne++; } break; }
        case 2: k.setArcAngle(ang); c.note() << " arc=" << ang; a.arc = wrap(ang); break;
        case 3: { double w = c.angle(0, TAU); int d = c.oneOf<int>({1, -1}); k.setArc(ang, w, d); c.note() << " set " << ang << "+" << w << (d > 0 ? " left" : " right"); a.start = wrap(ang); a.arc = w; a.dir = d; break; }
        default: { V p = m + polar(ang, r * c.fine(0.2, 3)); if (c.boolean()) { k.setStartAngle(p); a.start = wrap(ang); a.arc = wrap(a.dir * (end - a.start)); ns++; note(c, "start towards", p); } else { k.setEndAngle(p); a.arc = wrap(a.dir * (ang - a.start)); ne++; note(c, "end towards", p); } }
        }
        // no arc and a full circle have the same ends: either may result
        if ((a.arc < 1e-7 || a.arc > TAU - 1e-7)) { double got = std::fabs(k.getArcAngle()); REQUIRE(got < 2e-7 || got > TAU - 2e-7, "the arc angle is " << got << " instead of none or a full circle"); a.arc = std::min(TAU, got); }
        REQUIRE(std::fabs(k.getArcAngle()) <= TAU + 1e-9, "the arc angle is " << k.getArcAngle());
        checkState(k, a);
    }
    c.nontrivial(n >= 3 && ns && ne);
}

LAW("C22", "points_and_arcs", 720000, 8000000, "the point is off the arc and the arc is not a full circle") {
    Arc a = arc(c); Circle k = make(a); checkState(k, a);
    double f = c.pick(4) == 0 ? c.oneOf<double>({0, 1}) : c.fine(0, 1);
    V on = at(a, f);
    REQUIRE(k.isPointOnArc(on), "the point " << s(on) << " at the fraction " << f << " of the arc is said to be off it");
    REQUIRE(std::fabs(k.distanceTo(on)) < 1e-5, "a point of the arc has the distance " << k.distanceTo(on));
    double tol = c.pick(3) ? DIST_EPS : c.fine(1e-4, 0.05);
    V near1 = a.m + (on - a.m).normalized() * (a.r + 0.5 * tol * (c.boolean() ? 1 : -1)), off1 = a.m + (on - a.m).normalized() * (a.r + 1.5 * tol * (c.boolean() ? 1 : -1));
    if (a.r > tol * 3) { REQUIRE(k.isPointOnArc(near1, tol), "a point half a tolerance beside the arc is said to be off it"); REQUIRE(!k.isPointOnArc(off1, tol), "a point one and a half tolerances beside the arc is said to be on it"); }
    double rest = TAU - a.arc;
    if (rest > 1e-3) {
        double g = c.fine(0, 1); V out = a.m + polar(a.start + a.dir * (a.arc + rest * g), a.r);
        if (std::min((out - at(a, 0)).norm(), (out - at(a, 1)).norm()) > 1.01 * tol) REQUIRE(!k.isPointOnArc(out, tol), "the point " << s(out) << " of the circle is outside of the arc, but said to be on it");
    }
    V p = c.pick(6) == 5 ? a.m : c.pick(2) ? V(a.m + polar(c.angle(), a.r * c.fine(0.05, 3))) : pt(c); note(c, "point", p);
    V q; double d = arcDist(a, p, &q);
    c.nontrivial(d > 1e-3 && a.arc < TAU - 1e-3);
    double got = k.distanceTo(p); V nq = k.nearestPointTo(p);
    REQUIRE(std::fabs(got - d) < 3e-5, "the distance is " << got << " instead of " << d);
    REQUIRE(std::fabs((nq - p).norm() - d) < 3e-5 && arcDist(a, nq) < 3e-5, "the nearest point is " << s(nq) << " instead of " << s(q));
}

LAW("C22", "sampling", 480000, 5000000, "at least three samples") {
    Arc a = arc(c); Circle k = make(a); double L = a.arc * a.r, res = c.pick(3) == 0 && L > 0.02 ? L / (double) c.integer(1, 12) : len(c, std::max(0.01, L / 300), 5);
    c.note() << " resolution " << res;
    const double e = 1e-8 * (1 + a.m.norm() + a.r); double n = L / res;
    auto count = [&](double sz) { return std::fabs(sz - std::floor(n)) < 0.5 || (std::fabs(n - std::round(n)) < 1e-6 && std::fabs(sz - n) < 1.5); };
    std::vector<V> pts(c.pick(4), V(77, 77)); k.toPoints(res, pts);
    REQUIRE(count((double) pts.size()), pts.size() << " points on an arc of " << n << " resolutions");
    for (size_t i = 0; i < pts.size(); ++i) { V ex = at(a, (double) i / (double) pts.size()); REQUIRE((pts[i] - ex).norm() < e * 10, "point " << i << " of " << pts.size() << " is " << s(pts[i]) << " instead of " << s(ex)); }
    int dir = c.boolean() ? FORWARD : BACKWARD; bool with = c.boolean(); c.note() << (dir > 0 ? " forward" : " backward") << (with ? " with start" : "");
    PathPoseVec po(c.pick(4)); k.toPoses(res, po, dir, with);
    size_t steps = po.size() - (with ? 1 : 0);
    REQUIRE(!(with && po.empty()), "no pose at all"); REQUIRE(count((double) steps), po.size() << " poses on an arc of " << n << " resolutions");
    c.nontrivial(steps >= 3);
    for (size_t i = 0; i < po.size(); ++i) {
        double f = steps ? (double) (i + (with ? 0 : 1)) / (double) steps : 0; if (dir < 0) f = 1 - f;
        REQUIRE((po[i].pos_ - at(a, f)).norm() < e * 10, "pose " << i << " of " << po.size() << " is at " << s(po[i].pos_) << " instead of " << s(at(a, f)));
        REQUIRE(std::fabs(adiff(po[i].theta_, headingAt(a, f))) < 1e-7, "pose " << i << " of " << po.size() << " has the heading " << po[i].theta_ << " instead of " << headingAt(a, f));
    }
    { PathPoseVec x, y, z; k.toPoses(res, x, dir); k.toPoses(res, y, dir, true); REQUIRE(x.size() == y.size(), "an arc is not sampled with its start by default"); Shape &sh = k; sh.toPoses(res, x, dir); k.toPoses(res, z, dir, false); REQUIRE(x.size() == z.size() && x.size() + 1 == y.size(), "a shape is not sampled without its start by default"); }
    k.toPoses(0, po, dir, with); REQUIRE(po.empty(), "a resolution of zero yields poses");
}

LAW("C22", "arcs_from_poses", 360000, 4000000, "the arc is neither empty nor a full circle") {
    V p = pt(c); double th = c.pick(8) == 7 ? c.angle(-12 * TAU, 12 * TAU) : c.angle(-TAU, TAU), r = len(c, 0.1, 10), w = c.angle(0, TAU); int dir = c.boolean() ? 1 : -1; bool from = c.boolean();
    note(c, from ? "from" : "to", p); c.note() << "," << th << " radius " << r << " angle " << w << (dir > 0 ? " left" : " right");
    c.nontrivial(w > 0.01 && w < TAU - 0.01);
    PathPose ps; ps.assign(p, th);
    Circle k = from ? Circle::createArcFrom(ps, r, w, dir) : Circle::createArcTo(ps, r, w, dir);
    Arc a; a.r = r; a.dir = dir; a.arc = w; a.m = p + polar(th + dir * PI / 2, r);     // the centre is left resp. right of the pose
    a.start = th - dir * PI / 2 - (from ? 0 : dir * w);
    checkState(k, a);
    REQUIRE(near(from ? k.startPoint() : k.endPoint(), p, 1e-8), "the arc does not " << (from ? "start" : "end") << " at the pose");
    PathPoseVec po; k.toPoses(r * w / 5.5 + 1e-6, po, FORWARD, true);
    REQUIRE(!po.empty(), "no poses");
    if (w > 1e-3) { PathPose &x = from ? po.front() : po.back(); REQUIRE(near(x.pos_, p, 1e-7) && std::fabs(adiff(x.theta_, th)) < 1e-7, "the pose " << (from ? "starting" : "ending") << " the arc is " << s(x.pos_) << "," << x.theta_); }
    std::shared_ptr<Shape> sp = make_aligned<Circle>(k), dc = Shape::deepCopy(sp); auto cc = std::dynamic_pointer_cast<Circle>(dc);
    REQUIRE(cc && cc.get() != sp.get(), "no copy of an arc"); checkState(*cc, a);
    std::dynamic_pointer_cast<Circle>(sp)->setArcAngle(w / 2 + 0.1); checkState(*cc, a);
    Arc b = arc(c); Circle k2 = make(b);
    if (std::fabs(a.arc - b.arc) > 1e-9) {
        REQUIRE(Circle::compareArcAngle(k, k2) == (a.arc < b.arc) && Circle::compareArcAngle(k2, k) == (b.arc < a.arc), "the arcs are ordered wrongly by angle");
        REQUIRE(Circle::compareArcAnglePtr(make_aligned<Circle>(k), make_aligned<Circle>(k2)) == (a.arc < b.arc), "the arcs are ordered wrongly by angle");
    }
}

// ---------------------------------------------------------------------------------------------------------------- C23
std::vector<V> junk(Case &c) { return std::vector<V>(c.pick(4), V(1234, 5678)); }
bool has(const std::vector<V> &v, const V &p, double t) { for (auto &q : v) if ((q - p).norm() <= t) return true; return false; }

LAW("C23", "circles", 960000, 8000000, "the circles intersect or touch, or miss each other by less than a tenth") {
    Arc a = arc(c), b = arc(c);
    double tol = DIST_EPS; int kind = (int) c.pick(8); double ang = c.angle(), d;
    switch (kind) {
    case 0: d = a.r + b.r; break;                                            // touching from outside
    case 1: d = std::fabs(a.r - b.r); break;                                 // touching from inside
    case 2: d = 0; if (c.boolean()) b.r = a.r; break;                        // concentric
    case 3: d = a.r + b.r + c.oneOf<double>({3e-6, -3e-6, 3e-5, 0.05}); break;
    case 4: d = std::fabs(a.r - b.r) + c.oneOf<double>({3e-6, -3e-6, -3e-5, -0.05}); break;
    default: d = c.fine(0, (a.r + b.r) * 1.2); break;
    }
    d = std::fabs(d); if (kind != 5 || c.boolean()) b.m = a.m + polar(ang, d);
    d = (b.m - a.m).norm();
    note(c, "second centre", b.m); c.note() << " distance " << d;
    Circle k1 = make(a), k2 = make(b);
    std::vector<V> r = junk(c), r2 = junk(c);
    Intersector::intersect(k1, k2, r, tol); Intersector::intersect(k2, k1, r2, c.pick(4) ? tol : -tol);
    double out = d - (a.r + b.r), in = std::fabs(a.r - b.r) - d;          // > 0: too far apart, one inside of the other
    c.nontrivial(std::max(out, in) < 0.1);
    REQUIRE(r.size() <= 2 && r2.size() <= 2, r.size() << " and " << r2.size() << " intersections");
    REQUIRE(r.size() == r2.size(), r.size() << " intersections, in reverse order " << r2.size());
    for (auto &p : r) REQUIRE(has(r2, p, 1e-4), "the intersection " << s(p) << " is not found in reverse order");
    // touching circles may be off by the tolerance
    for (auto &p : r) REQUIRE(std::fabs((p - a.m).norm() - a.r) < 3e-5 && std::fabs((p - b.m).norm() - b.r) < 3e-5, "the intersection " << s(p) << " is not on both circles");
    if (d < 0.5 * tol) { REQUIRE(r.empty(), "concentric circles have intersections"); c.label("concentric"); }
    else if (out > 1.5 * tol || in > 1.5 * tol) { REQUIRE(r.empty(), "circles that do not meet have intersections"); c.label("none"); }
    else if (d > 2 * tol && (std::fabs(out) < 0.6 * tol || std::fabs(in) < 0.6 * tol) && d > 0.01) { REQUIRE(r.size() == 1, "touching circles have " << r.size() << " intersections"); c.label("touching"); }
    else if (out < -1e-3 && in < -1e-3) {
        double A = (a.r * a.r - b.r * b.r + d * d) / (2 * d), H = std::sqrt(std::max(0.0, a.r * a.r - A * A)); V u = (b.m - a.m) / d, n(-u.y(), u.x()); V p1 = a.m + A * u + H * n, p2 = a.m + A * u - H * n;
        REQUIRE(r.size() == 2 && has(r, p1, 1e-6) && has(r, p2, 1e-6), r.size() << " intersections instead of " << s(p1) << " and " << s(p2)); c.label("two");
        std::vector<V> ia = junk(c), ib = junk(c), ic = junk(c); Intersector::intersectArcs(k1, k2, ia); Intersector::intersectArcs(k2, k1, ib); k1.intersect(k2, ic);
        REQUIRE(ia.size() == ib.size() && ia.size() == ic.size(), ia.size() << ", " << ib.size() << " and " << ic.size() << " intersections of the same arcs");
        size_t n1 = 0, n0 = 0;
        for (const V &p : {p1, p2}) {
            bool on = true, sure = true;
            for (const Arc *x : {&a, &b}) { double t = along(*x, p); if (x->arc < TAU - 1e-3 && (std::fabs(t - x->arc) < 1e-3 || t > TAU - 1e-3 || t < 1e-3)) sure = false; if (t > x->arc) on = false; }
            if (!sure) { n0++; continue; }
            n1 += on;
            REQUIRE(has(ia, p, 1e-6) == on && has(ib, p, 1e-6) == on && has(ic, p, 1e-6) == on, "the intersection " << s(p) << " is " << (on ? "part of both arcs" : "not part of both arcs"));
        }
        REQUIRE(ia.size() >= n1 && ia.size() <= n1 + n0, ia.size() << " intersections of the arcs");
        c.label("arcs " + std::to_string(n1));
    } else { std::vector<V> ia = junk(c); Intersector::intersectArcs(k1, k2, ia); REQUIRE(ia.size() <= r.size(), ia.size() << " intersections of the arcs"); }
    if (out > 1.5 * tol || in > 1.5 * tol || d < 0.5 * tol) { std::vector<V> ia = junk(c); Intersector::intersectArcs(k1, k2, ia); REQUIRE(ia.empty(), "arcs that do not meet have intersections"); }
}

LAW("C23", "line_and_circle", 800000, 6000000, "the segment has at least one intersection, or ends inside of the circle") {
    Arc a = arc(c); Seg g;
    double off = c.pick(3) ? c.fine(-1.3, 1.3) * a.r : c.oneOf<double>({0, 1, -1}) * a.r, th = c.angle();
    bool touch = std::fabs(std::fabs(off) - a.r) < 1e-9;
    V u = polar(th, 1), n(-u.y(), u.x()), f = a.m + off * n;
    double t0 = c.fine(-2, 2) * a.r, t1 = c.fine(-2, 2) * a.r; if (std::fabs(t0 - t1) < 0.01) c.discard();
    g.a = f + t0 * u; g.b = f + t1 * u; note(c, "line from", g.a); note(c, "to", g.b);
    Line l(g.a, g.b); Circle k = make(a);
    std::vector<V> r = junk(c), r2 = junk(c); Intersector::intersect(l, k, r); if (c.pick(4)) k.intersect(l, r2); else k.intersect(l, r2, -DIST_EPS);
    REQUIRE(r.size() == r2.size(), r.size() << " intersections of the line with the circle, " << r2.size() << " of the circle with the line");
    double lo = std::min(t0, t1), hi = std::max(t0, t1);
    REQUIRE(r.size() <= 2, r.size() << " intersections");
    if (touch) {
        if (std::min(std::fabs(lo), std::fabs(hi)) < 1e-2) c.discard();
        for (auto &p : r) REQUIRE((p - f).norm() < 5e-3, "the touching point is " << s(p) << " instead of " << s(f));
        if (lo > 0 || hi < 0) REQUIRE(r.empty(), "a segment that does not reach the circle has intersections");
        c.label("touching"); return;
    }
    if (std::fabs(off) > a.r) { if (std::fabs(off) < a.r * 1.001) c.discard(); REQUIRE(r.empty(), "a line passing the circle has intersections"); return; }
    if (std::fabs(off) > a.r * 0.9999) c.discard();
    double h = std::sqrt(a.r * a.r - off * off); size_t n1 = 0;
    for (double t : {h, -h}) {
        if (std::min(std::fabs(t - lo), std::fabs(t - hi)) < 1e-6) c.discard();
        bool in = t > lo && t < hi; n1 += in;
        REQUIRE(has(r, f + t * u, 1e-6) == in, "the intersection " << s(V(f + t * u)) << " is " << (in ? "part of the segment" : "not part of the segment"));
    }
    REQUIRE(r.size() == n1, r.size() << " intersections instead of " << n1);
    c.nontrivial(n1 >= 1 || (lo > -h && hi < h));
    c.label("intersections " + std::to_string(n1));
}

LAW("C23", "lines", 480000, 4000000, "the segments cross") {
    V p = pt(c); double t1 = c.angle(), t2 = t1 + c.fine(0.05, PI - 0.05); double a0 = c.fine(-10, 10), a1 = c.fine(-10, 10), b0 = c.fine(-10, 10), b1 = c.fine(-10, 10);
    if (std::fabs(a0 - a1) < 0.01 || std::fabs(b0 - b1) < 0.01) c.discard();
    for (double x : {a0, a1, b0, b1}) if (std::fabs(x) < 1e-3) c.discard();
    Line l1(p + polar(t1, a0), p + polar(t1, a1)), l2(p + polar(t2, b0), p + polar(t2, b1));
    c.note() << " " << l1 << l2;
    bool ex = a0 * a1 < 0 && b0 * b1 < 0; V x(77, 77); bool got = Intersector::intersect(l1, l2, x);
    c.nontrivial(ex);
    REQUIRE(got == ex, "the segments are said " << (got ? "" : "not ") << "to cross");
    if (got) REQUIRE((x - p).norm() < 1e-6, "they are said to cross at " << s(x) << " instead of " << s(p));
}

// ---------------------------------------------------------------------------------------------------------------- C24
Arc arcOf(const Circle &k) { Arc a; a.m = k.center(); a.r = k.radius(); a.dir = k.direction(); a.start = k.startAngle(); a.arc = std::fabs(k.getArcAngle()); return a; }

// all circles of the radius touching the segment and the circle from outside; sure: not near to a degenerate case
std::vector<V> tangentCentres(const Seg &g, const Arc &k, double rad, bool &sure) {
    std::vector<V> v; V u = (g.b - g.a).normalized(), n(-u.y(), u.x()); double L = (g.b - g.a).norm(), R = k.r + rad;
    for (int sd : {1, -1}) {
        double off = (k.m - g.a).dot(n) - sd * rad, base = (k.m - g.a).dot(u);
        if (std::fabs(std::fabs(off) - R) < 1e-3 * R) sure = false;
        if (std::fabs(off) >= R) continue;
        double h = std::sqrt(R * R - off * off);
        for (double t : {base - h, base + h}) { if (std::min(std::fabs(t), std::fabs(t - L)) < 1e-5) sure = false; if (t >= 0 && t <= L) v.push_back(g.a + t * u + sd * rad * n); }
    }
    return v;
}

LAW("C24", "line_and_circle", 480000, 3000000, "at least one tangent arc exists") {
    Quiet q; Seg g = seg(c, 0.5); Arc k = arc(c, 0.3); double rad = len(c, 0.1, 6); bool toCircle = c.boolean();
    if (c.pick(3)) { V u = (g.b - g.a).normalized(), n(-u.y(), u.x()); k.m = g.a + c.fine(0, 1) * (g.b - g.a) + n * c.fine(-1, 1) * (k.r + 2 * rad); note(c, "moved to", k.m); }
    k.arc = TAU; c.note() << " tangent radius " << rad << (toCircle ? " line to circle" : " circle to line");
    if ((g.b - g.a).norm() > 60) c.discard();
    bool sure = true; std::vector<V> ex = tangentCentres(g, k, rad, sure); if (!sure) c.discard();
    Line l(g.a, g.b); Circle circ(k.m, k.r, k.dir); k.start = circ.startAngle(); k.arc = TAU;
    if (c.boolean()) { circ.setStartAngle(wrap(c.angle(0, TAU))); circ.setArcAngle(TAU - 1e-12); k = arcOf(circ); }
    aligned<Circle>::vector res(c.pick(3), Circle(V(55, 55), 1));
    Tangentor::tangentCircles(l, circ, rad, res);
    REQUIRE(res.size() == ex.size(), res.size() << " tangent circles instead of " << ex.size());
    for (auto &t : res) {
        bool found = false; for (auto &e : ex) if ((t.center() - e).norm() < 1e-6) found = true;
        REQUIRE(found, "the tangent circle around " << s(t.center()) << " does not touch both, or not from outside");
        REQUIRE(std::fabs(t.radius() - rad) < 1e-9 && t.direction() == -k.dir, "a tangent circle has the radius " << t.radius() << " and direction " << t.direction());
    }
    for (size_t i = 0; i < res.size(); ++i) for (size_t j = i + 1; j < res.size(); ++j) REQUIRE((res[i].center() - res[j].center()).norm() > 1e-7 || (ex[i] - ex[j]).norm() < 1e-6, "a tangent circle is listed twice");
    // arcs: drivable from one to the other
    V u = (g.b - g.a).normalized(), n(-u.y(), u.x()); double lh = std::atan2(u.y(), u.x());
    std::vector<Arc> arcs;
    for (auto &e : ex) {
        Arc t; t.m = e; t.r = rad; t.dir = -k.dir;
        if (((e - g.a).dot(n) > 0 ? 1 : -1) != t.dir) continue;               // wrong side: heading on the line would be reversed
        V foot = g.a + (e - g.a).dot(u) * u, touch = e + (k.m - e).normalized() * rad; V from = toCircle ? foot : touch, to = toCircle ? touch : foot;
        t.start = std::atan2(from.y() - e.y(), from.x() - e.x()); t.arc = wrap(t.dir * (std::atan2(to.y() - e.y(), to.x() - e.x()) - t.start));
        if (t.arc < 1e-4 || t.arc > TAU - 1e-4) c.discard();
        arcs.push_back(t);
    }
    res.assign(c.pick(3), Circle(V(55, 55), 1));
    if (toCircle) Tangentor::tangentArc(l, circ, rad, res); else Tangentor::tangentArc(circ, l, rad, res);
    REQUIRE(res.size() == arcs.size(), res.size() << " tangent arcs instead of " << arcs.size());
    for (auto &x : arcs) {
        bool found = false;
        for (auto &t : res) if ((t.center() - x.m).norm() < 1e-6) { found = true; Arc y = x; y.m = t.center(); REQUIRE(std::fabs(adiff(t.startAngle(), x.start)) < 1e-6 && std::fabs(std::fabs(t.getArcAngle()) - x.arc) < 1e-6 && t.direction() == x.dir, "the tangent arc around " << s(x.m) << " starts at " << t.startAngle() << " and turns by " << t.getArcAngle() << " instead of " << x.start << ", " << x.arc); }
        REQUIRE(found, "the tangent arc around " << s(x.m) << " is missing");
    }
    c.nontrivial(!arcs.empty());
    // the whole path
    std::vector<std::shared_ptr<Shape>> path(c.pick(2)), path2;
    if (toCircle) Tangentor::tangentPath(l, circ, rad, path); else Tangentor::tangentPath(circ, l, rad, path);
    std::shared_ptr<Shape> sh = make_aligned<Line>(l); Tangentor::tangentPath(sh, circ, rad, toCircle, path2);
    REQUIRE(path.size() == path2.size(), "the generic query yields " << path2.size() << " segments, the specific one " << path.size());
    if (arcs.empty()) { REQUIRE(path.empty(), "a path without any tangent arc"); c.label("none"); return; }
    c.label(std::to_string(arcs.size()) + " arcs");
    REQUIRE(path.size() == 3, "the path has " << path.size() << " segments");
    for (int i = 0; i < 3; ++i) REQUIRE(near(path[i]->startPoint(), path2[i]->startPoint()) && near(path[i]->endPoint(), path2[i]->endPoint()), "the generic query yields another path");
    double best = 1e9; for (auto &x : arcs) best = std::min(best, x.arc);
    auto t = std::dynamic_pointer_cast<Circle>(path[1]); auto ln = std::dynamic_pointer_cast<Line>(path[toCircle ? 0 : 2]); auto cc = std::dynamic_pointer_cast<Circle>(path[toCircle ? 2 : 0]);
    REQUIRE(t && ln && cc, "the path does not consist of a line, an arc and a circle");
    REQUIRE(std::fabs(std::fabs(t->getArcAngle()) - best) < 1e-6, "the arc turns by " << t->getArcAngle() << ", the shortest one by " << best);
    for (int i = 0; i < 2; ++i) REQUIRE((path[i]->endPoint() - path[i + 1]->startPoint()).norm() < 1e-6, "the path is interrupted: " << s(path[i]->endPoint()) << " is followed by " << s(path[i + 1]->startPoint()));
    REQUIRE(near(toCircle ? ln->startPoint() : ln->endPoint(), toCircle ? g.a : g.b), "the line has another " << (toCircle ? "start" : "end"));
    REQUIRE(near(cc->center(), k.m) && cc->direction() == k.dir && std::fabs(cc->radius() - k.r) < 1e-9, "the circle of the path is another one");
    Arc ta = arcOf(*t), ca = arcOf(*cc); V ld = ln->endPoint() - ln->startPoint();
    if (ld.norm() > 1e-4) REQUIRE(std::fabs(adiff(std::atan2(ld.y(), ld.x()), lh)) < 1e-3, "the line of the path has another direction");
    REQUIRE(std::fabs(adiff(headingAt(ta, toCircle ? 0 : 1), lh)) < 1e-5, "the heading jumps between line and arc");
    REQUIRE(std::fabs(adiff(headingAt(ta, toCircle ? 1 : 0), headingAt(ca, toCircle ? 0 : 1))) < 1e-5, "the heading jumps between arc and circle");
    if (toCircle) REQUIRE(std::fabs(ca.arc - TAU) < 1e-9, "the circle after the arc turns by " << ca.arc); else REQUIRE(std::fabs(adiff(ca.start, k.start)) < 1e-9, "the circle before the arc has another start");
}

// arcs leaving one circle and joining a surrounding one from inside
LAW("C24", "circle_in_circle", 480000, 3000000, "at least one tangent arc exists") {
    Quiet q; Arc small = arc(c, 0.3), large = arc(c, 1); double rad = c.fine(0.05, 1.1) * large.r; bool fromSmall = c.boolean(), same = c.pick(5) == 4;
    large.dir = same ? small.dir : -small.dir; if (c.pick(3) == 0) small.arc = TAU; if (c.pick(3) == 0) large.arc = TAU;
    double D = c.fine(0, 1) * (small.r + large.r); large.m = small.m + polar(c.angle(), D);
    note(c, "large around", large.m); c.note() << (large.dir > 0 ? " left" : " right") << " arcs " << small.arc << "," << large.arc << " tangent radius " << rad << (fromSmall ? " from small" : " to small");
    Circle ks = make(small), kl = make(large);
    auto touchOn = [&](const Arc &a, const V &p, bool &sure) { double t = along(a, p); if (a.arc < TAU - 1e-9 && (t > TAU - 1e-3 || t < 1e-3 || std::fabs(t - a.arc) < 1e-3)) sure = false; return t <= a.arc; };
    // centres: rad + r from the small centre, R - rad from the large one
    bool sure = true; std::vector<V> cen; double r1 = small.r + rad, r2 = large.r - rad;
    if (std::fabs(r2) < 1e-3 || D < 1e-3) c.discard();
    if (r2 > 0) {
        if (std::fabs(D - (r1 + r2)) < 1e-3 || std::fabs(D - std::fabs(r1 - r2)) < 1e-3) c.discard();
        if (D < r1 + r2 && D > std::fabs(r1 - r2)) { double A = (r1 * r1 - r2 * r2 + D * D) / (2 * D), H = std::sqrt(r1 * r1 - A * A); V u = (large.m - small.m) / D, n(-u.y(), u.x()); cen.push_back(small.m + A * u + H * n); cen.push_back(small.m + A * u - H * n); }
    }
    aligned<Circle>::vector res(c.pick(3), Circle(V(55, 55), 1));
    Tangentor::tangentInnerCircles(ks, kl, rad, res);
    REQUIRE(res.size() == cen.size(), res.size() << " tangent circles instead of " << cen.size());
    for (auto &t : res) { bool f = false; for (auto &e : cen) if ((t.center() - e).norm() < 1e-6) f = true; REQUIRE(f && std::fabs(t.radius() - rad) < 1e-9 && t.direction() == large.dir, "the circle around " << s(t.center()) << " does not touch both in the direction of the outer one"); }
    auto solutions = [&](bool fs) {
        std::vector<Arc> v;
        for (auto &e : cen) {
            V ts = e + (small.m - e).normalized() * rad, tl = e + (e - large.m).normalized() * rad;
            bool a = touchOn(small, ts, sure), b = touchOn(large, tl, sure); if (!a || !b) continue;
            Arc t; t.m = e; t.r = rad; t.dir = large.dir; V f = fs ? ts : tl, g = fs ? tl : ts;
            t.start = wrap(std::atan2(f.y() - e.y(), f.x() - e.x())); t.arc = wrap(t.dir * (std::atan2(g.y() - e.y(), g.x() - e.x()) - t.start)); if (t.arc < 1e-4 || t.arc > TAU - 1e-4) sure = false;
            v.push_back(t);
        }
        return v;
    };
    auto match = [&](const Circle &t, const std::vector<Arc> &v, const char *what) {
        double best = 1e9; for (auto &x : v) best = std::min(best, x.arc);
        bool f = false; for (auto &x : v) if ((t.center() - x.m).norm() < 1e-6 && std::fabs(adiff(t.startAngle(), x.start)) < 1e-5 && std::fabs(std::fabs(t.getArcAngle()) - x.arc) < 1e-5 && x.arc < best + 1e-5) f = true;
        REQUIRE(f, what << ": the arc around " << s(t.center()) << " from " << t.startAngle() << " over " << t.getArcAngle() << " is not the shortest one joining both circles");
    };
    // from the inner circle to the outer one
    std::vector<Arc> inner = solutions(true); if (!sure) c.discard();
    res.assign(c.pick(3), Circle(V(55, 55), 1)); Tangentor::tangentInnerArcs(ks, kl, rad, res);
    if (same) REQUIRE(res.empty(), "an arc joins circles of the same direction");
    else { REQUIRE(res.size() == (inner.empty() ? 0u : 1u), res.size() << " arcs returned, " << inner.size() << " exist"); if (!res.empty()) match(res[0], inner, "tangent arc"); }
    if (same) return;
    c.nontrivial(!inner.empty());
    std::vector<Arc> sol = solutions(fromSmall); if (!sure) c.discard();
    double best = 1e9; for (auto &x : sol) best = std::min(best, x.arc);
    if (std::fabs(best - PI) < 1e-3) c.discard();
    std::vector<std::shared_ptr<Shape>> path(c.pick(2)), path2; Tangentor::tangentPath(ks, kl, rad, fromSmall, path);
    std::shared_ptr<Shape> sh = make_aligned<Circle>(kl); Tangentor::tangentPath(sh, ks, rad, !fromSmall, path2);
    REQUIRE(path.size() == path2.size(), "the generic query yields " << path2.size() << " segments, the specific one " << path.size());
    if (best > PI) { REQUIRE(path.empty(), "a path without a tangent arc below half a turn"); c.label("none"); return; }
    c.label("path");
    REQUIRE(path.size() == 3, "the path has " << path.size() << " segments");
    std::vector<std::shared_ptr<Circle>> k; for (auto &p : path) { k.push_back(std::dynamic_pointer_cast<Circle>(p)); REQUIRE(k.back(), "a segment of the path is no arc"); }
    for (int i = 0; i < 3; ++i) REQUIRE(near(path[i]->startPoint(), path2[i]->startPoint()) && near(path[i]->endPoint(), path2[i]->endPoint()), "the generic query yields another path");
    match(*k[1], sol, "path");
    const Arc &first = fromSmall ? small : large, &last = fromSmall ? large : small;
    REQUIRE(near(k[0]->center(), first.m) && near(k[2]->center(), last.m) && k[0]->direction() == first.dir && k[2]->direction() == last.dir, "the path does not lead from one circle to the other");
    REQUIRE(near(k[0]->startPoint(), at(first, 0), 1e-8) && near(k[2]->endPoint(), at(last, 1), 1e-8), "the path has other ends");
    Arc a0 = arcOf(*k[0]), a1 = arcOf(*k[1]), a2 = arcOf(*k[2]);
    REQUIRE((at(a0, 1) - at(a1, 0)).norm() < 1e-5 && (at(a1, 1) - at(a2, 0)).norm() < 1e-5, "the path is interrupted");
    REQUIRE(std::fabs(adiff(headingAt(a0, 1), headingAt(a1, 0))) < 1e-5 && std::fabs(adiff(headingAt(a1, 1), headingAt(a2, 0))) < 1e-5, "the heading jumps");
}

} // namespace
