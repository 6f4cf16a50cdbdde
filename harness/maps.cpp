// C11: cell/point conversions of grid maps.  C12: storing and classifying cells.  C13: rotated maps.
// C14: footprint collision queries.  C15: areas of a map.  C16: lines of cells and lines of sight.
#include "gen.h"
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <memory>
using namespace lib_path;
using pbt::Case;

namespace {

typedef long double ld;

struct Geo {                          // size, resolution, origin and rotation of a map
    int w = 1, h = 1; double res = 1, ox = 0, oy = 0, yaw = 0; bool exact = false;
};
void drawRes(Case &c, Geo &g) {
    if (c.pick(3) == 0) { g.res = c.oneOf<double>({1, 0.5, 0.25, 2}); g.ox = c.integerNear(-80, 80, 0) / 4.0; g.oy = c.integerNear(-80, 80, 0) / 4.0; g.exact = true; }
    else { g.res = c.pick(3) ? c.oneOf<double>({0.05, 0.1, 0.025, 0.2}) : c.fine(0.01, 5); g.ox = c.real(-100, 100); g.oy = c.real(-100, 100); g.exact = false; }
    if (c.pick(4) == 3) g.ox = g.oy = 0;
}
void drawSize(Case &c, int &w, int &h, int maxn, bool big) {
    if (big) { unsigned ww, hh; gen::bigSize(c, ww, hh, maxn < 60 ? 72000 : 90000); w = (int) ww; h = (int) hh; }
    else { w = (int) c.size(1, maxn); h = (int) c.size(1, maxn); }
}
Geo geo(Case &c, bool rotated, bool big, int maxn = 60) {
    Geo g; drawSize(c, g.w, g.h, maxn, big); drawRes(c, g);
    if (rotated) { g.yaw = c.angle(-2 * M_PI, 2 * M_PI); if (g.yaw != 0) g.exact = false; }
    return g;
}
void note(Case &c, const Geo &g) { c.note() << std::setprecision(17) << " map " << g.w << "x" << g.h << " res " << g.res << " origin " << g.ox << "," << g.oy << " yaw " << g.yaw; }

struct Q { ld x, y; double eps; };     // exact (real valued) cell coordinates of a point
Q cellOf(const Geo &g, double px, double py) {
    Q q; ld dx = (ld) px - g.ox, dy = (ld) py - g.oy, s = sinl((ld) g.yaw), k = cosl((ld) g.yaw);
    if (g.yaw == 0) { s = 0; k = 1; }
    q.x = (k * dx + s * dy) / g.res; q.y = (-s * dx + k * dy) / g.res;
    q.eps = g.exact ? 0 : 1e-14 * (std::fabs(px) + std::fabs(py) + std::fabs(g.ox) + std::fabs(g.oy) + g.res) / g.res * 8 + 1e-13;
    return q;
}
void toPoint(const Geo &g, ld x, ld y, double &px, double &py) {
    ld s = sinl((ld) g.yaw), k = cosl((ld) g.yaw);
    px = (double) (g.ox + k * x * g.res - s * y * g.res); py = (double) (g.oy + s * x * g.res + k * y * g.res);
}

// checks one point against the map; returns whether it was inside
template <class M>
bool checkPoint(Case &c, const M &m, const Geo &g, double px, double py) {
    Q q = cellOf(g, px, py);
    ld xl = floorl(q.x - q.eps), xh = floorl(q.x + q.eps), yl = floorl(q.y - q.eps), yh = floorl(q.y + q.eps);
    bool mayIn = xh >= 0 && xl < g.w && yh >= 0 && yl < g.h, mustIn = xl >= 0 && xh < g.w && yl >= 0 && yh < g.h;
    unsigned x = 7777777, y = 7777777;
    bool in = m.point2cell(px, py, x, y);
    REQUIRE(!in || mayIn, "the point " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") is outside, but was mapped to cell " << x << "," << y);
    REQUIRE(in || !mustIn, "the point " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") is inside, but was rejected");
    if (in) {
        REQUIRE((int) x < g.w && (int) y < g.h, "the point " << px << "," << py << " was mapped to cell " << x << "," << y << " which does not exist");
        REQUIRE((x == xl || x == xh) && (y == yl || y == yh), "the point " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") was mapped to cell " << x << "," << y);
    }
    bool im = m.isInMap(px, py);
    REQUIRE(im == in || mustIn != mayIn, "the point " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") is said to be " << (im ? "inside" : "outside"));
    REQUIRE((!im || mayIn) && (im || !mustIn), "the point " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") is said to be " << (im ? "inside" : "outside"));
    const GridMap2d &b = m;            // overloads taking points and poses
    unsigned x2 = 1, y2 = 1, x3 = 1, y3 = 1;
    bool in2 = b.point2cell(Point2d(px, py), x2, y2), in3 = b.pose2cell(Pose2d(px, py, 0.3), x3, y3);
    REQUIRE(in2 == in && in3 == in && (!in || (x2 == x && y2 == y && x3 == x && y3 == y)), "the overloads disagree about the cell of " << px << "," << py);
    REQUIRE(b.isInMap(Point2d(px, py)) == im, "the overloads disagree whether " << px << "," << py << " is inside");
    double sx, sy;
    bool is = m.point2cellSubPixel(px, py, sx, sy);
    REQUIRE((!is || mayIn) && (is || !mustIn), "sub cell conversion of " << px << "," << py << " (cell coordinates " << (double) q.x << "," << (double) q.y << ") says " << (is ? "inside" : "outside"));
    if (std::fabs(px) < 1e9 && std::fabs(py) < 1e9) {
        REQUIRE(std::fabs(sx - (double) q.x) <= 1e-9 * (1 + std::fabs(sx)) + q.eps && std::fabs(sy - (double) q.y) <= 1e-9 * (1 + std::fabs(sy)) + q.eps, "sub cell coordinates of " << px << "," << py << " are " << sx << "," << sy << " instead of " << (double) q.x << "," << (double) q.y);
        double bx, by; m.cell2pointSubPixel(sx, sy, bx, by);
        double tol = 1e-9 * (1 + std::fabs(px) + std::fabs(py) + std::fabs(g.ox) + std::fabs(g.oy));
        REQUIRE(std::fabs(bx - px) <= tol && std::fabs(by - py) <= tol, "converting " << px << "," << py << " to cell coordinates and back gives " << bx << "," << by);
    }
    return in;
}
template <class M>
void checkCell(Case &, const M &m, const Geo &g, unsigned x, unsigned y, double fx, double fy) {
    double px, py, ex, ey; m.cell2point(x, y, px, py);
    toPoint(g, x + 0.5L, y + 0.5L, ex, ey);
    double tol = 1e-9 * (1 + std::fabs(ex) + std::fabs(ey) + std::fabs(g.ox) + std::fabs(g.oy));
    REQUIRE(std::fabs(px - ex) <= tol && std::fabs(py - ey) <= tol, "the centre of cell " << x << "," << y << " is " << ex << "," << ey << ", not " << px << "," << py);
    unsigned cx = 0, cy = 0;
    REQUIRE(m.point2cell(px, py, cx, cy), "the centre of cell " << x << "," << y << " is said to be outside");
    REQUIRE(cx == x && cy == y, "the centre of cell " << x << "," << y << " is mapped to cell " << cx << "," << cy);
    Point2d p; ((const GridMap2d &) m).cell2point(x, y, p);
    REQUIRE(p.x == px && p.y == py, "the overloads disagree about the centre of cell " << x << "," << y);
    float qx, qy; m.cell2point(x, y, qx, qy);
    double ftol = 1e-5 * (1 + std::fabs(ex) + std::fabs(ey) + std::fabs(g.ox) + std::fabs(g.oy) + (g.w + g.h) * g.res);
    REQUIRE(std::fabs(qx - ex) <= ftol && std::fabs(qy - ey) <= ftol, "the centre of cell " << x << "," << y << " in single precision is " << qx << "," << qy << " instead of " << ex << "," << ey);
    // every point of a cell belongs to it
    toPoint(g, x + (ld) fx, y + (ld) fy, px, py);
    REQUIRE(m.point2cell(px, py, cx, cy), "a point of cell " << x << "," << y << " is said to be outside");
    REQUIRE(cx == x && cy == y, "a point (" << fx << "," << fy << ") of cell " << x << "," << y << " is mapped to cell " << cx << "," << cy);
}
template <class M>
void queries(Case &c, const M &m, const Geo &g) {
    int n = 1 + (int) c.pick(10), inside = 0, outside = 0;
    for (int i = 0; i < n; ++i) {
        int k = (int) c.pick(6);
        if (k < 4) {
            double qx = c.real(-3, g.w + 3), qy = c.real(-3, g.h + 3), px, py;
            if (k == 1) (c.pick(2) ? qx : qy) = c.oneOf<double>({-1e-3, -0.5, -1 + 1e-6, -1 - 1e-6, -1});
            if (k == 2) { if (c.pick(2)) qx = c.oneOf<double>({0.0, (double) g.w, g.w - 1e-3, g.w + 1e-3}); else qy = c.oneOf<double>({0.0, (double) g.h, g.h - 1e-3, g.h + 1e-3}); }
            toPoint(g, qx, qy, px, py);
            c.note() << " point " << px << "," << py;
            (checkPoint(c, m, g, px, py) ? inside : outside)++;
        } else if (k == 4) {
            double px = c.real(-1000, 1000), py = c.real(-1000, 1000);
            if (c.pick(4) == 3) (c.pick(2) ? px : py) = c.oneOf<double>({-1e6, 1e6, 3e9, -3e9, 1e10, -1e10, 1e20, -1e20, 4294967296.0 * g.res + g.ox + 0.5 * g.res});
            c.note() << " point " << px << "," << py;
            (checkPoint(c, m, g, px, py) ? inside : outside)++;
        } else {
            unsigned x = (unsigned) c.pick(g.w), y = (unsigned) c.pick(g.h);
            c.note() << " cell " << x << "," << y;
            checkCell(c, m, g, x, y, c.real(0.001, 0.999), c.real(0.001, 0.999)); ++inside;
        }
    }
    int x = (int) c.integerNear(-3, g.w + 3, 0), y = (int) c.integerNear(-3, g.h + 3, 0);
    if (c.pick(8) == 7) (c.pick(2) ? x : y) = c.oneOf<int>({INT32_MAX, INT32_MIN, -100000, 100000});
    REQUIRE(m.isInMap(x, y) == (x >= 0 && y >= 0 && x < g.w && y < g.h), "cell " << x << "," << y << " is said to be " << (m.isInMap(x, y) ? "inside" : "outside"));
    c.nontrivial(inside && outside);
    if (inside) c.label("with points inside"); if (outside) c.label("with points outside");
}

void simpleConv(Case &c, bool big = false) {
    Geo g = geo(c, false, big);
    SimpleGridMap2d m(g.w, g.h, g.res);
    REQUIRE(m.getOrigin().x == 0 && m.getOrigin().y == 0, "the origin of a new map is not 0,0");
    m.setOrigin(Point2d(g.ox, g.oy));
    note(c, g);
    queries(c, m, g);
    if (c.pick(2)) {
        Geo o = g; drawRes(c, g); m.setOrigin(Point2d(g.ox, g.oy)); m.setResolution(g.res);
        if (c.pick(2)) { drawSize(c, g.w, g.h, 60, big); m.set(std::vector<uint8_t>(g.w * g.h + c.pick(3)), g.w, g.h); }
        c.note() << " then"; note(c, g); c.label("changed");
        queries(c, m, g);
    }
    REQUIRE(m.getResolution() == g.res && m.getOrigin().x == g.ox && m.getOrigin().y == g.oy && (int) m.getWidth() == g.w && (int) m.getHeight() == g.h, "size, resolution or origin are not what was set");
    // free functions
    double px = c.real(-50, 50), py = c.real(-50, 50), mx, my, qx, qy;
    pos2map(px, py, mx, my, m); map2pos(mx, my, qx, qy, m);
    Q q = cellOf(g, px, py);
    REQUIRE(std::fabs(mx - (double) q.x) <= 1e-9 * (1 + std::fabs(mx)) + q.eps && std::fabs(my - (double) q.y) <= 1e-9 * (1 + std::fabs(my)) + q.eps, "pos2map(" << px << "," << py << ") is " << mx << "," << my << " instead of " << (double) q.x << "," << (double) q.y);
    REQUIRE(std::fabs(qx - px) < 1e-9 * (1 + std::fabs(px) + std::fabs(g.ox)) && std::fabs(qy - py) < 1e-9 * (1 + std::fabs(py) + std::fabs(g.oy)), "map2pos(pos2map(" << px << "," << py << ")) is " << qx << "," << qy);
    double th = c.angle();
    Pose2d a = pos2map(Pose2d(px, py, th), m), b = map2pos(a, m);
    REQUIRE(a.x == mx && a.y == my && a.theta == th && b.x == qx && b.y == qy && b.theta == th, "the pose versions of pos2map and map2pos disagree with the coordinate versions");
}

void rotatedConv(Case &c, bool big = false) {
    Geo g = geo(c, c.pick(6) != 5, big);
    RotatedGridMap2d m(g.w, g.h, g.yaw, g.res);
    m.setOrigin(Point2d(g.ox, g.oy));
    note(c, g);
    auto meta = [&](const char *when) {
        REQUIRE((int) m.getWidth() == g.w && (int) m.getHeight() == g.h && m.getResolution() == g.res && m.getRotation() == g.yaw, "size, resolution or rotation are not what was set" << when);
        REQUIRE(std::fabs(m.getOrigin().x - g.ox) < 1e-9 * (1 + std::fabs(g.ox) + std::fabs(g.oy)) && std::fabs(m.getOrigin().y - g.oy) < 1e-9 * (1 + std::fabs(g.ox) + std::fabs(g.oy)), "the origin is " << m.getOrigin() << when << ", " << g.ox << "," << g.oy << " was set");
    };
    meta("");
    queries(c, m, g);
    if (g.yaw == 0) {       // the same as a map that is not rotated
        SimpleGridMap2d s(g.w, g.h, g.res); s.setOrigin(Point2d(g.ox, g.oy));
        double px, py, qx, qy; unsigned x = (unsigned) c.pick(g.w), y = (unsigned) c.pick(g.h);
        s.cell2point(x, y, px, py); m.cell2point(x, y, qx, qy);
        REQUIRE(std::fabs(px - qx) < 1e-9 * (1 + std::fabs(px)) && std::fabs(py - qy) < 1e-9 * (1 + std::fabs(py)), "without rotation cell " << x << "," << y << " is at " << qx << "," << qy << " instead of " << px << "," << py);
        c.label("yaw 0");
    }
    if (c.pick(2)) {
        drawSize(c, g.w, g.h, 60, big); g.yaw = c.angle(-2 * M_PI, 2 * M_PI); g.exact = false;
        std::vector<uint8_t> d(g.w * g.h + c.pick(3));
        int x = (int) c.pick(g.w), y = (int) c.pick(g.h); d[y * g.w + x] = 77;
        m.set(d, g.w, g.h, g.yaw);
        if (c.pick(2)) { drawRes(c, g); g.exact = false; m.setOrigin(Point2d(g.ox, g.oy)); m.setResolution(g.res); }
        c.note() << " then"; note(c, g); c.label("changed");
        meta(" after new data with a new rotation");
        REQUIRE(m.getValue(x, y) == 77, "the data of the map is wrong after it was set");
        queries(c, m, g);
    }
    const RotatedGridMap2d copy(m);
    double px, py, qx, qy; m.cell2point(0, 0, px, py); copy.cell2point(0, 0, qx, qy);
    REQUIRE(px == qx && py == qy, "a copy of the map is placed differently");
}

// ------------------------------------------------------------------------------------------------ C12
void storage(Case &c, bool big = false) {
    int w, h; drawSize(c, w, h, 20, big);
    bool rot = c.pick(4) == 3;
    std::unique_ptr<SimpleGridMap2d> mp(rot ? new RotatedGridMap2d(w, h, 0.5, 0.1) : new SimpleGridMap2d(w, h, 0.1));
    SimpleGridMap2d &m = *mp;
    std::vector<uint8_t> v(w * h, 0);
    int lo = 50, hi = 200, ni = -1, writes = 0;
    for (int x = 0; x < w; ++x) REQUIRE(m.getValue(x, h - 1) == 0, "a new map is not 0");
    int ops = (int) c.size(1, big ? 12 : 40); bool special = false;
    for (int o = 0; o < ops; ++o) {
        switch (c.pick(9)) {
        case 0: case 1: case 2: {
            int x = (int) c.pick(w), y = (int) c.pick(h); uint8_t val = (uint8_t) c.pick(256);
            if (c.pick(2)) val = (uint8_t) std::min(255, std::max(0, c.oneOf<int>({lo, hi, ni}) + (int) c.pick(3) - 1));
            m.setValue(x, y, val); v[y * w + x] = val; ++writes;
            c.note() << " set " << x << "," << y << "=" << (int) val; break; }
        case 3: { uint8_t val = (uint8_t) c.pick(256); m.set(val); v.assign(w * h, val); c.note() << " fill " << (int) val; break; }
        case 4: {
            drawSize(c, w, h, 20, big); v.assign(w * h, 0);
            uint64_t s = c.draw(0xffff); for (auto &q : v) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; q = (uint8_t) (s >> 40); }
            std::vector<uint8_t> d = v; d.resize(w * h + c.pick(5), 9);
            m.set(d, w, h); c.note() << " data " << w << "x" << h; special = true; break; }
        case 5: lo = (int) c.pick(256); m.setLowerThreshold((uint8_t) lo); c.note() << " lower " << lo; special = true; break;
        case 6: hi = (int) c.pick(256); m.setUpperThreshold((uint8_t) hi); c.note() << " upper " << hi; special = true; break;
        case 7: ni = (int) c.integerNear(-1, 255, -1); m.setNoInformationValue(ni); c.note() << " noinfo " << ni; special = true; break;
        default: { int x = (int) c.pick(w), y = (int) c.pick(h); uint8_t val = (uint8_t) c.pick(256); m.getData()[y * w + x] = val; v[y * w + x] = val; c.note() << " raw " << x << "," << y << "=" << (int) val; } 
        }
        REQUIRE((int) m.getWidth() == w && (int) m.getHeight() == h, "the map is " << m.getWidth() << "x" << m.getHeight() << " instead of " << w << "x" << h);
        const GridMap2d &b = m; int nf = 0, no = 0, nu = 0;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            int val = v[y * w + x];
            REQUIRE(b.getValue(x, y) == val, "cell " << x << "," << y << " contains " << (int) b.getValue(x, y) << " instead of " << val);
            bool unk = ni != -1 && val == ni, f = !unk && val <= lo, oc = !unk && val >= hi, u = unk || (val > lo && val < hi);
            nf += f; no += oc; nu += u;
            REQUIRE(b.isFree(x, y) == f && b.isOccupied(x, y) == oc && b.isNoInformation(x, y) == u, "cell " << x << "," << y << " with value " << val << " (free up to " << lo << ", occupied from " << hi << ", unknown value " << ni << ") is reported free " << b.isFree(x, y) << " occupied " << b.isOccupied(x, y) << " unknown " << b.isNoInformation(x, y));
            REQUIRE(b.isFree(x, y, 1.3) == f && b.isOccupied(x, y, -2.0) == oc && b.isNoInformation(x, y, 0.0) == u, "the answers for cell " << x << "," << y << " depend on the heading");
        }
        if (nf && no && nu) c.label("all classes"); 
        // the same by map coordinates
        int x = (int) c.pick(w), y = (int) c.pick(h); Point2d p; b.cell2point(x, y, p);
        REQUIRE(b.isFree(p) == b.isFree(x, y) && b.isOccupied(p) == b.isOccupied(x, y) && b.isNoInformation(p) == b.isNoInformation(x, y), "cell " << x << "," << y << " and its centre are classified differently");
    }
    c.nontrivial(writes >= 2 && special);
}

// ------------------------------------------------------------------------------------------------ C14
void footprint(Case &c, bool large = false) {
    int w, h; if (large) drawSize(c, w, h, 60, true); else { w = (int) c.integer(1, 40); h = (int) c.integer(1, 40); } double res = c.oneOf<double>({1.0, 0.1, 0.05});
    int big = (int) c.pick(6);
    double fw = c.fine(0, big == 5 ? 14 : 5) * res, bw = -c.fine(0, big == 4 ? 14 : 4) * res, wd = c.fine(0.2, big >= 4 ? 16 : 6) * res;
    if (large) { double k = c.oneOf<double>({1, 8, 20}); if (k == 20 && c.boolean()) { w = (int) c.integer(150, 420); h = (int) c.integer(20, 200); if (c.boolean()) std::swap(w, h); fw = std::max(fw, c.fine(4, 11) * res); } fw = std::min(220.0, fw / res * k) * res; bw = -std::min(120.0, -bw / res * k) * res; wd = std::min(100.0, wd / res * k) * res; c.label("scaled " + std::to_string((int) k)); }
    if (c.pick(8) == 7) { bw = c.fine(0, 0.9) * fw; c.label("footprint ahead of the pose"); }
    std::unique_ptr<CollisionGridMap2d> m(new CollisionGridMap2d(w, h, c.pick(3) == 2 ? c.angle() : 0, res, fw, bw, wd));
    std::vector<int> cls(w * h, 0);
    c.note() << std::setprecision(17) << " map " << w << "x" << h << " yaw " << m->getRotation() << " robot " << bw / res << ".." << fw / res << " x " << wd / res << " cells";
    int poses = 1 + (int) c.pick(large ? 40 : 10); std::vector<int> blocked;
    for (int k = 0; k < poses; ++k) {
        int x = (int) c.pick(w), y = (int) c.pick(h); double th = c.angle(-7, 7);
        if (large && c.boolean()) { th = M_PI / 2 * (double) c.integerNear(-4, 4, 0); if (th == 0 || std::cos(th) > 0.5) x = (int) c.pick(std::max(1, w / 4)); }
        if (large && c.pick(3)) { for (int i : blocked) { cls[i] = 0; m->setValue(i % w, i / w, 0); } if (!blocked.empty()) c.note() << " cleared"; blocked.clear(); }
        if (c.pick(10) == 9) { (c.pick(2) ? x : y) = c.oneOf<int>({-1, -5, large ? 100000 : 100}); }
        if (c.pick(12) == 11) { std::unique_ptr<CollisionGridMap2d> n(new CollisionGridMap2d(*m)); m.swap(n); n.reset(); c.label("copy"); }
        // obstacles and unknown cells in and around the footprint
        int obs = (int) c.pick(4);
        for (int i = 0; i < obs; ++i) {
            int ox, oy, cl = 1 + (int) c.pick(2);
            if (c.pick(5)) {
                double u = bw / res + c.fine(-0.2, 1.2) * (fw - bw) / res, v = c.fine(-0.7, 0.7) * wd / res;
                if (c.pick(3) == 2) u = fw / res - c.fine(-1, 2);
                ox = x + (int) std::lround(std::cos(th) * u - std::sin(th) * v); oy = y + (int) std::lround(std::sin(th) * u + std::cos(th) * v);
            } else { ox = (int) c.pick(w); oy = (int) c.pick(h); }
            if (ox < 0 || oy < 0 || ox >= w || oy >= h) continue;
            cls[oy * w + ox] = cl; m->setValue(ox, oy, cl == 1 ? 255 : 127); blocked.push_back(oy * w + ox);
            c.note() << (cl == 1 ? " obstacle " : " unknown ") << ox << "," << oy;
        }
        if (c.pick(3) == 2) { int i = (int) c.pick(w * h); cls[i] = 0; m->setValue(i % w, i / w, 0); }
        c.note() << " pose " << x << "," << y << "," << th;
        bool occ = m->isOccupiedRotated(x, y, th), fr = m->isFreeRotated(x, y, th), un = m->isNoInformationRotated(x, y, th);
        if (x < 0 || y < 0 || x >= w || y >= h) { REQUIRE(!occ && !fr && !un, "a pose outside the map is reported occupied " << occ << " free " << fr << " unknown " << un); c.label("outside"); continue; }
        double f = th / (2 * M_PI) * 128, lo = std::floor(f), frac = f - lo;
        std::vector<double> hs; if (frac < 0.5 + 1e-6) hs.push_back(lo); if (frac > 0.5 - 1e-6) hs.push_back(lo + 1);
        bool must[3] = {false, false, false}, may[3] = {false, false, false}; int nmust = 0; std::string where;
        std::set<int> bl(blocked.begin(), blocked.end());
        for (int i : bl) {
            int xx = i % w, yy = i / w, cl = cls[i]; if (!cl) continue;
            bool all = true, any = false;
            for (double s : hs) {
                double a = s / 128 * 2 * M_PI, dx = xx - x, dy = yy - y, u = std::cos(a) * dx + std::sin(a) * dy, v = -std::sin(a) * dx + std::cos(a) * dy;
                double eu = std::max(std::max(u - fw / res, bw / res - u), 0.0), ev = std::max(std::fabs(v) - wd / 2 / res, 0.0);
                bool in = u < fw / res - 1e-6 && u > bw / res + 1e-6 && std::fabs(v) < wd / 2 / res - 1e-6;
                all = all && in; any = any || std::hypot(eu, ev) <= 0.7072 + 1e-6;
            }
            if (all) { must[cl] = true; ++nmust; where += " " + std::to_string(xx) + "," + std::to_string(yy); }
            if (any) may[cl] = true;
        }
        int own = cls[y * w + x];
        REQUIRE(occ || !(own == 1 || must[1]), "not reported occupied although the robot covers an obstacle (" << where << ")");
        REQUIRE(!occ || own == 1 || may[1], "reported occupied although no obstacle is near the robot");
        REQUIRE(!fr || !(own || must[1] || must[2]), "reported free although the robot covers an obstacle or unknown cell (" << where << ")");
        REQUIRE(fr || own || may[1] || may[2], "not reported free although all cells near the robot are free");
        REQUIRE(!(fr && occ), "free and occupied at the same time");
        REQUIRE(!un || own == 2 || may[2], "reported unknown although no unknown cell is near the robot");
        REQUIRE(!un || own != 1, "an occupied cell is reported unknown");
        REQUIRE(un || own == 1 || !must[2], "not reported unknown although the robot covers an unknown cell (" << where << ")");
        if (occ) c.label("occupied"); if (fr) c.label("free"); if (un) c.label("unknown"); if (nmust && !own) c.label("covered away from the pose");
        c.nontrivial((nmust && !own) || (fr && (may[1] || may[2] || k)));
    }
}

// ------------------------------------------------------------------------------------------------ C15
typedef std::pair<int, int> Cell;
std::vector<Cell> cellsOf(MapArea2d &a) {
    std::vector<Cell> r; a.begin();
    while (a.next()) { int x, y; a.getCell(x, y); r.push_back(Cell(x, y)); REQUIRE(r.size() < 2000000, "the iteration over the area does not end"); }
    REQUIRE(!a.next(), "the iteration over the area continues after its end");
    return r;
}
// the cells of a line; they must connect a and b without gaps and stay within half a cell of the straight line
void checkLine(const std::vector<Cell> &l, Cell a, Cell b, const char *what) {
    int dx = b.first - a.first, dy = b.second - a.second, n = std::max(std::abs(dx), std::abs(dy));
    REQUIRE(!l.empty() && l.front() == a, what << " does not begin in the start cell");
    REQUIRE(l.back() == b, what << " does not end in the end cell");
    REQUIRE((int) l.size() == n + 1, what << " consists of " << l.size() << " cells instead of " << n + 1);
    for (size_t i = 0; i < l.size(); ++i) {
        if (i) REQUIRE(std::abs(l[i].first - l[i - 1].first) <= 1 && std::abs(l[i].second - l[i - 1].second) <= 1, what << " has a gap before cell " << i);
        double ex = a.first + (n ? (double) dx * i / n : 0), ey = a.second + (n ? (double) dy * i / n : 0);
        REQUIRE(std::fabs(l[i].first - ex) <= 0.5 + 1e-9 && std::fabs(l[i].second - ey) <= 0.5 + 1e-9, what << " contains " << l[i].first << "," << l[i].second << " which is not next to the straight line");
    }
}

void areas(Case &c, bool big = false) {
    Geo g = geo(c, false, big, big ? 60 : 30); g.exact = false;
    SimpleGridMap2d m(g.w, g.h, g.res); m.setOrigin(Point2d(g.ox, g.oy)); note(c, g);
    gen::Grid grid; grid.w = g.w; grid.h = g.h; grid.v.assign(g.w * g.h, 0);
    bool plain = c.pick(2);
    if (!plain) { uint64_t s = c.draw(0xffff); for (auto &q : grid.v) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; q = (uint8_t) ((s >> 40) % 5 == 0 ? (s >> 50) : 0); } }
    else if (c.pick(2)) { uint8_t v = c.oneOf<uint8_t>({0, 127, 255}); std::fill(grid.v.begin(), grid.v.end(), v); }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m.setValue(x, y, grid.at(x, y));
    auto pt = [&](Cell &cell, bool &in) {
        int x = (int) c.pick(g.w), y = (int) c.pick(g.h);
        if (c.pick(7) == 6) (c.pick(2) ? x : y) = c.oneOf<int>({-1, -3, big ? 100000 : 40});
        cell = Cell(x, y); in = x >= 0 && y >= 0 && x < g.w && y < g.h;
        double px, py; toPoint(g, x + (ld) c.real(0.01, 0.99), y + (ld) c.real(0.01, 0.99), px, py);
        return Point2d(px, py);
    };
    int kind = (int) c.pick(3); double rmax = big ? 300 : 12; int R = (int) rmax + 2;
    std::unique_ptr<MapArea2d> area; std::vector<Cell> cells;
    CircleBuffer *buf = nullptr;
    if (kind == 2) {
        Cell a, b; bool ia, ib; Point2d pa = pt(a, ia), pb = pt(b, ib);
        LineArea *l = new LineArea(pa, pb, &m); area.reset(l);
        if (c.pick(3) == 2) { cellsOf(*l); pa = pt(a, ia); pb = pt(b, ib); l->set(pa, pb, &m); c.label("line set again"); }
        c.note() << " line " << a.first << "," << a.second << " - " << b.first << "," << b.second;
        cells = cellsOf(*l);
        if (!ia || !ib) { REQUIRE(cells.empty(), "a line with an end outside the map has " << cells.size() << " cells"); c.label("line outside"); }
        else { checkLine(cells, a, b, "the line"); c.label("line"); c.nontrivial(cells.size() > 3); }
    } else {
        Cell z; bool in; Point2d p = pt(z, in);
        double r = c.pick(6) == 5 ? c.oneOf<double>({0.0, -1.0, 0.5, 1.0}) : c.real(0.1, rmax);
        if (c.pick(3) == 2) r = std::floor(r);
        c.note() << " circle " << z.first << "," << z.second << " r " << r << (kind ? " (buffer)" : "");
        CircleArea *a = kind ? (buf = new CircleBuffer(p, r * g.res, &m)) : new CircleArea(p, r * g.res, &m);
        area.reset(a);
        if (c.pick(4) == 3) {
            cellsOf(*a); p = pt(z, in); r = c.real(0.1, rmax); a->init(p, r * g.res, &m); c.label("circle set again");
            c.note() << " then " << z.first << "," << z.second << " r " << r;
        }
        cells = cellsOf(*a);
        if (!in || r <= 0) { REQUIRE(cells.empty(), "a circle around a point outside the map or without a radius has " << cells.size() << " cells"); c.label("circle empty"); }
        else {
            if (c.pick(3) == 2) {      // move it
                Cell z2; bool in2; Point2d p2 = pt(z2, in2); a->setCenter(p2, &m); if (in2) z = z2;
                std::vector<Cell> moved = cellsOf(*a); REQUIRE(moved.size() == cells.size(), "moving the circle changes its size"); cells = moved;
                c.note() << " moved to " << z.first << "," << z.second; c.label("moved");
            }
            std::set<Cell> s(cells.begin(), cells.end());
            for (auto &q : s) REQUIRE(std::hypot(q.first - z.first, q.second - z.second) <= r + 0.5 + 1e-6, "the circle around " << z.first << "," << z.second << " with radius " << r << " contains " << q.first << "," << q.second);
            for (int y = -R; y <= R; ++y) for (int x = -R; x <= R; ++x) {
                if ((r > 1 && x * x + y * y <= (r - 1) * (r - 1)) || (x == 0 && y == 0)) REQUIRE(s.count(Cell(z.first + x, z.second + y)), "the circle around " << z.first << "," << z.second << " with radius " << r << " does not contain " << z.first + x << "," << z.second + y);
            }
            for (auto &q : s) { int x = q.first - z.first, y = q.second - z.second; REQUIRE(s.count(Cell(z.first - x, z.second + y)) && s.count(Cell(z.first + x, z.second - y)), "the circle around " << z.first << "," << z.second << " with radius " << r << " contains " << q.first << "," << q.second << ", but not the cell opposite to it"); }
            if (r <= 0.999) REQUIRE(s.size() == 1, "a circle smaller than a cell has " << s.size() << " cells");
            c.label(kind ? "buffer" : "circle"); c.nontrivial(cells.size() > 3);
        }
    }
    REQUIRE(cellsOf(*area) == cells, "the second iteration yields other cells");
    std::set<Cell> s(cells.begin(), cells.end());
    bool f = true, o = false, u = false; int out = 0;
    for (auto &q : s) { if (!grid.in(q.first, q.second)) { ++out; continue; } if (!m.isFree(q.first, q.second)) f = false; if (m.isOccupied(q.first, q.second)) o = true; if (m.isNoInformation(q.first, q.second)) u = true; }
    if (out) c.label("partly outside");
    REQUIRE(m.isAreaFree(*area) == f, "the area is " << (f ? "" : "not ") << "free, the map says otherwise");
    REQUIRE(m.isAreaOccupied(*area) == o, "the area contains " << (o ? "an" : "no") << " occupied cell, the map says otherwise");
    REQUIRE(m.isAreaNoInformation(*area) == u, "the area contains " << (u ? "an" : "no") << " unknown cell, the map says otherwise");
    int how = (int) c.pick(3);
    if (how == 0) { uint8_t v = (uint8_t) c.pick(256); m.setAreaValue(*area, v); for (auto &q : s) if (grid.in(q.first, q.second)) grid.at(q.first, q.second) = v; }
    else if (how == 1 && !buf) { m.setAreaValue(*area); for (auto &q : s) if (grid.in(q.first, q.second)) grid.at(q.first, q.second) = 0; }
    else if (buf) {           // buffer the area, overwrite the map, restore it
        m.getAreaValues(*buf);
        gen::Grid before = grid;
        int k = 1 + (int) c.pick(6);
        if (c.pick(2)) { m.set(33); std::fill(grid.v.begin(), grid.v.end(), 33); }
        for (int i = 0; i < k; ++i) { int x = (int) c.pick(g.w), y = (int) c.pick(g.h); m.setValue(x, y, 99); grid.at(x, y) = 99; }
        m.setAreaValue(*buf);
        for (auto &q : s) if (grid.in(q.first, q.second)) grid.at(q.first, q.second) = before.at(q.first, q.second);
        c.label("restored");
    }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) REQUIRE(m.getValue(x, y) == grid.at(x, y), "cell " << x << "," << y << " has value " << (int) m.getValue(x, y) << " instead of " << (int) grid.at(x, y));
}

// ------------------------------------------------------------------------------------------------ C16
typedef HeuristicNode<Pose2d> HN;
typedef DirectionalNode<SteeringNode<HN>> SN;

std::vector<Cell> walk(Bresenham2d &b, size_t limit) {
    std::vector<Cell> r; unsigned x, y;
    b.coordinates(x, y); r.push_back(Cell((int) x, (int) y));
    while (b.next()) { b.coordinates(x, y); r.push_back(Cell((int) x, (int) y)); REQUIRE(r.size() <= limit, "the line does not end"); }
    REQUIRE(!b.next(), "the line goes on after its end");
    b.coordinates(x, y); REQUIRE(Cell((int) x, (int) y) == r.back(), "asking for more cells than the line has moves it on");
    return r;
}

void lines(Case &c, bool big = false) {
    Bresenham2d b;
    REQUIRE(!b.next(), "a line that was never set has cells");
    int rounds = 1 + (int) c.pick(4);
    for (int k = 0; k < rounds; ++k) {
        gen::Grid grid = big ? gen::bigGrid(c) : gen::grid(c, 40, 40); Geo g; g.w = grid.w; g.h = grid.h; drawRes(c, g); g.exact = false;
        SimpleGridMap2d m(g.w, g.h, g.res); m.set(grid.v, g.w, g.h); m.setOrigin(Point2d(g.ox, g.oy));
        Cell s((int) c.pick(g.w), (int) c.pick(g.h)), e((int) c.pick(g.w), (int) c.pick(g.h)); bool out = false;
        if (c.pick(6) == 5) e = Cell(c.pick(2) ? s.first : e.first, c.pick(2) ? s.second : e.second);
        if (c.pick(5) == 4) { Cell &q = c.pick(2) ? s : e; (c.pick(2) ? q.first : q.second) = c.oneOf<int>({-1, -4, big ? 100000 : 45, big ? 200000 : 60}); out = true; }
        bool pts = c.boolean();
        c.note() << " map " << grid.str() << " line " << s.first << "," << s.second << " - " << e.first << "," << e.second << (pts ? " (points)" : "");
        if (pts) {
            double x0, y0, x1, y1; toPoint(g, s.first + (ld) c.real(0.01, 0.99), s.second + (ld) c.real(0.01, 0.99), x0, y0); toPoint(g, e.first + (ld) c.real(0.01, 0.99), e.second + (ld) c.real(0.01, 0.99), x1, y1);
            b.set(&m, Point2d(x0, y0), Point2d(x1, y1));
        } else b.setGrid(&m, s.first, s.second, e.first, e.second);
        if (out) { REQUIRE(!b.next(), "a line with an end outside the map has cells"); c.label("outside"); continue; }
        Bresenham2d copy = b;
        std::vector<Cell> l = walk(b, g.w + g.h + 2);
        checkLine(l, s, e, "the line");
        size_t i = 0;
        do {
            Cell q = l[i++];
            REQUIRE(copy.value() == m.getValue(q.first, q.second) && copy.isFree() == m.isFree(q.first, q.second) && copy.isOccupied() == m.isOccupied(q.first, q.second) && copy.isNoInformation() == m.isNoInformation(q.first, q.second), "the state of cell " << q.first << "," << q.second << " of the line differs from the map");
            Point2d p, p2; copy.point(p); m.GridMap2d::cell2point(q.first, q.second, p2);
            REQUIRE(p == p2, "cell " << q.first << "," << q.second << " of the line is said to be at " << p << " instead of " << p2);
        } while (copy.next());
        if (c.boolean()) {       // leave the object somewhere on a line
            if (c.boolean()) b.setGrid(&m, s.first, s.second, e.first, e.second); else b.setGrid(&m, e.first, e.second, s.first, s.second);
            for (size_t n = c.pick(l.size()); n > 0; --n) REQUIRE(b.next(), "a line set again is shorter than before");
            c.label("left on a line");
        }
        c.nontrivial(l.size() > 3);
        int dx = std::abs(e.first - s.first), dy = std::abs(e.second - s.second);
        c.label(dx == 0 || dy == 0 ? "axis parallel" : dx == dy ? "diagonal" : dx > dy ? "flat" : "steep");
    }
}

template <class M> void sight(Case &c, bool dynamic, bool big = false) {
    M mgr; std::unique_ptr<SimpleGridMap2d> m;
    int rounds = 1 + (int) c.pick(4); gen::Grid grid;
    for (int k = 0; k < rounds; ++k) {
        if (!m || c.pick(3) == 2) {
            double res = c.oneOf<double>({1.0, 0.25, 0.1, 0.05}); grid = big ? gen::bigGrid(c) : gen::grid(c, 40, 40);
            std::unique_ptr<SimpleGridMap2d> n(new SimpleGridMap2d(grid.w, grid.h, res)); n->set(grid.v, grid.w, grid.h);
            if (c.pick(3) == 2) { int lo = (int) c.pick(256), up = (int) c.pick(256); n->setLowerThreshold(lo); n->setUpperThreshold(up); c.note() << " free up to " << lo << " occupied from " << up; c.label("thresholds"); }
            if (c.pick(4) == 3) { int v = c.oneOf<int>({127, 255, 0, 200, 50}); n->setNoInformationValue(v); c.note() << " unknown value " << v; }
            mgr.setMap(n.get()); m.swap(n);
            c.note() << " map " << grid.str() << " res " << res;
        }
        double sx = c.real(0, grid.w - 0.001), sy = c.real(0, grid.h - 0.001), ex = c.real(0, grid.w - 0.001), ey = c.real(0, grid.h - 0.001);
        if (dynamic && c.pick(4) == 3) { ex = c.real(-20, grid.w + 20); ey = c.real(-20, grid.h + 20); c.label("end in the padding"); }
        c.note() << " line " << sx << "," << sy << " - " << ex << "," << ey;
        bool fr = mgr.isFree(sx, sy, ex, ey), fu = mgr.isFreeOrUnknown(sx, sy, ex, ey);
        Bresenham2d b; b.setGrid((int) std::floor(sx), (int) std::floor(sy), (int) std::floor(ex), (int) std::floor(ey));
        std::vector<Cell> l = walk(b, 200000);
        if (l.size() == 1 && !dynamic) {
            REQUIRE(fr, "a line within one cell is not free");
            REQUIRE(fu == !m->isOccupied(l[0].first, l[0].second), "a line within one cell has " << (fu ? "a" : "no") << " tolerant line of sight");
            continue;
        }
        // longest uninterrupted stretch of cells (after the first) violating the demand; with overlapping thresholds a cell
        // is free and occupied at once: it may be treated either way when unknown cells are accepted
        auto run = [&](std::function<bool(int, int)> bad, bool outsideOk, size_t &last) {
            size_t best = 0, cur = 0;
            for (size_t i = 1; i < l.size(); ++i) {
                bool out = !grid.in(l[i].first, l[i].second);
                cur = (out ? !outsideOk : bad(l[i].first, l[i].second)) ? cur + 1 : 0; best = std::max(best, cur);
            }
            last = cur;
            return best;
        };
        double maxrun = dynamic ? 0.5 / m->getResolution() + 1e-6 : 0;
        size_t lastf, lastu, lastm; bool both = false;
        for (auto &q : l) if (grid.in(q.first, q.second) && m->isOccupied(q.first, q.second) && (m->isFree(q.first, q.second) || m->isNoInformation(q.first, q.second))) both = true;
        size_t rf = run([&](int x, int y) { return !m->isFree(x, y); }, false, lastf);
        size_t ru = run([&](int x, int y) { return !m->isFree(x, y) && !m->isNoInformation(x, y); }, true, lastu);        // blocked for sure
        size_t rm = run([&](int x, int y) { return m->isOccupied(x, y) || (!dynamic && !m->isFree(x, y) && !m->isNoInformation(x, y)); }, true, lastm);                    // may be blocked
        if (l.size() > 1) {
            REQUIRE(fr || rf, "all cells of the line are free, but there is no line of sight");
            REQUIRE(fu || rm, "all cells of the line are free or unknown, but there is no line of sight");
            REQUIRE(!fr || (rf <= maxrun && !lastf), "there is a line of sight although " << rf << " consecutive cells of the line are not free");
            REQUIRE(!fu || (ru <= maxrun && !lastu), "there is a line of sight although " << ru << " consecutive cells of the line are occupied");
        }
        REQUIRE(!fr || fu || both, "free, but not free or unknown");
        if (fr) c.label("free"); else if (fu) c.label("unknown"); else c.label("blocked");
        c.nontrivial(l.size() > 4);
    }
}

} // namespace

LAW("C11", "map-conversions", 1500000, 100000000, "maps up to 60x60 (exactly representable and arbitrary resolutions and origins, changed in between), points inside, on and around the borders, far away, cell centres and other points of cells; non-trivial: points inside and outside") { simpleConv(c); }
LAW("C12", "map-storage", 1400000, 40000000, "up to 40 changes (cells, fills, raw data, replaced data of other size, thresholds, unknown value), all cells compared with a model after each; non-trivial: >= 2 cells written and a threshold, unknown value or data replaced") { storage(c); }
LAW("C13", "rotated-map", 1300000, 100000000, "as C11 with a rotation in [-2pi,2pi], new data with another rotation in between; non-trivial: points inside and outside") { rotatedConv(c); }
LAW("C14", "footprint", 36000, 800000, "maps up to 40x40, robots up to 28x16 cells, 1-10 poses with obstacles and unknown cells in and around the footprint, copied maps; non-trivial: a blocked or unknown cell covered away from the pose itself, or free beside one") { footprint(c); }
LAW("C15", "areas", 350000, 20000000, "circles, circular buffers and lines on maps up to 30x30, partly outside, moved, reinitialised; non-trivial: > 3 cells") { areas(c); }
LAW("C16", "cell-lines", 400000, 25000000, "1-4 lines on maps up to 40x40, by points and by cells, ends outside; non-trivial: > 3 cells") { lines(c); }
LAW("C16", "line-of-sight", 200000, 12000000, "1-4 queries on the plain map manager; non-trivial: > 4 cells") { sight<GridMapManager<HN>>(c, false); }
LAW("C16", "line-of-sight-dynamic", 200000, 12000000, "1-4 queries on the padded manager at several resolutions; non-trivial: > 4 cells") { sight<DynamicDirectionalStateSpaceManager<SN>>(c, true); }
LAW("C16", "cell-lines-large", 2000, 60000, "as cell-lines on maps of up to 90000 cells; non-trivial: > 3 cells") { lines(c, true); }
LAW("C16", "line-of-sight-large", 500, 20000, "as line-of-sight (both managers) on maps of up to 90000 cells; non-trivial: > 4 cells") { if (c.boolean()) sight<GridMapManager<HN>>(c, false, true); else sight<DynamicDirectionalStateSpaceManager<SN>>(c, true, true); }
LAW("C11", "map-conversions-large", 20000, 600000, "as map-conversions on maps of up to 90000 cells; non-trivial: points inside and outside") { simpleConv(c, true); }
LAW("C12", "map-storage-large", 300, 10000, "as map-storage on maps of up to 72000 cells, up to 12 changes; non-trivial: >= 2 cells written and a threshold, unknown value or data replaced") { storage(c, true); }
LAW("C14", "footprint-large", 600, 12000, "as footprint with robots of up to 340x100 cells on maps of up to 90000 cells, 1-40 poses; non-trivial: a blocked or unknown cell covered away from the pose itself, or free beside one") { footprint(c, true); }
LAW("C15", "areas-large", 150, 5000, "as areas with circles of radius up to 300 and lines on maps of up to 90000 cells; non-trivial: > 3 cells") { areas(c, true); }
LAW("C13", "rotated-map-large", 20000, 600000, "as rotated-map on maps of up to 90000 cells; non-trivial: points inside and outside") { rotatedConv(c, true); }
