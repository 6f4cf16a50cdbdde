// C25: goal regions.  C26: planning to sampled goals.
#include "gen.h"
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <fcntl.h>
#include <memory>
#include <unistd.h>
using namespace lib_path;
using pbt::Case;

namespace {

const double PI = M_PI, TAU = 2 * M_PI;
// the library reports what it does on standard output and standard error
struct Quiet {
    std::streambuf *b; int e;
    Quiet() : b(std::cout.rdbuf(nullptr)) { fflush(stderr); e = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
    ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); fflush(stderr); dup2(e, 2); close(e); }
};
struct QuietOut { std::streambuf *b; QuietOut() : b(std::cout.rdbuf(nullptr)) {} ~QuietOut() { std::cout.rdbuf(b); std::cout.clear(); } };

double diff(double a, double b) { return std::remainder(a - b, TAU); }
Point2d somewhere(Case &c) { double k = c.oneOf<double>({10, 1, 1000}); return Point2d(c.real(-k, k), c.real(-k, k)); }
bool many = false;                    // more goals than fit into narrow counters
unsigned count(Case &c) { return many ? (unsigned) c.integer(60000, 70000) : c.pick(6) == 5 ? (unsigned) c.integer(1, 400) : (unsigned) c.integer(1, 24); }

struct G { Pose2d p; double gain; };
std::vector<G> drain(GoalRegion &r, unsigned limit) {
    std::vector<G> v; Pose2d p(12345, 54321, 77); double g = -17;                 // nothing is to be left over from the caller
    while (r.getNextGoal(p, g)) { v.push_back(G{p, g}); p = Pose2d(12345, 54321, 77); g = -17; REQUIRE(v.size() <= limit, "more than " << limit << " goals"); }
    return v;
}

} // namespace

static void approachGoals(Case &c) {
    QuietOut q;
    Point2d src = somewhere(c), cen = somewhere(c);
    if (std::hypot(src.x - cen.x, src.y - cen.y) < 1e-3) c.discard();
    double rad = c.real(0.05, 20), ang = c.pick(8) == 0 ? 0.0 : c.angle(0, TAU); if (c.pick(6) == 5) ang = -ang;
    CentroidRadiusGoalRegion r(src, cen, rad, ang);
    double direct = std::atan2(cen.y - src.y, cen.x - src.x), a = std::fabs(ang);
    c.note() << std::setprecision(17) << "from " << src.x << "," << src.y << " to " << cen.x << "," << cen.y << " radius " << rad << " sector " << ang;
    { Pose2d p; double g; (void) p; (void) g; }
    int rounds = (int) c.integer(1, 3);
    for (int k = 0; k < rounds; ++k) {
        unsigned n = count(c);
        c.note() << "; " << n << " goals";
        r.init(n);
        if (c.pick(4) == 3) { unsigned skip = (unsigned) c.integer(0, n); Pose2d p; double g; for (unsigned i = 0; i < skip; ++i) r.getNextGoal(p, g); r.init(n); c.label("initialised while sampling"); }
        unsigned want = a < 1e-6 ? 1 : n;
        std::vector<G> v = drain(r, n + 1);
        REQUIRE(v.size() == want, v.size() << " goals instead of " << want);
        for (unsigned i = 0; i < want; ++i) {
            double off = want == 1 ? 0 : -0.5 * a + a * i / (want - 1), th = direct + off;
            double tol = 1e-9 * (1 + want) * (1 + rad);
            const Pose2d &p = v[i].p;
            REQUIRE(std::fabs(diff(p.theta, th)) < 1e-9 * (1 + want), "goal " << i << " of " << want << " heads to " << p.theta << " instead of " << th);
            double ex = cen.x - rad * std::cos(th), ey = cen.y - rad * std::sin(th);
            REQUIRE(std::fabs(p.x - ex) < tol + 1e-12 * std::fabs(ex) && std::fabs(p.y - ey) < tol + 1e-12 * std::fabs(ey), "goal " << i << " of " << want << " is at " << p.x << "," << p.y << " instead of " << ex << "," << ey);
            double gain = want == 1 ? 1 : 1 + std::fabs(2.0 * i / (want - 1) - 1);
            REQUIRE(std::fabs(v[i].gain - gain) < 1e-9, "goal " << i << " of " << want << " has the gain " << v[i].gain << " instead of " << gain);
        }
        Pose2d p; double g; REQUIRE(!r.getNextGoal(p, g) && !r.getNextGoal(p, g), "more goals after the last one");
        c.nontrivial(want >= 3 && a > PI / 180);
        c.label(want == 1 ? "direct approach only" : a > PI ? "wide sector" : "sector");
    }
}

LAW("C25", "approach", 800000, 12000000, "at least three goals on a sector of at least a degree") {
    many = false; approachGoals(c);
}
LAW("C25", "approach-many", 40, 1500, "60000 to 70000 goals; at least three goals on a sector of at least a degree") { many = true; approachGoals(c); }

static void ringGoals(Case &c) {
    QuietOut q;
    Point2d cen = somewhere(c); double rad = c.real(0.05, 20), width = c.pick(4) == 0 ? 0.0 : c.real(0, 2 * rad); bool cw = c.pick(2) == 1;
    RingGoalRegion r(cen, cw ? -rad : rad, width);
    c.note() << std::setprecision(17) << "ring around " << cen.x << "," << cen.y << " radius " << (cw ? -rad : rad) << " width " << width;
    int rounds = (int) c.integer(1, 3);
    for (int k = 0; k < rounds; ++k) {
        unsigned n = count(c);
        r.init(n);
        if (c.pick(4) == 3) { unsigned skip = (unsigned) c.integer(0, n); Pose2d p; double g; for (unsigned i = 0; i < skip; ++i) r.getNextGoal(p, g); r.init(n); c.label("initialised while sampling"); }
        std::vector<G> v = drain(r, n + 1);
        REQUIRE(v.size() == n, v.size() << " goals instead of " << n);
        double lo = INFINITY, hi = 0;
        for (unsigned i = 0; i < n; ++i) {
            const Pose2d &p = v[i].p; double d = std::hypot(p.x - cen.x, p.y - cen.y), scale = 1e-9 * (1 + rad + std::fabs(cen.x) + std::fabs(cen.y));
            lo = std::min(lo, d); hi = std::max(hi, d);
            REQUIRE(d > rad - width / 2 - scale && d < rad + width / 2 + scale, "goal " << i << " is " << d << " away from the center, the ring covers " << rad - width / 2 << ".." << rad + width / 2);
            if (d > 1e-3 * (1 + std::fabs(cen.x) + std::fabs(cen.y))) {
                double a = std::atan2(p.y - cen.y, p.x - cen.x);
                REQUIRE(std::fabs(diff(a, TAU * i / n)) < 1e-6, "goal " << i << " of " << n << " lies in the direction " << a << " instead of " << TAU * i / n);
            }
            double th = TAU * i / n + (cw ? -PI / 2 : PI / 2);
            REQUIRE(std::fabs(diff(p.theta, th)) < 1e-9, "goal " << i << " heads to " << p.theta << " instead of " << th << " (" << (cw ? "clockwise" : "counterclockwise") << ")");
            REQUIRE(v[i].gain == 1.0, "goal " << i << " has the gain " << v[i].gain);
        }
        // the radii are spread over the whole width (the chance to fail for a correct ring is below 1e-15)
        if (n >= 200 && width > 1e-6) { REQUIRE(lo < rad - 0.25 * width && hi > rad + 0.25 * width, "the distances of " << n << " goals are only " << lo << ".." << hi); c.label("spread"); }
        Pose2d p; double g; REQUIRE(!r.getNextGoal(p, g) && !r.getNextGoal(p, g), "more goals after the last one");
        c.nontrivial(n >= 3 && width > 0);
    }
    c.label(cw ? "clockwise" : "counterclockwise");
}

LAW("C25", "ring", 800000, 12000000, "at least three goals on a ring of some width") {
    many = false; ringGoals(c);
}
LAW("C25", "ring-many", 40, 1500, "60000 to 70000 goals; at least three goals on a ring of some width") { many = true; ringGoals(c); }

namespace {

struct MapSpec { unsigned w, h; double res, yaw; Point2d o; bool rot; };
// where a point of the world lies, in cells
Point2d toCells(const MapSpec &m, double x, double y) {
    double dx = x - m.o.x, dy = y - m.o.y, s = std::sin(m.yaw), co = std::cos(m.yaw);
    return Point2d((co * dx + s * dy) / m.res, (-s * dx + co * dy) / m.res);
}
Pose2d toWorld(const MapSpec &m, double cx, double cy, double th) {
    double s = std::sin(m.yaw), co = std::cos(m.yaw), x = cx * m.res, y = cy * m.res;
    return Pose2d(m.o.x + co * x - s * y, m.o.y + s * x + co * y, th + m.yaw);
}
int inside(const MapSpec &m, const Pose2d &p) {         // 1 inside, 0 outside, -1 on the border
    Point2d q = toCells(m, p.x, p.y); const double e = 1e-6;
    if (q.x < -e || q.y < -e || q.x > m.w + e || q.y > m.h + e) return 0;
    return q.x > e && q.y > e && q.x < m.w - e && q.y < m.h - e ? 1 : -1;
}
std::unique_ptr<SimpleGridMap2d> build(Case &c, MapSpec &m, unsigned lo, unsigned hi) {
    m.w = (unsigned) c.integer(lo, hi); m.h = (unsigned) c.integer(lo, hi); m.res = c.oneOf<double>({1, 0.5, 0.1, 0.05, 2}); m.rot = c.boolean(); m.yaw = m.rot ? c.angle(-PI, PI) : 0;
    std::unique_ptr<SimpleGridMap2d> r(m.rot ? new RotatedGridMap2d(m.w, m.h, m.yaw, m.res) : new SimpleGridMap2d(m.w, m.h, m.res));
    std::vector<uint8_t> d(m.w * m.h, 0);
    if (m.rot) static_cast<RotatedGridMap2d *>(r.get())->set(d, m.w, m.h, m.yaw); else r->set(d, m.w, m.h);
    m.o = c.pick(3) ? Point2d(c.real(-30, 30), c.real(-30, 30)) : Point2d(0, 0);
    r->setOrigin(m.o);
    c.note() << std::setprecision(17) << " map " << m.w << "x" << m.h << " res " << m.res << " yaw " << m.yaw << " origin " << m.o.x << "," << m.o.y;
    return r;
}

// a region with given goals, or one of the library's regions whose goals are recorded
struct Record : GoalRegion {
    GoalRegion *inner = nullptr; std::vector<G> given, seen; size_t at = 0; unsigned asked = 0; int inits = 0; bool setsGain = true;
    void init(unsigned n) { inits++; asked = n; at = 0; seen.clear(); if (inner) inner->init(n); }
    bool getNextGoal(Pose2d &p, double &g) {
        if (inner) { if (!inner->getNextGoal(p, g)) return false; }
        else { if (at >= given.size()) return false; p = given[at].p; g = given[at].gain; at++; }
        seen.push_back(G{p, g}); return true;
    }
};

void setup(CurveGenerator &g, const std::vector<std::string> &ps, double r, double wp, double cf, double cb, double cc, double cs) {
    std::ostringstream err;
    for (auto &p : ps) g.parse(p, err);
    g.set_circle_radius(r); g.set_max_waypoint_distance(wp);
    g.set_cost_forwards(cf); g.set_cost_backwards(cb); g.set_cost_curve(cc); g.set_cost_straight(cs);
}
std::vector<Pose2d> points(Curve &cv) { std::vector<Pose2d> v; cv.reset_iteration(); while (cv.has_next()) v.push_back(cv.next()); return v; }

} // namespace

LAW("C26", "pose_conversion", 300000, 20000000, "the map is rotated and has an origin other than zero") {
    MapSpec m; auto map = build(c, m, 1, 60);
    bool close = c.boolean(); double cx = close ? c.fine(0, m.w) : c.real(-80, 80), cy = close ? c.fine(0, m.h) : c.real(-80, 80), th = c.angle();
    Pose2d w = toWorld(m, cx, cy, th), got = pos2map(w, *map);
    double tol = 1e-9 * (1 + (std::fabs(m.o.x) + std::fabs(m.o.y)) / m.res);
    c.note() << " cell " << cx << "," << cy << "," << th;
    REQUIRE(std::fabs(got.x - cx) < tol && std::fabs(got.y - cy) < tol && std::fabs(diff(got.theta, th)) < 1e-9, "the pose " << w.x << "," << w.y << "," << w.theta << " of the world is " << got.x << "," << got.y << "," << got.theta << " in the map");
    Pose2d back = map2pos(Pose2d(cx, cy, th), *map);
    REQUIRE(std::fabs(back.x - w.x) < tol * m.res && std::fabs(back.y - w.y) < tol * m.res && std::fabs(diff(back.theta, w.theta)) < 1e-9, "the pose of the map is " << back.x << "," << back.y << "," << back.theta << " in the world instead of " << w.x << "," << w.y << "," << w.theta);
    double mx, my, px, py; pos2map(w.x, w.y, mx, my, *map); map2pos(cx, cy, px, py, *map);
    REQUIRE(std::hypot(mx - got.x, my - got.y) <= 2 * tol && std::hypot(px - back.x, py - back.y) <= 2 * tol * m.res, "points and poses are converted differently");
    // agrees with the cell lookup of the map
    double e = 1e-6; unsigned ux, uy; bool in = cx > e && cy > e && cx < m.w - e && cy < m.h - e;
    if (in && std::fabs(cx - std::round(cx)) > e && std::fabs(cy - std::round(cy)) > e) { REQUIRE(map->point2cell(w.x, w.y, ux, uy) && ux == (unsigned) cx && uy == (unsigned) cy, "the point lies in another cell of the map"); c.label("inside"); }
    c.nontrivial(m.rot && m.yaw != 0 && m.o.x != 0);
}

LAW("C26", "best_goal", 40000, 2500000, "at least two goals can be reached and at least one of the others cannot, or is outside of the map") {
    MapSpec m; auto map = build(c, m, 30, 80);
    int obst = (int) c.pick(4);
    for (int i = 0; i < obst; ++i) { int x0 = (int) c.pick(m.w), y0 = (int) c.pick(m.h), n = (int) c.integer(1, 12), k = (int) c.integer(1, 12), v = c.oneOf<int>({255, 127}); for (int y = y0; y < std::min<int>(m.h, y0 + k); ++y) for (int x = x0; x < std::min<int>(m.w, x0 + n); ++x) map->setValue(x, y, (uint8_t) v); c.note() << " block " << x0 << "," << y0 << " " << n << "x" << k; }
    static const std::vector<std::vector<std::string>> sets = {{"LSL", "LSR", "RSL", "RSR"}, {"LSL", "LSR", "RSL", "RSR", "|LSL", "|LSR", "|RSL", "|RSR"}, {"LSR"}, {"LRL", "RLR", "LSL"}, {"L|RL", "RSR", "R|L|R", "LSL"}};
    const std::vector<std::string> &ps = sets[c.pick(sets.size())];
    double r = c.fine(2, 6) * m.res, wp = c.fine(0.5, 3) * m.res, cf = 1, cb = c.oneOf<double>({1, 2.5}), cc = c.oneOf<double>({1, 1.3}), cs = 1;
    if (c.pick(4) == 3) { cf = cb = 1e5; cc = cs = 10; c.label("expensive"); }     // costs of any magnitude
    CurveGenerator gen, ref; setup(gen, ps, r, wp, cf, cb, cc, cs); setup(ref, ps, r, wp, cf, cb, cc, cs);
    SamplingPlanner planner(&gen, map.get());
    int rounds = (int) c.integer(1, 2);
    for (int k = 0; k < rounds; ++k) {
        auto cellPose = [&](bool allowOut) {
            double x = c.fine(0, m.w), y = c.fine(0, m.h);
            if (allowOut && c.pick(4) == 3) { if (c.pick(2)) x = c.pick(2) ? -c.fine(0, 20) : m.w + c.fine(0, 20); else y = c.pick(2) ? -c.fine(0, 20) : m.h + c.fine(0, 20); }
            return toWorld(m, x, y, c.angle());
        };
        Pose2d start = cellPose(c.pick(12) == 11);
        Record reg; std::unique_ptr<GoalRegion> inner; unsigned n = (unsigned) c.integer(1, 9);
        int kind = (int) c.pick(4);
        if (kind <= 1) { int gs = (int) c.integer(0, 8); for (int i = 0; i < gs; ++i) reg.given.push_back(G{cellPose(true), c.oneOf<double>({1, 1, 1.5, 2, 0.5, 1.01})}); c.label("given goals"); }
        else if (kind == 2) { Pose2d q = cellPose(false); inner.reset(new CentroidRadiusGoalRegion(start, q, c.real(1, 15) * m.res, c.angle(0, PI))); c.label("sector"); }
        else { Pose2d q = cellPose(false); double rr = c.real(2, 20) * m.res; inner.reset(new RingGoalRegion(q, c.boolean() ? rr : -rr, 0)); c.label("ring"); }
        reg.inner = inner.get();
        c.note() << " start " << start.x << "," << start.y << "," << start.theta << " region " << kind << " n " << n;
        int sIn = inside(m, start); if (sIn < 0) c.discard();
        std::unique_ptr<Curve> got;
        { Quiet q; got.reset(planner.createPath(start, &reg, (int) n)); }
        if (!sIn) { REQUIRE(!got, "a path from a start outside of the map"); c.label("start outside"); continue; }
        REQUIRE(reg.inits == 1 && reg.asked == n, "the region was initialised " << reg.inits << " times, the last time for " << reg.asked << " goals instead of " << n);
        { Pose2d p; double g; Quiet q; size_t cnt = reg.seen.size(); REQUIRE(!reg.getNextGoal(p, g), "goals of the region were skipped after " << cnt); }
        double best = INFINITY; int reach = 0, unreach = 0, out = 0; std::vector<std::pair<double, size_t>> cand;
        Pose2d s = pos2map(start, *map);
        Point2d sc = toCells(m, start.x, start.y);
        REQUIRE(std::fabs(s.x - sc.x) < 1e-6 && std::fabs(s.y - sc.y) < 1e-6, "start converted wrongly");
        for (size_t i = 0; i < reg.seen.size(); ++i) {
            const G &g = reg.seen[i]; c.note() << " goal " << g.p.x << "," << g.p.y << "," << g.p.theta << " gain " << g.gain;
            int in = inside(m, g.p); if (in < 0) c.discard();
            if (!in) { out++; continue; }
            Pose2d t = pos2map(g.p, *map);
            std::unique_ptr<Curve> cv(ref.find_path(s, t, map.get()));
            double wgt = cv && cv->is_valid() ? cv->weight() : INFINITY;
            // results which depend on the last digits of the poses decide nothing
            for (double e : {1e-8, -1e-8}) {
                std::unique_ptr<Curve> c2(ref.find_path(Pose2d(s.x + e, s.y - e, s.theta + e), Pose2d(t.x - e, t.y + 0.7 * e, t.theta - 0.6 * e), map.get()));
                double w2 = c2 && c2->is_valid() ? c2->weight() : INFINITY;
                if (!(wgt == w2 || std::fabs(wgt - w2) < 1e-4 * wgt)) c.discard();
            }
            if (wgt < INFINITY) { reach++; cand.push_back({g.gain * wgt, i}); best = std::min(best, g.gain * wgt); } else unreach++;
        }
        c.nontrivial(reach >= 2 && (unreach || out));
        if (!got) { REQUIRE(!reach, "no path, although " << reach << " goals can be reached, the best for " << best); c.label("no path"); continue; }
        REQUIRE(reach, "a path, although no goal inside of the map can be reached");
        c.label("path");
        REQUIRE(got->is_valid(), "an invalid path");
        // it must be the path to a goal of the least gain * weight
        std::string why; bool ok = false;
        for (auto &cd : cand) {
            if (cd.first > best * (1 + 1e-6)) continue;
            const G &g = reg.seen[cd.second]; Pose2d t = pos2map(g.p, *map);
            Pose2d gs = got->start(), gg = got->goal();
            bool same = std::hypot(gs.x - s.x, gs.y - s.y) < 1e-6 && std::fabs(diff(gs.theta, s.theta)) < 1e-6 && std::hypot(gg.x - t.x, gg.y - t.y) < 1e-6 && std::fabs(diff(gg.theta, t.theta)) < 1e-6
                        && std::fabs(got->weight() * g.gain - cd.first) < 1e-4 * (cd.first);
            if (!same) continue;
            std::unique_ptr<Curve> cv(ref.find_path(s, t, map.get())); std::vector<Pose2d> a = points(*got), b = points(*cv);
            if (a.size() != b.size()) { why = "its waypoints differ"; continue; }
            bool eq = true; for (size_t i = 0; i < a.size(); ++i) if (std::hypot(a[i].x - b[i].x, a[i].y - b[i].y) > 1e-4) eq = false;
            if (!eq) { why = "its waypoints differ"; continue; }
            ok = true;
        }
        Pose2d gg = got->goal();
        REQUIRE(ok, "the path to " << gg.x << "," << gg.y << "," << gg.theta << " of weight " << got->weight() << " is not the best one, whose gain * weight is " << best << " " << why);
    }
}
