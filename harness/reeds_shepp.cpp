// C17: Reeds-Shepp curves connect the poses.  C18: best admissible pattern and its weight.  C19: collisions.
// C20: pattern descriptions.
#include "gen.h"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
using namespace lib_path;
using pbt::Case;

namespace {

const double PI = M_PI, TAU = 2 * M_PI;

struct Seg { int turn; int drive; };          // turn +1 left, -1 right, 0 straight; drive +1 / -1
typedef std::vector<Seg> Word;

Word word(const std::string &s) {
    Word w; int d = 1;
    for (char ch : s) {
        if (ch == '|') d = -d;
        else if (ch == 'L' || ch == 'R' || ch == 'S') w.push_back(Seg{ch == 'L' ? 1 : ch == 'R' ? -1 : 0, d});
    }
    return w;
}

// a drivable pattern: CSC, CCC or CCCC with alternating turns, gear changes anywhere
std::string pattern(Case &c) {
    std::string s; char a = c.boolean() ? 'R' : 'L', b = a == 'L' ? 'R' : 'L';
    switch (c.pick(3)) {
    case 0: s = std::string(1, a) + "S" + (c.boolean() ? b : a); break;
    case 1: s = std::string(1, a) + b + a; break;
    default: s = std::string(1, a) + b + a + b; break;
    }
    std::string r;
    for (char ch : s) { if (c.pick(3) == 2) r += '|'; r += ch; }
    return r;
}

struct Scene {
    int w, h; double res, r, wp;              // map size, resolution, radius and waypoint distance in cells
    double rm, wpm;                           // the same in metres, as passed to the library
    Pose2d a, b;                              // poses in cells
    double cf = 1, cb = 1, cc = 1, cs = 1;
};
void note(Case &c, const Scene &s) {
    c.note() << std::setprecision(17) << " map " << s.w << "x" << s.h << " res " << s.res << " radius " << s.rm << " waypoints " << s.wpm << " costs fwd/back/curve/straight " << s.cf << "/" << s.cb << "/" << s.cc << "/" << s.cs
             << " from " << s.a.x << "," << s.a.y << "," << s.a.theta << " to " << s.b.x << "," << s.b.y << "," << s.b.theta;
}
double val(Case &c, double lo, double hi) { return c.pick(4) == 0 ? (double) c.integer((long) std::ceil(lo), (long) std::floor(hi)) : c.fine(lo, hi); }

Scene scene(Case &c, double rmax = 12) {
    Scene s;
    s.res = c.oneOf<double>({1, 0.1, 0.05, 0.5, 0.2});
    if (c.pick(4) == 3) s.res = c.fine(0.02, 3);
    s.r = val(c, 2, rmax); s.wp = c.pick(3) ? c.fine(0.3, 8) : (double) c.integer(1, 6);
    s.rm = s.r * s.res; s.wpm = s.wp * s.res;
    s.r = (double) (float) (s.rm / s.res); s.wp = s.wpm / s.res;
    double far = c.pick(4) == 3 ? 60 : 6 * s.r;
    double margin = 4 * s.r + 8;
    double dx = val(c, -far, far), dy = val(c, -far, far);
    s.w = (int) std::ceil(std::fabs(dx) + 2 * margin); s.h = (int) std::ceil(std::fabs(dy) + 2 * margin);
    s.a.x = margin + (dx < 0 ? -dx : 0); s.a.y = margin + (dy < 0 ? -dy : 0);
    if (c.pick(3)) { s.a.x = std::floor(s.a.x); s.a.y = std::floor(s.a.y); } 
    s.b.x = s.a.x + dx; s.b.y = s.a.y + dy;
    s.a.theta = c.angle(); s.b.theta = c.pick(6) == 5 ? s.a.theta : c.angle();
    if (c.pick(3)) { s.cf = c.oneOf<double>({1, 0.5, 2, 3.25}); s.cb = c.oneOf<double>({1, 2, 4.5, 0.75}); s.cc = c.oneOf<double>({1, 1.5, 3, 0.25}); s.cs = c.oneOf<double>({1, 2.5, 0.5, 4}); }
    return s;
}
// a new generator's costs are 1 without being set
void setup(CurveGenerator &g, const Scene &s, bool isNew = true) {
    g.set_circle_radius(s.rm); g.set_max_waypoint_distance(s.wpm);
    if (!isNew || s.cf != 1) g.set_cost_forwards(s.cf);
    if (!isNew || s.cb != 1) g.set_cost_backwards(s.cb);
    if (!isNew || s.cc != 1) g.set_cost_curve(s.cc);
    if (!isNew || s.cs != 1) g.set_cost_straight(s.cs);
}
Curve *findPath(CurveGenerator &g, const Scene &s, const GridMap2d *m, bool ignore) { return ignore ? g.find_path(s.a, s.b, m, true) : g.find_path(s.a, s.b, m); }
typedef std::unique_ptr<Curve> CP;
CP plan(const Scene &s, const std::vector<std::string> &ps, const GridMap2d &m, bool ignore, double maxArc = -1) {
    CurveGenerator g; setup(g, s);
    std::ostringstream err;
    for (auto &p : ps) g.parse(p, err);
    if (maxArc >= 0) g.set_max_curve_arc(maxArc);
    return CP(findPath(g, s, &m, ignore));
}

double wrap(double a) { a = std::fmod(a, TAU); if (a < 0) a += TAU; return a; }                     // [0, 2 pi)
double diff(double a, double b) { double d = wrap(a - b); return d > PI ? d - TAU : d; }

// ---- reference: closed form solutions of a pattern -----------------------------------------------------------------
struct Sol { std::vector<double> len; };                   // arc angle (turns) or length (straight) of every segment
struct Ref { std::vector<Sol> sols; bool vague = false; bool optional = false; };   // vague: too close to a degenerate case

struct P { double x, y; };
P ctr(const Pose2d &p, int turn, double r) { return P{p.x - std::sin(p.theta) * r * turn, p.y + std::cos(p.theta) * r * turn}; }

double arcOf(double from, double to, int sign, bool &vague) {
    double a = wrap(sign * (to - from));
    if (a > TAU - 2e-5) { if (a < TAU - 3e-6) vague = true; a = 0; }
    return a;
}
// heading when touching the circle around c (turn) at direction ang
double headAt(double ang, int turn) { return ang + turn * PI / 2; }

Ref solve(const Scene &s, const Word &w) {
    Ref R; const double r = s.r;
    if (w.size() < 3 || w.size() > 4) return R;
    double dist = std::hypot(s.a.x - s.b.x, s.a.y - s.b.y);
    if (std::fabs(dist - 2) < 1e-4) R.vague = true;
    if (dist < 2) return R;
    P c1 = ctr(s.a, w.front().turn, r), c3 = ctr(s.b, w.back().turn, r);
    double dx = c3.x - c1.x, dy = c3.y - c1.y, D = std::hypot(dx, dy), th = std::atan2(dy, dx);
    std::vector<std::vector<double>> heads;                // headings at the joints
    std::vector<double> mids;
    if (w.size() == 3 && w[1].turn == 0) {
        if (std::fabs(D - 2 * r) < 1e-3) R.vague = true;
        double k = (w[2].turn - w[0].turn) * r;
        if (D < 2 * r) { if (k == 0) R.optional = true; else return R; }
        if (D < 1e-3) { R.vague = true; return R; }
        double d = std::sqrt(std::max(0.0, D * D - k * k));
        double phi = th - std::atan2(k, w[1].drive * d);
        Sol so; so.len = {arcOf(s.a.theta, phi, w[0].turn * w[0].drive, R.vague), d, arcOf(phi, s.b.theta, w[2].turn * w[2].drive, R.vague)};
        R.sols.push_back(so);
        return R;
    }
    if (D < 2 + 1e-4) { if (D > 2 - 1e-4) R.vague = true; if (D < 2) return R; }
    double lim = w.size() == 3 ? 4 * r : 6 * r;
    if (D > lim * (1 - 2e-5)) { if (D < lim * (1 + 1e-5)) R.vague = true; return R; }
    for (int sg = 1; sg >= -1; sg -= 2) {
        double cosg = w.size() == 3 ? D / (4 * r) : (D / 2 - r) / (2 * r);
        double a1 = th + sg * std::acos(cosg);             // direction from the first to the second centre
        std::vector<double> h;
        h.push_back(headAt(a1, w[0].turn));
        P c2{c1.x + 2 * r * std::cos(a1), c1.y + 2 * r * std::sin(a1)}, cl = c2;
        if (w.size() == 4) { h.push_back(headAt(th, w[1].turn)); cl = P{c2.x + 2 * r * std::cos(th), c2.y + 2 * r * std::sin(th)}; }
        h.push_back(headAt(std::atan2(c3.y - cl.y, c3.x - cl.x), w[w.size() - 2].turn));
        h.push_back(s.b.theta);
        Sol so; double cur = s.a.theta;
        for (size_t i = 0; i < w.size(); ++i) { so.len.push_back(arcOf(cur, h[i], w[i].turn * w[i].drive, R.vague)); cur = h[i]; }
        R.sols.push_back(so);
    }
    return R;
}
double weightOf(const Scene &s, const Word &w, const Sol &so) {
    double t = 0;
    for (size_t i = 0; i < w.size(); ++i) t += so.len[i] * (w[i].turn ? s.r * s.cc : s.cs) * (w[i].drive > 0 ? s.cf : s.cb);
    return t;
}
double arcSum(const Word &w, const Sol &so) { double t = 0; for (size_t i = 0; i < w.size(); ++i) if (w[i].turn) t += so.len[i]; return t; }
double pathLen(const Scene &s, const Word &w, const Sol &so) { double t = 0; for (size_t i = 0; i < w.size(); ++i) t += so.len[i] * (w[i].turn ? s.r : 1); return t; }

Pose2d drive(Pose2d p, const Seg &g, double len, double r) {
    if (g.turn == 0) { p.x += g.drive * len * std::cos(p.theta); p.y += g.drive * len * std::sin(p.theta); return p; }
    P c = ctr(p, g.turn, r);
    double t = p.theta + g.turn * g.drive * len;
    return Pose2d(c.x + g.turn * r * std::sin(t), c.y - g.turn * r * std::cos(t), t);
}
// driven points, at most `step` apart; core: at least 1.5 cells away from the ends of its segment
struct T : P { bool core; size_t seg; };
std::vector<T> trace(const Scene &s, const Word &w, const Sol &so, double step) {
    std::vector<T> v; Pose2d p = s.a;
    for (size_t i = 0; i < w.size(); ++i) {
        double L = so.len[i] * (w[i].turn ? s.r : 1);
        int n = std::max(1, (int) std::ceil(L / step));
        for (int k = 0; k <= n; ++k) { Pose2d q = drive(p, w[i], so.len[i] * k / n, s.r); T t; t.x = q.x; t.y = q.y; t.seg = i; t.core = L * k / n >= 1.5 && L * (n - k) / n >= 1.5; v.push_back(t); }
        p = drive(p, w[i], so.len[i], s.r);
    }
    return v;
}
std::string text(const Word &w, const Sol &so) { std::ostringstream o; o << std::setprecision(10); for (size_t i = 0; i < w.size(); ++i) o << (w[i].turn > 0 ? "L" : w[i].turn < 0 ? "R" : "S") << (w[i].drive > 0 ? "+" : "-") << so.len[i] << " "; return o.str(); }

std::vector<Pose2d> points(Curve &cv) {
    std::vector<Pose2d> v; cv.reset_iteration();
    while (cv.has_next()) { v.push_back(cv.next()); if (v.size() > 20000) throw pbt::Failure{"the iteration over the curve does not end"}; }
    return v;
}
std::string str(const Pose2d &p) { std::ostringstream o; o << std::setprecision(12) << "(" << p.x << "," << p.y << "," << p.theta << ")"; return o.str(); }

// every step between waypoints is a motion of the pattern's segments, in order
void checkWaypoints(const Scene &s, const Word &w, const std::vector<Pose2d> &v, double &arc, double &len) {
    const double tol = 2e-3, atol = 1e-4;
    size_t seg = 0; arc = len = 0; double segArc = 0;
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        const Pose2d &p = v[i], &q = v[i + 1];
        double d = std::hypot(q.x - p.x, q.y - p.y);
        bool ok = false; double l = 0;
        if (d < tol && std::fabs(diff(p.theta, q.theta)) < 10 * atol) ok = true;       // no motion
        size_t k = seg;
        for (; !ok && k < w.size(); ++k) {
            if (w[k].turn) l = wrap(w[k].turn * w[k].drive * (q.theta - p.theta)); else l = w[k].drive * ((q.x - p.x) * std::cos(p.theta) + (q.y - p.y) * std::sin(p.theta));
            if (l < -tol || (w[k].turn ? l * s.r : l) > s.wp * (1 + 1e-4) + tol) continue;
            Pose2d e = drive(p, w[k], l, s.r);
            if (std::hypot(e.x - q.x, e.y - q.y) < tol && std::fabs(diff(e.theta, q.theta)) < atol + (w[k].turn ? 0 : 1e-4 / std::max(d, 1e-6))) { ok = true; break; }
        }
        REQUIRE(ok, "waypoint " << i << " of " << v.size() << " at " << str(p) << " cannot be driven to the next one " << str(q) << " by the remaining segments (from segment " << seg << ") of the pattern within the waypoint distance " << s.wp);
        if (k < w.size() && l > 0) {
            if (k != seg) segArc = 0;
            seg = k;
            len += w[k].turn ? l * s.r : l;
            if (w[k].turn) { arc += l; segArc += l; REQUIRE(segArc < TAU - 1e-6, "the curve drives a full circle"); }
        }
    }
}

SimpleGridMap2d emptyMap(const Scene &s, uint8_t v = 0) {
    SimpleGridMap2d m(s.w, s.h, s.res);
    std::vector<uint8_t> d(s.w * s.h, v); m.set(d, s.w, s.h);
    return m;
}

LAW("C17", "waypoints_drive_from_start_to_goal", 240000, 10000000, "a curve was returned and has at least three waypoints") {
    Scene s = scene(c); std::string p = pattern(c); Word w = word(p);
    if (c.pick(5) == 4) {                                   // a goal that needs no turn on one of the circles
        double l = c.fine(2.1, 40); int dr = w[1].drive; s.b = Pose2d(s.a.x + dr * l * std::cos(s.a.theta), s.a.y + dr * l * std::sin(s.a.theta), s.a.theta);
        if (c.boolean()) s.b.theta = c.angle();
        c.label("straight ahead");
    }
    note(c, s); c.note() << " pattern " << p;
    Ref ref = solve(s, w); if (ref.vague) c.discard();
    SimpleGridMap2d m = emptyMap(s);
    CP cv = plan(s, {p}, m, true);
    REQUIRE(ref.optional || (cv != nullptr) == !ref.sols.empty(), "the pattern " << (ref.sols.empty() ? "cannot" : "can") << " connect the poses, but a curve was " << (cv ? "" : "not ") << "returned");
    if (!cv) { c.label("no curve"); return; }
    c.label(w.size() == 4 ? "CCCC" : w[1].turn ? "CCC" : "CSC");
    std::vector<Pose2d> v = points(*cv);
    c.nontrivial(v.size() >= 3);
    auto same = [](const Pose2d &p, const Pose2d &q) { return std::hypot(p.x - q.x, p.y - q.y) < 1e-3 && std::fabs(diff(p.theta, q.theta)) < 1e-4; };
    REQUIRE(cv->start().x == s.a.x && cv->start().y == s.a.y && cv->start().theta == s.a.theta && cv->goal().x == s.b.x && cv->goal().y == s.b.y && cv->goal().theta == s.b.theta, "the curve names " << str(cv->start()) << " and " << str(cv->goal()) << " as start and goal");
    REQUIRE(v.size() >= 2, "the curve has " << v.size() << " waypoints");
    REQUIRE(same(v.front(), s.a), "the first waypoint is " << str(v.front()));
    REQUIRE(same(v.back(), s.b), "the last waypoint is " << str(v.back()));
    double arc, len; checkWaypoints(s, w, v, arc, len);
    REQUIRE(std::fabs(arc - cv->curve_arc()) < 1e-2, "the waypoints turn by " << arc << " in total, but the curve says " << cv->curve_arc());
    REQUIRE(cv->is_valid(), "the returned curve is said to be invalid");
    // iterating again, or over a copy, visits the same waypoints
    std::vector<Pose2d> v2 = points(*cv); Curve cp(*cv); std::vector<Pose2d> v3 = points(cp);
    REQUIRE(v2.size() == v.size() && v3.size() == v.size(), "iterating again visits another number of waypoints");
    for (size_t i = 0; i < v.size(); ++i) REQUIRE(v2[i].x == v[i].x && v2[i].y == v[i].y && v2[i].theta == v[i].theta && v3[i].x == v[i].x && v3[i].y == v[i].y && v3[i].theta == v[i].theta, "iterating again visits other waypoints");
}

// one generator used for a history of queries behaves like a fresh one for each query
LAW("C17", "generator_reuse", 48000, 2000000, "at least two queries returned a curve") {
    Scene s = scene(c, 6); std::vector<std::string> ps;
    for (int i = 0, n = (int) c.integer(1, 4); i < n; ++i) ps.push_back(pattern(c));
    CurveGenerator g; std::ostringstream err; setup(g, s); for (auto &p : ps) { g.parse(p, err); c.note() << " " << p; }
    int found = 0; std::vector<CP> keep; std::vector<std::vector<Pose2d>> pts;
    for (int q = 0, n = (int) c.integer(2, 5); q < n; ++q) {
        Scene t = scene(c, 6); t.res = s.res;
        t.rm = t.r * t.res; t.wpm = t.wp * t.res;
        setup(g, t, false);
        note(c, t);
        SimpleGridMap2d m = emptyMap(t);
        if (c.boolean()) { int n = (int) c.integer(1, 4); for (int i = 0; i < n; ++i) { int x = (int) c.pick(t.w), y = (int) c.pick(t.h); for (int k = 0; k < 8; ++k) if (x + k < t.w) m.setValue(x + k, y, 255); } }
        bool ig = c.pick(3) == 0;
        CP a(g.find_path(t.a, t.b, &m, ig)), b = plan(t, ps, m, ig);
        REQUIRE((a != nullptr) == (b != nullptr), "query " << q << ": a used generator finds " << (a ? "a" : "no") << " curve, a fresh one does " << (b ? "" : "not"));
        if (!a) continue;
        found++;
        REQUIRE(a->weight() == b->weight(), "query " << q << ": weight " << a->weight() << " by the used generator, " << b->weight() << " by a fresh one");
        auto va = points(*a), vb = points(*b);
        REQUIRE(va.size() == vb.size(), "query " << q << ": other waypoints by the used generator");
        for (size_t i = 0; i < va.size(); ++i) REQUIRE(va[i].x == vb[i].x && va[i].y == vb[i].y && va[i].theta == vb[i].theta, "query " << q << ": other waypoints by the used generator");
        keep.push_back(std::move(a)); pts.push_back(va);
    }
    for (size_t k = 0; k < keep.size(); ++k) {                // earlier results are not touched by later queries
        auto v = points(*keep[k]);
        REQUIRE(v.size() == pts[k].size(), "a later query changed an earlier result");
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(v[i].x == pts[k][i].x && v[i].y == pts[k][i].y, "a later query changed an earlier result");
    }
    c.nontrivial(found >= 2);
}

LAW("C18", "cheapest_pattern", 120000, 8000000, "at least two patterns can connect the poses") {
    Scene s = scene(c); std::vector<std::string> ps;
    for (int i = 0, n = (int) c.integer(1, 8); i < n; ++i) ps.push_back(pattern(c));
    note(c, s); for (auto &p : ps) c.note() << " " << p;
    double maxArc = -1; if (c.pick(3) == 2) { maxArc = c.fine(0.2, 12); c.note() << " max arc " << maxArc; }
    double lo = 1e18, hi = 1e18; int n = 0;                   // the minimum lies between lo and hi
    for (auto &p : ps) {
        Word w = word(p); Ref R = solve(s, w);
        if (R.vague) c.discard();
        double best = 1e18; const Sol *bs = nullptr;
        for (auto &so : R.sols) { double x = weightOf(s, w, so); if (x < best) { best = x; bs = &so; } }
        if (!bs) continue;
        if (R.sols.size() == 2) {
            double d = std::fabs(weightOf(s, w, R.sols[0]) - weightOf(s, w, R.sols[1])), da = std::fabs(arcSum(w, R.sols[0]) - arcSum(w, R.sols[1]));
            if (maxArc >= 0 && d < 1e-3 * (1 + best) && da > 1e-4) c.discard();       // which of both is taken decides about the limit
        }
        if (maxArc >= 0) { double a = arcSum(w, *bs); if (std::fabs(a - maxArc) < 1e-3) c.discard(); if (a > maxArc) { c.label("arc limit"); continue; } }
        n++;
        lo = std::min(lo, best); if (!R.optional) hi = std::min(hi, best);
    }
    c.nontrivial(n >= 2);
    SimpleGridMap2d m = emptyMap(s);
    bool ignore = c.boolean();
    CP cv = plan(s, ps, m, ignore, maxArc);
    if (!cv) { REQUIRE(hi > 1e17, "no curve was found, but one of weight " << hi << " exists"); c.label("no curve"); return; }
    REQUIRE(lo < 1e17, "a curve of weight " << cv->weight() << " was found, but no pattern connects the poses");
    REQUIRE(cv->weight() > lo - 1e-3 * (1 + lo), "the weight of the curve is " << cv->weight() << ", but the cheapest pattern costs " << lo);
    REQUIRE(hi > 1e17 || cv->weight() < hi + 1e-3 * (1 + hi), "the weight of the curve is " << cv->weight() << ", but the cheapest pattern costs " << hi);
    if (maxArc >= 0) REQUIRE(cv->curve_arc() < maxArc, "the curve turns by " << cv->curve_arc() << ", more than the limit");
    c.label("found");
    // the waypoints themselves have this weight
    auto v = points(*cv); double cost = 0; 
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        double d = std::hypot(v[i + 1].x - v[i].x, v[i + 1].y - v[i].y), t = diff(v[i + 1].theta, v[i].theta);
        if (d < 1e-4) continue;
        // gear: sign of the motion along the mean heading
        double hm = v[i].theta + t / 2;
        bool fwd = (v[i + 1].x - v[i].x) * std::cos(hm) + (v[i + 1].y - v[i].y) * std::sin(hm) > 0;
        bool turn = std::fabs(t) > 1e-5;
        if (s.wp / s.r > 3) { cost = -1; break; }             // gear not visible when more than half a circle lies between waypoints
        cost += (turn ? std::fabs(t) * s.r * s.cc : d * s.cs) * (fwd ? s.cf : s.cb);
    }
    if (cost >= 0) REQUIRE(std::fabs(cost - cv->weight()) < 1e-2 + 2e-3 * cost, "driving along the waypoints costs " << cost << ", the curve's weight is " << cv->weight());
}

// the result for a set of patterns is the best of the results for each of them, whatever the map and the cost model
LAW("C18", "best_of_all_patterns", 50000, 4000000, "at least two patterns yield a curve and the map is not uniform") {
    Scene s = scene(c, 7); std::vector<std::string> ps;
    for (int i = 0, n = (int) c.integer(2, 7); i < n; ++i) ps.push_back(pattern(c));
    note(c, s); for (auto &p : ps) c.note() << " " << p;
    SimpleGridMap2d m = emptyMap(s, (uint8_t) c.integer(0, 50));
    int nb = (int) c.integer(0, 5);
    for (int i = 0; i < nb; ++i) {
        int x = (int) c.integer(0, s.w - 1), y = (int) c.integer(0, s.h - 1), ww = (int) c.integer(1, 25), hh = (int) c.integer(1, 25); int v = c.pick(3) ? (int) c.integer(0, 50) : c.oneOf<int>({255, 127, 200});
        for (int b = y; b < std::min(s.h, y + hh); ++b) for (int a = x; a < std::min(s.w, x + ww); ++a) m.setValue(a, b, (uint8_t) v);
        c.note() << " block " << x << "," << y << " " << ww << "x" << hh << "=" << v;
    }
    bool mc = c.boolean(0.7), ignore = c.pick(3) == 2; int mincost = (int) c.oneOf<int>({10, 0, 1, 30, 60, 200}); double maxArc = c.pick(4) == 3 ? c.fine(0.5, 12) : -1;
    c.note() << " mapcost " << mc << " min " << mincost << " ignore " << ignore << " max arc " << maxArc;
    auto run = [&](const std::vector<std::string> &q, const GridMap2d &map, int mn, double cm) {
        CurveGenerator g; setup(g, s); std::ostringstream e; for (auto &p : q) g.parse(p, e);
        g.set_cost_curve(s.cc * cm); g.set_cost_straight(s.cs * cm);
        if (mc) g.set_use_map_cost(true); if (mn != 10) g.set_min_cell_cost((uint8_t) mn); if (maxArc >= 0) g.set_max_curve_arc(maxArc);
        return CP(findPath(g, s, &map, ignore));
    };
    double best = 1e18; int n = 0;
    for (auto &p : ps) { CP x = run({p}, m, mincost, 1); if (x) { n++; best = std::min(best, x->weight()); } }
    CP all = run(ps, m, mincost, 1);
    c.nontrivial(n >= 2 && nb > 0);
    REQUIRE((all != nullptr) == (n > 0), n << " patterns yield a curve on their own, all together " << (all ? "do" : "do not"));
    std::reverse(ps.begin(), ps.end());
    CP rev = run(ps, m, mincost, 1);
    REQUIRE((rev != nullptr) == (all != nullptr), "the order of the patterns decides whether a curve is found");
    if (!all) return;
    REQUIRE(all->weight() == best, "the best pattern on its own has the weight " << best << ", all together yield " << all->weight());
    REQUIRE(rev->weight() == best, "the best pattern on its own has the weight " << best << ", all together in reverse order yield " << rev->weight());
    if (maxArc < 0) {                          // scaling all costs scales the weight
        CP dbl = run(ps, m, mincost, 2);
        REQUIRE(dbl && std::fabs(dbl->weight() - 2 * best) < 1e-4 * (1 + best), "doubling the costs changes the weight from " << best << " to " << (dbl ? dbl->weight() : -1));
    }
    if (mc && maxArc < 0) {                                   // costlier cells never make a curve cheaper, free cells stay free
        SimpleGridMap2d m2 = m; uint64_t seed = c.draw(0xffffff); int add = (int) c.integer(1, 50);
        for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { int v = m.getValue(x, y); seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; if (v <= 50 && (seed >> 40) % 3) m2.setValue(x, y, (uint8_t) std::min(50, v + add)); }
        CP up = run(ps, m2, mincost, 1);
        REQUIRE(up && up->weight() >= best * (1 - 1e-6), "costlier cells make the curve cheaper: " << (up ? up->weight() : -1) << " instead of " << best);
        CP mn = run(ps, m, std::min(255, mincost + 20), 1);
        REQUIRE(mn && mn->weight() >= best * (1 - 1e-6), "a higher minimum cost makes the curve cheaper: " << (mn ? mn->weight() : -1) << " instead of " << best);
        c.label("map cost");
    }
}

// the same for hundreds of patterns, and after hundreds of queries
LAW("C18", "many_patterns_and_queries", 1500, 60000, "two patterns of different weight, or one which cannot connect the poses") {
    Scene s = scene(c, 5); std::string f = pattern(c), p = pattern(c); bool queries = c.boolean();
    note(c, s); c.note() << " " << f << " " << p;
    size_t n = queries ? 2 : c.pick(4) ? (size_t) c.integer(250, 264) : (size_t) c.integer(2, 300), at = c.pick(2) ? n - 1 - (size_t) c.pick(std::min<size_t>(n, 8)) : (size_t) c.pick(n);
    std::vector<std::string> ps(n, f); ps[at] = p;
    SimpleGridMap2d m = emptyMap(s, 0);
    int nb = (int) c.integer(0, 2);
    for (int i = 0; i < nb; ++i) { int x = (int) c.pick(s.w), y = (int) c.pick(s.h); for (int k = 0; k < 12; ++k) if (x + k < s.w) m.setValue(x + k, y, 255); c.note() << " wall " << x << "," << y; }
    CP x = plan(s, {f}, m, false), y = plan(s, {p}, m, false);
    double wx = x ? x->weight() : INFINITY, wy = y ? y->weight() : INFINITY, best = std::min(wx, wy);
    CurveGenerator g; std::ostringstream e; setup(g, s); for (auto &q : ps) REQUIRE(g.parse(q, e), "the pattern " << q << " was rejected");
    if (queries) {
        int k = c.pick(4) ? (int) c.integer(253, 257) : (int) c.integer(0, 300); c.note() << " after " << k << " queries"; c.label("many queries");
        Pose2d other(s.a.x + c.fine(-3, 3), s.a.y + c.fine(-3, 3), c.angle());
        int way = (int) c.pick(3); for (int i = 0; i < k; ++i) CP((way == 2 ? i & 1 : way) ? g.find_path(s.a, other, &m) : g.find_path(other, s.b, &m));
    } else { c.note() << " " << n << " patterns, the other one is number " << at; c.label(n > 256 ? "more than 256 patterns" : "patterns"); }
    CP all(g.find_path(s.a, s.b, &m));
    REQUIRE((all != nullptr) == (best < INFINITY), "the curve of the weight " << best << " is " << (all ? "" : "not ") << "found by all patterns together");
    REQUIRE(!all || all->weight() == best, "the best pattern on its own has the weight " << best << ", all together yield " << (all ? all->weight() : 0));
    c.nontrivial(wx != wy);
}

// with map costs the weight is the summed cost of the cells along the curve
LAW("C18", "map_cost_of_uniform_maps", 60000, 4000000, "a curve of at least ten cells was returned") {
    Scene s = scene(c); std::string p = pattern(c); Word w = word(p);
    note(c, s); c.note() << " " << p;
    Ref R = solve(s, w); if (R.vague || R.optional || R.sols.empty()) c.discard();
    int v = (int) c.integer(0, 50), mn = c.oneOf<int>({10, 0, 1, 25, 100}), v2 = (int) c.integer(0, 50);
    if (std::max(v, mn) == 0 || std::max(v2, mn) == 0) mn = 1;
    c.note() << " cells " << v << " / " << v2 << " min " << mn;
    auto run = [&](int val) {
        SimpleGridMap2d m = emptyMap(s, (uint8_t) val);
        CurveGenerator g; setup(g, s); std::ostringstream e; g.parse(p, e); g.set_use_map_cost(true); if (mn != 10) g.set_min_cell_cost((uint8_t) mn);
        return CP(findPath(g, s, &m, false));
    };
    for (auto &so : R.sols) if (pathLen(s, w, so) < 10) c.discard();
    CP a = run(v), b = run(v2);
    REQUIRE(a && b, "no curve on a free map with map costs");
    double ca = std::max(v, mn), cb = std::max(v2, mn);
    REQUIRE(std::fabs(a->weight() / ca - b->weight() / cb) < 1e-4 * a->weight() / ca, "the weight is not proportional to the cost of the cells: " << a->weight() << " for " << ca << ", " << b->weight() << " for " << cb);
    double lo = 1e18, hi = 0;
    for (auto &so : R.sols) {
        double l = 0, h = 0, len = 0;
        for (size_t i = 0; i < w.size(); ++i) {
            double x = so.len[i] * (w[i].turn ? s.r : 1), f = (w[i].turn ? s.cc : s.cs) * (w[i].drive > 0 ? s.cf : s.cb), rr = w[i].turn ? std::floor(s.r) / s.r : 1;
            l += f * std::max(0.0, x * rr * 0.70 - 4); h += f * (x * 1.25 + 4); len += x;
        }
        lo = std::min(lo, l); hi = std::max(hi, h);
        c.nontrivial(true);
    }
    double per = a->weight() * s.res / ca;
    REQUIRE(per >= lo && per <= hi, "the weight in cells is " << per << ", expected within " << lo << " and " << hi);
}

LAW("C19", "obstacles", 60000, 2500000, "at least one candidate is certainly blocked and another one certainly free, or the only candidates are all blocked") {
    Scene s = scene(c, 7); std::vector<std::string> ps;
    for (int i = 0, n = (int) c.integer(1, 4); i < n; ++i) ps.push_back(pattern(c));
    if (c.pick(6) == 5) {                                     // no turn needed on one or both circles
        double l = std::hypot(s.b.x - s.a.x, s.b.y - s.a.y); int dr = word(ps[0])[1].drive; s.a.theta = std::atan2(dr * (s.b.y - s.a.y), dr * (s.b.x - s.a.x));
        s.b = Pose2d(s.a.x + dr * l * std::cos(s.a.theta), s.a.y + dr * l * std::sin(s.a.theta), c.boolean() ? s.a.theta : s.b.theta); c.label("straight ahead");
    }
    note(c, s); for (auto &p : ps) c.note() << " " << p;
    // shrink the map so that curves may leave it
    if (c.pick(3) == 2) {
        int x0 = (int) std::floor(std::min(s.a.x, s.b.x)), y0 = (int) std::floor(std::min(s.a.y, s.b.y));
        bool beyond = c.pick(3) == 2; auto edge = [&] { return (int) (beyond && c.pick(2) ? c.integer(-30, 5) : c.integer(6, 20)); };   // also with an endpoint off the map
        int ox = std::max(0, x0 - edge()), oy = std::max(0, y0 - edge());
        s.a.x -= ox; s.b.x -= ox; s.a.y -= oy; s.b.y -= oy;
        s.w = std::max(1, std::min(s.w - ox, (int) std::ceil(std::max(s.a.x, s.b.x)) + edge())); s.h = std::max(1, std::min(s.h - oy, (int) std::ceil(std::max(s.a.y, s.b.y)) + edge()));
        auto off = [&](const Pose2d &p) { return p.x < 0 || p.y < 0 || p.x >= s.w || p.y >= s.h; };
        if (off(s.a) || off(s.b)) c.label("endpoint off the map");
        c.note() << " cut to " << s.w << "x" << s.h << " from " << s.a.x << "," << s.a.y << " to " << s.b.x << "," << s.b.y; c.label("tight map");
    }
    struct Cand { Word w; Sol so; double weight; bool optional; std::vector<T> tr; };
    std::vector<Cand> cs;
    for (auto &p : ps) {
        Word w = word(p); Ref R = solve(s, w); if (R.vague) c.discard();
        for (auto &so : R.sols) { Cand k{w, so, weightOf(s, w, so), R.optional, trace(s, w, so, 0.5)}; cs.push_back(k); }
    }
    if (cs.empty()) c.discard();
    SimpleGridMap2d m = emptyMap(s, (uint8_t) c.oneOf<int>({0, 50}));
    auto disc = [&](double cx, double cy, double r, int val) {
        for (int y = std::max(0, (int) std::floor(cy - r) - 1); y <= std::min(s.h - 1, (int) std::ceil(cy + r)); ++y) for (int x = std::max(0, (int) std::floor(cx - r) - 1); x <= std::min(s.w - 1, (int) std::ceil(cx + r)); ++x)
            if (std::hypot(x + 0.5 - cx, y + 0.5 - cy) <= r) m.setValue(x, y, (uint8_t) val);
    };
    if (c.pick(5) == 4) {                                     // only a corridor along one candidate is free
        std::vector<uint8_t> d(s.w * s.h, (uint8_t) c.oneOf<int>({255, 127, 200})); m.set(d, s.w, s.h);
        for (auto &t : cs[c.pick(cs.size())].tr) disc(t.x, t.y, 5.2, 0);
        c.label("corridor");
    } else {
        int nb = (int) c.integer(0, 4);
        for (int i = 0; i < nb; ++i) {
            Cand &k = cs[c.pick(cs.size())]; T t = k.tr[c.pick(k.tr.size())]; double r = c.oneOf<double>({5.3, 1, 7, 2.5});
            int v = c.oneOf<int>({255, 200, 127, 51}); disc(t.x, t.y, r, v);
            c.note() << " disc " << t.x << "," << t.y << " r " << r << "=" << v;
        }
    }
    std::vector<std::pair<bool, int>> walls;                 // one cell thick, across the whole map
    if (c.pick(3) == 2) {
        Cand &k = cs[c.pick(cs.size())]; T t = k.tr[c.pick(k.tr.size())]; bool vert = c.boolean(); int at = (int) std::floor(vert ? t.x : t.y), v = c.oneOf<int>({255, 127});
        if (at >= 0 && at < (vert ? s.w : s.h)) {
            for (int i = 0; i < (vert ? s.h : s.w); ++i) m.setValue(vert ? at : i, vert ? i : at, (uint8_t) v);
            walls.push_back({vert, at}); c.note() << " wall " << (vert ? "x=" : "y=") << at; c.label("wall");
        }
    }
    auto free = [&](int x, int y) { return x >= 0 && y >= 0 && x < s.w && y < s.h && m.getValue(x, y) <= 50; };
    double lo = 1e18, hi = 1e18; int blocked = 0, clear = 0;
    for (auto &k : cs) {
        bool isClear = true, isBlocked = false;
        for (auto &t : k.tr) {
            bool anyFree = false;
            for (int y = (int) std::floor(t.y - 6); y <= (int) std::ceil(t.y + 6); ++y) for (int x = (int) std::floor(t.x - 6); x <= (int) std::ceil(t.x + 6); ++x) {
                double d = std::hypot(x + 0.5 - t.x, y + 0.5 - t.y); bool f = free(x, y);
                if (d <= 4.5 && !f) isClear = false;
                if (d <= 5.0 && f) anyFree = true;
            }
            if (!anyFree && t.core) isBlocked = true;
        }
        for (auto &wl : walls) for (size_t g = 0; g < k.w.size(); ++g) {
            double mn = 1e9, mx = -1e9;
            for (auto &t : k.tr) if (t.seg == g) { double q = wl.first ? t.x : t.y; mn = std::min(mn, q); mx = std::max(mx, q); }
            double side = k.w[g].turn ? 3.5 : 1;
            if (mn < wl.second - side && mx > wl.second + 1 + side) isBlocked = true;
        }
        if (isBlocked) blocked++; if (isClear) clear++;
        if (!isBlocked) lo = std::min(lo, k.weight);
        if (isClear && !k.optional) hi = std::min(hi, k.weight);
    }
    c.nontrivial((blocked && clear) || blocked == (int) cs.size());
    CP cv = plan(s, ps, m, false);
    if (!cv) { REQUIRE(hi > 1e17, "no curve was found, but a collision free one of weight " << hi << " exists"); c.label("no curve"); }
    else {
        c.label("found");
        REQUIRE(lo < 1e17, "a curve of weight " << cv->weight() << " was found, but all of them run through obstacles or leave the map");
        REQUIRE(cv->weight() > lo - 1e-3 * (1 + lo), "a curve of weight " << cv->weight() << " was found, but all curves of less weight than " << lo << " run through obstacles or leave the map");
        REQUIRE(hi > 1e17 || cv->weight() < hi + 1e-3 * (1 + hi), "the curve found has the weight " << cv->weight() << ", but a collision free one costs " << hi);
    }
    // ignoring obstacles, the map does not matter
    CP ig = plan(s, ps, m, true); SimpleGridMap2d e = emptyMap(s); CP ig2 = plan(s, ps, e, true);
    REQUIRE(ig && ig2 ? ig->weight() == ig2->weight() : (!ig && !ig2), "obstacles change the result although they are to be ignored");
    REQUIRE(!cv || (ig && ig->weight() <= cv->weight() * (1 + 1e-6)), "the curve ignoring obstacles is not the cheapest");
}

// ---- C20 --------------------------------------------------------------------------------------------------------
bool correct(const std::string &p) {
    bool sub = false; char last = 0;                          // last segment
    for (char ch : p) {
        if (sub) {
            if (ch == ')') sub = false;
            else if (ch == 'b') { if (last != 'L' && last != 'R') return false; }
            else if (ch != 'p') return false;
        } else if (ch == '(') sub = true;
        else if (ch == 'L' || ch == 'R' || ch == 'S') last = ch;
        else if (ch != '|') return false;
    }
    return !sub;
}
std::string anyPattern(Case &c) {
    std::string s;
    switch (c.pick(7)) {
    case 0: return pattern(c);
    case 6: {                                                  // a drivable pattern with runs of gear changes
        for (char ch : pattern(c)) { for (int k = ch == '|' ? 0 : c.pick(2) ? (int) c.integer(0, 3) : 0; k > 0; --k) s += '|'; s += ch; }
        for (int k = (int) c.pick(3); k > 0; --k) s += '|';
        c.label("runs of gear changes");
        return s;
    }
    case 1: {                                                  // a drivable pattern with subpatterns inserted
        std::string b = pattern(c);
        for (char ch : b) { s += ch; if (c.pick(3) == 2) { s += '('; while (c.boolean(0.6)) s += c.boolean() ? 'b' : 'p'; s += ')'; } }
        return s;
    }
    case 2: {                                                  // damaged
        s = pattern(c); if (c.boolean()) s += "(b)";
        size_t at = c.pick(s.size());
        switch (c.pick(3)) { case 0: s.erase(at, 1); break; case 1: s.insert(at, 1, c.oneOf<char>({'x', '(', ')', 'b', 'p', 'l', ' ', '1'})); break; default: s[at] = c.oneOf<char>({'(', ')', 'b', 'S', 's', 'r'}); }
        return s;
    }
    default: { int n = (int) c.integer(0, 9); for (int i = 0; i < n; ++i) s += c.oneOf<char>({'L', 'R', 'S', '|', '(', ')', 'b', 'p', 'L', 'R', 'X', '\n'}); return s; }
    }
}

LAW("C20", "patterns", 300000, 6000000, "at least one correct and one incorrect pattern") {
    Scene s = scene(c, 5); note(c, s);
    SimpleGridMap2d m = emptyMap(s);
    CurveGenerator g; setup(g, s);
    std::vector<std::string> good; int bad = 0;
    int n = (int) c.integer(1, 6);
    for (int i = 0; i < n; ++i) {
        std::string p = anyPattern(c); c.note() << " \"" << p << "\"";
        std::ostringstream err; bool ok = g.parse(p, err);
        REQUIRE(ok == correct(p), "the pattern \"" << p << "\" is " << (correct(p) ? "correct" : "incorrect") << ", but was " << (ok ? "accepted" : "rejected"));
        REQUIRE(ok == err.str().empty(), "the pattern \"" << p << "\" was " << (ok ? "accepted" : "rejected") << " with the message \"" << err.str() << "\"");
        REQUIRE(ok || err.str().find(p) != std::string::npos, "the message does not show the rejected pattern: " << err.str());
        if (ok) good.push_back(p); else bad++;
    }
    c.nontrivial(bad && !good.empty());
    if (good.empty()) return;
    CP all(findPath(g, s, &m, false));
    double best = 1e18, lo = 1e18, hi = 1e18;
    for (auto &p : good) {
        std::string bare; bool sub = false; for (char ch : p) { if (ch == '(') sub = true; if (!sub) bare += ch; if (ch == ')') sub = false; }
        CP x = plan(s, {p}, m, false), y = plan(s, {bare}, m, false);
        REQUIRE((x != nullptr) == (y != nullptr) && (!x || x->weight() == y->weight()), "the subpatterns of " << p << " change the curve");
        Word w = word(bare); bool circ = w.size() >= 3 && w.size() <= 4 && w.front().turn && w.back().turn && (w.size() == 3 || (w[1].turn && w[2].turn));
        REQUIRE(circ || !x, "the unsupported pattern " << p << " yields a curve");
        if (x) best = std::min(best, x->weight());
        bool alt = circ; for (size_t i = 0; alt && i + 1 < w.size(); ++i) if (w[i].turn * w[i + 1].turn > 0) alt = false;
        if (!alt) { if (circ) lo = -1; continue; }
        Ref R = solve(s, w); if (R.vague) { lo = -1; hi = 1e19; continue; }
        for (auto &so : R.sols) { lo = std::min(lo, weightOf(s, w, so)); if (!R.optional && hi < 1e18 + 1) hi = std::min(hi, weightOf(s, w, so)); }
    }
    REQUIRE((all != nullptr) == (best < 1e17) && (!all || all->weight() == best), "the accepted patterns yield " << (all ? all->weight() : -1) << ", on their own " << best);
    if (all && lo > 0) REQUIRE(all->weight() > lo - 1e-3 * (1 + lo) && all->weight() < 1e-3 * (1 + hi) + hi, "the accepted patterns yield a weight of " << all->weight() << " instead of " << lo << " .. " << hi);
    if (!all && lo > 0) REQUIRE(hi > 1e17, "the accepted patterns yield no curve instead of one of weight " << hi);
}

} // namespace
