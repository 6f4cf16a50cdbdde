// C28: analytic expansions.  C29: watching and aborting searches.
#include "gen.h"
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <boost/thread.hpp>
#include <chrono>
#include <memory>
#include <queue>
#include <unistd.h>
using namespace lib_path;
using pbt::Case;

namespace {

const double PI = M_PI;

// the way to finish a path which the law prescribes
struct Script {
    const std::vector<char> *may = nullptr; unsigned w = 0;           // cells from which the goal can be reached directly
    std::vector<Pose2d> poses; int asked = 0; int got = 0; double fx = -1, fy = -1; bool noGoal = false; std::vector<double> goalSeen;
    static Script &get() { static Script s; return s; }
};
struct Expansion {
    template <class T, class Map> static bool canExpand(const T *start, const T *goal, const Map *map) {
        Script &s = Script::get(); s.asked++;
        if (!map) s.noGoal = true;
        s.goalSeen = {goal->x, goal->y};
        if (!(*s.may)[(size_t) start->y * s.w + (size_t) start->x]) return false;
        s.fx = start->x; s.fy = start->y; return true;
    }
    template <class PathT> static void getPath(PathT *out) {
        Script &s = Script::get(); s.got++;
        for (auto &p : s.poses) { typename PathT::value_type n; PathT::value_type::init(n, p.x, p.y); n.theta = p.theta; out->push_back(n); }
    }
};

void queuePolicy(Case &c, bool big = false) { DPSConfig &q = DPSConfig::get(); q.tie = (int) c.pick(3); q.live = c.pick(2) == 0 && !big; q.dedupe = c.pick(2) == 1; q.salt = c.pick(1000); }

std::vector<double> dijkstra(const gen::Grid &g, int n, int sx, int sy) {          // in cells
    std::vector<double> dist(g.w * g.h, INFINITY); typedef std::pair<double, int> P; std::priority_queue<P, std::vector<P>, std::greater<P>> q;
    dist[sy * g.w + sx] = 0; q.push(P(0, sy * g.w + sx));
    while (!q.empty()) {
        P p = q.top(); q.pop(); if (p.first > dist[p.second]) continue;
        int x = p.second % g.w, y = p.second / g.w;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
            if ((!dx && !dy) || (n == 4 && dx && dy) || !g.in(x + dx, y + dy) || g.at(x + dx, y + dy) > 50) continue;
            double nd = p.first + (dx && dy ? M_SQRT2 : 1.0); int i = (y + dy) * g.w + x + dx;
            if (nd < dist[i] - 1e-12) { dist[i] = nd; q.push(P(nd, i)); }
        }
    }
    return dist;
}
template <class P> std::string pstr(const P &p) { std::ostringstream os; for (auto &n : p) os << "(" << n.x << "," << n.y << ")"; return os.str(); }

template <class S, int N> void expansionLaw(Case &c, bool big = false) {
    S s; gen::Grid g; std::unique_ptr<SimpleGridMap2d> map; double res = 1;
    int k = (int) c.integer(1, 3);
    for (int q = 0; q < k; ++q) {
        if (!map || c.pick(2)) { if (big) g = gen::bigGrid(c); else g = gen::grid(c, 16, 16); res = c.oneOf<double>({1, 0.1, 0.5}); map.reset(new SimpleGridMap2d(g.w, g.h, res)); map->set(g.v, g.w, g.h); }
        int sx = (int) c.pick(g.w), sy = (int) c.pick(g.h), gx = (int) c.pick(g.w), gy = (int) c.pick(g.h);
        for (auto &xy : {std::make_pair(sx, sy), std::make_pair(gx, gy)}) if (g.at(xy.first, xy.second) >= 200) { g.at(xy.first, xy.second) = 0; map->setValue(xy.first, xy.second, 0); }
        queuePolicy(c, big);
        std::vector<char> may(g.w * g.h, 0);
        int mk = (int) c.pick(4);
        if (mk == 1) { int n = (int) c.integer(1, 5); for (int i = 0; i < n; ++i) may[c.pick(may.size())] = 1; }
        else if (mk == 2) { double r = big ? c.real(0, 80) : c.real(0, 8); for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) may[y * g.w + x] = std::hypot(x - gx, y - gy) <= r; }
        else if (mk == 3) may[sy * g.w + sx] = 1;
        Script &sc = Script::get(); sc = Script(); sc.may = &may; sc.w = g.w;
        int n = (int) c.integer(1, 6); for (int i = 0; i < n; ++i) sc.poses.push_back(Pose2d(c.fine(0, g.w), c.fine(0, g.h), c.angle()));
        Pose2d from(sx, sy, c.angle()), to(gx, gy, c.angle());
        s.setMap(map.get());
        SearchOptions so; bool over = c.pick(4) == 3; if (over) so.oversearch_distance = res * c.oneOf<double>({0.5, 3, 100});
        c.note() << " map " << g.str() << " res " << res << " from " << sx << "," << sy << " to " << gx << "," << gy << " direct from"; if (big) c.note() << " kind " << mk; else for (size_t i = 0; i < may.size(); ++i) if (may[i]) c.note() << " " << i % g.w << "," << i / g.w;
        typename S::PathT p = c.pick(2) ? s.findPath(from, to, so) : s.findPath(from, to, boost::function<void()>([] {}), so);
        std::vector<double> d = dijkstra(g, N, sx, sy);
        auto H = [&](int x, int y) { return std::hypot(x - gx, y - gy); };
        double fe = INFINITY, fg = INFINITY;
        for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) {
            double v = d[y * g.w + x]; if (v == INFINITY) continue;
            if (may[y * g.w + x]) fe = std::min(fe, v + H(x, y));
            if (std::abs(x - gx) <= 1 && std::abs(y - gy) <= 1) fg = std::min(fg, v + H(x, y));
        }
        bool expanded = sc.got > 0;
        REQUIRE(sc.got <= 1, "the direct way was taken " << sc.got << " times");
        if (sc.asked) REQUIRE(!sc.noGoal && (int) sc.goalSeen[0] == gx && (int) sc.goalSeen[1] == gy, "asked for a direct way to another goal or without a map");
        if (fe == INFINITY && fg == INFINITY) { REQUIRE(p.empty() && !expanded, "a path, although the goal is not reachable: " << pstr(p)); c.label("unreachable"); continue; }
        REQUIRE(!p.empty(), "no path, although the goal is reachable");
        if (!over) {
            if (fe < fg - 1e-6) REQUIRE(expanded, "a direct way to the goal is closer than the goal, but was not taken");
            if (fe > fg + 1e-6) REQUIRE(!expanded, "a direct way to the goal was taken although the goal is closer");
        } else if (fe < fg - 1e-6) REQUIRE(expanded, "a direct way to the goal is closer than the goal, but was not taken");
        size_t pre = p.size();
        if (expanded) {
            REQUIRE(p.size() > sc.poses.size(), "the path " << pstr(p) << " does not even contain the direct way");
            pre = p.size() - sc.poses.size();
            for (size_t i = 0; i < sc.poses.size(); ++i) REQUIRE(p[pre + i].x == sc.poses[i].x && p[pre + i].y == sc.poses[i].y && p[pre + i].theta == sc.poses[i].theta, "pose " << i << " of the direct way is " << p[pre + i].x << "," << p[pre + i].y << " instead of " << sc.poses[i].x << "," << sc.poses[i].y << ": " << pstr(p));
            auto &j = p[pre - 1];
            REQUIRE(j.x == sc.fx && j.y == sc.fy && may[(size_t) j.y * g.w + (size_t) j.x], "the direct way is attached to " << j.x << "," << j.y << " instead of " << sc.fx << "," << sc.fy << ": " << pstr(p));
            REQUIRE(j.theta == sc.poses[0].theta, "the direct way starts with the heading " << sc.poses[0].theta << ", but is attached to a pose with the heading " << j.theta);
            c.label(pre == 1 ? "direct way from the start" : "direct way");
        } else c.label("search only");
        REQUIRE((int) p[0].x == sx && (int) p[0].y == sy, "the path does not begin at the start: " << pstr(p));
        double len = 0;
        for (size_t i = 1; i < pre; ++i) {
            int dx = (int) p[i].x - (int) p[i - 1].x, dy = (int) p[i].y - (int) p[i - 1].y;
            REQUIRE(std::abs(dx) <= 1 && std::abs(dy) <= 1 && (dx || dy) && !(N == 4 && dx && dy) && g.in((int) p[i].x, (int) p[i].y) && g.at((int) p[i].x, (int) p[i].y) <= 50, "step " << i << " is not allowed: " << pstr(p));
            len += dx && dy ? M_SQRT2 : 1;
        }
        if (!over || expanded) REQUIRE(std::fabs(len - d[(size_t) p[pre - 1].y * g.w + (size_t) p[pre - 1].x]) < 1e-6, "the path up to the direct way is not the shortest one: " << pstr(p));
        c.nontrivial(expanded && pre > 2);
    }
}

// ---- Reeds-Shepp expansions of the car-like search ----------------------------------------------------------------
struct Stop {};
typedef ReedsSheppExpansion<6, true, true> RSX;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, RSX, Pose2d, GridMap2d, 1, 1> CarRS;
double wrap(double a) { return std::remainder(a, 2 * PI); }

} // namespace

LAW("C28", "grid", 120000, 6000000, "the direct way is attached at least two steps away from the start") {
    switch (c.pick(3)) {
    case 0: expansionLaw<AStar2dSearch<DirectNeighborhood<8, 1>, Expansion>, 8>(c); break;
    case 1: expansionLaw<AStar2dSearch<DirectNeighborhood<4, 1>, Expansion>, 4>(c); break;
    default: expansionLaw<AStar2dSearch_Debug<1, 1, DirectNeighborhood<8, 1>, Expansion>, 8>(c); break;
    }
}

LAW("C28", "grid-large", 300, 10000, "the direct way is attached at least two steps away from the start; maps of up to 90000 cells") {
    if (c.boolean()) expansionLaw<AStar2dSearch<DirectNeighborhood<8, 1>, Expansion>, 8>(c, true); else expansionLaw<AStar2dSearch<DirectNeighborhood<4, 1>, Expansion>, 4>(c, true);
}

LAW("C28", "curves", 1500, 60000, "the path ends with a curve of at least five poses") {
    typedef DynamicSteeringNeighborhood D;
    CarRS s; gen::Grid g; std::unique_ptr<SimpleGridMap2d> map; double res = 1;
    RSX::instance() = RSX();                                       // cases must not depend on each other
    bool back = c.boolean(); double step = c.oneOf<double>({0.4, 0.75}), LA = c.oneOf<double>({1.2, 0.8});
    D::distance_step = step; D::LA = LA; D::STEER_DELTA = 15; D::MAX_STEER_ANGLE = 45; D::steer_steps = 2; D::allow_forward = true; D::allow_backward = back; D::reversed = false; D::goal_dist_threshold = 0.05; D::goal_angle_threshold = PI / 8;
    int k = (int) c.integer(1, 3);
    for (int q = 0; q < k; ++q) {
        if (!map || c.pick(2)) { g = gen::grid(c, 44, 44, true, 8, 8); res = c.oneOf<double>({0.25, 0.5, 0.1}); map.reset(new SimpleGridMap2d(g.w, g.h, res)); map->set(g.v, g.w, g.h); }
        double sx = c.fine(0, g.w), sy = c.fine(0, g.h), gx = c.fine(0, g.w), gy = c.fine(0, g.h);
        for (auto &xy : {std::make_pair((int) sx, (int) sy), std::make_pair((int) gx, (int) gy)}) if (g.at(xy.first, xy.second) >= 200) { g.at(xy.first, xy.second) = 0; map->setValue(xy.first, xy.second, 0); }
        queuePolicy(c);
        Pose2d from(sx, sy, c.angle(-PI, PI - 1e-9)), to(gx, gy, c.angle(-PI, PI - 1e-9));
        c.note() << std::setprecision(17) << " map " << g.str() << " res " << res << " from " << sx << "," << sy << "," << from.theta << " to " << gx << "," << gy << "," << to.theta << (back ? " back" : "");
        s.setMap(map.get());
        int used = 0; CarRS::PathT p;
        try { p = s.findPath(from, to, boost::function<void()>([&] { if (++used > 200) throw Stop(); })); } catch (const Stop &) { c.label("stopped"); continue; }
        if (p.empty()) { c.label("no path"); continue; }
        size_t pre = 0; while (pre < p.size() && std::isfinite(p[pre].distance)) pre++;
        REQUIRE(pre > 0, "the path does not begin with the start pose");
        if (pre == p.size()) { c.label("search only"); continue; }
        c.label(pre == 1 ? "curve from the start" : "curve");
        auto &j = p[pre - 1]; auto &e = p.back();
        REQUIRE(std::hypot(p[pre].x - j.x, p[pre].y - j.y) < 1e-3 && std::fabs(wrap(p[pre].theta - j.theta)) < 1e-3, "the curve begins at " << p[pre].x << "," << p[pre].y << "," << p[pre].theta << ", the search ended at " << j.x << "," << j.y << "," << j.theta);
        if (pre > 1) REQUIRE(j.forward, "a forward curve continues a backward move");
        REQUIRE(std::floor(e.x + 1e-3) >= std::floor(gx) && std::fabs(e.x - gx) <= 1.01 && std::fabs(e.y - gy) <= 1.01 && std::fabs(wrap(e.theta - to.theta)) < 2 * PI / 31 + 1e-3, "the curve ends at " << e.x << "," << e.y << "," << e.theta << " instead of the cell of the goal " << gx << "," << gy << "," << to.theta << " pre " << pre << " of " << p.size() << " at " << j.x << "," << j.y << "," << j.theta << " " << pstr(p));
        double r = 1.3 / res, wp = 0.15 / res;
        for (size_t i = pre + 1; i < p.size(); ++i) {
            double d = std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y), t = std::fabs(wrap(p[i].theta - p[i - 1].theta));
            REQUIRE(d <= wp * 1.05 + 1e-3, "poses " << i - 1 << " and " << i << " are " << d * res << " m apart");
            REQUIRE(t <= 1.1 * d / r + 2e-2, "the curve turns by " << t << " within " << d * res << " m, which is tighter than a circle of 1.3 m");
            REQUIRE(p[i].forward == j.forward, "the driving direction of the curve");
            if (d > 1e-2) { double dir = std::atan2(p[i].y - p[i - 1].y, p[i].x - p[i - 1].x); REQUIRE(std::fabs(wrap(dir - p[i - 1].theta)) < 0.6 * d / r + 5e-2, "the curve moves sideways or backwards at pose " << i); }
        }
        for (size_t i = pre; i < p.size(); ++i) {
            bool any = false; int x = (int) std::floor(p[i].x), y = (int) std::floor(p[i].y);
            for (int dy = -5; dy <= 5; ++dy) for (int dx = -5; dx <= 5; ++dx) if (dx * dx + dy * dy <= 25 && g.in(x + dx, y + dy) && g.at(x + dx, y + dy) <= 50) any = true;
            REQUIRE(any, "pose " << i << " of the curve lies within an obstacle");
        }
        c.nontrivial(p.size() - pre >= 5);
    }
}

namespace {

typedef AStar2dSearch_Debug<1, 1, DirectNeighborhood<8, 1>> Grid1;
typedef AStar2dSearch_Debug<1, 1, DirectNeighborhood<4, 1>> Grid4;

struct World { gen::Grid g; std::unique_ptr<SimpleGridMap2d> map; double res; Pose2d from, to; };
World world(Case &c, int n) {
    World w; if (n) w.g = gen::grid(c, n, n); else w.g = gen::bigGrid(c); w.res = c.oneOf<double>({1, 0.1}); w.map.reset(new SimpleGridMap2d(w.g.w, w.g.h, w.res));
    int sx = (int) c.pick(w.g.w), sy = (int) c.pick(w.g.h), gx = (int) c.pick(w.g.w), gy = (int) c.pick(w.g.h);
    w.g.at(sx, sy) = w.g.at(gx, gy) = 0; w.map->set(w.g.v, w.g.w, w.g.h);
    w.from = Pose2d(sx, sy, 0); w.to = Pose2d(gx, gy, 0);
    c.note() << " map " << w.g.str() << " from " << sx << "," << sy << " to " << gx << "," << gy;
    return w;
}
template <class P> std::string full(const P &p) { std::ostringstream os; os << std::setprecision(12); for (auto &n : p) os << "(" << n.x << "," << n.y << "," << n.theta << " d" << n.distance << ")"; return os.str(); }

// what a planner finds out about a world: result and statistics
template <class S> std::string answer(S &s, World &w, bool set, const SearchOptions &so = SearchOptions()) {
    if (set) s.setMap(w.map.get());
    std::ostringstream os; auto p = s.findPath(w.from, w.to, so);
    os << full(p) << " expansions " << s.getExpansions() << "/" << s.getMultiExpansions() << " touched " << s.getTouchedNodes();
    return os.str();
}
struct Quiet { std::streambuf *b; Quiet() : b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cerr.rdbuf(b); std::cerr.clear(); } };

struct Boom { int k; };

template <class S, int N> void abortLaw(Case &c) {
    S s; int rounds = (int) c.integer(1, 3); bool any = false;
    for (int q = 0; q < rounds; ++q) {
        World w = world(c, 14); queuePolicy(c);
        s.setMap(w.map.get());
        int at = (int) c.integer(1, 40), calls = 0, how = (int) c.pick(3); bool aborted = false, finished = false;
        SearchOptions so; if (how == 1) so.oversearch_distance = 50;
        c.note() << " abort " << how << " at " << at;
        if (how == 0) {                                              // an exception from the progress callback
            try { s.findPath(w.from, w.to, boost::function<void()>([&] { if (++calls == at) throw Boom{at}; }), so); finished = true; }
            catch (const Boom &b) { aborted = true; REQUIRE(b.k == at, "another exception"); }
            REQUIRE(calls <= at, "the search went on after the callback had thrown");
            c.label("exception");
        } else if (how == 1) {                                       // an exception from the candidate callback
            s.setPathCandidateCallback([&](const typename S::PathT &) -> bool { if (++calls == at % 5 + 1) throw Boom{at}; return false; });
            try { s.findPath(w.from, w.to, so); finished = true; } catch (const Boom &) { aborted = true; }
            s.setPathCandidateCallback([](const typename S::PathT &) { return false; });
            c.label("exception from the candidate callback");
        } else {                                                     // interrupted by another thread
            bool early = c.pick(6) == 5; typename S::PathT p; boost::thread *self = nullptr; boost::mutex mx;
            DPSConfig cfg = DPSConfig::get();
            mx.lock();
            boost::thread t([&] {
                { boost::this_thread::disable_interruption off; boost::mutex::scoped_lock l(mx); }
                DPSConfig::get() = cfg;
                try { p = s.findPath(w.from, w.to, boost::function<void()>([&] { if (++calls == at) self->interrupt(); })); finished = true; }
                catch (const boost::thread_interrupted &) { aborted = true; }
            });
            self = &t; if (early) t.interrupt(); mx.unlock(); t.join();
            if (early) REQUIRE(aborted && calls == 0, "a search in an interrupted thread made " << calls << " steps");
            REQUIRE(calls <= at, "the search went on for " << calls - at << " steps after it had been interrupted");
            c.label(early ? "interrupted before" : "interrupted");
        }
        if (aborted) { any = true; c.label("aborted"); } else c.label("finished before");
        REQUIRE(aborted || finished, "neither aborted nor finished");
        // afterwards the planner works as a new one, with the same and with another map
        bool set = c.pick(2) == 0; S fresh; std::string a = answer(s, w, set), b = answer(fresh, w, true);
        REQUIRE(a == b, "after an aborted search the planner answers " << a << ", a new one " << b);
        if (c.pick(3) == 2) { World w2 = world(c, 14); S f2; a = answer(s, w2, true); b = answer(f2, w2, true); REQUIRE(a == b, "after an aborted search the planner answers for another map " << a << ", a new one " << b); }
    }
    c.nontrivial(any);
}

typedef std::chrono::steady_clock Clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

} // namespace

LAW("C29", "aborting", 250000, 2500000, "at least one search was aborted") { if (c.boolean()) abortLaw<Grid4, 4>(c); else abortLaw<Grid1, 8>(c); }

LAW("C29", "time_limit", 2000, 40000, "the time limit ended the search") {
    Quiet quiet; World w = world(c, 14); queuePolicy(c); Grid1 s; s.setMap(w.map.get());
    double limit = c.oneOf<double>({0.001, 0.002, 0.003, 0.005}); int slow = (int) c.pick(6);        // every callback after the first `slow` ones takes a while
    SearchOptions so; if (c.pick(3) == 2) so.oversearch_distance = 100;
    int calls = 0; double first = 0, late = 0; bool over = false;
    s.setTimeLimit(limit);
    c.note() << " limit " << limit << " slow after " << slow << (so.oversearch_distance ? " extended" : "");
    Grid1::PathT p = s.findPath(w.from, w.to, boost::function<void()>([&] {
        calls++; if (calls == 1) first = now();
        if (over) late++;                                            // the limit has passed since the end of an earlier call
        if (calls > slow) { usleep(700); if (now() > first + limit + 0.00005) over = true; }
    }), so);
    REQUIRE(late == 0, "the search took " << late << " more steps after the time limit");
    Grid1 fresh; Grid1::PathT best;
    { fresh.setMap(w.map.get()); best = fresh.findPath(w.from, w.to); }
    std::vector<double> d = dijkstra(w.g, 8, (int) w.from.x, (int) w.from.y);
    if (!p.empty()) {                                                // whatever is returned is a path
        double len = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            if (!i) { REQUIRE(p[0].x == w.from.x && p[0].y == w.from.y, "start of " << pstr(p)); continue; }
            int dx = (int) p[i].x - (int) p[i - 1].x, dy = (int) p[i].y - (int) p[i - 1].y; len += dx && dy ? M_SQRT2 : 1;
            REQUIRE(std::abs(dx) <= 1 && std::abs(dy) <= 1 && w.g.at((int) p[i].x, (int) p[i].y) <= 50, "invalid path " << pstr(p));
        }
        REQUIRE(std::abs((int) p.back().x - (int) w.to.x) <= 1 && std::abs((int) p.back().y - (int) w.to.y) <= 1, "the path does not end at the goal: " << pstr(p));
        c.label(over ? "path when the time was over" : "path in time");
    } else c.label(over ? "time over" : "unreachable");
    c.nontrivial(over);
    if (p.empty() && !over && !best.empty()) {                       // aborted although no callback saw the limit pass: only possible on a very slow machine
        c.label("slow machine");
    }
    // without a limit, or with one that is never reached, the result is the complete one
    s.setTimeLimit(c.pick(2) ? -1.0 : 10000.0);
    std::string a = answer(s, w, c.pick(2) == 0), b = answer(fresh, w, true);
    REQUIRE(a == b, "after a time limit the planner answers " << a << ", a new one " << b);
}

LAW("C29", "unreached_limit", 1200, 60000, "a search that took less than the limit was compared, after a pause or another search") {
    Quiet quiet; Grid1 s; double limit = c.oneOf<double>({0.003, 0.006, 0.012}); bool early = c.boolean(); int rounds = (int) c.integer(1, 3); bool any = false;
    if (early) s.setTimeLimit(limit);
    c.note() << " limit " << limit << (early ? " set once" : " set each time");
    for (int q = 0; q < rounds; ++q) {
        World w = world(c, 14); queuePolicy(c); s.setMap(w.map.get());
        if (!early) s.setTimeLimit(limit);
        bool pause = c.pick(3) != 2; if (pause) { usleep((useconds_t) (limit * 1.3e6)); c.note() << " pause"; }
        SearchOptions so; if (c.pick(3) == 2) so.oversearch_distance = w.res * 3;
        double t0 = now(); std::string a = answer(s, w, c.pick(2) == 0, so); double t = now() - t0;
        Grid1 fresh; std::string b = answer(fresh, w, true, so);
        if (t > limit - 0.0015) { c.label("took too long"); continue; }   // the limit is rounded down to whole milliseconds
        REQUIRE(a == b, "within a time limit of " << limit << " s the planner answers " << a << ", without " << b);
        any |= pause || q > 0; c.label(pause ? "compared after a pause" : "compared");
    }
    c.nontrivial(any);
}

namespace {
template <int N, int S0> void callbackLaw(Case &c, bool big = false) {
    typedef AStar2dSearch_Debug<N, S0, DirectNeighborhood<8, 1>> S;
    S s; long total = 0, steps = 0; int rounds = (int) c.integer(1, 4); bool multi = false;
    c.note() << " every " << N << " first " << S0;
    for (int q = 0; q < rounds; ++q) {
        World w = world(c, big ? 0 : 18); queuePolicy(c, big); s.setMap(w.map.get());
        int calls = 0; auto p = s.findPath(w.from, w.to, boost::function<void()>([&] { calls++; }));
        int it = s.getExpansions() - (p.empty() ? 0 : 1);            // the step which reaches the goal is not announced
        REQUIRE(it >= 0, "a path without any expansion");
        total += calls; steps += it;
        if (N == 0) { REQUIRE(calls == 0, calls << " calls, although none are configured"); continue; }
        // the first ones at each step, all others N steps apart
        int extra = std::max(0, S0) + 1;
        REQUIRE(calls >= it / N && calls <= it / N + extra, calls << " calls in " << it << " steps, one every " << N << " steps was asked for");
        if (N == 1) REQUIRE(calls == it, calls << " calls in " << it << " steps");
        multi |= it >= 3 * N;
        // statistics
        int closed = 0; for (unsigned y = 0; y < w.g.h; ++y) for (unsigned x = 0; x < w.g.w; ++x) if (s.getMapManager().lookup((int) x, (int) y)->isMarked(S::NodeT::MARK_EXPANDED)) closed++;
        REQUIRE(s.getExpansions() - s.getMultiExpansions() == closed, "the search reports " << s.getExpansions() << " expansions, " << s.getMultiExpansions() << " of them repeated, but expanded " << closed << " different nodes");
        S fresh; fresh.setMap(w.map.get()); fresh.findPath(w.from, w.to);
        REQUIRE(fresh.getExpansions() == s.getExpansions() && fresh.getMultiExpansions() == s.getMultiExpansions() && fresh.getTouchedNodes() == s.getTouchedNodes(), "the search reports " << s.getExpansions() << "/" << s.getMultiExpansions() << "/" << s.getTouchedNodes() << " expansions/repeated/touched nodes, a new planner " << fresh.getExpansions() << "/" << fresh.getMultiExpansions() << "/" << fresh.getTouchedNodes());
        REQUIRE(s.getTouchedNodes() >= closed - 1, "fewer nodes touched than expanded");
    }
    c.nontrivial(multi);
}
} // namespace

LAW("C29", "callbacks_and_statistics", 300000, 4000000, "a search of at least three callback periods") {
    switch (c.pick(5)) {
    case 0: callbackLaw<1, 0>(c); break;
    case 1: callbackLaw<7, 0>(c); break;
    case 2: callbackLaw<3, 5>(c); break;
    case 3: callbackLaw<20, 1>(c); break;
    default: callbackLaw<0, 0>(c); break;
    }
}

LAW("C29", "statistics_large", 400, 10000, "a search of at least three callback periods; maps of up to 90000 cells") { if (c.boolean()) callbackLaw<1, 0>(c, true); else callbackLaw<20, 1>(c, true); }
