// C01..C03: the generic 2-D grid search (A* on a grid map with a 4- or 8-neighbourhood).
#include "gen.h"
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
#include <queue>
using namespace lib_path;
using pbt::Case;

namespace {

void queuePolicy(Case &c, bool big) {
    DPSConfig &q = DPSConfig::get();
    q.tie = (int) c.pick(3);
    q.live = c.pick(2) == 0 && !big;      // the linear scan is too slow for large maps
    q.dedupe = c.pick(2) == 1;
    q.salt = c.pick(1000);
}

struct Ref {       // reference: Dijkstra over the step graph
    const gen::Grid &g; int n, d;
    std::vector<double> dist;
    static bool freeVal(uint8_t v) { return v <= 50; }
    static bool occVal(uint8_t v) { return v >= 200; }
    Ref(const gen::Grid &g, int n, int d, int sx, int sy, double res) : g(g), n(n), d(d), dist(g.w * g.h, INFINITY) {
        typedef std::pair<double, int> P;
        std::priority_queue<P, std::vector<P>, std::greater<P>> q;
        dist[sy * g.w + sx] = 0; q.push(P(0, sy * g.w + sx));
        while (!q.empty()) {
            P p = q.top(); q.pop();
            if (p.first > dist[p.second]) continue;
            int x = p.second % g.w, y = p.second / g.w;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                if (!dx && !dy) continue;
                if (n == 4 && dx && dy) continue;
                int xx = x + dx * d, yy = y + dy * d;
                if (!g.in(xx, yy) || !freeVal(g.at(xx, yy))) continue;
                double nd = p.first + d * (dx && dy ? M_SQRT2 : 1.0) * res;
                int i = yy * g.w + xx;
                if (nd < dist[i] - 1e-12) { dist[i] = nd; q.push(P(nd, i)); }
            }
        }
    }
    double at(int x, int y) const { return dist[y * g.w + x]; }
};

struct L2 { static double h(double dx, double dy) { return std::hypot(dx, dy); } };
struct L1 { static double h(double dx, double dy) { return std::fabs(dx) + std::fabs(dy); } };
struct NoH { static double h(double, double) { return 0; } };
struct LI { static double h(double dx, double dy) { return std::max(std::fabs(dx), std::fabs(dy)); } };

// a goal set given by a predicate over cells; like the goal tests of the library's users it registers candidates
// (with a weight) and either stops at the first one or looks at the whole map
template <class Search>
struct CellSetGoal {
    Search *s; const std::vector<char> *in; unsigned w; const Pose2d *hg; bool first; const std::vector<double> *weight;
    bool terminate(const typename Search::NodeT *n) const {
        unsigned i = (unsigned) n->y * w + (unsigned) n->x;
        if (!(*in)[i]) return false;
        s->addGoalCandidate(n, (*weight)[i]);
        return first;
    }
    const Pose2d *getHeuristicGoal() const { return hg; }
};

enum What { VALIDITY = 1, OPTIMALITY = 2, ENDPOINTS = 4 };

const double EPS = 1e-6;

template <class Path>
std::string pstr(const Path &p) { std::ostringstream os; for (auto &n : p) os << "(" << n.x << "," << n.y << ")"; return os.str(); }

template <class Path>
void checkWalk(const Path &p, const gen::Grid &g, int n, int d, int sx, int sy, double res) {
    REQUIRE(!p.empty(), "empty");
    REQUIRE((int) p.front().x == sx && (int) p.front().y == sy, "path starts at (" << p.front().x << "," << p.front().y << ") instead of the start cell: " << pstr(p));
    double cost = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        REQUIRE(p[i].x == std::floor(p[i].x) && p[i].y == std::floor(p[i].y) && g.in((int) p[i].x, (int) p[i].y), "path leaves the map: " << pstr(p));
        if (i == 0) continue;
        int dx = (int) p[i].x - (int) p[i - 1].x, dy = (int) p[i].y - (int) p[i - 1].y;
        bool ok = (std::abs(dx) == d || dx == 0) && (std::abs(dy) == d || dy == 0) && (dx || dy) && !(n == 4 && dx && dy);
        REQUIRE(ok, "step " << i << " is not a move to one of the " << n << " neighbours: " << pstr(p));
        REQUIRE(Ref::freeVal(g.at((int) p[i].x, (int) p[i].y)), "cell " << i << " of the path is not free: " << pstr(p));
        cost += d * (dx && dy ? M_SQRT2 : 1.0) * res;
        REQUIRE(std::fabs(p[i].distance - cost) < EPS, "the node's distance " << p[i].distance << " is not the length of the path to it " << cost << ": " << pstr(p));
    }
}

template <class Search, class H, int N, int D>
struct Runner {
    typedef typename Search::PathT PathT;
    Search s;
    std::unique_ptr<SimpleGridMap2d> map;
    gen::Grid g;
    double res = 1;
    bool used = false, big = false;

    void newMap(Case &c, int maxn) {
        if (big) g = gen::bigGrid(c);
        else g = gen::grid(c, c.pick(50) == 49 ? 3 * maxn : maxn, maxn);
        res = c.oneOf<double>({1.0, 0.05, 0.5, 2.0});
        map.reset(new SimpleGridMap2d(g.w, g.h, res));
        map->set(g.v, g.w, g.h);
        if (c.pick(4) == 3) map->setOrigin(Point2d(c.real(-20, 20), c.real(-20, 20)));
        if (c.pick(6) == 5) map->setNoInformationValue(127);
    }

    bool keep = false;          // mostly the same map
    // a number of searches within one cell
    void idle(Case &c) {
        int n = c.pick(60) == 59 ? (int) c.integer(65533, 65537) : (int) c.integer(253, 257), x = (int) c.pick(g.w), y = (int) c.pick(g.h);
        g.at(x, y) = 0; map->setValue(x, y, 0);
        bool set = c.boolean(); int wrong = 0; Pose2d at(x + 0.5, y + 0.5, 0);
        c.note() << " " << n << " searches within " << x << "," << y; c.label(n > 1000 ? "65536 searches in between" : "256 searches in between");
        s.setMap(map.get());
        for (int i = 0; i < n; ++i) { if (set) s.setMap(map.get()); PathT p = s.findPath(at, at); wrong += p.size() != 1 || (int) p[0].x != x || (int) p[0].y != y; }
        REQUIRE(!wrong, wrong << " of " << n << " searches from a cell to itself do not return that cell");
    }

    void one(Case &c, int what, bool small) {
        // a changed map: new object, new content in place, or the same again
        int change = map ? keep ? 1 + (int) c.pick(2) : (int) c.pick(3) : 0;
        if (change == 0) newMap(c, small ? 8 : 24);
        else if (change == 1) {
            int k = 1 + (int) c.pick(4);
            for (int i = 0; i < k; ++i) { int x = (int) c.pick(g.w), y = (int) c.pick(g.h); uint8_t v = gen::cellValue(c, (int) c.pick(3)); g.at(x, y) = v; map->setValue(x, y, v); }
        }
        // the planner may also be asked again without telling it about the map
        if (!used || change == 0 || c.pick(3) != 2) s.setMap(map.get()); else c.label("planned again without setting the map");
        used = true;
        int sx = (int) c.pick(g.w), sy = (int) c.pick(g.h), gx = (int) c.pick(g.w), gy = (int) c.pick(g.h);
        bool cleanStart = c.pick(8) != 7, cleanGoal = c.pick(8) != 7;
        auto setFree = [&](int x, int y) { if (Ref::occVal(g.at(x, y))) { g.at(x, y) = 0; map->setValue(x, y, 0); } };
        if (cleanStart) setFree(sx, sy);
        if (cleanGoal) setFree(gx, gy);
        queuePolicy(c, big);
        double fx = c.pick(3) == 2 ? c.fine(0, 1) : 0.0, fy = fx > 0 ? c.fine(0, 1) : 0.0;
        Pose2d from(sx + fx, sy + fy, c.angle()), to(gx + fy, gy + fx, c.angle());
        bool startOk = !Ref::occVal(g.at(sx, sy)), goalOk = !Ref::occVal(g.at(gx, gy));
        Ref ref(g, N, D, sx, sy, res);

        int mode = (int) c.pick(4);    // 0,1: pose goal; 2: goal set; 3: candidates
        c.note() << " map " << g.str() << " res " << res << " start " << sx << "," << sy << " goal " << gx << "," << gy << " nbh " << N << "/" << D << " mode " << mode;
        if (!startOk || !goalOk) c.label(!startOk ? "start occupied" : "goal occupied");
        if (mode <= 1) poseGoal(c, what, ref, from, to, sx, sy, gx, gy, startOk, goalOk, mode == 1);
        else if (mode == 2) goalSet(c, what, ref, from, sx, sy, startOk);
        else candidates(c, what, ref, from, to, sx, sy, gx, gy, startOk, goalOk);
    }

    // search that may reject its endpoints
    template <class F>
    bool guarded(F f, bool startOk, bool goalOk, int what) {
        try { f(); return true; }
        catch (const std::exception &e) {
            REQUIRE(!startOk || !goalOk, "a valid query was rejected with an exception: " << e.what());
            if (what & ENDPOINTS) {
                bool st = dynamic_cast<const typename Search::StartNotFreeException *>(&e), go = dynamic_cast<const typename Search::GoalNotFreeException *>(&e);
                REQUIRE((st && !startOk) || (go && !goalOk), "an occupied " << (startOk ? "goal" : "start") << " was reported as: " << e.what());
            }
            return false;
        }
    }

    // a coordinate outside of [0, n)
    static double outside(Case &c, unsigned n) {
        switch (c.pick(4)) {
        case 0: return c.pick(2) ? -0.5 : -1e-6;
        case 1: return (double) n + (c.pick(2) ? 0.0 : 0.25);
        case 2: return -(double) (1 + c.pick(100000));
        default: return (double) n + (double) c.pick(100000);
        }
    }
    enum Where { FREE, OCC, OUT };
    Pose2d endpoint(Case &c, Where wh, int &x, int &y) {
        x = (int) c.pick(g.w); y = (int) c.pick(g.h);
        double px = x + (c.pick(2) ? c.fine(0, 1) : 0.0), py = y + (c.pick(2) ? c.fine(0, 1) : 0.0);
        if (wh == OUT) {
            int k = (int) c.pick(3);
            if (k != 1) px = outside(c, g.w);
            if (k != 0) py = outside(c, g.h);
            x = y = -1;
        } else { uint8_t v = wh == OCC ? 255 : c.pick(4) == 3 ? 127 : 0; g.at(x, y) = v; map->setValue(x, y, v); }
        return Pose2d(px, py, c.angle());
    }
    void endpoints(Case &c) {
        if (!keep || !map) newMap(c, 10);
        int k = 1 + (int) c.pick(3);
        for (int i = 0; i < k; ++i) {
            Where sw = (Where) c.pick(3), gw = (Where) c.pick(3);
            int sx, sy, gx, gy;
            Pose2d from = endpoint(c, sw, sx, sy), to = endpoint(c, gw, gx, gy);
            if (sw != OUT && gw != OUT && sx == gx && sy == gy) sw = gw;         // the last one wins
            queuePolicy(c, big);
            s.setMap(map.get());
            bool set = c.pick(5) == 4;       // search to a goal set: only the start matters
            bool inter = c.pick(3) == 2;
            SearchOptions so; if (c.pick(4) == 3) so.oversearch_distance = res * c.oneOf<double>({0.3, 3.0, 100.0});
            c.note() << (so.oversearch_distance ? " continued search" : "") << " map " << g.str() << " from " << from.x << "," << from.y << " to " << to.x << "," << to.y << (set ? " (goal set)" : "");
            std::string got = "returned a path"; PathT p;
            std::vector<char> in(g.w * g.h, 1); std::vector<double> weight(g.w * g.h, 0);
            try {
                if (set) {
                    CellSetGoal<Search> goal{&s, &in, g.w, nullptr, true, &weight};
                    if (inter) p = s.findPath(from, goal, boost::function<void()>([] {}), so);
                    else p = s.findPath(from, goal, so);
                }
                else if (inter) p = s.findPath(from, to, boost::function<void()>([] {}), so);
                else p = s.findPath(from, to, so);
                if (p.empty()) got = "no path";
            }
            catch (const typename Search::StartNotFreeException &) { got = "start not free"; }
            catch (const typename Search::StartOutOfMapException &) { got = "start out of map"; }
            catch (const typename Search::GoalNotFreeException &) { got = "goal not free"; }
            catch (const typename Search::GoalOutOfMapException &) { got = "goal out of map"; }
            catch (const std::exception &e) { got = std::string("exception ") + e.what(); }
            if (got != "returned a path") REQUIRE(s.getPathCandidates().empty(), "there is no path, but " << s.getPathCandidates().size() << " candidates: " << pstr(s.getPathCandidates()[0]));
            std::vector<std::string> ok;
            if (sw == OCC) ok.push_back("start not free");
            if (sw == OUT) ok.push_back("start out of map");
            bool startBad = !ok.empty();
            if (!startBad && !set && gw == OCC) ok.push_back("goal not free");
            if (!startBad && !set && gw == OUT) ok.push_back("goal out of map");
            if (ok.empty()) {
                Ref ref(g, N, D, sx, sy, res);
                bool reach = set;
                if (!set) for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) if (std::abs(x - gx) <= D && std::abs(y - gy) <= D && ref.at(x, y) < INFINITY) reach = true;
                REQUIRE(got == (reach ? "returned a path" : "no path"), "a valid query (goal " << (reach ? "" : "not ") << "reachable) gave: " << got);
                c.label("valid query");
            } else {
                REQUIRE(std::find(ok.begin(), ok.end(), got) != ok.end(), "expected '" << ok[0] << "', but the search gave: " << got);
                c.label(got); c.nontrivial();
            }
        }
    }

    void poseGoal(Case &c, int what, const Ref &ref, const Pose2d &from, const Pose2d &to, int sx, int sy, int gx, int gy, bool startOk, bool goalOk, bool inter) {
        PathT p; int calls = 0;
        bool ran = guarded([&] {
            if (inter) p = s.findPath(from, to, boost::function<void()>([&] { calls++; }));
            else p = s.findPath(from, to);
        }, startOk, goalOk, what);
        if (!startOk || !goalOk) {
            REQUIRE(p.empty(), "a path was returned although the " << (startOk ? "goal" : "start") << " is occupied: " << pstr(p));
            if (what & ENDPOINTS) { REQUIRE(!ran, "an occupied " << (startOk ? "goal" : "start") << " was not reported"); c.nontrivial(); }
            return;
        }
        double best = INFINITY;
        for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x)
            if (std::abs(x - gx) <= D && std::abs(y - gy) <= D && ref.at(x, y) < INFINITY)
                best = std::min(best, ref.at(x, y) + res * H::h(x - gx, y - gy));
        verdict(c, what, p, ref, sx, sy, best, [&](int x, int y) { return std::abs(x - gx) <= D && std::abs(y - gy) <= D; }, [&](int x, int y) { return res * H::h(x - gx, y - gy); });
        if (!p.empty() && (what & VALIDITY) && (sx != gx || sy != gy)) REQUIRE(p.front().theta == from.theta, "the path does not start with the requested heading");
    }

    void goalSet(Case &c, int what, const Ref &ref, const Pose2d &from, int sx, int sy, bool startOk) {
        std::vector<char> in(g.w * g.h, 0);
        int k = (int) c.size(0, 6);
        for (int i = 0; i < k; ++i) in[c.pick(g.w * g.h)] = 1;
        if (c.pick(4) == 3) {                    // a goal scattered over the whole map
            uint64_t q = c.draw(0xffffffff) * 2 + 1, every = 2 + g.w * g.h / (big ? 300 : 40);
            for (auto &x : in) { q ^= q << 13; q ^= q >> 7; q ^= q << 17; if (q % every == 0) x = 1; }
            c.label("goal set: scattered");
        }
        std::unique_ptr<Pose2d> hg;
        if (c.boolean()) hg.reset(new Pose2d((double) c.pick(g.w), (double) c.pick(g.h), 0));
        std::vector<double> weight(g.w * g.h, 0);
        bool first = c.pick(3) != 2;
        uint64_t salt = c.pick(1000);
        for (size_t i = 0; i < weight.size(); ++i) weight[i] = (double) ((i * 7919 + salt * 104729) % 1009);   // all different
        SearchOptions so;
        bool within = !first && c.pick(2);       // go on for some distance after the first one only
        if (within) { so.oversearch_distance = res * c.oneOf<double>({0.3, 1.2, 3.0, 10.0, 30.0}); hg.reset(); }
        CellSetGoal<Search> goal{&s, &in, g.w, hg.get(), first, &weight};
        PathT p;
        c.label(first ? "goal set: nearest" : within ? "goal set: best weight within the extra distance" : "goal set: best weight");
        guarded([&] { if (c.pick(2)) p = s.findPath(from, goal, boost::function<void()>([] {}), so); else p = s.findPath(from, goal, so); }, startOk, true, what);
        if (!startOk) { REQUIRE(p.empty(), "a path was returned although the start is occupied"); return; }
        if (!first && (what & OPTIMALITY) && !p.empty())           // each of them could have had the best weight
            for (auto &q : s.getPathCandidates()) REQUIRE(std::fabs(q.back().distance - ref.at((int) q.back().x, (int) q.back().y)) < EPS, "a candidate is not the shortest path to its end: " << pstr(q));
        if (within) {
            double near = INFINITY, next = INFINITY, sure = INFINITY;
            auto all = [&](std::function<void(int, double)> f) { for (int i = 0; i < (int) (g.w * g.h); ++i) if (ref.dist[i] < INFINITY) f(i, ref.dist[i]); };
            all([&](int i, double d) { if (in[i]) near = std::min(near, d); });
            double limit = near + so.oversearch_distance;
            all([&](int i, double d) { if (in[i] && d < limit - EPS) sure = std::min(sure, weight[i]); if (d > limit + EPS) next = std::min(next, d); });
            if (what & OPTIMALITY) REQUIRE(p.empty() == (near == INFINITY), (p.empty() ? "no path was found although a goal cell is reachable" : "a path was found although no goal cell is reachable"));
            if (p.empty()) return;
            int ex = (int) p.back().x, ey = (int) p.back().y;
            if (what & VALIDITY) { checkWalk(p, g, N, D, sx, sy, res); REQUIRE(in[ey * g.w + ex], "the path ends at (" << ex << "," << ey << "), which is not in the goal region: " << pstr(p)); }
            if (what & OPTIMALITY) {
                REQUIRE(std::fabs(p.back().distance - ref.at(ex, ey)) < EPS, "not the shortest path to its end: " << pstr(p));
                REQUIRE(weight[ey * g.w + ex] <= sure + EPS, "the ending has weight " << weight[ey * g.w + ex] << ", but one of weight " << sure << " is within the extra distance: " << pstr(p));
                REQUIRE(ref.at(ex, ey) <= limit + EPS || ref.at(ex, ey) <= next + EPS, "the path ends at distance " << ref.at(ex, ey) << ", but the search had to stop at " << next << ", the first beyond " << limit << ": " << pstr(p));
            }
            c.nontrivial(p.size() >= 4);
            return;
        }
        double best = INFINITY;
        for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) if (in[y * g.w + x] && ref.at(x, y) < INFINITY) best = std::min(best, first ? ref.at(x, y) : weight[y * g.w + x]);
        if (first) verdict(c, what, p, ref, sx, sy, best, [&](int x, int y) { return in[y * g.w + x] != 0; }, [](int, int) { return 0.0; });
        else verdict(c, what, p, ref, sx, sy, best, [&](int x, int y) { return in[y * g.w + x] != 0; }, [&](int x, int y) { return weight[y * g.w + x] - ref.at(x, y); });
    }

    template <class G, class HH>
    void verdict(Case &c, int what, const PathT &p, const Ref &ref, int sx, int sy, double best, G goal, HH h) {
        if (p.empty()) {
            if (what & OPTIMALITY) REQUIRE(best == INFINITY, "no path was found although a goal cell is reachable at cost " << best);
            c.label("unreachable");
            if (what & OPTIMALITY) c.nontrivial();
            return;
        }
        int ex = (int) p.back().x, ey = (int) p.back().y;
        if (what & VALIDITY) {
            checkWalk(p, g, N, D, sx, sy, res);
            REQUIRE(goal(ex, ey), "the path ends at (" << ex << "," << ey << "), which is not in the goal region: " << pstr(p));
        }
        if (what & OPTIMALITY) {
            REQUIRE(best < INFINITY, "a path was found although no goal cell is reachable: " << pstr(p));
            double len = 0;
            for (size_t i = 1; i < p.size(); ++i) len += res * std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y);
            REQUIRE(std::fabs(len - ref.at(ex, ey)) < EPS, "path of length " << len << " but the shortest path to its last cell has length " << ref.at(ex, ey) << ": " << pstr(p));
            REQUIRE(std::fabs(len + h(ex, ey) - best) < EPS, "path with length + remaining distance " << len + h(ex, ey) << " but " << best << " is possible: " << pstr(p));
        }
        c.label(p.size() == 1 ? "trivial path" : p.size() < 6 ? "short path" : "long path");
        double air = res * std::hypot(ex - sx, ey - sy);
        bool detour = p.back().distance > 1.3 * air + res;
        if (detour) c.label("detour");
        c.nontrivial(p.size() >= 4);
    }

    // the search goes on after the first solution and collects candidates
    void candidates(Case &c, int what, const Ref &ref, const Pose2d &from, const Pose2d &to, int sx, int sy, int gx, int gy, bool startOk, bool goalOk) {
        SearchOptions so;
        so.oversearch_distance = res * c.oneOf<double>({0.3, 1.2, 3.0, 10.0, 100.0});
        int accept = c.pick(3) == 2 ? 1 + (int) c.pick(3) : 0;   // accept the n-th offered candidate
        int offered = 0; bool bad = false; std::string badmsg; PathT accepted;
        c.label("oversearch");
        s.setPathCandidateCallback([&](const PathT &p) {
            offered++;
            if (what & VALIDITY) {
                try {
                    checkWalk(p, g, N, D, sx, sy, res);
                    REQUIRE(std::abs((int) p.back().x - gx) <= D && std::abs((int) p.back().y - gy) <= D, "candidate not at the goal: " << pstr(p));
                } catch (const pbt::Failure &f) { bad = true; badmsg = f.msg; }
            }
            if (accept && offered == accept) { accepted = p; return true; }
            return false;
        });
        struct Reset { Search &s; ~Reset() { s.setPathCandidateCallback([](const PathT &) { return false; }); } } reset{s};
        PathT p;
        bool ran = guarded([&] { p = s.findPath(from, to, so); }, startOk, goalOk, what);
        if (!startOk || !goalOk) { REQUIRE(p.empty(), "a path was returned although start or goal is occupied"); (void) ran; return; }
        REQUIRE(!bad, "a candidate offered to the callback is not a valid path: " << badmsg);
        if (accepted.size()) {
            REQUIRE(pstr(p) == pstr(accepted), "the accepted candidate " << pstr(accepted) << " was not returned, but " << pstr(p));
            c.nontrivial(); c.label("accepted candidate");
            return;
        }
        // reference: all goal cells by length + rest
        double first = INFINITY;
        struct G { double f, d; int x, y; };
        std::vector<G> gs;
        for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x)
            if (std::abs(x - gx) <= D && std::abs(y - gy) <= D && ref.at(x, y) < INFINITY) {
                G q{ref.at(x, y) + res * H::h(x - gx, y - gy), std::hypot(x - gx, y - gy), x, y};
                gs.push_back(q); first = std::min(first, q.f);
            }
        if (gs.empty()) {
            if (what & OPTIMALITY) REQUIRE(p.empty(), "a path was found although no goal cell is reachable: " << pstr(p));
            return;
        }
        if (what & OPTIMALITY) REQUIRE(!p.empty(), "no path was found although a goal cell is reachable");
        if (p.empty()) return;
        if (what & VALIDITY) {
            checkWalk(p, g, N, D, sx, sy, res);
            REQUIRE(std::abs((int) p.back().x - gx) <= D && std::abs((int) p.back().y - gy) <= D, "the path does not end at the goal: " << pstr(p));
        }
        std::vector<PathT> all = s.getPathCandidates();
        REQUIRE(!all.empty(), "a path was returned but there are no candidates");
        double lastd = -1;
        for (auto &q : all) {
            if (what & VALIDITY) {
                checkWalk(q, g, N, D, sx, sy, res);
                REQUIRE(std::abs((int) q.back().x - gx) <= D && std::abs((int) q.back().y - gy) <= D, "candidate not at the goal: " << pstr(q));
            }
            double d = std::hypot(q.back().x - gx, q.back().y - gy);
            REQUIRE(d >= lastd - EPS, "the candidates are not ordered by their distance to the goal");
            lastd = d;
        }
        if (what & OPTIMALITY) {
            // candidates certainly within / possibly within the extra distance (ties at the limit may go either way)
            double bestSure = INFINITY, bestMaybe = INFINITY;
            for (auto &q : gs) {
                if (q.f < first + so.oversearch_distance - EPS) bestSure = std::min(bestSure, q.d);
                if (q.f < first + so.oversearch_distance + EPS) bestMaybe = std::min(bestMaybe, q.d);
            }
            double d = std::hypot(p.back().x - gx, p.back().y - gy);
            REQUIRE(d <= bestSure + EPS, "the returned path ends " << d << " cells from the goal, but a candidate at " << bestSure << " is within the search distance: " << pstr(p));
            // the node which ends the search is itself recorded before the limit is tested
            double limit = first + so.oversearch_distance, next = INFINITY;
            for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) { double f = ref.at(x, y) + res * H::h(x - gx, y - gy); if (f > limit + EPS) next = std::min(next, f); }
            double f = p.back().distance + res * H::h(p.back().x - gx, p.back().y - gy);
            REQUIRE(f <= limit + EPS || f <= next + EPS, "the returned path ends at a cost of " << f << ", but the search had to stop at " << next << ", the first cost beyond " << limit << ": " << pstr(p));
            (void) bestMaybe;
            REQUIRE(std::fabs(p.back().distance - ref.at((int) p.back().x, (int) p.back().y)) < EPS, "not the shortest path to its end: " << pstr(p));
        }
        c.nontrivial(all.size() > 1);
    }
};

template <class S, class H, int N, int D>
void run(Case &c, int what, bool big) {
    std::unique_ptr<Runner<S, H, N, D>> r(new Runner<S, H, N, D>());
    r->big = big;
    bool small = c.pick(3) == 2;
    int k = 1 + (int) c.pick(4);
    for (int i = 0; i < k; ++i) r->one(c, what, small);
}

// many searches by one planner, most of them too short to touch more than one cell
template <class S, class H, int N, int D>
void runLong(Case &c, int what) {
    std::unique_ptr<Runner<S, H, N, D>> r(new Runner<S, H, N, D>());
    r->keep = true;
    int k = 1 + (int) c.pick(2);
    r->one(c, what, c.boolean());
    for (int i = 0; i < k; ++i) { r->idle(c); r->one(c, what, c.boolean()); if (c.pick(3) == 2) r->one(c, what, true); }
}

template <class S, class H, int N, int D>
void go(Case &c, int what, int big) {
    if (big == 2) { if (what == ENDPOINTS) { std::unique_ptr<Runner<S, H, N, D>> r(new Runner<S, H, N, D>()); r->keep = true; r->endpoints(c); r->idle(c); r->endpoints(c); } else runLong<S, H, N, D>(c, what); return; }
    if (what == ENDPOINTS) { std::unique_ptr<Runner<S, H, N, D>> r(new Runner<S, H, N, D>()); r->big = big; r->endpoints(c); }
    else run<S, H, N, D>(c, what, big);
}

void any(Case &c, int what, int big = 0) {   // big: 0 small maps, 1 large maps, 2 many searches
    switch (c.pick(9)) {
    case 0: case 1: go<AStar2dSearch<DirectNeighborhood<8, 1>>, L2, 8, 1>(c, what, big); break;
    case 2: go<AStar2dSearch<DirectNeighborhood<4, 1>>, L2, 4, 1>(c, what, big); break;
    case 3: go<AStar2dTaxiSearch<DirectNeighborhood<4, 1>>, L1, 4, 1>(c, what, big); break;
    case 4: go<AStar2dInfSearch<DirectNeighborhood<8, 1>>, LI, 8, 1>(c, what, big); break;
    case 8: if (c.boolean()) go<DijkstraSearch<DirectNeighborhood<8, 1>>, NoH, 8, 1>(c, what, big); else go<DijkstraSearch<DirectNeighborhood<4, 2>>, NoH, 4, 2>(c, what, big); break;
    case 5: go<AStar2dSearch<DirectNeighborhood<8, 2>>, L2, 8, 2>(c, what, big); break;
    case 6: go<AStar2dSearch<DirectNeighborhood<4, 3>>, L2, 4, 3>(c, what, big); break;
    default: go<AStar2dInfSearch<DirectNeighborhood<4, 2>>, LI, 4, 2>(c, what, big); break;
    }
}

} // namespace

LAW("C01", "grid-walk", 450000, 12000000,
    "grid maps up to 24x24 (rectangles, walls with gaps, noise; unknown cells; origins, resolutions, thresholds), 1-4 queries per planner with the map replaced, edited in place or kept, "
    "4/8-neighbourhoods with step 1..3, L1/L2/Linf heuristics, pose goals, goal sets, oversearch candidates, any tie-breaking of the queue; non-trivial: a path of >= 4 cells was returned or several candidates compared") { any(c, VALIDITY); }
LAW("C02", "grid-optimal", 450000, 12000000,
    "same generator as C01, every result compared with Dijkstra on the step graph; non-trivial: a path of >= 4 cells, a proven unreachable goal, or several candidates") { any(c, OPTIMALITY); }
LAW("C03", "endpoints", 1600000, 20000000,
    "maps up to 10x10, start and goal independently free, occupied or outside the map (just outside, fractional, far away), pose goals and goal sets; non-trivial: an endpoint was invalid") { any(c, ENDPOINTS); }
LAW("C01", "grid-walk-large", 600, 20000, "as grid-walk on maps of up to 90000 cells (squares, long maps, strips); non-trivial: a path of >= 4 cells was returned or several candidates compared") { any(c, VALIDITY, 1); }
LAW("C02", "grid-optimal-large", 600, 20000, "as grid-optimal on maps of up to 90000 cells (squares, long maps, strips); non-trivial: a path of >= 4 cells, a proven unreachable goal, or several candidates") { any(c, OPTIMALITY, 1); }
LAW("C03", "endpoints-large", 4000, 100000, "as endpoints on maps of up to 90000 cells; non-trivial: an endpoint was invalid") { any(c, ENDPOINTS, 1); }
LAW("C01", "grid-walk-long", 3000, 100000, "as grid-walk, with hundreds (rarely 65536) of searches within one cell in between, by the same planner; non-trivial: a path of >= 4 cells was returned or several candidates compared") { any(c, VALIDITY, 2); }
LAW("C02", "grid-optimal-long", 3000, 100000, "as grid-optimal, with hundreds (rarely 65536) of searches within one cell in between, by the same planner; non-trivial: a path of >= 4 cells, a proven unreachable goal, or several candidates") { any(c, OPTIMALITY, 2); }
LAW("C03", "endpoints-long", 3000, 100000, "as endpoints, with hundreds (rarely 65536) of searches within one cell in between, by the same planner; non-trivial: an endpoint was invalid") { any(c, ENDPOINTS, 2); }
