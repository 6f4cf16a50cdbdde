// C04..C06: the car-like (steering) search on the dynamic directional state space.
#include "gen.h"
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <functional>
#include <memory>
#include <set>
using namespace lib_path;
using pbt::Case;

namespace {

struct Stop {};            // thrown from the search's callback after a fixed number of expansions

struct Conf {
    double step, LA, deltaSteer; int maxSteer, steerSteps; bool fwd, back, reversed, dynamic;
    double goalDist, goalAngle;          // dynamic neighbourhood only
    int straightSwitch;                  // straight moves required around a change of direction
    bool whole;                          // state space allocated for the whole map, every cell of a move must be free
};

typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, 1, 1> DynS;
typedef AStarDynamicHybridHeuristicsSearch<SteeringNeighborhood<40, 2, 15, 60, 120, SteeringMoves::FORWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> StatF;
typedef AStarDynamicSearch<SteeringNeighborhood<50, 2, 10, 40, 100, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> StatFB;
typedef AStarDynamicSearch<SteeringNeighborhood<30, 2, 15, 40, 120, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> StatS;
typedef AStarDynamicSearch<SteeringNeighborhood<30, 3, 10, 50, 60, SteeringMoves::FORWARD_BACKWARD, true>, NoExpansion, Pose2d, GridMap2d, 1, 1> StatR;

// the same on the state space which is allocated at once
typedef AStarSearch<SteeringNeighborhood<50, 2, 10, 40, 100, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> FullA;
typedef AStarHybridHeuristicsSearch<SteeringNeighborhood<40, 2, 15, 60, 120, SteeringMoves::FORWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> FullH;
typedef AStarOverEstimateSearch<SteeringNeighborhood<50, 2, 10, 40, 100, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> FullO;
typedef DijkstraStateSearch<SteeringNeighborhood<50, 2, 10, 40, 100, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 1> FullD;

double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }

void move(const Conf &k, double x, double y, double th, int steer, double ds, double res, double &ox, double &oy, double &oth) {
    // exact arc of a car with wheel base LA; ds is the signed arc length in metres
    double kappa = std::tan(steer * M_PI / 180.0) / k.LA;
    if (steer == 0) { ox = x + ds / res * std::cos(th); oy = y + ds / res * std::sin(th); oth = th; return; }
    double r = 1.0 / kappa, t = th + ds * kappa;
    ox = x + r / res * (std::sin(t) - std::sin(th));
    oy = y + r / res * (std::cos(th) - std::cos(t));
    oth = t;
}

template <class P> std::string pstr(const P &p) {
    std::ostringstream os; os << std::setprecision(5);
    for (auto &n : p) os << "(" << n.x << "," << n.y << "," << n.theta << (n.forward ? " F" : " B") << n.steering_angle << " d" << n.distance << ")";
    return os.str();
}

template <class S>
struct Goal {
    S *s; double gx, gy, r; const Pose2d *hg; int maxCand; mutable int n; int budget; mutable int used; mutable double best;
    bool terminate(const typename S::NodeT *node) const {
        if (++used > budget) throw Stop();
        double d = std::hypot(node->x - gx, node->y - gy);
        if (d > r) return false;
        best = std::min(best, d);
        s->addGoalCandidate(node, d);
        return ++n >= maxCand;
    }
    const Pose2d *getHeuristicGoal() const { return hg; }
};

enum What { DRIVE = 1, COLLISION = 2, GOAL = 4, EXPLORE = 8, FOOT = 16 };

// A map which answers for all cells the vehicle covers at a cell with a heading, when it is asked with a heading.
struct FootMap : public SimpleGridMap2d {
    bool on = false; double front = 0, rear = 0, half = 0;        // in cells
    FootMap(unsigned w, unsigned h, double res) : SimpleGridMap2d(w, h, res) {}
    // the offsets avoid cell borders for the usual headings
    template <class F> static void covered(double front, double rear, double half, int x, int y, double th, F f) {
        double cs = std::cos(th), sn = std::sin(th);
        for (double u = -rear; u <= front; u += 0.913) for (int k = -1; k <= 1; ++k) {
            if (k && half <= 0) continue;
            double a = u + 0.0137, b = k * half + 0.0071;
            f((int) std::floor(x + 0.5 + a * cs - b * sn), (int) std::floor(y + 0.5 + a * sn + b * cs));
        }
        f(x, y);
    }
    using SimpleGridMap2d::isFree; using SimpleGridMap2d::isOccupied; using SimpleGridMap2d::isNoInformation;
    template <class F> bool any(unsigned x, unsigned y, double th, F f) const {
        bool r = false;
        covered(front, rear, half, (int) x, (int) y, th, [&](int a, int b) { if (a >= 0 && b >= 0 && a < (int) getWidth() && b < (int) getHeight() && f((unsigned) a, (unsigned) b)) r = true; });
        return r;
    }
    bool isOccupied(const unsigned x, const unsigned y, double th) const override { return on ? any(x, y, th, [&](unsigned a, unsigned b) { return isOccupied(a, b); }) : isOccupied(x, y); }
    bool isFree(const unsigned x, const unsigned y, double th) const override { return on ? !any(x, y, th, [&](unsigned a, unsigned b) { return !isFree(a, b); }) : isFree(x, y); }
    bool isNoInformation(const unsigned x, const unsigned y, double th) const override { return on ? !isOccupied(x, y) && any(x, y, th, [&](unsigned a, unsigned b) { return isNoInformation(a, b); }) : isNoInformation(x, y); }
};

// What the vehicle covers at a cell with a heading, for certain or possibly (the heading is known up to rounding).
struct World {
    const gen::Grid &g; bool foot; double front, rear, half;
    template <class F> bool any(int x, int y, double th, bool sure, F f) const {
        if (!foot) return g.in(x, y) && f(g.at(x, y));
        if (!g.in(x, y)) return false;                  // nothing is asked about cells outside of the map
        int hit = 0;
        for (double e : {-1e-7, 1e-7}) { bool h = false; FootMap::covered(front, rear, half, x, y, th + e, [&](int a, int b) { if (g.in(a, b) && f(g.at(a, b))) h = true; }); hit += h; }
        return sure ? hit == 2 : hit > 0;
    }
    bool occ(int x, int y, double th, bool sure) const { return any(x, y, th, sure, [](uint8_t v) { return v >= 200; }); }
    bool blocked(int x, int y, double th, bool sure) const { return any(x, y, th, sure, [](uint8_t v) { return v != 0; }); }
};

// `ref` satisfies the goal test of the configuration for the requested goal, up to the grid (cell, heading slot)
template <class N>
bool goalOk(const Conf &k, const N &ref, const N *prev, double gx, double gy, double gth, double res) {
    const double slot = 2 * M_PI / 31 + 1e-6, cell = M_SQRT2 * res + 1e-6;
    double da = std::fabs(wrap(gth - ref.theta));
    if (da > (k.dynamic ? k.goalAngle : M_PI / 8) + slot) return false;
    double d = std::hypot(gx - ref.x, gy - ref.y) * res;
    if (k.dynamic) return d < k.goalDist + cell;
    double slack = cell;
    if (k.reversed && !ref.forward) { gx -= std::cos(gth) * k.LA / res; gy -= std::sin(gth) * k.LA / res; slack += k.LA * slot; d = std::hypot(gx - ref.x, gy - ref.y) * res; }
    if (d < 0.05 + slack) return true;
    if (!prev) return false;
    double px = prev->x - gx, py = prev->y - gy, vx = ref.x - prev->x, vy = ref.y - prev->y, l2 = vx * vx + vy * vy;
    double t = l2 > 0 ? std::max(0.0, std::min(1.0, -(px * vx + py * vy) / l2)) : 0;
    return std::hypot(px + t * vx, py + t * vy) * res < 0.1 + slack;
}

// `ref` certainly satisfies the goal test for a goal node at exactly gx,gy,gth (`settled`: not within the straight stretch after a change of direction)
template <class N>
bool goalSure(const Conf &k, const N &ref, const N *prev, double gx, double gy, double gth, double res, bool settled) {
    const double e = 1e-6;
    if (std::fabs(wrap(gth - ref.theta)) > (k.dynamic ? k.goalAngle : M_PI / 8) - e) return false;
    double d = std::hypot(gx - ref.x, gy - ref.y) * res;
    if (k.dynamic) return d < k.goalDist - e;
    if (k.reversed && !settled) return false;
    if (k.reversed && !ref.forward) { gx -= std::cos(gth) * k.LA / res; gy -= std::sin(gth) * k.LA / res; d = std::hypot(gx - ref.x, gy - ref.y) * res; }
    double box = 4 * std::lround(k.step * 100) - e;              // compared in cells
    if (std::fabs(gx - ref.x) > box || std::fabs(gy - ref.y) > box) return false;
    if (d < 0.05 - e) return true;
    if (!prev) return false;
    double px = prev->x - gx, py = prev->y - gy, vx = ref.x - prev->x, vy = ref.y - prev->y, l2 = vx * vx + vy * vy;
    double t = l2 > 0 ? std::max(0.0, std::min(1.0, -(px * vx + py * vy) / l2)) : 0;
    return std::hypot(px + t * vx, py + t * vy) * res < 0.1 - e;
}

// the line of cells between two poses holds no run of occupied cells longer than half a metre
std::string lineCollision(const World &w, double res, double ax, double ay, double bx, double by, bool strict = false, bool backward = false) {
    double heading = backward ? std::atan2(ay - by, ax - bx) : std::atan2(by - ay, bx - ax);
    auto occ = [&](int x, int y) { return w.occ(x, y, heading, true); };
    int x0 = (int) std::floor(ax), y0 = (int) std::floor(ay), x1 = (int) std::floor(bx), y1 = (int) std::floor(by);
    std::ostringstream os;
    if (occ(x1, y1)) { os << "cell (" << x1 << "," << y1 << ") is occupied"; return os.str(); }
    int n = std::max(std::abs(x1 - x0), std::abs(y1 - y0)), every = strict ? 1 : (int) (0.5 / res) + 1, run = 0;
    for (int i = 1; i <= n; ++i) {
        double fx = x0 + (double) (x1 - x0) * i / n, fy = y0 + (double) (y1 - y0) * i / n;
        bool all = true;      // with a tie, either cell may be on the line
        for (double e : {-1e-9, 1e-9}) if (!occ((int) std::floor(fx + 0.5 + e), (int) std::floor(fy + 0.5 + e))) all = false;
        run = all ? run + 1 : 0;
        if (run >= every) { os << "the line crosses " << run << " occupied cells at (" << fx << "," << fy << ")"; return os.str(); }
    }
    return "";
}

// Every state which an allowed move reaches from an expanded state has been reached. `spare` states may be left unexpanded (the one that ended the search).
struct Explored { size_t states = 0, moves = 0, blocked = 0, switches = 0; };
template <class S>
Explored explored(S &s, const Conf &k, const World &w, double res, double sx, double sy, double sth, const SearchOptions &so, bool monotone, int spare, std::function<bool(const typename S::NodeT &, bool)> goal) {
    typedef typename S::NodeT NodeT;
    const gen::Grid &g = w.g;
    auto &man = s.getMapManager();
    const int pad = k.whole ? 0 : 32;
    Explored ex;
    // the nodes a pose may belong to (more than one if it lies on the border between two)
    auto nodes = [&](double x, double y, double th, int steer, bool fwd, std::vector<const NodeT *> &out) {
        out.clear();
        double e = 1e-6;
        for (double dx : {-e, e}) for (double dy : {-e, e}) for (double dt : {-e, e}) {
            double px = x + dx, py = y + dy;
            if (dx > 0 && std::floor(px) == std::floor(px - 2 * e)) continue;
            if (dy > 0 && std::floor(py) == std::floor(py - 2 * e)) continue;
            int cx = (int) std::floor(px), cy = (int) std::floor(py);
            if (cx < -pad || cy < -pad || cx >= (int) g.w + pad || cy >= (int) g.h + pad || !man.hasNode(cx, cy, 0, fwd)) continue;
            auto add = [&](double t) { const NodeT *n = man.lookup(px, py, t, steer, fwd); if (std::find(out.begin(), out.end(), n) == out.end()) out.push_back(n); };
            add(wrap(th + dt));
            if (M_PI - std::fabs(wrap(th)) < 2 * e) for (double u = 0; u < 4e-15; u += 2e-16) { add(M_PI - u); add(-M_PI + u); }      // the heading at which the slots begin and end: its last slot holds next to nothing else
        }
    };
    auto contained = [&](double x, double y) { return x - 1e-6 >= -pad && y - 1e-6 >= -pad && x + 1e-6 < (int) g.w + pad && y + 1e-6 < (int) g.h + pad; };
    // certainly nothing in the way
    auto clearLine = [&](double ax, double ay, double bx, double by, bool backward) {
        double heading = backward ? std::atan2(ay - by, ax - bx) : std::atan2(by - ay, bx - ax);
        auto ok = [&](int x, int y) { return g.in(x, y) ? (k.whole ? !w.blocked(x, y, heading, false) : !w.occ(x, y, heading, false)) : !k.whole; };
        int x0 = (int) std::floor(ax), y0 = (int) std::floor(ay);
        for (double u : {-1e-6, 1e-6}) for (double v : {-1e-6, 1e-6}) {
            int x1 = (int) std::floor(bx + u), y1 = (int) std::floor(by + v);
            if ((u > 0 && x1 == (int) std::floor(bx - 1e-6)) || (v > 0 && y1 == (int) std::floor(by - 1e-6))) continue;
            int n = std::max(std::abs(x1 - x0), std::abs(y1 - y0));
            for (int i = 0; i <= n; ++i) {
                double fx = x0 + (n ? (double) (x1 - x0) * i / n : 0), fy = y0 + (n ? (double) (y1 - y0) * i / n : 0);
                for (double h : {-1e-9, 1e-9}) for (double j : {-1e-9, 1e-9}) if (!ok((int) std::floor(fx + 0.5 + h), (int) std::floor(fy + 0.5 + j))) return false;
            }
        }
        return true;
    };
    std::set<const NodeT *> seen; std::vector<const NodeT *> todo, at;
    auto reach = [&](const NodeT *n) { if (n->isMarked(NodeT::MARK_EXPANDED) && seen.insert(n).second) todo.push_back(n); };
    for (bool f : {true, false}) {
        nodes(sx, sy, sth, 0, f, at);
        bool any = false;
        for (auto n : at) { any |= n->isMarked(NodeT::MARK_OPEN) || n->isMarked(NodeT::MARK_CLOSED); reach(n); }
        REQUIRE(any, "the search does not start from the start pose (driving " << (f ? "forward" : "backward") << ")");
    }
    std::string first;
    while (!todo.empty()) {
        const NodeT *n = todo.back(); todo.pop_back(); ex.states++;
        std::vector<const NodeT *> chain{n};
        while (chain.back()->prev && chain.size() < 100000) chain.push_back(dynamic_cast<const NodeT *>(chain.back()->prev));
        REQUIRE(chain.size() < 100000, "the predecessors of a state form a loop");
        std::reverse(chain.begin(), chain.end());
        const int L = (int) chain.size(), S_ = k.straightSwitch;
        int since = 1000000;                                   // moves after the last change of direction
        if (k.fwd && k.back) for (int i = L - 1; i >= 2; --i) if (chain[i]->forward != chain[i - 1]->forward) { since = L - 1 - i; break; }
        bool settled = since >= S_ - 1;
        if (goal) REQUIRE(!goal(*n, settled), "the search did not end with a path, although it expanded (" << n->x << "," << n->y << "," << n->theta << (n->forward ? " F" : " B") << n->steering_angle << "), which fulfils the goal test");
        if (!settled && n->steering_angle != 0) continue;
        std::string missing;
        for (int fwd = 1; fwd >= 0; --fwd) {
            if (fwd ? !k.fwd : !k.back) continue;
            bool sw = L > 1 && n->forward != (bool) fwd;
            if (L == 1 && n->forward != (bool) fwd) continue;
            bool wind = L == 1 && !fwd && k.dynamic && !k.reversed;       // the stretch a backward drive starts with
            if (sw) {
                bool ok = settled && L >= S_;
                for (int j = 2; ok && j <= S_; ++j) ok = chain[L - j]->steering_angle == 0;
                if (!ok) continue;
            }
            std::set<int> steers;
            if (wind) steers.insert(0);
            else for (int d = -k.steerSteps; d <= k.steerSteps; ++d) steers.insert(std::max(-k.maxSteer, std::min(k.maxSteer, n->steering_angle + (int) (k.deltaSteer * std::abs(d)) * (d < 0 ? -1 : 1))));
            for (int st : steers) {
                if (sw && st != 0) continue;
                double ds = wind ? k.LA : k.step, tx, ty, tth;
                move(k, n->x, n->y, n->theta, st, (fwd ? 1 : -1) * (k.reversed ? -1 : 1) * ds, res, tx, ty, tth);
                if (!contained(tx, ty)) continue;
                if (!clearLine(n->x, n->y, tx, ty, (bool) fwd == k.reversed)) { ex.blocked++; continue; }
                nodes(tx, ty, tth, st, fwd, at);
                bool any = false; double best = INFINITY;
                for (auto t : at) if (t->isMarked(NodeT::MARK_OPEN) || t->isMarked(NodeT::MARK_CLOSED)) { any = true; best = std::min(best, t->distance); reach(t); }
                double cost = ds * (sw ? so.penalty_turn : 1.0) * (fwd ? 1.0 : so.penalty_backward);
                if (!any || (monotone && best > n->distance + cost + 1e-6)) {
                    std::ostringstream os; os << std::setprecision(6) << "state (" << n->x << "," << n->y << "," << n->theta << (n->forward ? " F" : " B") << n->steering_angle << " d" << n->distance << ", " << L - 1 << " moves from the start) was expanded, but its move "
                        << (fwd ? "forward" : "backward") << " with " << st << " degrees to (" << tx << "," << ty << "," << tth << ") was " << (any ? "given up for a costlier one" : "not tried");
                    missing = os.str(); break;
                }
                ex.moves++; ex.switches += sw;
            }
            if (!missing.empty()) break;
        }
        if (!missing.empty()) { if (first.empty()) first = missing; REQUIRE(--spare >= 0, first << (first == missing ? "" : "; " + missing)); }
    }
    return ex;
}

template <class S>
void run(Case &c, Conf k, int what, bool monotone = false) {
    typedef typename S::PathT PathT;
    typedef typename S::NodeT NodeT;
    S s;
    std::unique_ptr<FootMap> map; gen::Grid g; double res = 1;
    World world{g, (what & FOOT) != 0, 0, 0, 0};
    int queries = 1 + (int) c.pick(2);
    for (int q = 0; q < queries; ++q) {
        bool newMap = false, keepNodes = false;
        bool single = k.dynamic && (what & GOAL) && c.pick(4) == 3;      // a goal one move away on a free map: must be found
        if (!map || c.pick(2)) {
            gen::Grid n = k.dynamic && c.pick(40) == 39 ? gen::bigGrid(c) : gen::grid(c, 48, 48, true, 2, 2);
            if (map && c.pick(3)) {      // another map of the same size: the new one in place of the old one's obstacles
                for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) g.at(x, y) = n.in(x % n.w, y % n.h) ? n.at(x % n.w, y % n.h) : 0;
                c.label("other map of the same size");
            } else g = n;
            res = c.oneOf<double>({0.1, 0.25, 0.6, 1.0, 0.05, 0.5, 0.3});
            map.reset(new FootMap(g.w, g.h, res));
            map->set(g.v, g.w, g.h); newMap = true;
            if (what & FOOT) {
                world.front = c.oneOf<double>({2.2, 0.8, 4.1, 0}); world.rear = c.oneOf<double>({0, 0.9, 2.6, 4.1}); world.half = c.oneOf<double>({0, 0.7, 1.2});
                map->on = true; map->front = world.front; map->rear = world.rear; map->half = world.half;
            }
        }
        if (single) { std::fill(g.v.begin(), g.v.end(), 0); map->set(g.v, g.w, g.h); }
        if (k.dynamic) {
            typedef DynamicSteeringNeighborhood D;
            if (single) { k.goalDist = std::max(k.goalDist, 1.5 * res); k.goalAngle = std::max(k.goalAngle, 0.21); }
            D::distance_step = k.step; D::LA = k.LA; D::STEER_DELTA = k.deltaSteer; D::MAX_STEER_ANGLE = k.maxSteer; D::steer_steps = k.steerSteps;
            D::allow_forward = k.fwd; D::allow_backward = k.back; D::reversed = k.reversed; D::goal_dist_threshold = k.goalDist; D::goal_angle_threshold = k.goalAngle;
        }
        DPSConfig &qc = DPSConfig::get(); qc.tie = (int) c.pick(3); qc.live = c.pick(4) == 3; qc.dedupe = c.pick(2); qc.salt = c.pick(1000);
        if (!newMap && c.pick(3) == 2) keepNodes = true;      // asked again without telling it about the map
        if (!keepNodes) s.setMap(map.get()); else c.label("planned again without setting the map");
        // start, and a goal which the car can reach when there are no obstacles (s*: where the search starts, g*: where it ends)
        double sx = c.fine(0, g.w), sy = c.fine(0, g.h), sth = c.angle(-M_PI, M_PI - 1e-9);
        double x = std::floor(sx), y = std::floor(sy), th = sth; int steer = 0;
        int n = single ? 1 : c.pick(6) == 5 ? 9 + (int) c.pick(12) : 1 + (int) c.pick(8);
        bool back = k.back && (!k.fwd || c.pick(3) == 2);
        double sgn = k.reversed ? -1 : 1;
        for (int i = 0; i < n; ++i) {
            int d = (int) c.integerNear(-k.steerSteps, k.steerSteps, 0);
            steer = std::max(-k.maxSteer, std::min(k.maxSteer, steer + (int) (k.deltaSteer * std::abs(d)) * (d < 0 ? -1 : 1)));
            double ds = k.step;
            if (i == 0 && back && k.dynamic && !k.reversed) { steer = 0; ds = k.LA; }
            if (i > 0 && k.fwd && k.back && steer == 0 && c.pick(4) == 3) back = !back;
            move(k, x, y, th, steer, (back ? -ds : ds) * sgn, res, x, y, th);
        }
        double gx = x, gy = y, gth = wrap(th);
        if (gth >= M_PI) gth = -M_PI;
        bool far = !single && c.pick(6) == 5;
        if (far) { gx = c.fine(0, g.w); gy = c.fine(0, g.h); gth = c.angle(-M_PI, M_PI - 1e-9); }
        const double pad = k.whole ? 0 : 32;
        if (single && (gx < -pad || gy < -pad || gx >= g.w + pad || gy >= g.h + pad)) single = false;
        { double lo = pad ? 1 - pad : 0, up = pad ? pad - 2 : -1e-6; gx = std::max(lo, std::min(g.w + up, gx)); gy = std::max(lo, std::min(g.h + up, gy)); }
        // (what & GOAL): endpoints which cannot be used
        bool outS = false, outG = false;
        if ((what & GOAL) && !single) {
            int o = (int) c.pick(16);
            if (o == 14) { outS = true; (c.pick(2) ? sx : sy) = c.pick(2) ? -pad - 0.5 - (double) c.pick(50) : std::max(g.w, g.h) + pad + (double) c.pick(50); }
            if (o == 15) { outG = true; (c.pick(2) ? gx : gy) = c.pick(2) ? -pad - 0.5 - (double) c.pick(50) : std::max(g.w, g.h) + pad + (double) c.pick(50); }
        }
        auto clearCell = [&](int cx, int cy) { if (g.in(cx, cy) && g.at(cx, cy) >= 200) { g.at(cx, cy) = 0; map->setValue(cx, cy, 0); } };
        auto clear = [&](double px, double py, double pt) {
            int cx = (int) std::floor(px), cy = (int) std::floor(py);
            if (!world.foot) { if (g.in(cx, cy) && g.at(cx, cy) >= 200 && c.pick(16) != 15) clearCell(cx, cy); }
            else if (c.pick(8) != 7) for (double e : {-1e-7, 1e-7}) FootMap::covered(world.front, world.rear, world.half, cx, cy, pt + e, clearCell);
        };
        clear(sx, sy, sth); clear(gx, gy, gth);
        auto occ = [&](double px, double py) { int cx = (int) std::floor(px), cy = (int) std::floor(py); return g.in(cx, cy) && g.at(cx, cy) >= 200; };
        auto occAt = [&](double px, double py, double pt, bool sure) { return world.occ((int) std::floor(px), (int) std::floor(py), pt, sure); };
        bool occS = occAt(sx, sy, sth, true), occG = occAt(gx, gy, gth, true);
        bool unsure = occS != occAt(sx, sy, sth, false) || occG != occAt(gx, gy, gth, false);
        SearchOptions so;
        if (c.pick(3) == 2) { so.penalty_backward = c.oneOf<double>({1.0, 2.0, 4.5}); so.penalty_turn = c.oneOf<double>({1.0, 3.0, 6.0}); }
        Pose2d from(sx, sy, sth), to(gx, gy, gth);
        int budget = qc.live ? 300 : world.foot ? 600 : 1500, used = 0;
        boost::function<void()> cb = [&] { if (++used > budget) throw Stop(); };
        // 0, 1: goal pose; 2: goal pose and search beyond the first solution; 3: a region, several candidates; 4: the same from a start configuration
        int mode = single ? 0 : (int) c.pick(5);
        if (mode >= 3) outG = occG = false;
        bool badS = outS || occS, badG = outG || occG;
        if (mode == 2) so.oversearch_distance = c.oneOf<double>({0.5, 2.0, 0.1});
        Goal<S> region{&s, gx, gy, c.oneOf<double>({3.0, 1.0, 8.0}), c.pick(2) ? &to : nullptr, 1 + (int) c.pick(4), 0, budget, 0, INFINITY};
        c.note() << " map " << g.str() << " res " << res << " search from " << sx << "," << sy << "," << sth << " to " << gx << "," << gy << "," << gth << " step " << k.step << " LA " << k.LA << " steer " << k.steerSteps << "*" << k.deltaSteer << "<=" << k.maxSteer
                 << (world.foot ? " covers " + std::to_string(world.front) + "/" + std::to_string(world.rear) + "/" + std::to_string(world.half) : "") << (k.fwd ? " fwd" : "") << (k.back ? " back" : "") << (k.reversed ? " reversed" : "") << " mode " << mode;
        PathT p; bool stopped = false; std::string got = "path";
        bool anyBack = false, anySwitch = false, anySteer = false;
        auto check = [&](PathT p, bool ended) {
            if (k.reversed) std::reverse(p.begin(), p.end());       // search order
            for (size_t i = 1; i < p.size(); ++i) {
                auto &a = p[i - 1]; auto &b = p[i];
                double ds = k.step;
                bool first = i == 1 && !b.forward && k.dynamic && !k.reversed;
                if (first) ds = k.LA;
                bool sw = i > 1 && a.forward != b.forward;
                anyBack |= !b.forward; anySteer |= b.steering_angle != 0; anySwitch |= sw;
                if (what & DRIVE) {
                    REQUIRE(b.forward ? k.fwd : k.back, "move " << i << " drives in a direction that is not allowed: " << pstr(p));
                    REQUIRE(std::abs(b.steering_angle) <= k.maxSteer, "move " << i << " exceeds the maximal steering angle: " << pstr(p));
                    int dst = b.steering_angle - (i == 1 ? 0 : a.steering_angle);
                    REQUIRE(std::abs(dst) <= (int) (k.deltaSteer * k.steerSteps), "move " << i << " changes the steering angle by " << dst << " degrees: " << pstr(p));
                    if (sw) {
                        REQUIRE(b.steering_angle == 0, "the driving direction changes with the wheels turned: " << pstr(p));
                        // straight stretches around the change; the move right before it may still straighten the wheels, the last one of the path may turn
                        for (int j = 0; j + 1 < k.straightSwitch; ++j) {
                            if (i + j + 1 < p.size()) REQUIRE(p[i + j].steering_angle == 0, "move " << i + j << " turns the wheels too early after the direction changed at " << i << ": " << pstr(p));
                        }
                        for (int j = 2; j <= k.straightSwitch; ++j) REQUIRE((int) i >= j && p[i - j].steering_angle == 0, "move " << (int) i - j << " turns the wheels too late before the direction changes at " << i << ": " << pstr(p));
                    }
                    double ex, ey, eth;
                    move(k, a.x, a.y, a.theta, b.steering_angle, ((b.forward ? 1 : -1) * (k.reversed ? -1 : 1)) * ds, res, ex, ey, eth);
                    double dp = std::hypot(ex - b.x, ey - b.y), dt = std::fabs(wrap(eth - b.theta));
                    REQUIRE(dp < 1e-6 && dt < 1e-6, "move " << i << " is no arc of the car: off by " << dp << " cells, " << dt << " rad: " << pstr(p));
                }
                if (what & COLLISION) {
                    std::string col = lineCollision(world, res, a.x, a.y, b.x, b.y, k.whole, b.forward == k.reversed);
                    REQUIRE(col.empty(), "move " << i << ": " << col << ": " << pstr(p));
                }
                if (what & GOAL) {
                    if (i == 1) REQUIRE(a.forward == b.forward, "the first move changes the driving direction: " << pstr(p));
                    double cost = ds * (sw ? so.penalty_turn : 1.0) * (b.forward ? 1.0 : so.penalty_backward);
                    REQUIRE(std::fabs(b.distance - a.distance - cost) < 1e-6, "move " << i << " is charged " << b.distance - a.distance << " instead of " << cost << ": " << pstr(p));
                }
            }
            if (what & COLLISION) REQUIRE(!occ(p[0].x, p[0].y), "the path starts in an occupied cell");
            if (what & GOAL) {
                REQUIRE(p[0].distance == 0, "the path does not start with distance 0: " << pstr(p));
                REQUIRE(std::floor(p[0].x) == std::floor(sx) && std::floor(p[0].y) == std::floor(sy), "the path does not start in the cell of the start pose: " << pstr(p));
                double dth = std::fabs(wrap(p[0].theta - sth));
                bool same = mode <= 2 && std::floor(sx) == std::floor(gx) && std::floor(sy) == std::floor(gy);
                REQUIRE(dth < (same ? 2 * M_PI / 31 : 0) + 1e-6, "the path starts with a heading off by " << dth << ": " << pstr(p));
                if (mode <= 2) REQUIRE(goalOk<NodeT>(k, p.back(), p.size() > 1 ? &p[p.size() - 2] : nullptr, gx, gy, gth, res), "the path does not end at the goal: " << pstr(p));
                else if (ended) REQUIRE(std::hypot(p.back().x - gx, p.back().y - gy) <= region.r, "the path does not end in the goal region: " << pstr(p));
            }
        };
        std::string bad; int offered = 0, accept = c.pick(3) == 2 ? 1 + (int) c.pick(3) : 0; double bestOffered = INFINITY; PathT accepted;
        auto goalDist = [&](PathT p) { return k.reversed ? std::hypot(p.front().x - gx, p.front().y - gy) : std::hypot(p.back().x - gx, p.back().y - gy); };
        s.setPathCandidateCallback([&](const PathT &p) {      // must not throw through the search
            offered++;
            PathT o = p;                                       // handed out in search order
            if (k.reversed) std::reverse(o.begin(), o.end());
            try { check(o, true); } catch (const pbt::Failure &f) { bad = f.msg; }
            if (accept && offered == accept) { accepted = o; return true; }
            return false;
        });
        struct Reset { S &s; ~Reset() { s.setPathCandidateCallback([](const PathT &) { return false; }); } } reset{s};
        try {
            // without a callback there is no limit to the search: only for goals which are found at once
            if (single && c.pick(2)) { p = k.reversed ? s.findPath(to, from, so) : s.findPath(from, to, so); c.label("without callback"); }
            else if (mode <= 2) p = k.reversed ? s.findPath(to, from, cb, so) : s.findPath(from, to, cb, so);
            else if (mode == 3) p = s.findPath(from, region, cb, so);
            else { NodeT nd; NodeT::init(nd, from); nd.theta = sth; nd.forward = true; p = s.findPathWithStartConfiguration(nd, region, so); }
            if (p.empty()) got = "no path";
        }
        catch (const Stop &) { stopped = true; got = "stopped"; }
        catch (const typename S::StartNotFreeException &) { got = "start not free"; }
        catch (const typename S::StartOutOfMapException &) { got = "start out of map"; }
        catch (const typename S::GoalNotFreeException &) { got = "goal not free"; }
        catch (const typename S::GoalOutOfMapException &) { got = "goal out of map"; }
        catch (const std::exception &e) { got = std::string("exception ") + e.what(); }
        if (unsure) { c.label("endpoint in doubt"); continue; }
        REQUIRE(bad.empty(), "a candidate path offered to the callback is wrong: " << bad);
        c.label(got + (mode >= 2 && got == "path" ? mode == 2 ? " (oversearch)" : " (region)" : ""));
        if (badS || badG) {
            // reversed searches start at the goal which was asked for
            std::string st = k.reversed && mode <= 2 ? "goal" : "start", go = k.reversed ? "start" : "goal";
            bool okay = (occS && got == st + " not free") || (outS && got == st + " out of map") || (occG && got == go + " not free") || (outG && got == go + " out of map");
            REQUIRE(okay, "an unusable endpoint (start occupied " << occS << " outside " << outS << ", goal occupied " << occG << " outside " << outG << ") gave: " << got);
            continue;
        }
        REQUIRE(got == "path" || got == "no path" || got == "stopped", "a valid query gave: " << got);
        if (single && !far && got == "no path") c.fail("a goal one move away on a free map was not found");
        if (what & EXPLORE) {
            double fx = sx, fy = sy, fth = sth;
            // goal nodes which the search did not move
            std::vector<const NodeT *> goals;
            if (mode <= 1 && (stopped || got == "no path")) for (bool f : {true, false}) {
                auto &man = s.getMapManager();
                if (!man.hasNode((int) std::floor(gx), (int) std::floor(gy), 0, f)) continue;
                const NodeT *n = man.lookup(gx, gy, gth, 0, f);
                if (!n->isMarked(NodeT::MARK_OPEN) && !n->isMarked(NodeT::MARK_CLOSED)) goals.push_back(n);
            }
            std::function<bool(const NodeT &, bool)> isGoal;
            size_t asked = 0;
            if (goals.size()) isGoal = [&](const NodeT &n, bool settled) {
                asked++;
                for (auto t : goals) if (goalSure<NodeT>(k, n, dynamic_cast<const NodeT *>(n.prev), t->x, t->y, t->theta, res, settled)) return true;
                return false;
            };
            Explored e = explored(s, k, world, res, fx, fy, fth, so, monotone, got == "no path" || (stopped && mode < 3) ? 0 : 1, isGoal);
            if (got == "no path" && mode <= 1 && !k.reversed) for (bool f : {true, false}) {
                auto &man = s.getMapManager();
                if (man.hasNode((int) std::floor(gx), (int) std::floor(gy), 0, f)) REQUIRE(!man.lookup(gx, gy, gth, 0, f)->isMarked(NodeT::MARK_EXPANDED), "no path was returned, although the search reached the goal's cell and heading");
            }
            if (e.switches) c.label("direction changes"); if (e.blocked) c.label("blocked moves"); if (!e.states) c.label("nothing expanded"); if (asked) c.label("no state fulfils the goal test");
            c.nontrivial(e.states >= 10 && e.blocked > 0);
            continue;
        }
        if (stopped || p.empty()) continue;
        if (k.reversed) c.label("path (reversed search)");
        check(p, true);
        if (p.size() == 1) c.label("trivial path"); else if (p.size() <= 4) c.label("2-4 poses"); else c.label("5+ poses");
        if ((what & GOAL) && mode == 2) {
            if (accepted.size()) { REQUIRE(pstr(accepted) == pstr(p), "the accepted candidate " << pstr(accepted) << " was not returned, but " << pstr(p)); c.label("accepted candidate"); }
            else {
                auto all = s.getPathCandidates();
                REQUIRE(!all.empty(), "no candidates although a path was returned");
                if (all.size() > 1) c.label("several candidates");
                double best = INFINITY;
                for (auto &o : all) {
                    if (k.reversed) std::reverse(o.begin(), o.end());
                    check(o, true);
                    best = std::min(best, goalDist(o));
                }
                REQUIRE(goalDist(p) < best + 2 * M_SQRT2 + 1e-6, "the path ends " << goalDist(p) << " cells from the goal, another candidate " << best);
            }
        }
        if ((what & GOAL) && mode >= 3) REQUIRE(std::fabs(goalDist(p) - region.best) < 1e-9, "the path ends " << goalDist(p) << " from the centre, but a candidate at " << region.best << " was offered");
        if ((what & GOAL) && q > 0 && mode < 2) {
            S fresh; fresh.setMap(map.get()); used = 0;
            PathT f = k.reversed ? fresh.findPath(to, from, cb, so) : fresh.findPath(from, to, cb, so);
            REQUIRE(pstr(f) == pstr(p), "a planner that was used before finds " << pstr(p) << ", a new one " << pstr(f));
            c.label("compared with a new planner");
        }
        if (anyBack) c.label("backward moves"); if (anySwitch) c.label("direction change");
        bool obstacle = false;
        if (what & COLLISION) for (size_t i = 0; i < p.size() && !obstacle; ++i) for (int dy = -2; dy <= 2; ++dy) for (int dx = -2; dx <= 2; ++dx) if (occ(p[i].x + dx, p[i].y + dy)) obstacle = true;
        c.nontrivial(p.size() >= 3 && ((what & COLLISION) ? obstacle : anySteer || anyBack));
    }
}

void any(Case &c, int what) {
    switch (c.pick(11)) {
    case 10: switch (c.pick(4)) {
        case 0: run<FullA>(c, Conf{0.5, 1.0, 10, 40, 2, true, true, false, false, 0, 0, 2, true}, what); break;
        case 1: run<FullH>(c, Conf{0.4, 1.2, 15, 60, 2, true, false, false, false, 0, 0, 3, true}, what); break;
        case 2: run<FullO>(c, Conf{0.5, 1.0, 10, 40, 2, true, true, false, false, 0, 0, 2, true}, what); break;
        default: run<FullD>(c, Conf{0.5, 1.0, 10, 40, 2, true, true, false, false, 0, 0, 2, true}, what, true); break;
        } break;
    case 8: run<StatS>(c, Conf{0.3, 1.2, 15, 40, 2, true, true, false, false, 0, 0, 4}, what); break;
    case 0: run<StatF>(c, Conf{0.4, 1.2, 15, 60, 2, true, false, false, false, 0, 0, 3}, what); break;
    case 1: case 9: run<StatFB>(c, Conf{0.5, 1.0, 10, 40, 2, true, true, false, false, 0, 0, 2}, what); break;
    case 2: run<StatR>(c, Conf{0.3, 0.6, 10, 50, 3, true, true, true, false, 0, 0, 2}, what); break;
    default: {
        Conf k; k.whole = false;
        k.dynamic = true;
        k.step = c.oneOf<double>({0.4, 0.2, 1.0, 0.75}); k.LA = c.oneOf<double>({1.2, 0.4, 0.8, 2.0}); k.deltaSteer = c.oneOf<double>({15, 10, 20, 7}); k.maxSteer = c.oneOf<int>({60, 30, 45, 17}); k.steerSteps = 1 + (int) c.pick(3);
        int d = (int) c.pick(4); k.fwd = d != 3; k.back = d >= 1; if (d == 2) k.back = true;
        k.reversed = c.pick(5) == 4;
        k.goalDist = c.oneOf<double>({0.05, 0.2, 0.5}); k.goalAngle = c.oneOf<double>({M_PI / 8, M_PI / 16, M_PI / 2}); k.straightSwitch = 1;
        run<DynS>(c, k, what);
    }
    }
}
} // namespace

const char *RULE = "maps up to 48x48, some of up to 90000 cells (rectangles, walls, noise), resolutions 0.05-1 m, goals built by driving random moves (or anywhere), fixed and configurable car models (forward, backward, both; reversed search), "
                   "goal poses, extended search with candidates, goal regions, start configurations, 1-2 queries per planner; ";
LAW("C04", "drivable", 5000, 120000, (std::string(RULE) + "non-trivial: a path of >= 3 poses that steers or reverses").c_str()) { any(c, DRIVE); }
LAW("C05", "collision", 5000, 120000, (std::string(RULE) + "non-trivial: a path of >= 3 poses with an occupied cell within 2 cells of a pose").c_str()) { any(c, COLLISION); }
// a goal straight ahead behind walls, on several maps in a row: driving through would be the cheapest way
void walls(Case &c) {
    typedef DynamicSteeringNeighborhood D;
    DynS s;
    std::unique_ptr<SimpleGridMap2d> map;
    gen::Grid g; g.w = 8 + (int) c.pick(40); g.h = 4 + (int) c.pick(20);
    int maps = 1 + (int) c.pick(3);
    bool crossing = false;
    for (int q = 0; q < maps; ++q) {
        if (q && c.pick(4) == 3) { g.w = 8 + (int) c.pick(40); g.h = 4 + (int) c.pick(20); }
        bool edit = q && c.pick(4) == 3;                 // the same map object, edited
        double res = edit ? map->getResolution() : c.oneOf<double>({0.1, 0.25, 0.6, 1.0, 0.05, 0.5, 0.3});
        g.v.assign(g.w * g.h, 0);
        int every = (int) (0.5 / res) + 1;
        bool vert = c.pick(2);
        int len = vert ? g.h : g.w;
        std::vector<int> col(len, 0);
        int n = (int) c.pick(3);
        std::ostringstream desc;
        for (int i = 0; i < n; ++i) {
            int at = (int) c.pick(len), thick = (int) c.oneOf<int>({1, every, every + 1, 2});
            for (int j = 0; j < thick && at + j < len; ++j) col[at + j] = 1;
            desc << (vert ? " rows " : " columns ") << at << "+" << thick;
        }
        for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) if (col[vert ? y : x]) g.at(x, y) = 255;
        double cells = c.oneOf<double>({3, 1, 2, 5, 8});
        D::distance_step = cells * res; D::LA = c.oneOf<double>({1, 2, 6}) * res; D::steer_steps = 1; D::STEER_DELTA = 15; D::MAX_STEER_ANGLE = c.oneOf<int>({15, 30});
        bool back = c.pick(3) == 2;
        D::allow_forward = !back; D::allow_backward = back; D::reversed = false; D::goal_dist_threshold = c.oneOf<double>({1.0, 1.5, 3.0}) * res; D::goal_angle_threshold = 0.4;
        if (!edit) { map.reset(new SimpleGridMap2d(g.w, g.h, res)); }
        map->set(g.v, g.w, g.h);
        if (!edit || c.pick(2)) s.setMap(map.get());
        double dist = cells * (1 + (int) c.pick(8));
        double th = vert ? M_PI / 2 : 0; if (c.pick(2)) th -= M_PI; if (c.pick(3) == 2) th = c.angle(-M_PI, M_PI - 1e-9);
        if (th >= M_PI) th = -M_PI;
        double sx = c.fine(0, g.w), sy = c.fine(0, g.h), sg = back ? -1 : 1;
        double gx = sx + sg * dist * std::cos(th), gy = sy + sg * dist * std::sin(th);
        c.note() << " " << g.w << "x" << g.h << " res " << res << desc.str() << (edit ? " edited" : "") << " from " << sx << "," << sy << "," << th << " dist " << dist << " step " << cells << (back ? " back" : "");
        int used = 0, budget = 120; DynS::PathT p;
        try { p = s.findPath(Pose2d(sx, sy, th), Pose2d(gx, gy, th), [&] { if (++used > budget) throw Stop(); }); c.label(p.empty() ? "no path" : "path"); }
        catch (const Stop &) { c.label("stopped"); }
        catch (const DynS::StartNotFreeException &) { REQUIRE(g.at((int) sx, (int) sy), "the start is free"); c.label("endpoint not usable"); continue; }
        catch (const DynS::GoalNotFreeException &) { c.label("endpoint not usable"); continue; }
        catch (const DynS::GoalOutOfMapException &) { c.label("endpoint not usable"); continue; }
        for (size_t i = 1; i < p.size(); ++i) {
            std::string col = lineCollision(World{g, false, 0, 0, 0}, res, p[i - 1].x, p[i - 1].y, p[i].x, p[i].y);
            REQUIRE(col.empty(), "move " << i << ": " << col << ": " << pstr(p));
        }
        std::string straight = lineCollision(World{g, false, 0, 0, 0}, res, sx, sy, gx, gy);
        if (!straight.empty()) { crossing = true; c.label("wall in the way"); if (p.size()) c.label("path around a wall"); }
    }
    c.nontrivial(crossing);
}
LAW("C05", "walls", 4000, 150000, "a goal straight ahead on maps up to 48x24 with up to two walls of 1 cell to half a metre, resolutions 0.05-1 m, moves of 1-8 cells, 1-3 maps per planner (mostly of the same size, new or edited); "
    "non-trivial: a wall crosses the straight way to the goal") { walls(c); }
LAW("C06", "goal-and-cost", 5000, 120000, (std::string(RULE) + "also start or goal occupied or outside; non-trivial: a path of >= 3 poses that steers or reverses").c_str()) { any(c, GOAL); }
LAW("C31", "exhaustive", 2500, 60000, (std::string(RULE) + "every expanded state's moves are enumerated by a model of the car; non-trivial: 10 or more states were expanded and a move was blocked").c_str()) { any(c, EXPLORE); }
LAW("C32", "covered", 8000, 80000, (std::string(RULE) + "the vehicle covers a rectangle of up to 8x2 cells; non-trivial: a path of >= 3 poses with an occupied cell within 2 cells of a pose").c_str()) { any(c, COLLISION | FOOT); }
LAW("C32", "uncovered", 3000, 40000, (std::string(RULE) + "every expanded state's moves are enumerated by a model of the car; non-trivial: 10 or more states were expanded and a move was blocked").c_str()) { any(c, EXPLORE | FOOT); }
