// C07: looking up the nodes of the state spaces.   C08: distance estimates.
#include "gen.h"
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
#include <queue>
using namespace lib_path;
using pbt::Case;

namespace {

typedef HeuristicNode<Pose2d> HN;
typedef OrientedNode<HN> ON;
typedef DirectionalNode<ON> DN;
typedef DirectionalNode<SteeringNode<HN>> SN;

struct Query { double x, y, th; bool fwd; int steer; int how; };

// uniform access to the managers; how: which of the overloads is used
struct GridA {
    typedef GridMapManager<HN> M; typedef HN N;
    enum { PAD = 0, ANGLES = 0, DIRS = 0, CHECK_THETA = 0 };
    static N *get(M &m, const Query &q) {
        switch (q.how % 3) {
        case 0: { Pose2d p(q.x, q.y, q.th); return m.lookup(p); }
        case 1: return m.lookup((int) std::floor(q.x), (int) std::floor(q.y));
        default: return m.lookup(q.x, q.y, q.th);
        }
    }
};
struct StateA {
    typedef StateSpaceManager<ON> M; typedef ON N;
    enum { PAD = 0, ANGLES = 35, DIRS = 0 };
    static N *get(M &m, const Query &q) {
        switch (q.how % 3) {
        case 0: { Pose2d p(q.x, q.y, q.th); return m.lookup(p); }
        case 1: return m.lookup((int) std::floor(q.x), (int) std::floor(q.y), q.th);
        default: return m.lookup(q.x, q.y, q.th);
        }
    }
};
struct DirA {
    typedef DirectionalStateSpaceManager<DN> M; typedef DN N;
    enum { PAD = 0, ANGLES = 31, DIRS = 1 };
    static N *get(M &m, const Query &q) {
        switch (q.how % 3) {
        case 0: if (q.fwd && q.steer == 0) return m.lookup(Pose2d(q.x, q.y, q.th)); else { DN n; DN::init(n, Pose2d(q.x, q.y, q.th)); n.forward = q.fwd; return m.template lookup<DN>(n); }
        case 1: return m.lookup((int) std::floor(q.x), (int) std::floor(q.y), q.th, q.fwd);
        default: return m.lookup(q.x, q.y, q.th, q.fwd);
        }
    }
};
struct DynA {
    typedef DynamicDirectionalStateSpaceManager<SN> M; typedef SN N;
    enum { PAD = 32, ANGLES = 31, DIRS = 1 };
    static N *get(M &m, const Query &q) {
        switch (q.how % 3) {
        case 0: if (q.fwd && q.steer == 0) return m.lookup(Pose2d(q.x, q.y, q.th)); else { SN n; SN::init(n, Pose2d(q.x, q.y, q.th)); n.forward = q.fwd; n.steering_angle = q.steer; return m.template lookup<SN>(n); }
        case 1: return m.lookup((int) std::floor(q.x), (int) std::floor(q.y), q.th, q.steer, q.fwd);
        default: return m.lookup(q.x, q.y, q.th, q.steer, q.fwd);
        }
    }
};

template <class M> void lazy(M &, const Query &, bool, bool) {}
void lazy(DynA::M &m, const Query &q, bool expectNone, bool expectSome) {
    bool has = m.hasNode((int) std::floor(q.x), (int) std::floor(q.y), 0, q.fwd);
    if (expectSome) REQUIRE(has, "the node at (" << q.x << "," << q.y << ") was looked up, but is said not to exist");
    if (expectNone) REQUIRE(!has, "a node at (" << q.x << "," << q.y << ") is said to exist before anything was looked up");
}

template <class A>
void stateSpace(Case &c, int maxn, unsigned area = 0) {
    typedef typename A::N N;
    std::unique_ptr<typename A::M> m(new typename A::M());
    std::unique_ptr<SimpleGridMap2d> map;
    const double slot = A::ANGLES ? 2 * M_PI / A::ANGLES : 0;
    struct Known { Query q; int cx, cy; N *n; double id; };
    std::vector<Known> known;
    int ops = 2 + (int) c.pick(30); double nextId = 1;
    int w = 0, h = 0; bool fresh = true;
    for (int o = 0; o < ops; ++o) {
        if (!map || c.pick(12) == 11) {
            int how = map ? (int) c.pick(3) : 0;
            if (how == 0) {
                if (area > 100000) { h = (int) c.size(1, 300); w = 72000 / h; if (c.boolean()) std::swap(w, h); }
                else if (area) { unsigned ww, hh; gen::bigSize(c, ww, hh, area); w = (int) ww; h = (int) hh; }
                else { w = (int) c.size(1, maxn); h = (int) c.size(1, maxn); }
                map.reset(new SimpleGridMap2d(w, h, c.oneOf<double>({0.1, 1.0}))); }
            else if (how == 1) { map.reset(new SimpleGridMap2d(w, h, 0.1)); }
            m->setMap(map.get());
            c.note() << " setMap " << w << "x" << h;
            if (c.pick(40) == 39) { int n = (int) c.integer(253, 257); c.note() << " and " << n << " times again"; c.label("map set 256 times"); while (n--) m->setMap(map.get()); }
            c.label(o == 0 ? "first map" : how == 2 ? "same map again" : "other map");
            known.clear(); fresh = true;
        }
        Query q;
        q.x = c.real(-A::PAD - 3, w + A::PAD + 3); q.y = c.real(-A::PAD - 3, h + A::PAD + 3);
        if (c.pick(3) == 2) {          // at the borders of the space, of its blocks and of the map
            double b[] = {-(double) A::PAD, -(double) A::PAD - 1e-6, w + (double) A::PAD - 1e-6, w + (double) A::PAD, 0, -1e-6, -0.5, (double) w, w - 1e-6, 32, 31.999, -32, -31.999, h + (double) A::PAD, h + (double) A::PAD - 1e-6, -1e5, 1e5};
            (c.pick(2) ? q.x : q.y) = b[c.pick(sizeof(b) / sizeof(*b))];
        }
        q.th = c.angle(-M_PI, M_PI - 1e-9); q.fwd = c.pick(3) != 2; q.steer = A::PAD ? (int) c.integerNear(-60, 60, 0) : 0; q.how = (int) c.pick(3);
        if (known.size() && c.pick(3)) {   // something near an earlier query
            q = known[c.pick(known.size())].q;
            q.how = (int) c.pick(3);
            int k = (int) c.pick(5);
            if (k == 1) q.fwd = !q.fwd;
            if (k == 2) q.th = c.pick(2) ? std::min(M_PI - 1e-9, q.th + slot * 1.01) : c.angle(-M_PI, M_PI - 1e-9);
            if (k == 3) { q.x += c.fine(-1, 1); q.y += c.fine(-1, 1); }
            if (k == 4) q.steer = A::PAD ? (int) c.integerNear(-60, 60, 0) : 0;
        }
        int cx = (int) std::floor(q.x), cy = (int) std::floor(q.y);
        bool in = cx >= -A::PAD && cy >= -A::PAD && cx < w + A::PAD && cy < h + A::PAD;
        c.note() << " (" << q.x << "," << q.y << "," << q.th << (q.fwd ? " F" : " B") << " how " << q.how << ")";
        REQUIRE(m->contains(q.x, q.y) == in, "contains(" << q.x << "," << q.y << ") is wrong for a map of " << w << "x" << h);
        REQUIRE(m->contains(cx, cy) == in, "contains(" << cx << "," << cy << ") is wrong for a map of " << w << "x" << h);
        if (in && fresh) lazy(*m, q, true, false);
        N *n = nullptr; bool thrown = false;
        try { n = A::get(*m, q); } catch (const OutsideMapException &) { thrown = true; }
        REQUIRE(thrown == !in, "looking up (" << q.x << "," << q.y << ") in a space of " << w << "x" << h << " padding " << (int) A::PAD << (thrown ? " was rejected" : " was not rejected"));
        if (!in) { c.label("outside"); continue; }
        fresh = false;
        lazy(*m, q, false, true);
        REQUIRE(n != nullptr, "no node for (" << q.x << "," << q.y << ")");
        REQUIRE(n->x == cx && n->y == cy, "(" << q.x << "," << q.y << ") gives the node of cell (" << n->x << "," << n->y << ")");
        bool seen = false;
        for (auto &k : known) {
            bool cell = k.cx == cx && k.cy == cy && (!A::DIRS || k.q.fwd == q.fwd);
            bool must = cell && (!A::ANGLES || k.q.th == q.th), mustNot = !cell || (A::ANGLES && std::fabs(k.q.th - q.th) > slot + 1e-9);
            if (must) REQUIRE(k.n == n, "the same state (" << q.x << "," << q.y << "," << q.th << ") was found in two different nodes");
            if (mustNot) REQUIRE(k.n != n, "the states (" << k.q.x << "," << k.q.y << "," << k.q.th << "," << k.q.fwd << ") and (" << q.x << "," << q.y << "," << q.th << "," << q.fwd << ") share one node");
            if (k.n == n) { REQUIRE(n->distance == k.id, "a node lost its contents"); seen = true; }
        }
        if (!seen) {
            REQUIRE(std::isinf(n->distance) && n->prev == nullptr && n->marked == N::MARK_NONE && n->custom == 0 && n->h == 0, "the node of (" << q.x << "," << q.y << ") is not in its initial state after setMap");
            n->distance = nextId++; n->prev = n; n->mark(N::MARK_OPEN); n->mark(N::MARK_CLOSED); n->custom = 1; n->h = 1;
        } else { c.label("node found again"); c.nontrivial(); }
        known.push_back(Known{q, cx, cy, n, n->distance});
    }
}

// ------------------------------------------------------------------ C08
struct Ref8 {
    int pad, w, h; std::vector<double> d;
    Ref8(const gen::Grid &g, int pad, int gx, int gy, int nb) : pad(pad), w((int) g.w + 2 * pad), h((int) g.h + 2 * pad), d(w * h, INFINITY) {
        typedef std::pair<double, int> P;
        std::priority_queue<P, std::vector<P>, std::greater<P>> q;
        auto occ = [&](int x, int y) { return g.in(x - pad, y - pad) && g.at(x - pad, y - pad) >= 200; };
        d[(gy + pad) * w + gx + pad] = 0; q.push(P(0, (gy + pad) * w + gx + pad));
        while (!q.empty()) {
            P p = q.top(); q.pop();
            if (p.first > d[p.second]) continue;
            int x = p.second % w, y = p.second / w;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                if ((!dx && !dy) || (nb == 4 && dx && dy)) continue;
                int xx = x + dx, yy = y + dy;
                if (xx < 0 || yy < 0 || xx >= w || yy >= h || occ(xx, yy)) continue;
                double nd = p.first + (dx && dy ? M_SQRT2 : 1.0);
                if (nd < d[yy * w + xx] - 1e-12) { d[yy * w + xx] = nd; q.push(P(nd, yy * w + xx)); }
            }
        }
    }
    double at(int x, int y) const { return d[(y + pad) * w + x + pad]; }
};

template <class H, class N> double est(double x, double y, const N &goal, double res) {
    N n; N::init(n, Pose2d(x, y, 0)); n.h = -1;
    H::compute(&n, &goal, res);
    return n.h;
}

template <class M, class N>
void obstacleHeuristic(Case &c, int pad, int maxn, unsigned area = 0) {
    M m; std::unique_ptr<SimpleGridMap2d> map; gen::Grid g;
    int rounds = 1 + (int) c.pick(2);
    for (int r = 0; r < rounds; ++r) {
        if (area) g = gen::bigGrid(c, area); else g = gen::grid(c, maxn, maxn);
        double res = c.oneOf<double>({1.0, 0.05, 0.5});
        map.reset(new SimpleGridMap2d(g.w, g.h, res)); map->set(g.v, g.w, g.h);
        m.setMap(map.get());
        int gx, gy;
        if (pad && c.pick(4) == 3) { gx = (int) c.integerNear(-pad, g.w + pad - 1, 0); gy = (int) c.integerNear(-pad, g.h + pad - 1, 0); }
        else { gx = (int) c.pick(g.w); gy = (int) c.pick(g.h); }
        if (g.in(gx, gy) && g.at(gx, gy) >= 200) { g.at(gx, gy) = 0; map->setValue(gx, gy, 0); }
        N goal; N::init(goal, Pose2d(gx, gy, 0));
        typedef MaxHeuristic<HeuristicL2, HeuristicHolonomicObstacles> MX;
        if (c.pick(2)) HeuristicHolonomicObstacles::setMap(&m, goal); else MX::setMap(&m, goal);
        Ref8 ref(g, pad, gx, gy, 8);
        c.note() << " map " << g.str() << " pad " << pad << " res " << res << " goal " << gx << "," << gy;
        bool detour = false, unreach = false;
        auto look = [&](int x, int y) {
            if (g.in(x, y) && g.at(x, y) >= 200) return;
            double fx = x + (c.pick(8) == 7 ? 0.5 : 0.0);
            double e = est<HeuristicHolonomicObstacles>(fx, y, goal, res), t = ref.at(x, y), l2 = res * std::hypot(fx - gx, y - gy);
            if (std::isinf(t)) { unreach = true; REQUIRE(e == 0 || std::isinf(e) || e >= 0, "negative estimate " << e); }
            else {
                REQUIRE(e <= t * res + 1e-6, "the estimate " << e << " at (" << fx << "," << y << ") exceeds the true distance " << t * res);
                REQUIRE(e >= t * res - 1e-6, "the estimate " << e << " at (" << fx << "," << y << ") is not the distance around the obstacles " << t * res);
                if (t > 1.2 * std::hypot(x - gx, y - gy) + 1) detour = true;
                double mx = est<MX>(fx, y, goal, res);
                REQUIRE(std::fabs(mx - std::max(e, l2)) < 1e-9, "the combined estimate " << mx << " is not the larger of " << e << " and " << l2);
            }
        };
        look(gx, gy);
        for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) { if (g.w * g.h > 200 && (x * 7 + y * 3) % 5) continue; look(x, y); }
        if (pad) for (int i = 0; i < 20; ++i) look((int) c.integer(-pad, g.w + pad - 1), (int) c.integer(-pad, g.h + pad - 1));
        if (detour) { c.label("detour"); c.nontrivial(); }
        if (unreach) { c.label("unreachable cells"); c.nontrivial(); }
    }
}

void norms(Case &c) {
    gen::Grid g = gen::grid(c, 12, 12);
    int gx = (int) c.pick(g.w), gy = (int) c.pick(g.h);
    double res = c.oneOf<double>({1.0, 0.05, 0.5, 3.0});
    if (g.at(gx, gy) >= 200) g.at(gx, gy) = 0;
    c.note() << " map " << g.str() << " res " << res << " goal " << gx << "," << gy;
    HN goal; HN::init(goal, Pose2d(gx, gy, 0));
    Ref8 r8(g, 0, gx, gy, 8), r4(g, 0, gx, gy, 4);
    for (int y = 0; y < (int) g.h; ++y) for (int x = 0; x < (int) g.w; ++x) {
        double l1 = est<HeuristicL1>(x, y, goal, res), l2 = est<HeuristicL2>(x, y, goal, res), li = est<HeuristicLInf>(x, y, goal, res);
        double d4 = r4.at(x, y) * res, d8 = r8.at(x, y) * res;
        REQUIRE(l2 <= d8 + 1e-9 && li <= d8 + 1e-9, "an estimate (" << l2 << ", " << li << ") exceeds the 8-connected distance " << d8 << " from (" << x << "," << y << ")");
        REQUIRE(l1 <= d4 + 1e-9 && l2 <= d4 + 1e-9 && li <= d4 + 1e-9, "an estimate (" << l1 << ", " << l2 << ", " << li << ") exceeds the 4-connected distance " << d4 << " from (" << x << "," << y << ")");
        if (!std::isinf(d4) && d4 > l1 + res) { c.nontrivial(); }
    }
    // anywhere, not only at cells: the exact norms
    for (int i = 0; i < 5; ++i) {
        double x = c.real(-50, 50), y = c.real(-50, 50), X = c.real(-50, 50), Y = c.real(-50, 50);
        HN q; HN::init(q, Pose2d(X, Y, 0));
        double l1 = est<HeuristicL1>(x, y, q, res), l2 = est<HeuristicL2>(x, y, q, res), li = est<HeuristicLInf>(x, y, q, res), mx = est<MaxHeuristic<HeuristicLInf, HeuristicL1>>(x, y, q, res), mx2 = est<MaxHeuristic<HeuristicL1, HeuristicL2>>(x, y, q, res);
        double dx = std::fabs(x - X), dy = std::fabs(y - Y);
        REQUIRE(std::fabs(l1 - res * (dx + dy)) < 1e-9 && std::fabs(l2 - res * std::sqrt(dx * dx + dy * dy)) < 1e-9 && std::fabs(li - res * std::max(dx, dy)) < 1e-9, "norms of (" << dx << "," << dy << ") times " << res << ": " << l1 << " " << l2 << " " << li);
        REQUIRE(mx == l1 && mx2 == l1, "the combination of two estimates is not the larger one: " << mx << " " << mx2 << " instead of " << l1);
    }
}

} // namespace

LAW("C07", "state-lookup", 10000, 400000,
    "sequences of up to 32 lookups with map changes in between on the grid, heading, directional and lazily allocated state spaces (maps up to 40x40), poses inside, outside and exactly on the borders; "
    "non-trivial: a node was found again through another pose") {
    switch (c.pick(6)) {
    case 0: stateSpace<GridA>(c, 24); break;
    case 1: stateSpace<StateA>(c, 8); break;
    case 2: stateSpace<DirA>(c, 8); break;
    default: stateSpace<DynA>(c, c.pick(8) == 7 ? 100 : 40); break;
    }
}
LAW("C08", "norms", 600000, 10000000, "every cell of maps up to 12x12 (walls, rectangles, noise) against Dijkstra on the 4- and 8-neighbourhood, plus the exact norms at arbitrary points; non-trivial: a detour makes the true distance larger") { norms(c); }
LAW("C08", "around-obstacles", 40000, 1200000, "maps up to 24x24 with and without a border around the map, 1-2 maps after each other, every cell against Dijkstra; non-trivial: a detour or an unreachable cell") {
    if (c.pick(4) == 3) obstacleHeuristic<DynamicDirectionalStateSpaceManager<SN>, SN>(c, 32, 24);
    else obstacleHeuristic<GridMapManager<HN>, HN>(c, 0, 24);
}
LAW("C07", "state-lookup-large", 400, 12000, "as state-lookup on maps of up to 90000 cells (9000 with headings); non-trivial: a node was found again through another pose") {
    switch (c.pick(6)) {
    case 0: stateSpace<GridA>(c, 0, 90000); break;
    case 1: stateSpace<StateA>(c, 0, 9000); break;
    case 2: stateSpace<DirA>(c, 0, 9000); break;
    default: stateSpace<DynA>(c, 0, 90000); break;
    }
}
LAW("C08", "around-obstacles-large", 300, 8000, "maps of up to 90000 cells, every fifth cell against Dijkstra; non-trivial: a detour or an unreachable cell") {
    if (c.pick(4) == 3) obstacleHeuristic<DynamicDirectionalStateSpaceManager<SN>, SN>(c, 32, 0, 9000);
    else obstacleHeuristic<GridMapManager<HN>, HN>(c, 0, 0, 90000);
}
LAW("C07", "state-lookup-huge", 60, 2000, "as state-lookup with headings on maps of 72000 cells; non-trivial: a node was found again through another pose") {
    if (c.boolean()) stateSpace<StateA>(c, 0, 200000); else stateSpace<DirA>(c, 0, 200000);
}
