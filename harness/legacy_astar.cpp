// C09: the legacy grid A*.   C10: its open list.
#include "gen.h"
#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
#include <queue>
#include <set>
using namespace lib_path;
using pbt::Case;

namespace {

struct Quiet { std::streambuf *b; Quiet() : b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };

std::string str(const path_t &p) { std::ostringstream os; for (auto &w : p) os << "(" << w.x << "," << w.y << ")"; return os.str(); }
double len(const path_t &p) { double l = 0; for (size_t i = 1; i < p.size(); ++i) l += std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y); return l; }

// shortest way from the goal to every cell; all cells but the goal must be free
std::vector<double> dijkstra(const gen::Grid &g, int gx, int gy) {
    std::vector<double> d(g.w * g.h, INFINITY);
    typedef std::pair<double, int> P;
    std::priority_queue<P, std::vector<P>, std::greater<P>> q;
    d[gy * g.w + gx] = 0; q.push(P(0, gy * g.w + gx));
    while (!q.empty()) {
        P p = q.top(); q.pop();
        if (p.first > d[p.second]) continue;
        int x = p.second % g.w, y = p.second / g.w;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
            int xx = x + dx, yy = y + dy;
            if ((!dx && !dy) || !g.in(xx, yy) || g.at(xx, yy) > 50) continue;
            double nd = p.first + std::hypot(dx, dy);
            if (nd < d[yy * g.w + xx] - 1e-12) { d[yy * g.w + xx] = nd; q.push(P(nd, yy * g.w + xx)); }
        }
    }
    return d;
}

// idle: many searches within one cell in between
void legacy(Case &c, bool big = false, bool idle = false) {
    Quiet quiet;
    gen::Grid g; std::vector<std::unique_ptr<SimpleGridMap2d>> maps; std::unique_ptr<AStar> a;
    int rounds = 1 + (int) c.pick(big ? 3 : 5);
    bool small = c.pick(3) == 2;
    for (int r = 0; r < rounds; ++r) {
        int change = a ? idle ? 1 + (int) c.pick(3) : (int) c.pick(4) : 0;
        if (change == 0) {
            if (big) g = gen::bigGrid(c); else g = gen::grid(c, small ? 8 : 24, small ? 8 : 24);
            maps.emplace_back(new SimpleGridMap2d(g.w, g.h, c.oneOf<double>({1.0, 0.05})));
            maps.back()->set(g.v, g.w, g.h);
            if (!a) a.reset(new AStar(maps.back().get())); else { a->setNewMap(maps.back().get()); c.label("new map"); }
            c.note() << " map " << g.str();
        } else if (change == 1) {
            int k = 1 + (int) c.pick(4);
            for (int i = 0; i < k; ++i) { int x = (int) c.pick(g.w), y = (int) c.pick(g.h); uint8_t v = gen::cellValue(c, (int) c.pick(3)); g.at(x, y) = v; maps.back()->setValue(x, y, v); }
            c.note() << " edited map " << g.str();
        }
        if (idle && r > 0) {
            int n = c.pick(60) == 59 ? (int) c.integer(65533, 65537) : (int) c.integer(253, 257), wrong = 0; bool set = c.boolean();
            waypoint_t q; q.x = (int) c.pick(g.w); q.y = (int) c.pick(g.h);
            c.note() << " " << n << " searches within " << q.x << "," << q.y; c.label(n > 1000 ? "65536 searches in between" : "256 searches in between");
            for (int i = 0; i < n; ++i) { if (set) a->setNewMap(maps.back().get()); wrong += !a->planPath(q, q) || a->getLastPath()->size() != 1; }
            REQUIRE(!wrong, wrong << " of " << n << " searches from a cell to itself do not yield that cell");
        }
        waypoint_t s, t;
        s.x = (int) c.pick(g.w); s.y = (int) c.pick(g.h); t.x = (int) c.pick(g.w); t.y = (int) c.pick(g.h);
        if (c.pick(8) != 7 && g.at(s.x, s.y) > 50) { g.at(s.x, s.y) = 0; maps.back()->setValue(s.x, s.y, 0); }
        bool out = false;
        if (c.pick(8) == 7) {
            waypoint_t &w = c.pick(2) ? s : t; out = true;
            int k = (int) c.pick(4);
            (k & 1 ? w.x : w.y) = k & 2 ? -1 - (int) c.pick(3) : (int) (k & 1 ? g.w : g.h) + (int) c.pick(3);
        }
        c.note() << " start " << s.x << "," << s.y << " goal " << t.x << "," << t.y;
        bool found = a->planPath(s, t);
        path_t p = *a->getLastPath();
        REQUIRE(found == !p.empty(), "the result is " << found << " but the path has " << p.size() << " waypoints");
        if (out) { REQUIRE(!found, "a path was found although start or goal is outside the map: " << str(p)); c.label("outside"); continue; }
        std::vector<double> d = dijkstra(g, t.x, t.y);
        double opt = d[s.y * g.w + s.x];
        if (!found) { REQUIRE(std::isinf(opt), "no path was found although there is one of length " << opt); c.label("unreachable"); c.nontrivial(); continue; }
        REQUIRE(p.front().x == s.x && p.front().y == s.y && p.back().x == t.x && p.back().y == t.y, "the path does not lead from the start to the goal: " << str(p));
        for (size_t i = 0; i < p.size(); ++i) {
            REQUIRE(g.in(p[i].x, p[i].y), "the path leaves the map: " << str(p));
            if (i + 1 < p.size()) REQUIRE(g.at(p[i].x, p[i].y) <= 50, "cell " << i << " of the path is not free: " << str(p));
            if (i > 0) REQUIRE(std::abs(p[i].x - p[i - 1].x) <= 1 && std::abs(p[i].y - p[i - 1].y) <= 1 && (p[i].x != p[i - 1].x || p[i].y != p[i - 1].y), "step " << i << " is no step to a neighbour cell: " << str(p));
        }
        REQUIRE(!std::isinf(opt), "a path was found although there is none: " << str(p));
        double l = len(p);
        REQUIRE(l <= 1.5 * opt + 1, "the path has length " << l << ", the shortest one " << opt << ": " << str(p));
        if (l > opt + 1e-6) c.label("not the shortest"); else c.label("shortest");
        if (l > opt * 1.1) c.label("more than 10% longer");
        if (r > 0) {
            AStar fresh(maps.back().get());
            REQUIRE(fresh.planPath(s, t), "a new planner finds no path");
            REQUIRE(str(*fresh.getLastPath()) == str(p), "a planner that was used before finds " << str(p) << ", a new one " << str(*fresh.getLastPath()));
        }
        c.nontrivial(p.size() >= 4);
    }
}

void openList(Case &c, bool big = false, bool idle = false) {
    Quiet quiet;
    int w, h;
    if (big) { unsigned ww, hh; gen::bigSize(c, ww, hh); w = (int) ww; h = (int) hh; }
    else { w = (int) c.size(1, 12); h = (int) c.size(1, 12); }
    OpenList l(w, h);
    struct St { bool open = false, done = false; std::vector<double> offers; std::vector<Node *> parents; };
    std::vector<St> st(w * h);
    std::vector<double> pred(w * h);
    if (big) { uint64_t q = c.draw(0xffffffff) * 2 + 1; for (auto &p : pred) { q ^= q << 13; q ^= q >> 7; q ^= q << 17; p = (double) (q % 500) / 10; } }
    else for (auto &p : pred) p = c.pick(4) == 0 ? c.real(0, 50) : (double) c.pick(8);
    std::set<int> openCells; int seen = -1;
    std::vector<Node *> popped;
    int ops = (int) c.size(1, 60), open = 0;
    bool updated = false;
    for (int o = 0; o < ops; ++o) {
        int op = (int) c.pick(12);
        if (big && op < 3) {                 // a run of cells at once
            int k = (int) c.size(1, 2500), i = (int) c.pick(w * h), step = 1 + (int) c.pick(3);
            double dist = (double) (float) c.pick(12);
            Node *par = popped.empty() ? nullptr : popped[c.pick(popped.size())];
            c.note() << " add(" << k << " cells from " << i << " step " << step << " d" << dist << ")";
            for (; k > 0 && i < w * h; --k, i += step) {
                St &s = st[i];
                if (s.open || s.done) continue;
                waypoint_t p; p.x = i % w; p.y = i / w;
                l.addNode(p, dist, (double) (float) pred[i], par);
                s.open = true; ++open; openCells.insert(i); s.offers.push_back(dist); s.parents.push_back(par); seen = i;
            }
        } else if (op < 7) {
            waypoint_t p; p.x = (int) c.pick(w); p.y = (int) c.pick(h);
            double dist = c.pick(3) == 2 ? c.real(0, 50) : (double) c.pick(12) + (double) c.pick(4) * 0.4142;
            dist = (double) (float) dist;
            if (big && seen >= 0 && c.pick(3)) { p.x = seen % w; p.y = seen / w; }
            Node *par = popped.empty() ? nullptr : popped[c.pick(popped.size())];
            int i = p.y * w + p.x;
            if (c.pick(24) == 23) {          // outside: ignored
                p.y = c.pick(2) ? h + (int) c.pick(3) : -1 - (int) c.pick(3); if (p.y < 0) p.x = 0;
                l.addNode(p, dist, 1, par);
                c.label("outside"); continue;
            }
            c.note() << " add(" << p.x << "," << p.y << " d" << dist << " p" << pred[i] << ")";
            l.addNode(p, dist, (double) (float) pred[i], par);
            St &s = st[i];
            if (s.done) { c.label("add popped"); continue; }
            if (!s.open) { s.open = true; ++open; openCells.insert(i); } else { updated = true; }
            seen = i;
            s.offers.push_back(dist); s.parents.push_back(par);
        } else if (op < 11) {
            Node *n = l.getFirstNode();
            c.note() << " pop";
            REQUIRE((n == nullptr) == (open == 0), (n ? "a node was returned from an empty list" : "no node was returned although the list is not empty"));
            if (!n) { c.label("pop empty"); continue; }
            int x = n->getPosition().x, y = n->getPosition().y;
            REQUIRE(x >= 0 && y >= 0 && x < w && y < h, "the popped node has position " << x << "," << y);
            St &s = st[y * w + x];
            REQUIRE(s.open && !s.done, "(" << x << "," << y << ") was returned although it is not open");
            double d = n->getDistance(); bool offered = false;
            for (size_t k = 0; k < s.offers.size(); ++k) {
                if (s.offers[k] == d && s.parents[k] == n->getParent()) offered = true;
                REQUIRE(d < s.offers[k] + 1 + 1e-4, "(" << x << "," << y << ") has distance " << d << " although " << s.offers[k] << " was offered");
            }
            REQUIRE(d <= s.offers[0], "the distance of (" << x << "," << y << ") rose from " << s.offers[0] << " to " << d);
            REQUIRE(offered, "the distance and parent of (" << x << "," << y << ") were never offered together");
            REQUIRE(n->isVisited(), "the popped node is not marked as visited");
            // smallest first, by whole units
            int v = (int) (float) ((float) d + (float) pred[y * w + x]);
            for (int i : openCells) {
                double lo = INFINITY; for (double q : st[i].offers) lo = std::min(lo, q);
                // whatever was kept for this node is at least its best offer; its first offer is an upper bound
                REQUIRE(v <= (int) (st[i].offers[0] + pred[i] + 1e-3), "(" << x << "," << y << ") with value " << v << " was returned before (" << i % w << "," << i / w << ") with value at most " << (int) (st[i].offers[0] + pred[i]));
                if (st[i].offers.size() > 1) REQUIRE(v <= (int) (lo + pred[i] + 1 + 1e-3), "(" << x << "," << y << ") with value " << v << " was returned before (" << i % w << "," << i / w << ") which was offered with value " << lo + pred[i]);
            }
            s.open = false; s.done = true; --open; openCells.erase(y * w + x);
            popped.push_back(n);
            c.nontrivial(updated && popped.size() >= 3);
        } else {
            int n = !idle ? 1 : c.pick(100) == 99 ? (int) c.integer(65533, 65537) : (int) c.integer(253, 257);
            c.note() << " newSearch"; if (n > 1) { c.note() << " x" << n; c.label(n > 1000 ? "65536 searches" : "256 searches"); }
            bool use = n > 1 && c.boolean(); waypoint_t q; q.x = (int) c.pick(w); q.y = (int) c.pick(h); int wrong = 0;
            while (n--) {
                l.prepareNewSearch();
                if (use && n) { l.addNode(q, 1, 1, nullptr); Node *f = l.getFirstNode(); wrong += !f || f->getPosition().x != q.x || f->getPosition().y != q.y || l.getFirstNode(); }
            }
            REQUIRE(!wrong, wrong << " searches with one cell did not yield exactly that cell");
            for (auto &s : st) s = St();
            popped.clear(); openCells.clear(); open = 0; c.label("new search");
        }
    }
}

} // namespace

LAW("C09", "legacy-astar", 250000, 8000000, "1-5 searches per planner on maps up to 24x24 (walls, rectangles, noise, serpentines, unknown cells), maps replaced (other sizes) or edited in between, endpoints blocked or outside; non-trivial: a path of >= 4 cells or a proven unreachable start") { legacy(c); }
LAW("C10", "open-list", 1500000, 60000000, "up to 60 operations (offer, pop, new search) on lists of up to 144 cells, offers repeated with lower, equal and higher distances; non-trivial: >= 3 nodes popped after an open node was offered again") { openList(c); }
LAW("C09", "legacy-astar-large", 300, 10000, "as legacy-astar on maps of up to 90000 cells (squares, long maps, strips); non-trivial: a path of >= 4 cells or a proven unreachable start") { legacy(c, true); }
LAW("C10", "open-list-large", 3000, 100000, "as open-list on lists of up to 90000 cells with up to 2500 offers at once; non-trivial: >= 3 nodes popped after an open node was offered again") { openList(c, true); }
LAW("C09", "legacy-astar-long", 3000, 100000, "as legacy-astar, with hundreds (rarely 65536) of searches within one cell in between, by the same planner; non-trivial: a path of >= 4 cells or a proven unreachable start") { legacy(c, false, true); }
LAW("C10", "open-list-long", 20000, 1000000, "as open-list, with hundreds (rarely 65536) of searches in between; non-trivial: >= 3 nodes popped after an open node was offered again") { openList(c, false, true); }
