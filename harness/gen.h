// Generators shared by the harnesses.
#pragma once
#include "pbt.h"

namespace gen {

struct Grid {
    unsigned w = 1, h = 1;
    std::vector<uint8_t> v;          // row major
    uint8_t &at(int x, int y) { return v[y * w + x]; }
    uint8_t at(int x, int y) const { return v[y * w + x]; }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < (int) w && y < (int) h; }
    std::string str(const char *mark = "") const {
        std::ostringstream os;
        os << w << "x" << h << "[";
        if (v.size() > 2500) {       // run lengths
            auto cl = [](uint8_t c) { return c <= 50 ? '.' : c >= 200 ? '#' : '?'; };
            size_t n = 0;
            for (size_t i = 0; i < v.size() && n < 300; ++n) { size_t j = i; while (j < v.size() && cl(v[j]) == cl(v[i])) ++j; os << j - i << cl(v[i]); i = j; }
            os << (n < 300 ? "]" : "...]") << mark;
            return os.str();
        }
        for (unsigned y = 0; y < h; ++y) { if (y) os << "/"; for (unsigned x = 0; x < w; ++x) { uint8_t c = at(x, y); os << (c <= 50 ? '.' : c >= 200 ? '#' : '?'); } }
        os << "]" << mark;
        return os.str();
    }
};

// free cells are <= 50, unknown in (50,200), occupied >= 200 (the library's default thresholds)
inline uint8_t cellValue(pbt::Case &c, int cls) {
    switch (cls) {
    case 0: return (uint8_t) c.oneOf<int>({0, 50, 1, 49});
    case 1: return (uint8_t) c.oneOf<int>({200, 255, 254, 201});
    default: return (uint8_t) c.oneOf<int>({127, 51, 199});
    }
}

// sizes at which narrow integers no longer count or index the cells: squares, long strips
inline void bigSize(pbt::Case &c, unsigned &w, unsigned &h, unsigned area = 90000) {
    int kind = (int) c.pick(5);
    if (kind < 3) { unsigned m = (unsigned) std::sqrt((double) area); w = (unsigned) c.integer(20, m); h = (unsigned) c.integer(std::max(20u, m / 2), m); }
    else if (kind == 3) { h = (unsigned) c.size(1, 20); w = (unsigned) c.integer(area / h / 4, area / h); }
    else { h = 1 + (unsigned) c.pick(2); w = (unsigned) c.integer(area / h / 2, area / h); }
    if (c.boolean()) std::swap(w, h);
    c.label(kind < 3 ? "size:large" : kind == 3 ? "size:long" : "size:strip");
}

inline void fill(pbt::Case &c, Grid &g, bool unknowns);

inline Grid bigGrid(pbt::Case &c, unsigned area = 90000) {
    Grid g;
    bigSize(c, g.w, g.h, area);
    if (std::min(g.w, g.h) > 3) { fill(c, g, true); return g; }
    g.v.assign(g.w * g.h, 0);
    while (c.boolean(0.5)) { uint8_t v = cellValue(c, (int) c.pick(3)); g.v[c.pick(g.v.size())] = v; }
    return g;
}

inline Grid grid(pbt::Case &c, int maxw, int maxh, bool unknowns = true, int minw = 1, int minh = 1) {
    Grid g;
    if (c.pick(5) < 2) { g.w = (unsigned) c.size(minw, maxw); g.h = (unsigned) c.size(minh, maxh); }
    else { g.w = (unsigned) c.integer(std::max(minw, maxw / 3), maxw); g.h = (unsigned) c.integer(std::max(minh, maxh / 3), maxh); }
    fill(c, g, unknowns);
    return g;
}

inline void fill(pbt::Case &c, Grid &g, bool unknowns) {
    uint8_t base = 0;
    if (c.pick(16) == 15) base = cellValue(c, 1);      // carve instead of add
    g.v.assign(g.w * g.h, base);
    int kind = (int) c.pick(8);
    if (kind == 4 || kind == 5) {                       // noise
        double dens = c.oneOf<double>({0.1, 0.2, 0.3, 0.4, 0.5});
        double unk = unknowns ? c.oneOf<double>({0.0, 0.05, 0.2}) : 0.0;
        uint64_t s = c.draw(0xffffffff) * 2 + 1;
        for (auto &x : g.v) {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            double r = (double) ((s * 0x2545F4914F6CDD1DULL) >> 11) / 9007199254740992.0;
            if (r < dens) x = 255; else if (r < dens + unk) x = 127; else if (base) x = 0;
        }
        c.label("map:noise");
    } else if (kind >= 6) {                             // serpentine: forces long detours
        bool vert = c.boolean();
        int n = vert ? g.w : g.h, m = vert ? g.h : g.w, gapw = 1 + (int) c.pick(2), step = 2 + (int) c.pick(3);
        bool side = c.boolean();
        for (int p = 1 + (int) c.pick(2); p < n; p += step) {
            for (int k = 0; k < m; ++k) { bool gap = side ? k < gapw : k >= m - gapw; if (!gap) (vert ? g.at(p, k) : g.at(k, p)) = 255; }
            side = !side;
        }
        c.label("map:serpentine");
    } else if (kind == 3) {                             // walls with gaps (detours)
        int n = (int) c.size(1, 6);
        for (int i = 0; i < n; ++i) {
            bool vert = c.boolean();
            int p = (int) c.pick(vert ? g.w : g.h);
            int gap = (int) c.pick((vert ? g.h : g.w) + 1);   // == length: no gap at all
            uint8_t val = cellValue(c, unknowns && c.pick(8) == 7 ? 2 : 1);
            for (int k = 0; k < (int) (vert ? g.h : g.w); ++k) if (k != gap) (vert ? g.at(p, k) : g.at(k, p)) = val;
        }
        c.label("map:walls");
    }
    if (kind <= 2 || c.pick(3) == 2) {                  // rectangles / single cells
        while (c.boolean(kind == 0 ? 0.5 : 0.85)) {
            int cls = (int) c.pick(unknowns ? 4 : 3); cls = cls == 0 ? 1 : cls == 1 ? 1 : cls == 2 ? 0 : 2;
            uint8_t val = cellValue(c, cls);
            int x = (int) c.pick(g.w), y = (int) c.pick(g.h);
            int ww = 1, hh = 1;
            if (c.boolean(0.5)) { ww = (int) c.size(1, g.w); hh = (int) c.size(1, std::max(1, (int) g.h / 2)); if (c.boolean()) std::swap(ww, hh); }
            for (int yy = y; yy < std::min<int>(g.h, y + hh); ++yy) for (int xx = x; xx < std::min<int>(g.w, x + ww); ++xx) g.at(xx, yy) = val;
        }
        c.label("map:rects");
    }
}

} // namespace gen
