// Small property-based testing engine (choice-sequence based, in the style of Hypothesis):
// every random decision of a case is one bounded integer drawn from a Case; a case is therefore fully described by
// its list of choices, which is what gets shrunk, replayed, and (in the libFuzzer build) mutated.
// Cases run in forked workers, so a crash, a sanitizer report, a failed assert() or an endless loop in the code under
// test is an ordinary failing case which shrinks and replays like any other.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

struct Case {
    // choice source
    bool replaying = false;
    std::vector<uint64_t> in;      // replayed choices
    std::vector<uint64_t> out;     // choices actually used (canonical)
    uint64_t rng = 0;
    size_t pos = 0;
    uint64_t *live = nullptr;      // shared memory mirror of `out` (live[0] = count), for crashes
    size_t live_cap = 0;

    // results
    bool is_nontrivial = false;
    bool verbose = false;
    std::map<std::string, uint64_t> labels;
    std::ostringstream desc;       // human readable description of the case

    uint64_t next64() {
        uint64_t z = (rng += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    // uniform in [0, max]; 0 is the simplest
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (replaying) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1);
        } else {
            v = max == UINT64_MAX ? next64() : next64() % (max + 1);
        }
        out.push_back(v);
        if (live && out.size() < live_cap) { live[out.size()] = v; live[0] = out.size(); }
        if (out.size() > 200000) throw Discard();
        return v;
    }
    long integer(long lo, long hi) { return lo + (long) draw((uint64_t)(hi - lo)); }      // shrinks towards lo
    long integerNear(long lo, long hi, long c) {                                          // shrinks towards c
        uint64_t v = draw((uint64_t)(hi - lo));
        // zig-zag around c where possible
        long up = hi - c, down = c - lo;
        long m = std::min(up, down);
        if (v == 0) return c;
        if ((long) v <= 2 * m) return (v & 1) ? c + (long)((v + 1) / 2) : c - (long)(v / 2);
        long r = (long) v - 2 * m;
        return up > down ? c + m + r : c - m - r;
    }
    bool boolean(double p = 0.5) { return draw(65535) > (uint64_t)((1.0 - p) * 65536.0); }  // shrinks to false
    size_t pick(size_t n) { return (size_t) draw(n - 1); }
    template <class T> T oneOf(std::initializer_list<T> l) { return *(l.begin() + pick(l.size())); }
    // mostly small sizes, sometimes large
    long size(long lo, long hi) {
        long span = hi - lo;
        if (span <= 4) return integer(lo, hi);
        switch (pick(4)) {
        case 0: return integer(lo, lo + std::max(1L, span / 8));
        case 1: case 2: return integer(lo, lo + span / 2);
        default: return integer(lo, hi);
        }
    }
    // real in [lo,hi]: mixes coarse lattice values, fine values; shrinks towards `c` (default: the value nearest 0)
    double real(double lo, double hi) {
        double c = (lo <= 0 && hi >= 0) ? 0.0 : (std::fabs(lo) < std::fabs(hi) ? lo : hi);
        switch (pick(4)) {
        case 0: {                 // integers / quarters, when any fit
            long a = (long) std::ceil(lo * 4), b = (long) std::floor(hi * 4);
            if (a <= b) {
                long cc = std::min(b, std::max(a, (long) std::llround(c * 4)));
                if (pick(2) == 0) {   // whole numbers
                    long a1 = (long) std::ceil(lo), b1 = (long) std::floor(hi);
                    if (a1 <= b1) return (double) integerNear(a1, b1, std::min(b1, std::max(a1, (long) std::llround(c))));
                }
                return integerNear(a, b, cc) / 4.0;
            }
            return c;
        }
        default: {
            const long N = 1L << 30;
            double f = (double) integerNear(0, N, (long) std::llround((c - lo) / (hi - lo) * N)) / (double) N;
            double v = lo + (hi - lo) * f;
            return std::min(hi, std::max(lo, v));
        }
        }
    }
    // generic continuous real (no lattice values): avoids ties / degenerate configurations
    double fine(double lo, double hi) {
        const long N = 1L << 40;
        double f = ((double) integer(0, N - 1) + 0.5) / (double) N;
        return lo + (hi - lo) * f;
    }
    // an angle, with the special values over-represented
    double angle(double lo = -M_PI, double hi = M_PI) {
        if (pick(4) == 0) {
            int a = (int) std::ceil(lo / (M_PI / 12) - 1e-9), b = (int) std::floor(hi / (M_PI / 12) + 1e-9);
            double v = integerNear(a, b, std::min(b, std::max(a, 0))) * (M_PI / 12);
            return std::min(hi, std::max(lo, v));
        }
        const long N = 1L << 30;
        double f = (double) integer(0, N) / (double) N;
        return lo + (hi - lo) * f;
    }
    void label(const std::string &l) { labels[l]++; }
    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
    std::ostream &note() { return desc; }
    [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
    [[noreturn]] void discard() { throw Discard(); }
};

struct Law {
    std::string prop, name, rule;
    long quick, thorough;
    std::function<void(Case &)> fn;
};

inline std::vector<Law> &laws() { static std::vector<Law> l; return l; }
struct Reg {
    Reg(const char *prop, const char *name, long quick, long thorough, const char *rule, std::function<void(Case &)> fn) {
        laws().push_back(Law{prop, name, rule, quick, thorough, fn});
    }
};

// Reproducers of recorded (unrepaired) findings: return true while the defect is present.
struct Known { std::string prop, id; std::function<bool(Case &)> fn; };
inline std::vector<Known> &knowns() { static std::vector<Known> k; return k; }
struct RegKnown { RegKnown(const char *p, const char *i, std::function<bool(Case &)> fn) { knowns().push_back(Known{p, i, fn}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define LAW(prop, name, quick, thorough, rule) \
    static void PBT_CAT(law_, __LINE__)(pbt::Case &c); \
    static pbt::Reg PBT_CAT(reg_, __LINE__)(prop, name, quick, thorough, rule, PBT_CAT(law_, __LINE__)); \
    static void PBT_CAT(law_, __LINE__)(pbt::Case &c)

#define REQUIRE(cond, msg) do { if (!(cond)) { std::ostringstream os__; os__ << std::setprecision(17) << msg << "   [" #cond "]"; throw pbt::Failure{os__.str()}; } } while (0)

} // namespace pbt
