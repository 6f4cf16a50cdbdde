// Stand-in for the missing dependency cslibs_navigation_utilities/DynamicPriorityQueue.hpp.
// Compare(a, b) is true when a has LOWER priority than b (as in std::priority_queue). How ties are broken, whether a
// node that is queued twice is kept once or twice, and whether later changes of a queued node's cost are seen, is
// selected by the harness: the search must be right for every such choice.
#ifndef DYNAMICPRIORITYQUEUE_HPP_STANDIN
#define DYNAMICPRIORITYQUEUE_HPP_STANDIN
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <stack>
#include <type_traits>
#include <vector>

struct DPSConfig {
    enum Tie { FIFO, LIFO, SHUFFLE };
    int tie = FIFO;
    bool live = true;       // true: order by the current cost (linear scan); false: by the cost at insertion (heap)
    bool dedupe = false;    // true: at most one entry per node (live mode only)
    uint64_t salt = 0;
    static DPSConfig &get() { static DPSConfig c; return c; }
};

template <class T, class Compare>
class DynamicPrioritySet {
    typedef typename std::remove_pointer<T>::type Node;
    struct Entry { T t; std::shared_ptr<Node> snap; uint64_t seq; };
    Compare cmp;
    DPSConfig cfg;
    std::vector<Entry> v;
    uint64_t n = 0;

    static uint64_t scramble(uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint64_t nextSeq() {
        ++n;
        return cfg.tie == DPSConfig::FIFO ? n : cfg.tie == DPSConfig::LIFO ? ~n : scramble(n * 0x9e3779b97f4a7c15ULL + cfg.salt);
    }
    bool lower(const Entry &a, const Entry &b) const {   // a comes after b
        const Node *x = a.snap ? a.snap.get() : a.t, *y = b.snap ? b.snap.get() : b.t;
        if (cmp(x, y)) return true;
        if (cmp(y, x)) return false;
        return a.seq > b.seq;
    }
    struct Less { const DynamicPrioritySet *s; bool operator()(const Entry &a, const Entry &b) const { return s->lower(a, b); } };
    size_t best() const {
        if (!cfg.live) return 0;
        size_t b = 0;
        for (size_t i = 1; i < v.size(); ++i) if (lower(v[b], v[i])) b = i;
        return b;
    }
public:
    class const_iterator {
        typename std::vector<Entry>::const_iterator it;
    public:
        const_iterator() {}
        const_iterator(typename std::vector<Entry>::const_iterator i) : it(i) {}
        T operator*() const { return it->t; }
        const_iterator &operator++() { ++it; return *this; }
        bool operator==(const const_iterator &o) const { return it == o.it; }
        bool operator!=(const const_iterator &o) const { return it != o.it; }
    };
    DynamicPrioritySet() : cfg(DPSConfig::get()) {}
    void push(T t) {
        if (v.empty()) { cfg = DPSConfig::get(); n = 0; }
        if (cfg.live) {
            if (cfg.dedupe) for (auto &e : v) if (e.t == t) return;
            v.push_back(Entry{t, nullptr, nextSeq()});
        } else {
            v.push_back(Entry{t, std::make_shared<Node>(*t), nextSeq()});
            std::push_heap(v.begin(), v.end(), Less{this});
        }
    }
    void remove(T t) {
        for (size_t i = 0; i < v.size();) { if (v[i].t == t) v.erase(v.begin() + i); else ++i; }
        if (!cfg.live) std::make_heap(v.begin(), v.end(), Less{this});
    }
    T top() const { assert(!v.empty()); return v[best()].t; }
    void pop() {
        assert(!v.empty());
        if (cfg.live) { size_t b = best(); v[b] = v.back(); v.pop_back(); }
        else { std::pop_heap(v.begin(), v.end(), Less{this}); v.pop_back(); }
    }
    bool empty() const { return v.empty(); }
    std::size_t size() const { return v.size(); }
    const_iterator begin() const { return const_iterator(v.begin()); }
    const_iterator end() const { return const_iterator(v.end()); }
};

template <class T, class Container, class Compare>
class DynamicPriorityQueue : public DynamicPrioritySet<T, Compare> {};
#endif
