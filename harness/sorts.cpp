// Sorting (PART_SORT), stability (PART_STABLE) and the other algorithms (PART_ALGO).
#include <memory>
#include <cmath>
#include "common.hpp"
#if EPOCH == 2026
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
// Each header may be included where another one already was.
#include <pystd2026_nth_element.hpp>
#include <pystd2026_radixsort.hpp>
#endif

static const int MOVED = -99999;

// An element that can be told apart from its equals, and that knows when it has been moved from.
template<int LIMIT> struct Item {
    int key = 0;
    int tag = -1;
    Item() noexcept = default;
    Item(int k, int t) noexcept : key(k), tag(t) {}
    Item(const Item &) noexcept = default;
    Item &operator=(const Item &) noexcept = default;
    Item(Item &&o) noexcept : key(o.key), tag(o.tag) { o.key = MOVED; }
    Item &operator=(Item &&o) noexcept {
        if(this != &o) {
            key = o.key;
            tag = o.tag;
            o.key = MOVED;
        }
        return *this;
    }
    int k() const {
        if(key == MOVED)
            g_ctx->fail("an element that has been moved from is compared");
        return key;
    }
    int operator<=>(const Item &o) const { return k() < o.k() ? -1 : k() > o.k(); }
    bool operator<(const Item &o) const { return k() < o.k(); }
    bool operator>(const Item &o) const { return k() > o.k(); }
    bool operator==(const Item &o) const { return k() == o.k(); }
};
using Big = Item<0>; // the library's own limits
#if EPOCH == 2026 && !defined(NO_LIMITS)
// Types for which the algorithms leave insertion sort early, so that their own logic is reached
// by arrays small enough to enumerate.
using Mid = Item<8>;
using Low = Item<2>;
namespace pystd2026 {
template<> constexpr size_t insertion_sort_limit<Mid> = 8;
template<> constexpr size_t insertion_sort_limit<Low> = 2;
template<> constexpr size_t insertion_sort_limit<uint16_t> = 8;
} // namespace pystd2026
#else
using Mid = Item<0>;
using Low = Item<0>;
#endif

// Comparators, as the library uses them.  rank() defines the order for the oracle.
struct Asc {
    template<typename T> int compare(const T &a, const T &b) const noexcept { return a < b ? -1 : b < a; }
    template<typename T> bool equal(const T &a, const T &b) const noexcept { return !(a < b) && !(b < a); }
};
struct Desc {
    template<typename T> int compare(const T &a, const T &b) const noexcept { return b < a ? -1 : a < b; }
    template<typename T> bool equal(const T &a, const T &b) const noexcept { return !(a < b) && !(b < a); }
};
struct Pairs { // coarser than ==: 0 and 1 are equivalent, so are 2 and 3
    template<typename T> static int r(const T &a) { return val(a) >= 0 ? val(a) / 2 : -((1 - val(a)) / 2); }
    template<int L> static int val(const Item<L> &i) { return i.k(); }
    static int val(long long v) { return (int)v; }
    template<typename T> int compare(const T &a, const T &b) const noexcept { return r(a) < r(b) ? -7 : r(a) > r(b) ? 9 : 0; }
    template<typename T> bool equal(const T &a, const T &b) const noexcept { return r(a) == r(b); }
};
struct Fine { // finer than ==: equal keys are ordered by tag, descending
    template<int L> int compare(const Item<L> &a, const Item<L> &b) const noexcept {
        if(a.k() != b.k())
            return a.k() < b.k() ? -1 : 1;
        return a.tag > b.tag ? -1 : a.tag < b.tag;
    }
    template<int L> bool equal(const Item<L> &a, const Item<L> &b) const noexcept { return compare(a, b) == 0; }
};

// Dereferences only inside the range it was made for.
template<typename T> struct CIt {
    T *p = nullptr, *lo = nullptr, *hi = nullptr;
    T &operator*() const {
        if(p < lo || p >= hi)
            g_ctx->fail("element %ld of a range of %ld is accessed", (long)(p - lo), (long)(hi - lo));
        return *p;
    }
    T *operator->() const { return &**this; }
    CIt &operator++() { return ++p, *this; }
    CIt &operator--() { return --p, *this; }
    CIt operator++(int) {
        CIt o(*this);
        ++p;
        return o;
    }
    CIt operator--(int) {
        CIt o(*this);
        --p;
        return o;
    }
    CIt &operator+=(ptrdiff_t n) { return p += n, *this; }
    CIt &operator-=(ptrdiff_t n) { return p -= n, *this; }
    CIt operator+(ptrdiff_t n) const { return CIt{p + n, lo, hi}; }
    CIt operator-(ptrdiff_t n) const { return CIt{p - n, lo, hi}; }
    ptrdiff_t operator-(const CIt &o) const { return p - o.p; }
    T &operator[](ptrdiff_t n) const { return *(*this + n); }
    bool operator==(const CIt &o) const { return p == o.p; }
    bool operator!=(const CIt &o) const { return p != o.p; }
    bool operator<(const CIt &o) const { return p < o.p; }
    bool operator>(const CIt &o) const { return p > o.p; }
    bool operator<=(const CIt &o) const { return p <= o.p; }
    bool operator>=(const CIt &o) const { return p >= o.p; }
};

static std::string showk(const std::vector<int> &v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); ++i) {
        if(i > 60)
            return s + " ... " + std::to_string(v.size()) + " elements]";
        s += (i ? " " : "") + std::to_string(v[i]);
    }
    return s + "]";
}

template<typename T> struct Conv {
    static T make(int key, int) { return (T)key; }
    static bool same(const T &a, const T &b) { return a == b; }
    static constexpr bool tagged = false;
};
template<int L> struct Conv<Item<L>> {
    static Item<L> make(int key, int tag) { return Item<L>(key, tag); }
    static bool same(const Item<L> &a, const Item<L> &b) { return a.key == b.key && a.tag == b.tag; }
    static constexpr bool tagged = true;
};

// One input, run through f(begin, end) on pointers (with neighbours on both sides) or checked
// iterators; then compared with the input sorted by the oracle.
template<typename T> struct Range {
    static const int PAD = 2;
    std::vector<T> v;
    std::vector<T> in;
    Range(const std::vector<int> &keys, int low, int high) {
        v.reserve(keys.size() + 2 * PAD);
        in.reserve(keys.size());
        for(int i = 0; i < PAD; ++i)
            v.push_back(Conv<T>::make(low, -10 - i));
        for(size_t i = 0; i < keys.size(); ++i) {
            v.push_back(Conv<T>::make(keys[i], (int)i));
            in.push_back(Conv<T>::make(keys[i], (int)i));
        }
        for(int i = 0; i < PAD; ++i)
            v.push_back(Conv<T>::make(high, -20 - i));
        lo_ = low;
        hi_ = high;
    }
    int lo_, hi_;
    T *begin() { return v.data() + PAD; }
    T *end() { return v.data() + v.size() - PAD; }
    CIt<T> cb() { return CIt<T>{begin(), begin(), end()}; }
    CIt<T> ce() { return CIt<T>{end(), begin(), end()}; }
    size_t size() const { return in.size(); }
    void neighbours(Ctx &c, const char *what, const std::vector<int> &keys) {
        for(int i = 0; i < PAD; ++i)
            MC_CHECK(c,
                     Conv<T>::same(v[i], Conv<T>::make(lo_, -10 - i)) &&
                         Conv<T>::same(v[v.size() - PAD + i], Conv<T>::make(hi_, -20 - i)),
                     "%s of %s changes something outside the range", what, showk(keys).c_str());
    }
    // The range is a permutation of the input.
    void permutation(Ctx &c, const char *what, const std::vector<int> &keys) {
        neighbours(c, what, keys);
        if constexpr(Conv<T>::tagged) {
            std::vector<char> seen(in.size(), 0);
            for(size_t i = 0; i < in.size(); ++i) {
                auto &e = begin()[i];
                MC_CHECK(c, e.tag >= 0 && (size_t)e.tag < in.size() && !seen[e.tag] && e.key == keys[e.tag],
                         "%s of %s: position %zu holds (%d, #%d), which is not (or no longer) an element", what,
                         showk(keys).c_str(), i, e.key, e.tag);
                seen[e.tag] = 1;
            }
        } else {
            std::vector<T> a(in), b(begin(), end());
            auto less = [](const T &x, const T &y) { return memcmp(&x, &y, sizeof(T)) < 0; };
            std::sort(a.begin(), a.end(), less);
            std::sort(b.begin(), b.end(), less);
            MC_CHECK(c, a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0,
                     "%s of %s: the elements are not those of the input", what, showk(keys).c_str());
        }
    }
    template<typename Cmp> void sorted(Ctx &c, const char *what, const std::vector<int> &keys, size_t from, size_t to, const Cmp &cmp) {
        for(size_t i = from; i + 1 < to; ++i)
            MC_CHECK(c, cmp.compare(begin()[i], begin()[i + 1]) <= 0, "%s of %s: positions %zu and %zu are out of order", what,
                     showk(keys).c_str(), i, i + 1);
    }
    template<typename Cmp> void stable(Ctx &c, const char *what, const std::vector<int> &keys, const Cmp &cmp) {
        for(size_t i = 0; i + 1 < in.size(); ++i)
            MC_CHECK(c, cmp.compare(begin()[i], begin()[i + 1]) < 0 || begin()[i].tag < begin()[i + 1].tag,
                     "%s of %s: the equivalent elements #%d and #%d have changed places", what, showk(keys).c_str(),
                     begin()[i + 1].tag, begin()[i].tag);
    }
};

// ------------------------------------------------------------------ input families

using Keys = std::vector<int>;
using Use = std::function<void(const Keys &)>;

// All arrays over an alphabet: the first choices are the explorer's, the rest are looped over.
static void all_over(Ctx &c, int n, int alphabet, const Use &use) {
    Keys k(n);
    int outer = 0;
    double inner = 1;
    while(outer < n && pow(alphabet, n - outer) > 800)
        ++outer;
    (void)inner;
    for(int i = 0; i < outer; ++i)
        k[i] = c.choose(alphabet);
    c.op("arrays over %d values of length %d starting with %s", alphabet, n, showk(Keys(k.begin(), k.begin() + outer)).c_str());
    std::fill(k.begin() + outer, k.end(), 0);
    for(;;) {
        use(k);
        int i = n - 1;
        while(i >= outer && k[i] == alphabet - 1)
            k[i--] = 0;
        if(i < outer)
            break;
        ++k[i];
    }
}

static void permutations(Ctx &c, int n, const Use &use) {
    Keys pool(n), k;
    for(int i = 0; i < n; ++i)
        pool[i] = i;
    int outer = n > 6 ? n - 6 : 0;
    for(int i = 0; i < outer; ++i) {
        int j = c.choose((int)pool.size());
        k.push_back(pool[j]);
        pool.erase(pool.begin() + j);
    }
    c.op("permutations of %d starting with %s", n, showk(k).c_str());
    do {
        Keys full(k);
        full.insert(full.end(), pool.begin(), pool.end());
        use(full);
    } while(std::next_permutation(pool.begin(), pool.end()));
}

static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }

// Structured arrays of one size; every parameter of every family is enumerated.
static const int NFAMILIES = 9;
static void structured(Ctx &c, int n, int family, bool dense, const Use &use) {
    Keys k(n);
    auto param = [&](int lo, int hi) { // a parameter in [lo, hi): all, or the edges for long arrays
        std::vector<int> v;
        for(int i = lo; i < hi; ++i)
            if(dense || i < lo + 4 || i >= hi - 3 || i == (lo + hi) / 2 || i == (lo + hi) / 3)
                v.push_back(i);
        return v;
    };
    switch(family) {
    case 0:
        for(int i = 0; i < n; ++i)
            k[i] = i;
        use(k);
        std::reverse(k.begin(), k.end());
        use(k);
        std::fill(k.begin(), k.end(), 5);
        use(k);
        for(int i = 0; i < n; ++i)
            k[i] = std::min(i, n - 1 - i);
        use(k);
        for(int i = 0; i < n; ++i)
            k[i] = std::max(i, n - 1 - i);
        use(k);
        for(int i = 0; i < n; ++i)
            k[i] = i % 2 ? i : n - i;
        use(k);
        for(int i = 0; i < n; ++i)
            k[i] = i % 2 ? n + i / 2 : i / 2;
        use(k);
        break;
    case 1: // sorted, one element moved (swapped with nothing else out of order)
        for(int from : param(0, n))
            for(int to : param(0, n)) {
                Keys s;
                for(int i = 0; i < n; ++i)
                    if(i != from)
                        s.push_back(i);
                if(n)
                    s.insert(s.begin() + to, from);
                use(s);
            }
        break;
    case 2: // rotations of ascending and descending
        for(int r : param(0, std::max(n, 1))) {
            for(int i = 0; i < n; ++i)
                k[i] = (i + r) % n;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = n - 1 - (i + r) % n;
            use(k);
        }
        break;
    case 3: // multiplicative permutations
        for(int m : param(1, std::max(n, 2)))
            if(gcd(m, n) == 1) {
                for(int i = 0; i < n; ++i)
                    k[i] = (int)((long long)i * m % n);
                use(k);
            }
        break;
    case 4: // few distinct values, cyclic and in blocks
        for(int m : param(2, std::min(n, 40) + 1)) {
            for(int i = 0; i < n; ++i)
                k[i] = i % m;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = m - i % m;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = (i * 7 / 3) % m;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = (i * i) % m;
            use(k);
        }
        break;
    case 5: // 0..0 1..1 0..0 1..1
        for(int a : param(0, n + 1))
            for(int b : param(a, n + 1)) {
                for(int i = 0; i < n; ++i)
                    k[i] = i < a ? 0 : i < b ? 1 : 0;
                use(k);
                for(int i = 0; i < n; ++i)
                    k[i] = i < a ? 1 : i < b ? 0 : 2;
                use(k);
            }
        break;
    case 6: // two interleaved or concatenated runs
        for(int a : param(0, n + 1)) {
            for(int i = 0; i < n; ++i)
                k[i] = i < a ? 2 * i : 2 * (i - a) + 1;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = i < a ? 2 * (a - i) : 2 * (i - a) + 1;
            use(k);
            for(int i = 0; i < n; ++i)
                k[i] = i < a ? n : i - a;
            use(k);
        }
        break;
    case 7: // all equal but two
        for(int a : param(0, n))
            for(int b : param(0, n)) {
                std::fill(k.begin(), k.end(), 5);
                k[a] = 4;
                k[b] = b == a ? 3 : 6;
                use(k);
                if(a < b) {
                    std::swap(k[a], k[b]);
                    use(k);
                }
            }
        break;
    case 8: // two transpositions in sorted and reversed
        for(int a : param(0, n))
            for(int b : param(a, n)) {
                for(int i = 0; i < n; ++i)
                    k[i] = i;
                if(n) {
                    std::swap(k[a], k[b]);
                    use(k);
                    std::reverse(k.begin(), k.end());
                    use(k);
                }
            }
        break;
    }
}

static const int SIZES[] = {99, 100, 101, 127, 128, 129, 132, 133, 255, 256, 257, 300, 301, 302, 600, 700, 701, 702, 999, 1000, 1001};
static const int QUICK_SIZES[] = {99, 100, 128, 133, 256, 257, 302, 701, 702, 1000, 1578, 3551, 10000};
static const int HUGE_SIZES[] = {1577, 1578, 3550, 3551, 9999, 10000, 10001};

enum Shape { SMALL, STRUCT, LONG };

// The size and the arrays of that size.
static void inputs(Ctx &c, Shape shape, int cap, const Use &use_, int longest = 10001) {
    auto use = [&](const Keys &k) {
        c.state(mc::Hash().bytes(k.data(), k.size() * sizeof(int)).h);
        use_(k);
    };
    if(shape == SMALL) {
        // lengths 0..6 over as many values, 7 over 3 and 7 distinct, 8: distinct, over 2; ...
        static const struct {
            int n, a;
        } t[] = {{0, 1}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 4}, {7, 3}, {7, 0}, {8, 2}, {8, 0}, {9, 3}, {10, 2}, {17, 2}, {18, 2},
                 {9, 0}, {10, 3}, {11, 3}, {12, 2}, {19, 2}, {20, 2}};
        int count = c.bound(14, 21);
        int i = c.choose(count);
        if(t[i].n > cap)
            c.abandon();
        if(t[i].a)
            all_over(c, t[i].n, t[i].a, use);
        else
            permutations(c, t[i].n, use);
    } else if(shape == STRUCT) {
        int n = c.choose(71);
        int f = c.choose(NFAMILIES);
        if(n == 0 && (f == 2 || f == 3 || f == 4))
            c.abandon();
        c.op("structured family %d of length %d", f, n);
        bool dense = n <= 20 || (n >= 31 && n <= 36) || (c.thorough && n <= 70);
        structured(c, n, f, dense, use);
    } else {
        int n;
        if(c.thorough) {
            int i = c.choose(21 + 7);
            n = i < 21 ? SIZES[i] : HUGE_SIZES[i - 21];
        } else
            n = c.pick(QUICK_SIZES);
        if(n > longest)
            c.abandon();
        int f = c.choose(c.thorough || n < 2000 ? NFAMILIES : 1);
        c.op("structured family %d of length %d", f, n);
        structured(c, n, f, false, use);
    }
}

// ------------------------------------------------------------------ C17 / C18

#if defined(PART_SORT) || defined(PART_STABLE)

template<typename T, typename Cmp, typename F>
static void one(Ctx &c, const char *what, const Keys &k, int low, int high, const Cmp &cmp, bool stable, F &&f) {
    Range<T> r(k, low, high);
    c.ops(1);
    f(r);
    r.permutation(c, what, k);
    r.sorted(c, what, k, 0, k.size(), cmp);
    if constexpr(Conv<T>::tagged)
        if(stable)
            r.stable(c, what, k, cmp);
}

// f(begin, end, cmp) as a sort of T, on pointers and on checked iterators, for one order.
template<typename T, typename Cmp, typename F>
static void sort_with(Ctx &c, Shape shape, int cap, const char *what, const Cmp &cmp, bool stable, F &&f) {
    int low = -1000, high = 100000;
    if(std::is_same_v<Cmp, Desc>)
        std::swap(low, high);
    inputs(c, shape, cap, [&](const Keys &k) {
        one<T>(c, what, k, low, high, cmp, stable, [&](Range<T> &r) { f(r.cb(), r.ce(), cmp); });
        if(shape != SMALL || k.size() < 6)
            one<T>(c, what, k, low, high, cmp, stable, [&](Range<T> &r) { f(r.begin(), r.end(), cmp); });
    });
}

#if EPOCH == 2026
struct Intro {
    static constexpr const char *name = "introsort";
    template<typename It, typename Cmp> void operator()(It b, It e, const Cmp &cmp) const { P::introsort(b, e, cmp); }
};
struct Merge {
    static constexpr const char *name = "mergesort";
    template<typename It, typename Cmp> void operator()(It b, It e, const Cmp &cmp) const { P::mergesort(b, e, cmp); }
};
struct Heap {
    static constexpr const char *name = "heapsort";
    template<typename It, typename Cmp> void operator()(It b, It e, const Cmp &cmp) const { P::heapsort(b, e, cmp); }
};
struct Shell {
    static constexpr const char *name = "shell_sort";
    template<typename It, typename Cmp> void operator()(It b, It e, const Cmp &cmp) const { P::shell_sort(b, e, cmp); }
};
struct Insertion {
    static constexpr const char *name = "insertion_sort";
    template<typename It, typename Cmp> void operator()(It b, It e, const Cmp &cmp) const { P::insertion_sort(b, e, cmp); }
};
#endif
#endif

#if EPOCH == 2026 && (defined(PART_SORT) || defined(PART_STABLE))
// Indirect sorts deliver the indices of the sorted order and leave the data alone.
template<typename T, typename Cmp> static void indirect(Ctx &c, Shape shape, const Cmp &cmp, bool with_cmp, bool only_stable = false) {
    bool stable = only_stable || c.choose(2);
    inputs(c, shape, 10, [&](const Keys &k) {
        Range<T> r(k, -1, 1000000);
        std::vector<T> &in = r.in;
        c.ops(1);
        auto idx = stable ? (with_cmp ? P::indirect_stable_sort(r.begin(), r.end(), cmp) : P::indirect_stable_sort(r.begin(), r.end()))
                          : (with_cmp ? P::indirect_sort(r.begin(), r.end(), cmp) : P::indirect_sort(r.begin(), r.end()));
        MC_CHECK(c, idx.size() == k.size(), "indirect sort of %s delivers %zu indices", showk(k).c_str(), idx.size());
        r.permutation(c, "indirect sort", k);
        std::vector<char> seen(k.size(), 0);
        for(size_t i = 0; i < k.size(); ++i) {
            MC_CHECK(c, Conv<T>::same(r.begin()[i], in[i]), "indirect sort of %s changes the data", showk(k).c_str());
            MC_CHECK(c, idx[i] < k.size() && !seen[idx[i]], "indirect sort of %s: index %zu is repeated or outside", showk(k).c_str(), idx[i]);
            seen[idx[i]] = 1;
            if(i) {
                int o = cmp.compare(in[idx[i - 1]], in[idx[i]]);
                MC_CHECK(c, o <= 0, "indirect sort of %s is out of order", showk(k).c_str());
                MC_CHECK(c, !stable || o < 0 || idx[i - 1] < idx[i], "indirect stable sort of %s is not stable", showk(k).c_str());
            }
        }
    });
}
#endif

#ifdef PART_SORT

#if EPOCH == 2026
template<typename T, typename Algo, typename Cmp> static void sort_scn(const char *tag, Shape shape, int cap) {
    std::string name = std::string(Algo::name) + "-" + tag + (shape == SMALL ? "-small" : shape == STRUCT ? "-structured" : "-long");
    const char *bounds = shape == SMALL ? "all arrays: lengths 0-5 over as many values, 6 over 4, 7 over 3 and distinct, 8 over 2 and "
                                          "distinct, 9 over 3, 10 and 17 over 2 (thorough: more)"
                         : shape == STRUCT ? "lengths 0-70, 9 structured families, all parameters up to length 20 and 31-36 (thorough: 70)"
                                           : "13 (thorough: 28) lengths around the thresholds up to 10000, 9 structured families";
    mc::add(name.c_str(), bounds, [shape, cap](Ctx &c) { sort_with<T>(c, shape, cap, Algo::name, Cmp{}, false, Algo{}); }, 2);
}

// The forms without a comparator, on spans, and on plain numbers.
template<typename T> static void numbers(Ctx &c, Shape shape) {
    int which = c.choose(6 + (std::is_unsigned_v<T> ? 2 : 0));
    static const char *const names[] = {"introsort", "mergesort", "heapsort", "shell_sort", "insertion_sort", "introsort descending",
                                        "bucketsort", "radix_sort"};
    // Spread the keys over the whole type, so that every byte matters.
    int spread = c.choose(std::is_unsigned_v<T> ? 4 : 2);
    if(shape == SMALL && spread > 1)
        c.abandon();
    bool big = std::is_same_v<T, uint16_t> || !(std::is_unsigned_v<T>);
    auto value = [&](int k) -> T {
        using U = std::make_unsigned_t<T>;
        U u;
        switch(spread) {
        case 0:
            u = (U)(unsigned)k;
            break;
        case 1: // around the ends of the type
            u = (U)((U)(unsigned)k * (U)0x9E3779B97F4A7C15ull);
            break;
        case 2: // only the top byte differs
            u = (U)((U)(unsigned)k << (sizeof(T) * 8 - 8));
            break;
        default: // the lowest bit never differs, the top bit does
            u = (U)((U)(unsigned)k * 2 | ((U)(k & 1) << (sizeof(T) * 8 - 1)));
            break;
        }
        return (T)u;
    };
    inputs(c, shape, big ? 18 : 10, [&](const Keys &k) {
        std::unique_ptr<T[]> buf(new T[k.size() + 2]); // heap: ASan sees both ends
        T *b = buf.get();
        for(size_t i = 0; i < k.size(); ++i)
            b[1 + i] = value(k[i]);
        const T lo = std::is_unsigned_v<T> ? 0 : (T)((T)1 << (sizeof(T) * 8 - 1)), hi = (T)(lo - 1);
        bool flip = k.size() % 2;
        b[0] = flip ? lo : hi;
        b[k.size() + 1] = flip ? hi : lo;
        std::vector<T> want(b + 1, b + 1 + k.size());
        std::sort(want.begin(), want.end());
        T *e = b + 1 + k.size();
        P::Span<T> sp(b + 1, k.size());
        c.ops(1);
        switch(which) {
        case 0:
            if(k.size() % 3)
                P::introsort(b + 1, e);
            else
                P::introsort(sp);
            break;
        case 1:
            if(k.size() % 3)
                P::mergesort(b + 1, e);
            else if(k.size() % 2)
                P::mergesort(sp);
            else
                P::mergesort(sp, P::DefaultComparator<T>{});
            break;
        case 2:
            if(k.size() % 3)
                P::heapsort(b + 1, e);
            else
                P::heapsort(sp);
            break;
        case 3:
            P::shell_sort(b + 1, e);
            break;
        case 4:
            if(k.size() > 100)
                c.abandon();
            if(k.size() % 3)
                P::insertion_sort(b + 1, e);
            else
                P::insertion_sort(sp);
            break;
        case 5:
            P::introsort(b + 1, e, Desc{});
            std::reverse(want.begin(), want.end());
            break;
        case 6:
            if constexpr(std::is_unsigned_v<T>)
                P::bucketsort(b + 1, e);
            break;
        case 7:
            if constexpr(std::is_unsigned_v<T>) {
                if(k.size() % 3)
                    P::radix_sort(b + 1, e);
                else
                    P::radix_sort(sp);
            }
            break;
        }
        MC_CHECK(c, std::equal(want.begin(), want.end(), b + 1), "%s of %s (spread %d) is not the sorted input", names[which],
                 showk(k).c_str(), spread);
        MC_CHECK(c, b[0] == (flip ? lo : hi) && *e == (flip ? hi : lo), "%s of %s changes something outside the range", names[which],
                 showk(k).c_str());
    });
}

// Every multiset of one repeated value with a few others, long enough to overflow small counters.
template<typename T> static void repeated(Ctx &c) {
    int n = c.pick({255, 256, 257, 300, 511, 512, 513, 1024});
    int a = c.choose(4), b = c.choose(4);
    c.op("%d equal elements among others, of %zu bytes", n, sizeof(T));
    static const uint64_t vals[] = {0, 1, 0x80, 0xff};
    std::vector<T> in;
    for(int i = 0; i < n; ++i)
        in.push_back((T)(vals[a] * 0x0101010101010101ull));
    for(int i = 0; i < n / 4; ++i)
        in.insert(in.begin() + i * 3, (T)vals[b]);
    std::vector<T> want(in);
    std::sort(want.begin(), want.end());
    std::vector<T> v(in);
    P::bucketsort(v.data(), v.data() + v.size());
    MC_CHECK(c, v == want, "bucketsort of %zu elements is not the sorted input", v.size());
    v = in;
    P::radix_sort(v.data(), v.data() + v.size());
    MC_CHECK(c, v == want, "radix_sort of %zu elements is not the sorted input", v.size());
}

// Floating point, with NaN, signed zeros and infinities, under the total order.
template<typename T> static void floats(Ctx &c) {
    static const T vals[] = {(T)0.0, (T)1.5, (T)-2, (T)INFINITY, (T)-INFINITY, (T)NAN, (T)1e-30, (T)-0.0};
    int which = c.choose(4);
    bool structure = c.choose(2);
    P::FloatTotalOrderComparator<T> cmp;
    auto use = [&](const Keys &k) {
        std::vector<T> v;
        for(int x : k)
            v.push_back(vals[x % 8]);
        auto bits = [](T x) {
            uint64_t b = 0;
            memcpy(&b, &x, sizeof(T));
            return b;
        };
        std::vector<uint64_t> before, after;
        for(T x : v)
            before.push_back(bits(x));
        std::sort(before.begin(), before.end());
        T *b = v.data(), *e = b + v.size();
        c.ops(1);
        switch(which) {
        case 0:
            P::introsort(b, e, cmp);
            break;
        case 1:
            P::mergesort(b, e, cmp);
            break;
        case 2:
            P::heapsort(b, e, cmp);
            break;
        case 3:
            P::shell_sort(b, e, cmp);
            break;
        }
        bool nan = false;
        for(size_t i = 0; i < v.size(); ++i) {
            MC_CHECK(c, !nan || v[i] != v[i], "floating sort %d: a number follows a NaN", which);
            nan = nan || v[i] != v[i];
            MC_CHECK(c, i == 0 || nan || v[i - 1] <= v[i], "floating sort %d of %s is out of order", which, showk(k).c_str());
            after.push_back(bits(v[i]));
        }
        std::sort(after.begin(), after.end());
        MC_CHECK(c, before == after, "floating sort %d of %s: the elements are not those of the input", which, showk(k).c_str());
    };
    if(structure) {
        int n = c.choose(50), f = c.choose(NFAMILIES);
        if(n == 0)
            c.abandon();
        c.op("structured family %d of length %d", f, n);
        structured(c, n, f, n >= 31 && n <= 36, use);
    } else
        all_over(c, c.choose(c.bound(6, 7)), 8, use);
}

#else // 2025 has insertion sort only
template<typename T> static void insertion25(Ctx &c, Shape shape) {
    inputs(c, shape, 17, [&](const Keys &k) {
        if(k.size() > 100)
            c.abandon();
        one<T>(c, "insertion_sort", k, -1000, 100000, Asc{}, false, [&](Range<T> &r) {
            if(k.size() % 3 == 0) {
                P::Span<T> sp(r.begin(), k.size());
                P::insertion_sort(sp);
            } else if(k.size() % 3 == 1)
                P::insertion_sort(r.begin(), r.end());
            else
                P::insertion_sort(r.cb(), r.ce());
        });
    });
}
#endif
#endif

#ifdef PART_STABLE
// Every predicate is the mask of kept keys.
template<typename T> static void stable_part(Ctx &c, Shape shape) {
    bool span = c.choose(2);
    inputs(c, shape, 18, [&](const Keys &k) {
        for(int mod = 2; mod <= (shape == SMALL ? 2 : 3); ++mod) {
            Range<T> r(k, 0, 1);
            auto pred = [&](const T &t) { return t.k() % mod != 0; };
            c.ops(1);
            size_t got;
            if(span) {
                P::Span<T> sp(r.begin(), k.size());
                got = P::stable_partition(sp, pred);
            } else
                got = P::stable_partition(r.cb(), r.ce(), pred) - r.cb();
            std::vector<T> want(r.in);
            size_t n = std::stable_partition(want.begin(), want.end(), pred) - want.begin();
            MC_CHECK(c, got == n, "stable_partition of %s returns %zu, expected %zu", showk(k).c_str(), got, n);
            for(size_t i = 0; i < k.size(); ++i)
                MC_CHECK(c, Conv<T>::same(r.begin()[i], want[i]), "stable_partition of %s: position %zu holds #%d, expected #%d",
                         showk(k).c_str(), i, r.begin()[i].tag, want[i].tag);
            r.neighbours(c, "stable_partition", k);
        }
    }, 1001);
}

template<typename T, typename Algo, typename Cmp> static void stable_scn(const char *tag, Shape shape, int cap) {
    std::string name = std::string(Algo::name) + "-" + tag + (shape == SMALL ? "-small" : shape == STRUCT ? "-structured" : "-long");
    const char *bounds = shape == SMALL ? "all arrays of tagged elements: lengths 0-5 over as many keys, 6 over 4, 7-9 over 3, 2, 3, 10 and 17 over 2"
                         : shape == STRUCT ? "lengths 0-70, 9 structured families, all parameters up to length 20 and 31-36 (thorough: 70)"
                                           : "13 (thorough: 28) lengths around the thresholds up to 10000, 9 structured families";
    mc::add(name.c_str(), bounds, [shape, cap](Ctx &c) { sort_with<T>(c, shape, cap, Algo::name, Cmp{}, true, Algo{}); }, 2);
}
#endif

// ------------------------------------------------------------------ C19

#ifdef PART_ALGO
#if EPOCH == 2026
template<typename T> struct Arena { // places a range so that (address >> sizeof(T)) % n == residue
    std::unique_ptr<char[]> mem;
    T *at = nullptr;
    size_t n;
    Arena(size_t n_, size_t residue, const Keys &k, const std::function<T(int, int)> &make) : n(n_) {
        size_t step = (size_t)1 << sizeof(T);
        if(step < alignof(T))
            step = alignof(T);
        mem.reset(new char[n * sizeof(T) + (n + 2) * step + 64]);
        uintptr_t base = (uintptr_t)mem.get();
        base = (base + step - 1) / step * step;
        while((base >> sizeof(T)) % n != residue)
            base += step;
        at = (T *)base;
        for(size_t i = 0; i < n; ++i)
            new(at + i) T(make(k[i], (int)i));
    }
};

template<typename T, typename Cmp> static void nth(Ctx &c, Shape shape, int cap, const Cmp &cmp, bool with_cmp) {
    // 0: nth_element, 1: partial_sort, 2: nth_element on a span
    int form = c.choose(3);
    if(form == 1 && std::is_same_v<T, Low>)
        c.abandon(); // introsort needs a limit of at least 5, the largest median
    inputs(c, shape, cap, [&](const Keys &k) {
        size_t n = k.size();
        std::vector<T> sorted;
        for(size_t i = 0; i < n; ++i)
            sorted.push_back(Conv<T>::make(k[i], (int)i));
        std::stable_sort(sorted.begin(), sorted.end(), [&](const T &a, const T &b) { return cmp.compare(a, b) < 0; });
        size_t ranks[12], nr = 0, res[12], ns = 0;
        auto put = [](size_t *a, size_t &m, size_t v) {
            for(size_t i = 0; i < m; ++i)
                if(a[i] == v)
                    return;
            a[m++] = v;
        };
        if(n <= 12 && shape == SMALL && n) {
            // Every rank; the pivot residues are spread over them, all for short arrays.
            for(size_t i = 0; i < n; ++i)
                put(ranks, nr, i);
            for(size_t i = 0; i < n; ++i)
                if(n <= 5 || i == (size_t)(k[0] + k[n - 1] + k[n / 2]) % n || i == (size_t)k[1] % n)
                    put(res, ns, i);
        } else if(n) {
            for(size_t v : {(size_t)0, n / 3, n / 2, n - 1})
                if(c.thorough || v != n / 3)
                    put(ranks, nr, v);
            for(size_t v : {n / 2, n - 1, (size_t)0})
                if(c.thorough || ns < (shape == LONG ? 1 : 2))
                    put(res, ns, v);
        }
        for(size_t x = 0; x < nr; ++x)
            for(size_t y = 0; y < ns; ++y) {
                size_t want = ranks[x];
                Arena<T> a(n, res[y], k, [](int key, int tag) { return Conv<T>::make(key, tag); });
                T *b = a.at, *e = b + n;
                c.ops(1);
                CIt<T> cb{b, b, e}, ce{e, b, e};
                size_t got;
                switch(form) {
                case 0:
                    got = with_cmp ? P::nth_element(cb, ce, want, cmp) - cb : P::nth_element(b, e, want) - b;
                    break;
                case 1:
                    got = with_cmp ? P::partial_sort(cb, ce, want, cmp) - cb : P::partial_sort(b, e, want) - b;
                    break;
                default: {
                    P::Span<T> sp(b, n);
                    got = with_cmp ? P::nth_element(sp, want, cmp) : P::nth_element(sp, want);
                }
                }
                const char *what = form == 1 ? "partial_sort" : "nth_element";
                MC_CHECK(c, got == want, "%s(%zu) of %s returns position %zu", what, want, showk(k).c_str(), got);
                MC_CHECK(c, cmp.compare(b[want], sorted[want]) == 0, "%s(%zu) of %s: that position holds another element", what, want,
                         showk(k).c_str());
                for(size_t i = 0; i < n; ++i)
                    MC_CHECK(c, i < want ? cmp.compare(b[i], b[want]) <= 0 : cmp.compare(b[i], b[want]) >= 0,
                             "%s(%zu) of %s: position %zu is on the wrong side", what, want, showk(k).c_str(), i);
                if(form == 1)
                    for(size_t i = 0; i < want; ++i)
                        MC_CHECK(c, cmp.compare(b[i], b[i + 1]) <= 0, "partial_sort(%zu) of %s: position %zu is out of order", want,
                                 showk(k).c_str(), i);
                if constexpr(Conv<T>::tagged) {
                    std::vector<char> seen(n, 0);
                    for(size_t i = 0; i < n; ++i) {
                        MC_CHECK(c, b[i].tag >= 0 && (size_t)b[i].tag < n && !seen[b[i].tag] && b[i].key == k[b[i].tag],
                                 "%s(%zu) of %s: the elements are not those of the input", what, want, showk(k).c_str());
                        seen[b[i].tag] = 1;
                    }
                } else {
                    std::vector<T> s(b, e), w(sorted);
                    std::sort(s.begin(), s.end());
                    std::sort(w.begin(), w.end());
                    MC_CHECK(c, s == w, "%s(%zu) of %s: the elements are not those of the input", what, want, showk(k).c_str());
                }
            }
        if(shape == SMALL && n <= 3) {
            std::vector<T> v;
            for(size_t i = 0; i < n; ++i)
                v.push_back(Conv<T>::make(k[i], (int)i));
            v.reserve(1);
            for(size_t bad : {n, n + 1, (size_t)-1}) {
                bool threw = throws([&] {
                    if(form == 1)
                        P::partial_sort(v.data(), v.data() + n, bad, cmp);
                    else
                        P::nth_element(v.data(), v.data() + n, bad, cmp);
                });
                MC_CHECK(c, threw, "nth_element/partial_sort(%zu) of %zu elements is accepted", bad, n);
            }
        }
    }, 1001);
}

template<typename T> static void rotations(Ctx &c) {
    int n = c.choose(c.bound(34, 80));
    int form = c.choose(2);
    c.op("rotate %d elements", n);
    Keys k(n);
    for(int i = 0; i < n; ++i)
        k[i] = i;
    for(int m = 0; m <= n; ++m) {
        Range<T> r(k, -5, -5);
        c.ops(1);
        size_t got = form ? P::rotate(P::Span<T>(r.begin(), n), m) - r.begin() : P::rotate(r.cb(), r.cb() + m, r.ce()) - r.cb();
        MC_CHECK(c, got == (size_t)(n - m), "rotate by %d of %d: the first element is said to be at %zu", m, n, got);
        for(int i = 0; i < n; ++i)
            MC_CHECK(c, Conv<T>::same(r.begin()[i], r.in[(i + m) % n]), "rotate by %d of %d: position %d is wrong", m, n, i);
        r.neighbours(c, "rotate", k);
    }
    for(int back = 0; back < 2; ++back) {
        Range<T> r(k, -5, -5);
        if(back)
            P::rotate_first_to_back(r.cb(), r.ce());
        else
            P::rotate_last_to_front(r.cb(), r.ce());
        for(int i = 0; i < n; ++i)
            MC_CHECK(c, Conv<T>::same(r.begin()[i], r.in[back ? (i + 1) % n : (i + n - 1) % n]), "rotate by one of %d: position %d is wrong", n, i);
        r.neighbours(c, "rotate by one", k);
    }
    c.state(mc::Hash().add(n).h);
}

// Rotations of long arrays; every middle of some lengths, selected ones of the others.
template<typename T> static void rotations_long(Ctx &c, bool huge) {
    static const int huge_sizes[] = {4095, 4096, 4097, 65535, 65536, 65537, 1000000};
    int n = huge ? c.pick(huge_sizes) : 34 + c.choose(c.bound(230, 270));
    int form = c.choose(2);
    bool all = !huge && (n % 8 == 0 || (n >= 252 && n <= 258) || c.thorough);
    std::vector<int> ms;
    for(int m = 0; m <= n; ++m)
        if(all || m < 3 || m > n - 3 || m == n / 2 || m == n / 2 - 1 || m == n / 2 + 1 || m == n / 3 || m == 128 || m == 255 || m == 256 ||
           m == 65536)
            ms.push_back(m);
    int m = ms[c.choose(ms.size())];
    c.op("rotate %d elements by %d", n, m);
    std::vector<T> v(n + 2);
    for(int i = 0; i < n + 2; ++i)
        v[i] = Conv<T>::make(i, i);
    T *b = v.data() + 1;
    size_t got = form ? P::rotate(P::Span<T>(b, n), m) - b : P::rotate(b, b + m, b + n) - b;
    MC_CHECK(c, got == (size_t)(n - m), "rotate by %d of %d: the first element is said to be at %zu", m, n, got);
    for(int i = 0; i < n; ++i) {
        int k = (i + m) % n + 1;
        MC_CHECK(c, Conv<T>::same(b[i], Conv<T>::make(k, k)), "rotate by %d of %d: position %d is wrong", m, n, i);
    }
    MC_CHECK(c, Conv<T>::same(v[0], Conv<T>::make(0, 0)) && Conv<T>::same(v[n + 1], Conv<T>::make(n + 1, n + 1)),
             "rotate by %d of %d writes outside", m, n);
    c.state(mc::Hash().add(n).add(m).h);
}
#endif

template<typename T> static void partitions(Ctx &c, Shape shape) {
    int form = c.choose(3);
    inputs(c, shape, 18, [&](const Keys &k) {
        for(int mod = 2; mod <= (shape == SMALL ? 2 : 3); ++mod) {
            Range<T> r(k, mod - 1, 0);
            auto pred = [&](const T &t) { return Pairs::val(t) % mod != 0; };
            c.ops(1);
            size_t got;
            if(form == 0)
                got = P::partition(r.cb(), r.ce(), [&](const T &t) { return pred(t); }) - r.cb();
            else if(form == 1)
                got = P::partition(r.begin(), r.end(), [&](const T &t) { return pred(t); }) - r.begin();
            else {
#if EPOCH == 2026
                P::Span<T> sp(r.begin(), k.size());
                got = P::partition(sp, pred);
#else
                c.abandon();
#endif
            }
            size_t n = 0;
            for(auto &e : r.in)
                n += pred(e);
            MC_CHECK(c, got == n, "partition of %s returns %zu, expected %zu", showk(k).c_str(), got, n);
            for(size_t i = 0; i < k.size(); ++i)
                MC_CHECK(c, pred(r.begin()[i]) == (i < n), "partition of %s: position %zu is on the wrong side", showk(k).c_str(), i);
            r.permutation(c, "partition", k);
        }
    }, 1001);
}

template<typename T> static void searches(Ctx &c, Shape shape) {
    inputs(c, shape, 9, [&](const Keys &k) {
        Range<T> r(k, -3, 100000);
        size_t n = k.size();
        auto b = r.cb(), e = r.ce();
        c.ops(1);
        int top = n ? *std::max_element(k.begin(), k.end()) + 2 : 1;
        if(top > 12)
            top = 12;
        for(int v = -1; v < top; ++v) {
            size_t want = std::find(k.begin(), k.end(), v) - k.begin();
            size_t got = P::find(b, e, Conv<T>::make(v, 0)) - b;
            MC_CHECK(c, got == want, "find(%d) in %s returns %zu, expected %zu", v, showk(k).c_str(), got, want);
            auto is = [&](const T &t) { return Pairs::val(t) == v; };
            got = P::find_if(b, e, [&](const T &t) { return is(t); }) - b;
            MC_CHECK(c, got == want, "find_if(== %d) in %s returns %zu, expected %zu", v, showk(k).c_str(), got, want);
            want = std::find_if(k.begin(), k.end(), [&](int x) { return x != v; }) - k.begin();
            got = P::find_if_not(b, e, [&](const T &t) { return is(t); }) - b;
            MC_CHECK(c, got == want, "find_if_not(== %d) in %s returns %zu, expected %zu", v, showk(k).c_str(), got, want);
        }
#if EPOCH == 2026
        size_t mn = P::min_element(b, e, Asc{}) - b, mx = P::max_element(b, e, Asc{}) - b;
        size_t wmn = std::min_element(k.begin(), k.end()) - k.begin();
        size_t wmx = std::max_element(k.begin(), k.end()) - k.begin();
        MC_CHECK(c, mn == wmn, "min_element of %s is %zu, expected %zu", showk(k).c_str(), mn, wmn);
        MC_CHECK(c, mx == wmx, "max_element of %s is %zu, expected %zu", showk(k).c_str(), mx, wmx);
        mn = P::min_element(b, e, Desc{}) - b;
        MC_CHECK(c, mn == wmx, "min_element (descending) of %s is %zu, expected %zu", showk(k).c_str(), mn, wmx);
        mn = P::min_element(b, e) - b;
        MC_CHECK(c, mn == wmn, "min_element of %s is %zu, expected %zu", showk(k).c_str(), mn, wmn);
        bool s = std::is_sorted(k.begin(), k.end());
        MC_CHECK(c, P::is_sorted(b, e, Asc{}) == s, "is_sorted(%s) is wrong", showk(k).c_str());
        bool d = std::is_sorted(k.begin(), k.end(), std::greater<int>());
        MC_CHECK(c, P::is_sorted(b, e, Desc{}) == d, "is_sorted(%s, descending) is wrong", showk(k).c_str());
#else
        size_t mn = P::min_element(b, e) - b;
        size_t wmn = std::min_element(k.begin(), k.end()) - k.begin();
        MC_CHECK(c, mn == wmn, "min_element of %s is %zu, expected %zu", showk(k).c_str(), mn, wmn);
#endif
        for(size_t i = 0; i < n; ++i)
            MC_CHECK(c, Conv<T>::same(r.begin()[i], r.in[i]), "a search changes %s", showk(k).c_str());
    }, 1001);
}

// lower_bound over long sorted arrays.
template<typename T> static void bounds_long(Ctx &c) {
    static const int sizes[] = {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000};
    int n = c.choose(301 + (int)(sizeof(sizes) / sizeof(*sizes)));
    n = n < 301 ? n : sizes[n - 301];
    int style = c.choose(4); // distinct keys, pairs, blocks, one value
    auto key = [&](int i) { return 2 * (style == 0 ? i : style == 1 ? i / 2 : style == 2 ? i / 37 : 0); };
    std::vector<int> k(n);
    std::vector<T> v;
    v.reserve(n);
    for(int i = 0; i < n; ++i) {
        k[i] = key(i);
        v.push_back(Conv<T>::make(k[i], 0));
    }
    c.op("lower_bound in %d elements, style %d", n, style);
    for(int i = 0; i <= n; ++i) {
        if(n > 300 && i > 40 && i < n - 40 && i % (n / 50) > 1 && (i & (i - 1)) && i != n / 2 + 1)
            continue;
        for(int d = -1; d <= 1; ++d) {
            int x = (i < n ? k[i] : n ? k[n - 1] + 2 : 0) + d;
            size_t want = std::lower_bound(k.begin(), k.end(), x) - k.begin();
            T value = Conv<T>::make(x, 0);
            size_t got = P::lower_bound(v.data(), v.data() + n, value) - v.data();
            c.ops(1);
            MC_CHECK(c, got == want, "lower_bound(%d) in %d elements of style %d returns %zu, expected %zu", x, n, style, got, want);
        }
    }
    c.state(mc::Hash().add(n).add(style).h);
}

// lower_bound over every sorted array.
template<typename T> static void bounds(Ctx &c) {
    int n = c.choose(c.bound(10, 14));
    int maxkey = 4;
    std::function<void(Keys &)> rec = [&](Keys &k) {
        if((int)k.size() == n) {
            Range<T> r(k, 100, -100);
            auto b = r.cb(), e = r.ce();
            for(int v = -1; v <= maxkey + 1; ++v) {
                size_t want = std::lower_bound(k.begin(), k.end(), v) - k.begin();
                c.ops(1);
                T value = Conv<T>::make(v, 0);
                auto it = P::lower_bound(b, e, value);
                MC_CHECK(c, it.p == r.begin() + want, "lower_bound(%d) in %s returns position %ld, expected %zu", v, showk(k).c_str(),
                         (long)(it.p - r.begin()), want);
#if EPOCH == 2026
                T *p = P::lower_bound(r.begin(), r.end(), value, Asc{});
                Keys rk(k);
                std::reverse(rk.begin(), rk.end());
                Range<T> rr(rk, 0, 0);
                size_t dwant = std::lower_bound(rk.begin(), rk.end(), v, std::greater<int>()) - rk.begin();
                size_t dgot = P::lower_bound(rr.begin(), rr.end(), value, Desc{}) - rr.begin();
                MC_CHECK(c, dgot == dwant, "lower_bound(%d, descending) in %s returns %zu, expected %zu", v, showk(rk).c_str(), dgot, dwant);
#else
                T *p = P::lower_bound(r.begin(), r.end(), value, [](const T &x, const T &y) { return x < y; });
#endif
                MC_CHECK(c, p == r.begin() + want, "lower_bound(%d) in %s returns position %ld, expected %zu", v, showk(k).c_str(),
                         (long)(p - r.begin()), want);
            }
            return;
        }
        for(int x = k.empty() ? 0 : k.back(); x <= maxkey; ++x) {
            k.push_back(x);
            rec(k);
            k.pop_back();
        }
    };
    Keys k;
    c.op("all sorted arrays of length %d over %d keys", n, maxkey + 1);
    rec(k);
}

// swap of every pair, an element with itself included.
template<typename T> static void swaps(Ctx &c) {
    int i = c.choose(3), j = c.choose(3);
    Range<T> r(Keys{1, 2, 3}, 0, 0);
    c.op("swap %d, %d", i, j);
    P::swap(r.begin()[i], r.begin()[j]);
    std::swap(r.in[i], r.in[j]);
    for(int x = 0; x < 3; ++x)
        MC_CHECK(c, Conv<T>::same(r.begin()[x], r.in[x]), "swap(%d, %d): element %d is wrong", i, j, x);
#if EPOCH == 2026
    T tmp = Conv<T>::make(0, 0);
    P::swap(r.begin()[i], r.begin()[j], tmp);
    std::swap(r.in[i], r.in[j]);
    for(int x = 0; x < 3; ++x)
        MC_CHECK(c, Conv<T>::same(r.begin()[x], r.in[x]), "swap(%d, %d) with a temporary: element %d is wrong", i, j, x);
#endif
}
#endif

void mc::mc_register() {
#ifdef PART_SORT
#if EPOCH == 2026
    for(Shape s : {SMALL, STRUCT, LONG}) {
        sort_scn<Big, Intro, Asc>("asc", s, 18);
        sort_scn<Big, Intro, Pairs>("coarse", s, 10);
        sort_scn<Big, Intro, Fine>("fine", s, 10);
        sort_scn<Big, Merge, Asc>("asc", s, 10);
        sort_scn<Big, Merge, Desc>("desc", s, 10);
        sort_scn<Big, Heap, Asc>("asc", s, 18);
        sort_scn<Big, Heap, Desc>("desc", s, 18);
        sort_scn<Big, Shell, Asc>("asc", s, 10);
        sort_scn<Big, Shell, Desc>("desc", s, 10);
        sort_scn<Big, Shell, Pairs>("coarse", s, 10);
        const char *how = s == SMALL ? "numbers-small" : s == STRUCT ? "numbers-structured" : "numbers-long";
        const char *b = s == SMALL ? "all sorts of all short arrays of numbers" : "all sorts of structured arrays of numbers, 2-4 spreads over the type";
        mc::add((std::string(how) + "-u8").c_str(), b, [s](Ctx &c) { numbers<uint8_t>(c, s); }, 3);
        mc::add((std::string(how) + "-u16").c_str(), b, [s](Ctx &c) { numbers<uint16_t>(c, s); }, 3);
        mc::add((std::string(how) + "-u32").c_str(), b, [s](Ctx &c) { numbers<uint32_t>(c, s); }, 3);
        mc::add((std::string(how) + "-u64").c_str(), b, [s](Ctx &c) { numbers<uint64_t>(c, s); }, 3);
        mc::add((std::string(how) + "-i8").c_str(), b, [s](Ctx &c) { numbers<int8_t>(c, s); }, 3);
        mc::add((std::string(how) + "-i32").c_str(), b, [s](Ctx &c) { numbers<int32_t>(c, s); }, 3);
        mc::add((std::string(how) + "-i64").c_str(), b, [s](Ctx &c) { numbers<int64_t>(c, s); }, 3);
        mc::add(s == SMALL ? "indirect-small" : s == STRUCT ? "indirect-structured" : "indirect-long", b, [s](Ctx &c) {
            switch(c.choose(3)) {
            case 0:
                indirect<int, Asc>(c, s, Asc{}, false);
                break;
            case 1:
                indirect<Big, Desc>(c, s, Desc{}, true);
                break;
            default:
                indirect<Big, Pairs>(c, s, Pairs{}, true);
            }
        }, 3);
    }
    sort_scn<Big, Insertion, Asc>("asc", SMALL, 18);
    sort_scn<Big, Insertion, Desc>("desc", STRUCT, 18);
    sort_scn<Mid, Intro, Asc>("limit8", SMALL, 20);
    sort_scn<Mid, Intro, Pairs>("limit8-coarse", SMALL, 20);
    sort_scn<Mid, Intro, Fine>("limit8-fine", SMALL, 20);
    sort_scn<Low, Merge, Asc>("limit2", SMALL, 20);
    sort_scn<Low, Merge, Pairs>("limit2-coarse", SMALL, 20);
    mc::add("repeated", "255 to 1024 equal elements of each unsigned type among others", [](Ctx &c) {
        switch(c.choose(4)) {
        case 0:
            repeated<uint8_t>(c);
            break;
        case 1:
            repeated<uint16_t>(c);
            break;
        case 2:
            repeated<uint32_t>(c);
            break;
        default:
            repeated<uint64_t>(c);
        }
    });
    mc::add("floats", "all arrays of up to 5 (thorough: 6) of 8 floating values; structured arrays of up to 49", [](Ctx &c) {
        if(c.choose(2))
            floats<float>(c);
        else
            floats<double>(c);
    }, 4);
#else
    for(Shape s : {SMALL, STRUCT}) {
        mc::add(s == SMALL ? "insertion-small" : "insertion-structured", "all short / structured arrays", [s](Ctx &c) { insertion25<Big>(c, s); });
        mc::add(s == SMALL ? "insertion-int-small" : "insertion-int-structured", "all short / structured arrays", [s](Ctx &c) { insertion25<int>(c, s); });
    }
#endif
#endif
#ifdef PART_STABLE
    for(Shape s : {SMALL, STRUCT, LONG}) {
        stable_scn<Big, Merge, Asc>("asc", s, 18);
        stable_scn<Big, Merge, Pairs>("coarse", s, 10);
        if(s != LONG) {
            stable_scn<Big, Insertion, Asc>("asc", s, 18);
            stable_scn<Big, Insertion, Desc>("desc", s, 18);
        }
        mc::add(s == SMALL ? "stable_partition-small" : s == STRUCT ? "stable_partition-structured" : "stable_partition-long",
                "all arrays of tagged elements, by parity and by remainder of 3", [s](Ctx &c) { stable_part<Big>(c, s); }, 3);
    }
    for(Shape s : {SMALL, STRUCT, LONG})
        mc::add(s == SMALL ? "indirect_stable-small" : s == STRUCT ? "indirect_stable-structured" : "indirect_stable-long",
                "all short, structured and long arrays, two orders", [s](Ctx &c) {
            if(c.choose(2))
                indirect<Big, Desc>(c, s, Desc{}, true, true);
            else
                indirect<Big, Pairs>(c, s, Pairs{}, true, true);
        }, 3);
    stable_scn<Low, Merge, Asc>("limit2", SMALL, 20);
    stable_scn<Low, Merge, Pairs>("limit2-coarse", SMALL, 20);
    stable_scn<Low, Merge, Pairs>("limit2-coarse", STRUCT, 20);
#endif
#ifdef PART_ALGO
    for(Shape s : {SMALL, STRUCT, LONG}) {
        std::string suffix = s == SMALL ? "-small" : s == STRUCT ? "-structured" : "-long";
#if EPOCH == 2026
        mc::add(("nth" + suffix).c_str(), "every rank and pivot start of short arrays, selected ones of structured arrays", [s](Ctx &c) {
            switch(c.choose(4)) {
            case 0:
                nth<int, Asc>(c, s, 8, Asc{}, false);
                break;
            case 1:
                nth<Big, Pairs>(c, s, 8, Pairs{}, true);
                break;
            case 2:
                nth<Mid, Asc>(c, s, 10, Asc{}, true);
                break;
            default:
                nth<Low, Desc>(c, s, 8, Desc{}, true);  // nth_element only
            }
        }, 4);
#endif
        mc::add(("partition" + suffix).c_str(), "all arrays by parity and by remainder of 3", [s](Ctx &c) {
            if(c.choose(2))
                partitions<Big>(c, s);
            else
                partitions<int>(c, s);
        }, 4);
        mc::add(("search" + suffix).c_str(), "find, find_if, find_if_not, min/max_element, is_sorted", [s](Ctx &c) {
            if(c.choose(2))
                searches<Big>(c, s);
            else
                searches<int>(c, s);
        }, 3);
    }
    mc::add("lower_bound", "all sorted arrays of up to 9 (thorough: 13) elements over 5 keys, every value", [](Ctx &c) {
        if(c.choose(2))
            bounds<Big>(c);
        else
            bounds<int>(c);
    });
    mc::add("lower_bound-long", "sorted arrays of 0 to 300 and of 13 sizes up to 100000 elements, 4 ways to repeat keys, every position", [](Ctx &c) {
        if(c.choose(2))
            bounds_long<Big>(c);
        else
            bounds_long<int>(c);
    });
    mc::add("swap", "every pair of three elements", [](Ctx &c) {
        if(c.choose(2))
            swaps<Big>(c);
        else
            swaps<int>(c);
    });
#if EPOCH == 2026
    mc::add("rotate", "all rotations of up to 33 (thorough: 79) elements", [](Ctx &c) {
        if(c.choose(2))
            rotations<Big>(c);
        else
            rotations<int>(c);
    });
    mc::add("rotate-long", "34 to 263 (thorough: 303) elements, every middle of some lengths, 13 of the others", [](Ctx &c) {
        if(c.choose(2))
            rotations_long<Big>(c, false);
        else
            rotations_long<int>(c, false);
    });
    mc::add("rotate-huge", "7 lengths from 4095 to 1000000, 13 middles", [](Ctx &c) { rotations_long<int>(c, true); });
#endif
#endif
}
