// B-tree sets and maps.  Keys are labels on a dense line, so that a new key can be inserted at any
// rank; what decides the tree's future is its shape, which is observed through the comparisons a
// lookup makes and the storage order of the entries.
#include <memory>
#include "common.hpp"
#if EPOCH == 2026
#include <pystd2026_btree.hpp>
#else
#include <pystd2025_btree.hpp>
#endif

static bool g_tracing_cmp = false;
static uint64_t g_trace;
static std::vector<__int128> *g_sorted; // to express a key as its rank

static const void *g_probe; // the search key: the other operand is the stored entry

struct LKey {
    __int128 k = 0;
    int tag = 0; // which of several equal keys
    LKey() noexcept = default;
    LKey(__int128 k_, int t) noexcept : k(k_), tag(t) {}
    static void saw(const LKey &a, const LKey &b) {
        if(!g_tracing_cmp)
            return;
        const LKey &o = &a == g_probe ? b : a;
        size_t r = std::lower_bound(g_sorted->begin(), g_sorted->end(), o.k) - g_sorted->begin();
        g_trace = mc::mix(g_trace ^ (r + 1));
    }
    bool operator<(const LKey &o) const {
        saw(*this, o);
        return k < o.k;
    }
    bool operator==(const LKey &o) const { return k == o.k; }
    bool operator==(uint32_t o) const { return k == (__int128)o; }
};

struct Model {
    std::vector<__int128> keys; // sorted
    std::vector<int> tags;
    __int128 gap(int r) const { // a new label at rank r
        // New labels at the ends are far apart, those in between halve the gap.
        if(keys.empty())
            return 0;
        if(r == (int)keys.size())
            return keys.back() + (__int128(1) << 110);
        if(r == 0)
            return keys.front() - (__int128(1) << 110);
        __int128 lo = keys[r - 1];
        __int128 hi = keys[r];
        __int128 m = lo + (hi - lo) / 2;
        if(m == lo || m == hi)
            abort();
        return m;
    }
    void insert(int r, __int128 k, int tag) {
        keys.insert(keys.begin() + r, k);
        tags.insert(tags.begin() + r, tag);
    }
    void remove(int r) {
        keys.erase(keys.begin() + r);
        tags.erase(tags.begin() + r);
    }
};

template<size_t E> static void same(Ctx &c, P::BTree<LKey, E> &t, const Model &m) {
    size_t n = m.keys.size();
    const auto &k = t;
    MC_CHECK(c, k.size() == n && (bool)k.is_empty() == (n == 0), "BTree: size %zu, expected %zu",
             k.size(), n);
    for(size_t i = 0; i < n; ++i) {
        const LKey *p = k.lookup(LKey(m.keys[i], 0));
        MC_CHECK(c, p, "BTree: entry of rank %zu of %zu is lost", i, n);
        MC_CHECK(c, p->k == m.keys[i] && p->tag == m.tags[i],
                 "BTree: lookup of rank %zu yields another or an old entry", i);
        MC_CHECK(c, k.contains(LKey(m.keys[i], 0)), "BTree: contains() disagrees with lookup()");
    }
    for(size_t i = 0; i <= n; ++i) {
        MC_CHECK(c, !k.lookup(LKey(m.gap(i), 0)), "BTree: an absent key (rank %zu) is found", i);
    }
#if EPOCH == 2026
    size_t i = 0;
    auto it = t.begin();
    auto end = t.end();
    for(; !(it == end); ++it) {
        MC_CHECK(c, i < n, "BTree: iteration yields more than the %zu entries", n);
        const LKey &e = *it;
        MC_CHECK(c, e.k == m.keys[i] && e.tag == m.tags[i],
                 "BTree: iteration yields the wrong entry at rank %zu", i);
        ++i;
    }
    MC_CHECK(c, i == n, "BTree: iteration yields %zu of %zu entries", i, n);
#endif
}

template<size_t E> static uint64_t shape(P::BTree<LKey, E> &t, Model &m) {
    mc::Hash h;
    size_t n = m.keys.size();
    g_sorted = &m.keys;
    std::vector<std::pair<const LKey *, int>> addr;
    for(size_t i = 0; i < n; ++i) {
        LKey probe(m.keys[i], 0);
        g_probe = &probe;
        g_trace = 1;
        g_tracing_cmp = true;
        const LKey *p = t.lookup(probe);
        g_tracing_cmp = false;
        h.add(g_trace);
        addr.push_back({p, (int)i});
    }
    std::sort(addr.begin(), addr.end());
    for(auto &a : addr)
        h.add(a.second);
    return h.add(n).h;
}

template<size_t E> struct Driver {
    using T = P::BTree<LKey, E>;
    Ctx &c;
    T t;
    Model m;
    int tag = 1;
    explicit Driver(Ctx &c_) : c(c_) {}
    void insert(int r) {
        __int128 k = m.gap(r);
        c.op("insert at rank %d", r);
        t.insert(LKey(k, tag));
        m.insert(r, k, tag++);
    }
    void insert_copy(int r) {
        __int128 k = m.gap(r);
        c.op("insert (copy) at rank %d", r);
        const LKey x(k, tag);
        t.insert(x);
        m.insert(r, k, tag++);
    }
    void overwrite(int r) {
        c.op("insert existing key of rank %d", r);
        t.insert(LKey(m.keys[r], tag));
        m.tags[r] = tag++;
    }
    void remove(int r) {
        c.op("remove rank %d of %zu", r, m.keys.size());
        t.remove(LKey(m.keys[r], 0));
        m.remove(r);
    }
    void remove_absent(int r) {
        c.op("remove an absent key at rank %d", r);
        t.remove(LKey(m.gap(r), 0));
    }
    void check() {
        if(c.fresh())
            same<E>(c, t, m);
    }
    uint64_t fp() {
        if(!c.fresh())
            return 0;
        uint64_t h = shape<E>(t, m);
        c.note("shape %016llx", (unsigned long long)h);
        return h;
    }
    size_t n() const { return m.keys.size(); }
};

// Every insertion order of n keys followed by every removal order.
template<size_t E> static void all_orders(Ctx &c, int n) {
    Driver<E> d(c);
    for(int i = 0; i < n; ++i) {
        d.insert(c.choose(i + 1));
        d.check();
        c.visit(mc::Hash().add(d.fp()).add(1).h, 2 * n - i);
    }
    while(d.n()) {
        d.remove(c.choose(d.n()));
        d.check();
        c.visit(mc::Hash().add(d.fp()).add(2).h, d.n());
    }
    // the emptied tree is usable again
    for(int i = 0; i < n; ++i) {
        d.insert(i / 2);
        d.check();
    }
}

// Every sequence of insertions and removals at any rank.
template<size_t E> static void walk(Ctx &c, int depth, int nmax) {
    Driver<E> d(c);
    for(int step = 0; step < depth; ++step) {
        int n = d.n();
        int ins = n < nmax ? n + 1 : 0;
        int w = c.choose(ins + n);
        if(w < ins)
            d.insert(w);
        else
            d.remove(w - ins);
        d.check();
        c.visit(d.fp(), depth - step - 1);
    }
}

// Larger trees, grown and thinned out by a pattern, then every short sequence of operations.
template<size_t E> static void seeds(Ctx &c, int nmax, int step, int depth) {
    Driver<E> d(c);
    int size = 1 + c.choose(nmax / step) * step;
    int how = c.choose(6), thin = c.choose(6);
    for(int i = 0; i < size; ++i) {
        int n = d.n();
        switch(how) {
        case 0:
            d.insert(n);
            break;
        case 1:
            d.insert(0);
            break;
        case 2:
            d.insert(n / 2);
            break;
        case 3:
            d.insert(i % 2 ? n : 0);
            break;
        case 4:
            d.insert((i * 7) % (n + 1));
            break;
        case 5:
            d.insert(n - n / 3);
            break;
        }
    }
    c.ops(size);
    int target = d.n();
    auto thin_to = [&](int want, auto pick) {
        int i = 0;
        while((int)d.n() > want)
            d.remove(pick(i++, (int)d.n()));
    };
    switch(thin) {
    case 0:
        break;
    case 1:
        thin_to(target / 2, [](int i, int n) { return (2 * i) % n; });
        break;
    case 2:
        thin_to(target / 2, [](int, int) { return 0; });
        break;
    case 3:
        thin_to(target / 2, [](int, int n) { return n - 1; });
        break;
    case 4:
        thin_to(target * 2 / 3, [](int, int n) { return n / 2; });
        break;
    case 5:
        thin_to(target / 3 + 1, [](int i, int n) { return (i * 5 + 3) % n; });
        break;
    }
    d.check();
    for(int s = 0; s < depth; ++s) {
        int n = d.n();
        int w = c.choose(2 * n + 1);
        if(w < n)
            d.remove(w);
        else
            d.insert(w - n);
        d.check();
        c.visit(d.fp(), depth - s - 1);
    }
    // everything can be removed
    int dir = c.choose(3);
    while(d.n()) {
        d.remove(dir == 0 ? 0 : dir == 1 ? d.n() - 1 : d.n() / 2);
        if(d.n() % 4 == 0)
            d.check();
    }
    d.check();
    d.insert(0);
    d.insert(1);
    d.check();
}

// Overwriting, copying insertion, removal of absent keys, in every small tree.
template<size_t E> static void variants(Ctx &c, int n, int depth) {
    Driver<E> d(c);
    int size = c.choose(n + 1);
    for(int i = 0; i < size; ++i)
        d.insert((i * 5) % (d.n() + 1));
    if(c.choose(2))
        d.t.reserve(50);
    for(int s = 0; s < depth; ++s) {
        int k = d.n();
        int w = c.choose(3);
        if(w == 0) {
            if(!k)
                c.abandon();
            d.overwrite(c.choose(k));
        } else if(w == 1)
            d.remove_absent(c.choose(k + 1));
        else
            d.insert_copy(c.choose(k + 1));
        d.check();
        c.state(mc::Hash().add(d.fp()).add(size).h);
    }
}

// Operations whose argument is an entry of the same tree.
template<size_t E> static void own_entries(Ctx &c, int nmax) {
    Driver<E> d(c);
    int size = 1 + c.choose(nmax);
    int how = c.choose(3);
    for(int i = 0; i < size; ++i)
        d.insert(how == 0 ? (int)d.n() : how == 1 ? 0 : (i * 5) % (d.n() + 1));
    int r = c.choose(size);
    const LKey *p = d.t.lookup(LKey(d.m.keys[r], 0));
    MC_CHECK(c, p, "BTree: entry lost");
    if(c.choose(2)) {
        c.op("remove(entry of rank %d of %d)", r, size);
        d.t.remove(*p);
        d.m.remove(r);
    } else {
        c.op("insert(entry of rank %d of %d)", r, size);
        d.t.insert(*p);
    }
    d.check();
    c.state(mc::Hash().add(d.fp()).add(size).h);
    while(d.n()) {
        d.remove(d.n() / 2);
        d.check();
    }
}

// One long run per pattern, far beyond the sizes above.
template<size_t E> static void large(Ctx &c, int n) {
    Driver<E> d(c);
    int how = c.choose(4), rem = c.choose(4);
    std::vector<__int128> labels;
    for(int i = 0; i < n; ++i) {
        int k = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (int)((__int128)i * 7919 % n) : (i % 2 ? i / 2 : n - 1 - i / 2);
        int r = std::lower_bound(d.m.keys.begin(), d.m.keys.end(), (__int128)k * 1000) -
                d.m.keys.begin();
        if(r < (int)d.n() && d.m.keys[r] == (__int128)k * 1000)
            continue;
        d.t.insert(LKey((__int128)k * 1000, i));
        d.m.insert(r, (__int128)k * 1000, i);
        c.ops(1);
        if(i % 97 == 0)
            d.check();
    }
    d.check();
    int i = 0;
    while(d.n()) {
        int k = d.n();
        d.remove(rem == 0 ? 0 : rem == 1 ? k - 1 : rem == 2 ? k / 2 : (i * 31) % k);
        if(i++ % 97 == 0)
            d.check();
    }
    d.check();
    d.insert(0);
    d.check();
    c.state(mc::Hash().add(how).add(rem).h);
}

#if EPOCH == 2026
// Moves and copies of whole trees.
static void whole(Ctx &c) {
    using T = P::BTree<LKey, 3>;
    Driver<3> d(c);
    int size = c.choose(20);
    for(int i = 0; i < size; ++i)
        d.insert((i * 5) % (d.n() + 1));
    c.op("T t(move(tree))");
    T t(P::move(d.t));
    same<3>(c, t, d.m);
    d.t = P::move(t);
    d.check();
    c.op("insertion and removal after the move");
    d.insert(0);
    d.check();
    d.remove(d.n() - 1);
    d.check();
    c.state(size);
}
#endif

// ---------------------------------------------------------------- set and map
template<typename K> static int keyval(const K &k) { return val(k); }

template<typename K, size_t E> static void set_ops(Ctx &c, int depth, int start) {
    ExecScope scope(c);
    {
        P::BTreeSet<K, E> s;
        std::set<int> ref;
        for(int i = 0; i < start; ++i) {
            s.insert(make<K>(i * 2));
            ref.insert(i * 2);
        }
        for(int step = 0; step < depth; ++step) {
            int range = start * 2 + 4;
            int w = c.choose(2 * range), k = w / 2;
            if(w % 2) {
                c.op("insert(%d)", k);
                s.insert(make<K>(k));
                ref.insert(k);
            } else {
                c.op("remove(%d)", k);
                s.remove(make<K>(k));
                ref.erase(k);
            }
            MC_CHECK(c, s.size() == ref.size() && s.is_empty() == ref.empty(),
                     "BTreeSet: size %zu, expected %zu", s.size(), ref.size());
            for(int i = 0; i < range; ++i)
                MC_CHECK(c, s.contains(make<K>(i)) == (ref.count(i) != 0), "BTreeSet: key %d %s",
                         i, ref.count(i) ? "lost" : "found but absent");
            mc::Hash h;
            for(int i : ref)
                h.add(i);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

template<typename K, typename V, size_t E> static void map_ops(Ctx &c, int depth, int start) {
    ExecScope scope(c);
    {
        P::BTreeMap<K, V, E> t;
        std::map<int, int> ref;
        int fresh = 1000;
        for(int i = 0; i < start; ++i) {
            t.insert(make<K>(i * 2), make<V>(fresh));
            ref[i * 2] = fresh++;
        }
        for(int step = 0; step < depth; ++step) {
            int range = start * 2 + 4;
            int w = c.choose(3 * range), k = w / 3;
            if(w % 3 == 0) {
                c.op("insert(%d)", k);
                t.insert(make<K>(k), make<V>(fresh));
                ref[k] = fresh++;
            } else if(w % 3 == 1) {
                c.op("remove(%d)", k);
                t.remove(make<K>(k));
                ref.erase(k);
            } else {
                if(!ref.count(k))
                    c.abandon();
                c.op("*lookup(%d) = %d", k, fresh);
                V *v = t.lookup(make<K>(k));
                MC_CHECK(c, v, "BTreeMap: key %d lost", k);
                *v = make<V>(fresh);
                ref[k] = fresh++;
            }
            for(int i = -1; i < range; ++i) {
                V *v = t.lookup(make<K>(i));
                MC_CHECK(c, (v != nullptr) == (ref.count(i) != 0), "BTreeMap: key %d %s", i,
                         v ? "found but absent" : "lost");
                if(v)
                    MC_CHECK(c, val(*v) == ref[i], "BTreeMap: value of %d is %d, expected %d", i,
                             val(*v), ref[i]);
            }
            mc::Hash h;
            for(auto &[k2, v2] : ref)
                h.add(k2);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

// Keys that are not numbers.
static void text_keys(Ctx &c) {
    P::BTreeSet<P::CString, 3> s;
    std::set<std::string> ref;
    int pat = c.choose(4);
    auto text = [](int i) {
        std::string t = "key";
        for(int k = 0; k < i; ++k)
            t += (char)('a' + (i * k) % 26);
        return t;
    };
    for(int i = 0; i < 24; ++i) {
        int k = pat % 2 ? 23 - i : (i * 7) % 24;
        s.insert(P::CString(text(k).c_str()));
        ref.insert(text(k));
    }
    c.ops(24);
    int n = c.choose(24);
    for(int i = 0; i <= n; ++i) {
        int k = pat / 2 ? i : (i * 11) % 24;
        c.op("remove \"%s\"", text(k).c_str());
        s.remove(P::CString(text(k).c_str()));
        ref.erase(text(k));
        MC_CHECK(c, s.size() == ref.size(), "BTreeSet of strings: size %zu, expected %zu", s.size(),
                 ref.size());
        for(int q = 0; q < 24; ++q)
            MC_CHECK(c, s.contains(P::CString(text(q).c_str())) == (ref.count(text(q)) != 0),
                     "BTreeSet of strings: key %d wrong", q);
    }
    c.state(mc::Hash().add(pat).add(n).h);
}

void mc::mc_register() {
#ifdef PART_BTREE
    mc::add("orders-3", "capacity 3, every insertion order of 14 (17) keys, every removal order, by shape",
            [](Ctx &c) { all_orders<3>(c, c.bound(14, 17)); });
    mc::add("orders-5", "capacity 5, every insertion order of 17 (20) keys, every removal order, by shape",
            [](Ctx &c) { all_orders<5>(c, c.bound(17, 20)); });
    mc::add("walk-3", "capacity 3, every sequence of 17 (24) operations at any rank, at most 12 (17) keys, by shape",
            [](Ctx &c) { walk<3>(c, c.bound(17, 24), c.bound(12, 17)); });
    mc::add("walk-5", "capacity 5, every sequence of 24 (28) operations at any rank, at most 17 (21) keys, by shape",
            [](Ctx &c) { walk<5>(c, c.bound(24, 28), c.bound(17, 21)); });
    mc::add("seeds-3", "capacity 3, 36 construction patterns of every 8th (4th) size to 61, 2 (3) operations at any rank",
            [](Ctx &c) { seeds<3>(c, 60, c.bound(8, 4), c.bound(2, 3)); });
    mc::add("seeds-5", "capacity 5, 36 construction patterns of every 16th (8th) size to 81, 2 (3) operations at any rank",
            [](Ctx &c) { seeds<5>(c, 80, c.bound(16, 8), c.bound(2, 3)); });
    mc::add("seeds-7", "capacity 7, 36 construction patterns of every 24th (16th) size to 97, 2 (3) operations at any rank",
            [](Ctx &c) { seeds<7>(c, 96, c.bound(24, 16), c.bound(2, 3)); });
    mc::add("variants-3", "overwrite, absent removal, copying insertion in trees of 0 to 12 keys, 2 (3) ops",
            [](Ctx &c) { variants<3>(c, 12, c.bound(2, 3)); });
    mc::add("own-entries-3", "capacity 3, 1 to 40 keys, removal and insertion of the tree's own entry of any rank",
            [](Ctx &c) { own_entries<3>(c, 40); });
    mc::add("own-entries-5", "capacity 5, 1 to 40 keys, removal and insertion of the tree's own entry of any rank",
            [](Ctx &c) { own_entries<5>(c, 40); });
    mc::add("large-3", "capacity 3, 600 (4000) keys, 16 patterns", [](Ctx &c) { large<3>(c, c.bound(600, 4000)); });
    mc::add("large-5", "capacity 5, 600 (4000) keys, 16 patterns", [](Ctx &c) { large<5>(c, c.bound(600, 4000)); });
    mc::add("large-31", "capacity 31, 1500 (8000) keys, 16 patterns", [](Ctx &c) { large<31>(c, c.bound(1500, 8000)); });
#if EPOCH == 2026
    mc::add("whole", "moves of trees of 0 to 19 keys", whole);
#endif
    for(int start : {0, 4, 9, 15})
        mc::add(("set-" + std::to_string(start)).c_str(), "BTreeSet, 3 operations on any key",
                [start](Ctx &c) { set_ops<int, 3>(c, start > 4 ? 2 : 3, start); });
    for(int start : {0, 4, 9})
        mc::add(("map-" + std::to_string(start)).c_str(), "BTreeMap, 3 operations on any key",
                [start](Ctx &c) { map_ops<int, Owner, 3>(c, start > 4 ? 2 : 3, start); });
    mc::add("text-keys", "BTreeSet of strings, 4 patterns, removals", text_keys);
#endif
#ifdef PART_LIFE
    for(int start : {0, 4, 9, 15}) {
        mc::add(("life-btreeset-" + std::to_string(start)).c_str(), "BTreeSet, 2 (3) operations on any key",
                [start](Ctx &c) { set_ops<Tracked, 3>(c, c.bound(2, 3), start); });
        mc::add(("life-btreemap-" + std::to_string(start)).c_str(), "BTreeMap, 2 (3) operations on any key",
                [start](Ctx &c) { map_ops<Tracked, Owner, 3>(c, c.bound(2, 3), start); });
    }
#endif
}
