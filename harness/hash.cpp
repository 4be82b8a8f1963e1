// HashMap and HashSet against a std::map model, with the hash value of every key under control.
#include "common.hpp"
#if EPOCH == 2026
#include <pystd2026_hashtable.hpp>
#endif

// Hash values chosen by the scenario: g_hash[key].  The map feeds its salt (8 bytes) first.
static uint64_t g_hash[256];
class ForcedHash final {
public:
    void feed_bytes(const char *buf, size_t n) noexcept {
        if(n == 4) {
            int32_t k;
            memcpy(&k, buf, 4);
            value = g_hash[k & 255];
        }
    }
    size_t get_hash_value() const noexcept { return value; }
    void reset() noexcept { value = 0; }

private:
    size_t value{0};
};

#if EPOCH == 2025
namespace pystd2025 {
template<typename Hasher> struct HashFeeder<Hasher, Tracked> {
    void operator()(Hasher &h, const Tracked &t) noexcept { h.feed_hash((int32_t)t.get()); }
};
}
#endif

using Model = std::map<int, int>;

static int keyval(int k) { return k; }
static int keyval(const Tracked &k) { return k.get(); }
static int keyval(const Owner &k) { return k.get(); }

template<typename Map, typename K, typename V>
static void same_map(Ctx &c, Map &m, const Model &ref, const int *probe, int nprobe,
                     const char *who) {
    MC_CHECK(c, m.size() == ref.size() && m.is_empty() == ref.empty(),
             "HashMap %s: size %zu, expected %zu", who, m.size(), ref.size());
    for(int i = 0; i < nprobe; ++i) {
        int k = probe[i];
        auto it = ref.find(k);
        K key = make<K>(k);
        auto *v = m.lookup(key);
        MC_CHECK(c, (v != nullptr) == (it != ref.end()) && m.contains(key) == (it != ref.end()),
                 "HashMap %s: key %d %s", who, k, v ? "found but was never stored" : "is lost");
        if(v)
            MC_CHECK(c, val(*v) == it->second, "HashMap %s: key %d has value %d, expected %d", who,
                     k, val(*v), it->second);
    }
    size_t seen = 0;
    uint64_t mask[4] = {};
    auto end = m.end();
    for(auto it = m.begin(); it != end; ++it) {
        auto kv = *it;
        int k = keyval(*kv.key);
        auto r = ref.find(k);
        MC_CHECK(c, r != ref.end(), "HashMap %s: iteration yields absent key %d", who, k);
        MC_CHECK(c, val(*kv.value) == r->second, "HashMap %s: iteration yields value %d for %d",
                 who, val(*kv.value), k);
        if(k >= 0 && k < 256) {
            MC_CHECK(c, !(mask[k / 64] >> (k % 64) & 1), "HashMap %s: key %d iterated twice", who,
                     k);
            mask[k / 64] |= 1ull << (k % 64);
        }
        ++seen;
        MC_CHECK(c, seen <= ref.size(), "HashMap %s: iteration yields too many entries", who);
    }
    MC_CHECK(c, seen == ref.size(), "HashMap %s: iteration yields %zu of %zu entries", who, seen,
             ref.size());
}

// ---------------------------------------------------------------- hash classes
// With a table of 16 slots the slot is the xor of the hash's nibbles and the 6 low bits are
// stored with the entry.
static const uint64_t CLASSES[] = {
    0x0,  // slot 0
    0xf,  // slot 15: the next probe wraps around
    0x1,  // slot 1
    0x11, // slot 0 again with other stored bits
    0xe,  // slot 14
    0x40, // slot 4 with the stored bits of class 0
    0x4000000000000001ull, // high bits in use
};
static const int ASSIGN[][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 1, 2, 4}, {0, 0, 1, 1},
                                {0, 3, 0, 3}, {1, 0, 1, 4}, {4, 1, 4, 1}, {0, 2, 0, 5},
                                {5, 0, 5, 0}, {6, 6, 2, 0}, {0, 0, 2, 2}, {4, 4, 4, 1}};
static constexpr int NASSIGN = sizeof(ASSIGN) / sizeof(ASSIGN[0]);

// Fillers are keys 10..; every filler takes part in the final checks.
template<typename Map, typename K, typename V>
static void prefill(Ctx &c, Map &m, Model &ref, int kind, std::vector<int> &probe) {
    int n = 0;
    bool remove = false;
    switch(kind) {
    case 0:
        break;
    case 1: // just below growth, slots 2..
        n = 10;
        break;
    case 2: // the same, all removed again: markers everywhere
        n = 10;
        remove = true;
        break;
    case 3: // every slot passed through by removed keys
        n = 24;
        remove = true;
        break;
    case 4: // fillers collide with the keys under test
        n = 8;
        break;
    case 5:
        n = 11;
        break;
    }
    for(int i = 0; i < n; ++i) {
        int k = 10 + i;
        g_hash[k] = kind == 4 ? (i & 1 ? 0xf : 0) : (2 + i) % 16;
        m.insert(make<K>(k), make<V>(k * 2));
        ref[k] = k * 2;
        if(probe.size() < 9 || i == n - 1)
            probe.push_back(k);
        if(kind == 3 || (remove && i == n - 1)) {
            for(int j = kind == 3 ? i : 0; j <= i; ++j) {
                m.remove(make<K>(10 + j));
                ref.erase(10 + j);
            }
        }
    }
    c.op("prefilled with %d entries (kind %d)", n, kind);
    c.ops(n);
}

template<typename Map, typename K, typename V>
static void one_op(Ctx &c, Map &m, Model &ref, int nkeys, int &fresh, bool clear) {
    int what = c.choose(3 * nkeys + (clear ? 1 : 0));
    int k = what % nkeys;
    if(what == 3 * nkeys) {
        c.op("clear()");
        m.clear();
        ref.clear();
    } else if(what < nkeys) {
        c.op("insert(%d, %d)", k, fresh);
        V &r = m.insert(make<K>(k), make<V>(fresh));
        ref[k] = fresh++;
        MC_CHECK(c, val(r) == ref[k], "insert returned a reference to something else");
    } else if(what < 2 * nkeys) {
        c.op("remove(%d)", k);
        m.remove(make<K>(k));
        ref.erase(k);
    } else {
        c.op("m[%d] = %d", k, fresh);
        V &r = m[make<K>(k)];
        MC_CHECK(c, val(r) == (ref.count(k) ? ref[k] : 0), "[] of key %d yields %d", k, val(r));
        r = make<V>(fresh);
        ref[k] = fresh++;
    }
}

template<typename K, typename V>
static void sequences(Ctx &c, int depth, int nprefill, int nkeys = 4) {
    ExecScope scope(c);
    {
        using Map = P::HashMap<K, V, ForcedHash>;
        int a = c.choose(NASSIGN);
        for(int i = 0; i < 4; ++i)
            g_hash[i] = CLASSES[ASSIGN[a][i]];
        g_hash[9] = 0;
        Map m;
        Model ref;
        std::vector<int> probe = {0, 1, 2, 3, 9};
        int pk = c.choose(nprefill);
        prefill<Map, K, V>(c, m, ref, pk, probe);
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            one_op<Map, K, V>(c, m, ref, nkeys, fresh, false);
            same_map<Map, K, V>(c, m, ref, probe.data(), probe.size(), "");
            mc::Hash h;
            h.add(a).add(pk);
            for(int i = 0; i < 4; ++i)
                h.add(ref.count(i) ? 1 + fresh - ref[i] : 0);
            c.state(h.h);
        }
        MC_CHECK(c, throws([&] { (void)m.at(make<K>(9)); }), "at() of an absent key not reported");
        for(auto &[k, v] : ref)
            MC_CHECK(c, val(m.at(make<K>(k))) == v, "at(%d) is wrong", k);
    }
    ExecScope::finish(c);
}

// Every assignment of hash classes to three keys.
static void classes(Ctx &c, int depth) {
    using Map = P::HashMap<int, int, ForcedHash>;
    int n = (int)(sizeof(CLASSES) / sizeof(CLASSES[0]));
    for(int i = 0; i < 3; ++i)
        g_hash[i] = CLASSES[c.choose(n)];
    g_hash[9] = 0;
    Map m;
    Model ref;
    int probe[] = {0, 1, 2, 9};
    int fresh = 1;
    for(int step = 0; step < depth; ++step) {
        int what = c.choose(7), k = what % 3;
        if(what == 6) {
            c.op("clear()");
            m.clear();
            ref.clear();
        } else if(what < 3) {
            c.op("insert(%d, %d)", k, fresh);
            m.insert(k, fresh);
            ref[k] = fresh++;
        } else {
            c.op("remove(%d)", k);
            m.remove(k);
            ref.erase(k);
        }
        same_map<Map, int, int>(c, m, ref, probe, 4, "");
        mc::Hash h;
        for(int i = 0; i < 3; ++i)
            h.add(g_hash[i]).add(ref.count(i));
        c.state(h.h);
    }
}

// Blocks of keys come and go, through growth and tables full of removal markers.
template<typename K, typename V> static void blocks(Ctx &c, int depth, int hashing) {
    ExecScope scope(c);
    {
        using Map = P::HashMap<K, V, ForcedHash>;
        constexpr int NB = 6, B = 5;
        for(int i = 0; i < NB * B; ++i)
            g_hash[i] = hashing == 0 ? i : hashing == 1 ? (i / 3) * 0x11 : hashing == 2 ? 15 : i * 16 + i % 2;
        g_hash[200] = 3;
        g_hash[201] = 15;
        Map m;
        Model ref;
        int probe[NB * B + 2];
        for(int i = 0; i < NB * B; ++i)
            probe[i] = i;
        probe[NB * B] = 200;
        probe[NB * B + 1] = 201;
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            int what = c.choose(NB * 2 + 2);
            if(what < NB) {
                c.op("insert block %d", what);
                for(int i = 0; i < B; ++i) {
                    int k = what * B + i;
                    m.insert(make<K>(k), make<V>(fresh));
                    ref[k] = fresh++;
                }
                c.ops(B - 1);
            } else if(what < 2 * NB) {
                int b = what - NB;
                c.op("remove block %d", b);
                for(int i = B - 1; i >= 0; --i) {
                    m.remove(make<K>(b * B + i));
                    ref.erase(b * B + i);
                }
                c.ops(B - 1);
            } else if(what == 2 * NB) {
                c.op("remove every other key");
                for(int k = 0; k < NB * B; k += 2) {
                    m.remove(make<K>(k));
                    ref.erase(k);
                }
                c.ops(NB * B / 2 - 1);
            } else {
                c.op("insert and remove one key at a time");
                for(int i = 0; i < NB * B; ++i) {
                    if(ref.count(i))
                        continue;
                    m.insert(make<K>(i), make<V>(fresh));
                    m.remove(make<K>(i));
                    c.ops(2);
                }
            }
            same_map<Map, K, V>(c, m, ref, probe, NB * B + 2, "");
            mc::Hash h;
            for(auto &[k, v] : ref)
                h.add(k);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

// Every size through several growth steps, with the library's own hash at many map addresses
// (the address salts the hash).
template<typename K> struct KeyMaker;
template<> struct KeyMaker<int> {
    static int mk(int i) { return i * 7 - 300; }
};
template<> struct KeyMaker<int64_t> {
    static int64_t mk(int i) { return (int64_t)i << 33; }
};
template<> struct KeyMaker<uint8_t> {
    static uint8_t mk(int i) { return (uint8_t)i; }
};
#if EPOCH == 2026
template<> struct KeyMaker<P::CString> {
    static P::CString mk(int i) {
        char buf[64];
        snprintf(buf, sizeof(buf), i % 3 ? "k%d" : "a considerably longer key number %d", i);
        return P::CString(buf);
    }
};
#endif
template<> struct KeyMaker<P::U8String> {
    static P::U8String mk(int i) {
        char buf[64];
        snprintf(buf, sizeof(buf), i % 3 ? "\xc3\xa4%d" : "\xe2\x82\xac considerably longer %d", i);
        return P::U8String(buf);
    }
};

template<typename K> static void growth(Ctx &c, int nmax, int naddr) {
    using Map = P::HashMap<K, int>;
    using MK = KeyMaker<K>;
    static char arena[4096];
    int off = c.choose(naddr) * 8;
    int pattern = c.choose(5);
    char *where = arena + off;
    where += (alignof(Map) - (uintptr_t)where % alignof(Map)) % alignof(Map);
    Map *m = new(where) Map;
    std::vector<bool> in(nmax);
    size_t count = 0;
    auto check = [&] {
        MC_CHECK(c, m->size() == count, "HashMap: size %zu, expected %zu", m->size(), count);
        for(int i = 0; i < nmax; ++i) {
            K key = MK::mk(i);
            int *v = m->lookup(key);
            MC_CHECK(c, (v != nullptr) == in[i], "HashMap: key number %d %s", i,
                     v ? "found but absent" : "lost");
            if(v)
                MC_CHECK(c, *v == i, "HashMap: key number %d has value %d", i, *v);
        }
        std::vector<bool> seen(nmax);
        size_t n = 0;
        for(auto it = m->begin(); it != m->end(); ++it) {
            auto kv = *it;
            int i = *kv.value;
            MC_CHECK(c, i >= 0 && i < nmax && in[i] && !seen[i] && *kv.key == MK::mk(i),
                     "HashMap: iteration yields a wrong entry (%d)", i);
            seen[i] = true;
            ++n;
        }
        MC_CHECK(c, n == count, "HashMap: iteration yields %zu of %zu", n, count);
    };
    auto ins = [&](int i) {
        c.ops(1);
        m->insert(MK::mk(i), i);
        count += !in[i];
        in[i] = true;
    };
    auto rem = [&](int i) {
        c.ops(1);
        m->remove(MK::mk(i));
        count -= in[i];
        in[i] = false;
    };
    for(int i = 0; i < nmax; ++i) {
        int k = pattern == 1 ? nmax - 1 - i : i;
        ins(k);
        if(pattern == 2 && i % 2)
            rem(i - 1);
        if(pattern == 3 && i >= 5)
            rem(i - 5);
        if(pattern == 4 && i % 16 == 15)
            for(int j = 0; j <= i; ++j)
                (j + i / 16) % 3 ? ins(j) : rem(j);
        if(i < 40 || i % 64 == 0 || i == nmax - 1)
            check();
        c.state(mc::Hash().add(pattern).add(count).add(i).h);
    }
    for(int i = 0; i < nmax; ++i)
        rem(i);
    check();
    ins(0);
    check();
    m->~Map();
}

static void two_maps(Ctx &c, int depth) {
    ExecScope scope(c);
    {
        using Map = P::HashMap<Tracked, Owner, ForcedHash>;
        for(int i = 0; i < 40; ++i)
            g_hash[i] = i % 3 ? i : 15;
        Map m[2];
        Model ref[2];
        int probe[] = {0, 1, 2, 9, 20, 33};
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            int x = c.choose(2), y = 1 - x;
            switch(c.choose(8)) {
            case 0:
            case 1: {
                int k = c.choose(2);
                c.op("m%d.insert(%d, %d)", x, k, fresh);
                m[x].insert(Tracked(k), Owner(fresh));
                ref[x][k] = fresh++;
                break;
            }
            case 2:
                c.op("m%d.remove(0)", x);
                m[x].remove(Tracked(0));
                ref[x].erase(0);
                break;
            case 3:
                c.op("m%d = move(m%d)", x, y);
                m[x] = P::move(m[y]);
                ref[x] = ref[y];
                m[y].clear(); // a moved-from map may be reused
                ref[y].clear();
                break;
            case 4: {
                c.op("Map t(move(m%d)); m%d = move(t)", x, y);
                Map t(P::move(m[x]));
                same_map<Map, Tracked, Owner>(c, t, ref[x], probe, 6, "moved");
                m[y] = P::move(t);
                ref[y] = ref[x];
                m[x].clear();
                ref[x].clear();
                break;
            }
            case 5: {
                c.op("self move-assignment of m%d", x);
                auto &r = m[x];
                m[x] = P::move(r);
                break;
            }
            case 6:
                c.op("m%d: insert 20..33", x);
                for(int i = 20; i < 34; ++i) {
                    m[x].insert(Tracked(i), Owner(i));
                    ref[x][i] = i;
                }
                break;
            case 7:
                c.op("m%d.clear()", x);
                m[x].clear();
                ref[x].clear();
                break;
            }
            for(int i = 0; i < 2; ++i)
                same_map<Map, Tracked, Owner>(c, m[i], ref[i], probe, 6, i ? "1" : "0");
            c.state(mc::Hash().add(ref[0].size()).add(ref[1].size()).add(ref[0].count(0)).h);
        }
    }
    ExecScope::finish(c);
}

// Arguments that live inside the map, at every fill level around growth.
template<typename K, typename V> static void aliasing(Ctx &c) {
    ExecScope scope(c);
    {
        using Map = P::HashMap<K, V, ForcedHash>;
        for(int i = 0; i < 256; ++i)
            g_hash[i] = (i % 5) * 0x11 + i / 5;
        Map m;
        Model ref;
        int n = 1 + c.choose(30);
        for(int i = 0; i < n; ++i) {
            m.insert(make<K>(i), make<V>(i + 100));
            ref[i] = i + 100;
        }
        int which = c.choose(n);
        auto it = m.begin();
        for(int i = 0; i < which; ++i)
            ++it;
        auto kv = *it;
        int k = keyval(*kv.key);
        switch(c.choose(4)) {
        case 0:
            c.op("insert(key inside the map)");
            m.insert(*kv.key, make<V>(7));
            ref[k] = 7;
            break;
        case 1:
            c.op("remove(key inside the map)");
            m.remove(*kv.key);
            ref.erase(k);
            break;
        case 2: {
            c.op("insert(new key, value inside the map)");
            m.insert(make<K>(200), *kv.value);
            ref[200] = int(ref[k]);
            break;
        }
        case 3:
            c.op("[] with a key inside the map");
            m[*kv.key] = make<V>(9);
            ref[k] = 9;
            break;
        }
        std::vector<int> probe;
        for(int i = 0; i < n; ++i)
            probe.push_back(i);
        probe.push_back(200);
        probe.push_back(201);
        same_map<Map, K, V>(c, m, ref, probe.data(), probe.size(), "");
        c.state(mc::Hash().add(n).add(which).h);
    }
    ExecScope::finish(c);
}
// A key that is a value of the map: same type for both.
static void alias_value_as_key(Ctx &c) {
    ExecScope scope(c);
    {
        using Map = P::HashMap<Tracked, Tracked, ForcedHash>;
        for(int i = 0; i < 256; ++i)
            g_hash[i] = i;
        Map m;
        Model ref;
        int n = 1 + c.choose(30);
        for(int i = 0; i < n; ++i) {
            m.insert(Tracked(i), Tracked(i + 100));
            ref[i] = i + 100;
        }
        int which = c.choose(n);
        Tracked *v = m.lookup(Tracked(which));
        MC_CHECK(c, v != nullptr, "key %d lost", which);
        switch(c.choose(2)) {
        case 0:
            c.op("insert(value inside the map as key)");
            m.insert(*v, Tracked(5));
            ref[which + 100] = 5;
            break;
        case 1:
            c.op("insert(value %d as key and value)", which);
            m.insert(*v, *v);
            ref[which + 100] = which + 100;
            break;
        }
        std::vector<int> probe;
        for(int i = 0; i < 140; ++i)
            probe.push_back(i);
        same_map<Map, Tracked, Tracked>(c, m, ref, probe.data(), probe.size(), "");
        c.state(mc::Hash().add(n).add(which).h);
    }
    ExecScope::finish(c);
}

// ---------------------------------------------------------------- HashSet
template<typename K> static void set_sequences(Ctx &c, int depth) {
    ExecScope scope(c);
    {
        using Set = P::HashSet<K, ForcedHash>;
        int a = c.choose(NASSIGN);
        for(int i = 0; i < 4; ++i)
            g_hash[i] = CLASSES[ASSIGN[a][i]];
        for(int i = 10; i < 30; ++i)
            g_hash[i] = 2 + i;
        g_hash[9] = 0;
        Set s;
        std::set<int> ref;
        int pre = c.choose(3);
        for(int i = 0; i < (pre ? 11 : 0); ++i) {
            auto r = s.insert(make<K>(10 + i));
            MC_CHECK(c, r.second, "insert of a new key reported as present");
            ref.insert(10 + i);
        }
        if(pre == 2) {
            for(int i = 0; i < 11; ++i)
                s.remove(make<K>(10 + i));
            ref.clear();
        }
        for(int step = 0; step < depth; ++step) {
            int what = c.choose(9);
            int k = what % 4;
            if(what == 8) {
                c.op("clear()");
                s.clear();
                ref.clear();
            } else if(what < 4) {
                c.op("insert(%d)", k);
                auto r = s.insert(make<K>(k));
                bool fresh = ref.insert(k).second;
                MC_CHECK(c, r.second == fresh, "HashSet insert(%d) reported %s", k,
                         r.second ? "new" : "present");
            } else {
                c.op("remove(%d)", k);
                s.remove(make<K>(k));
                ref.erase(k);
            }
            MC_CHECK(c, s.size() == ref.size() && s.is_empty() == ref.empty(),
                     "HashSet: size %zu, expected %zu", s.size(), ref.size());
            for(int i = 0; i < 30; ++i)
                MC_CHECK(c, s.contains(make<K>(i)) == (ref.count(i) != 0),
                         "HashSet: key %d %s", i, ref.count(i) ? "lost" : "found but absent");
            std::set<int> seen;
            size_t n = 0;
            auto end = s.end();
            for(auto it = s.begin(); it != end; ++it) {
                int v = keyval(*it);
                MC_CHECK(c, ref.count(v) && seen.insert(v).second,
                         "HashSet: iteration yields %d wrongly", v);
                ++n;
            }
            MC_CHECK(c, n == ref.size(), "HashSet: iteration yields %zu of %zu", n, ref.size());
            mc::Hash h;
            h.add(a).add(pre);
            for(int i : ref)
                h.add(i);
            c.state(h.h);
        }
        P::HashSet<K, ForcedHash> t(P::move(s));
        MC_CHECK(c, t.size() == ref.size(), "moved HashSet has another size");
        for(int i = 0; i < 30; ++i)
            MC_CHECK(c, t.contains(make<K>(i)) == (ref.count(i) != 0), "moved HashSet lost key %d",
                     i);
    }
    ExecScope::finish(c);
}

// Mutating values through iteration.
static void iterate_write(Ctx &c) {
    using Map = P::HashMap<int, int, ForcedHash>;
    for(int i = 0; i < 256; ++i)
        g_hash[i] = i * 3;
    Map m;
    int n = c.choose(60);
    for(int i = 0; i < n; ++i)
        m.insert(i, i);
    c.op("write through iteration over %d entries", n);
    for(auto kv : m)
        *kv.value += 1000;
    const Map &k = m;
    int seen = 0;
    for(auto it = k.begin(); it != k.end(); ++it)
        ++seen;
    MC_CHECK(c, seen == n, "iteration yields %d of %d", seen, n);
    for(int i = 0; i < n; ++i)
        MC_CHECK(c, m.at(i) == i + 1000, "value of %d is %d", i, m.at(i));
    c.state(n);
}

void mc::mc_register() {
#ifdef PART_HASH
    mc::add("seq-int", "12 hash assignments, 6 prefills, every sequence of 4 (5) of 12 ops on 4 keys",
            [](Ctx &c) { sequences<int, int>(c, c.bound(4, 5), 6); });
    mc::add("seq-deep", "the same on 2 keys, 6 (7) of 6 ops",
            [](Ctx &c) { sequences<int, int>(c, c.bound(6, 7), 6, 2); });
    mc::add("classes", "every assignment of 7 hash classes to 3 keys, 5 (7) of 7 ops",
            [](Ctx &c) { classes(c, c.bound(5, 7)); });
    for(int h = 0; h < 4; ++h)
        mc::add(("blocks-" + std::to_string(h)).c_str(),
                "6 blocks of 5 keys, every sequence of 5 (6) block operations",
                [h](Ctx &c) { blocks<int, int>(c, c.bound(5, 6), h); });
    mc::add("growth-int", "5 patterns, every size to 300 (2000), 64 map addresses",
            [](Ctx &c) { growth<int>(c, c.bound(300, 2000), 64); });
    mc::add("growth-int64", "5 patterns, every size to 300 (2000), 16 map addresses",
            [](Ctx &c) { growth<int64_t>(c, c.bound(300, 2000), 16); });
    mc::add("growth-uint8", "5 patterns, all 256 keys, 64 map addresses",
            [](Ctx &c) { growth<uint8_t>(c, 256, 64); });
#if EPOCH == 2026
    mc::add("growth-cstring", "5 patterns, every size to 200 (600), 16 map addresses",
            [](Ctx &c) { growth<P::CString>(c, c.bound(200, 600), 16); });
#endif
    mc::add("growth-u8string", "5 patterns, every size to 200 (600), 8 map addresses",
            [](Ctx &c) { growth<P::U8String>(c, c.bound(200, 600), 8); });
    mc::add("two-maps", "2 maps, every sequence of 4 (5) ops with moves",
            [](Ctx &c) { two_maps(c, c.bound(4, 5)); });
    mc::add("alias-int", "arguments inside the map at every fill to 30",
            [](Ctx &c) { aliasing<int, int>(c); });
    mc::add("alias-owner", "the same with heap-owning content",
            [](Ctx &c) { aliasing<Tracked, Owner>(c); });
    mc::add("alias-value", "a stored value used as key", alias_value_as_key);
    mc::add("set-int", "HashSet, 12 hash assignments, 3 prefills, 5 (6) of 9 ops",
            [](Ctx &c) { set_sequences<int>(c, c.bound(5, 6)); });
    mc::add("iterate", "writing through iteration, 0 to 59 entries", iterate_write);
#endif
#ifdef PART_LIFE
    mc::add("life-hashmap", "12 hash assignments, 6 prefills, 3 (4) of 12 ops",
            [](Ctx &c) { sequences<Tracked, Tracked>(c, c.bound(3, 4), 6); });
    mc::add("life-hashmap-owner", "the same with heap-owning values",
            [](Ctx &c) { sequences<Tracked, Owner>(c, c.bound(3, 4), 6); });
    mc::add("life-blocks", "6 blocks of 5 keys, 3 (4) block operations",
            [](Ctx &c) { blocks<Tracked, Tracked>(c, c.bound(3, 4), 1); });
    mc::add("life-hashset", "HashSet, 12 hash assignments, 3 prefills, 3 (4) of 9 ops",
            [](Ctx &c) { set_sequences<Tracked>(c, c.bound(3, 4)); });
    mc::add("life-two-maps", "2 maps, every sequence of 4 (5) ops with moves",
            [](Ctx &c) { two_maps(c, c.bound(4, 5)); });
#endif
}
