// Vector and FixedVector: every operation sequence up to a depth, from start sizes around the
// capacity thresholds, against a plain list.
#include "common.hpp"

template<typename T> struct Model {
    std::vector<int> v;
};

template<typename T> static void check_same(Ctx &c, const P::Vector<T> &v,
                                            const std::vector<int> &m, const char *who) {
    MC_CHECK(c, v.size() == m.size(), "Vector %s: size() is %zu, expected %zu", who, v.size(),
             m.size());
    MC_CHECK(c, v.is_empty() == m.empty(), "Vector %s: is_empty() wrong", who);
    MC_CHECK(c, v.capacity() >= v.size(), "Vector %s: capacity below size", who);
    size_t i = 0;
    for(const auto &e : v) {
        MC_CHECK(c, i < m.size(), "Vector %s: iteration yields too many elements", who);
        MC_CHECK(c, val(e) == m[i], "Vector %s: element %zu is %d, expected %d", who, i, val(e),
                 m[i]);
        MC_CHECK(c, val(v[i]) == m[i], "Vector %s: operator[] differs from iteration", who);
        ++i;
    }
    MC_CHECK(c, i == m.size(), "Vector %s: iteration yields too few elements", who);
    MC_CHECK(c, (size_t)(v.cend() - v.cbegin()) == m.size(), "Vector %s: cbegin/cend", who);
    if(!m.empty()) {
        MC_CHECK(c, val(v.front()) == m.front() && val(v.back()) == m.back(),
                 "Vector %s: front/back wrong", who);
    }
#if EPOCH == 2026
    auto sp = v.span();
    MC_CHECK(c, sp.size() == m.size(), "Vector %s: span size", who);
    for(size_t k = 0; k < m.size(); ++k)
        MC_CHECK(c, val(sp[k]) == m[k] && val(v.unsafe_at(k)) == m[k] && val(v.at(k)) == m[k], "Vector %s: span content", who);
#endif
    auto &w = const_cast<P::Vector<T> &>(v);
    i = 0;
    for(auto &e : w) {
        MC_CHECK(c, i < m.size() && val(e) == m[i], "Vector %s: mutable iteration", who);
        MC_CHECK(c, val(w[i]) == m[i] && &w[i] == &e && &w.at(i) == &e, "Vector %s: mutable operator[]", who);
        ++i;
    }
    MC_CHECK(c, i == m.size(), "Vector %s: mutable iteration yields too few elements", who);
    if(!m.empty())
        MC_CHECK(c, &w.front() == &w[0] && &w.back() == &w[m.size() - 1] && v.cbegin() == &v[0], "Vector %s: mutable front/back", who);
#if EPOCH == 2026
    auto wp = w.span();
    MC_CHECK(c, wp.size() == m.size(), "Vector %s: mutable span size", who);
    for(size_t k = 0; k < m.size(); ++k)
        MC_CHECK(c, &wp[k] == &w[k] && &w.unsafe_at(k) == &w[k], "Vector %s: mutable span content", who);
#endif
}

template<typename T> static void vector_ops(Ctx &c, const std::vector<int> &starts, int depth,
                                             bool prune = true) {
    ExecScope scope(c);
    {
        int start = c.pick(starts);
        P::Vector<T> a, b;
        std::vector<int> ma, mb;
        int fresh = 1;
        for(int i = 0; i < start; ++i) {
            a.push_back(make<T>(fresh));
            ma.push_back(fresh++);
        }
        c.op("a <- %d elements", start);
        // how much room is left before the next growth
        for(int step = 0; step < depth; ++step) {
            int op = c.choose(23);
            switch(op) {
            case 22: {
                size_t n = ma.size();
                if(n == 0)
                    c.abandon();
                int kind = c.choose(4);
                bool assign = kind & 1;
                size_t from = n > 1 && (kind & 2) ? 1 : 0, to = n - from > 1 && (kind & 2) ? n - 1 : n;
                c.op("a.%s(own elements %zu to %zu)", assign ? "assign" : "append", from, to);
                std::vector<int> part(ma.begin() + from, ma.begin() + to);
                bool refused = throws([&] {
                    if(assign)
                        a.assign(a.begin() + from, a.begin() + to);
                    else
                        a.append(a.begin() + from, a.begin() + to);
                });
                if(!refused) { // either as of any other range or not at all
                    if(assign)
                        ma = part;
                    else
                        ma.insert(ma.end(), part.begin(), part.end());
                }
                break;
            }
            case 0: {
                T t = make<T>(fresh);
                c.op("a.push_back(const %d)", fresh);
                a.push_back(t);
                ma.push_back(fresh++);
                MC_CHECK(c, val(t) == fresh - 1, "push_back(const T&) changed its argument");
                break;
            }
            case 1:
                c.op("a.push_back(T(%d))", fresh);
                a.push_back(make<T>(fresh));
                ma.push_back(fresh++);
                break;
            case 2:
                c.op("a.emplace_back(%d)", fresh);
                a.emplace_back(fresh);
                ma.push_back(fresh++);
                break;
            case 3:
                if(ma.empty())
                    c.abandon();
                c.op("a.push_back(a.front())");
                a.push_back((const T &)a.front());
                ma.push_back(int(ma.front()));
                break;
            case 4:
                if(ma.empty())
                    c.abandon();
                c.op("a.push_back(a.back())");
                a.push_back((const T &)a.back());
                ma.push_back(int(ma.back()));
                break;
            case 5: {
                if(ma.empty())
                    c.abandon();
                c.op("a.push_back(move(a[0])); a[0] = fresh");
                a.push_back(P::move(a[0]));
                ma.push_back(int(ma[0]));
                a[0] = make<T>(fresh);
                ma[0] = fresh++;
                break;
            }
            case 6: {
                if(ma.empty())
                    c.abandon();
                c.op("a.emplace_back(a[0])");
                a.emplace_back((const T &)a[0]);
                ma.push_back(int(ma[0]));
                break;
            }
            case 7: {
                c.op("a.pop_back()");
                auto r = a.pop_back();
                MC_CHECK(c, (bool)r == !ma.empty(), "pop_back() reports emptiness wrongly");
                if(!ma.empty()) {
                    MC_CHECK(c, val(*r) == ma.back(), "pop_back() returned %d, expected %d",
                             val(*r), ma.back());
                    ma.pop_back();
                }
                break;
            }
            case 8:
                c.op("a.clear()");
                a.clear();
                ma.clear();
                break;
            case 9: {
                size_t n = ma.size() + 1;
                c.op("a.reserve(size+1)");
                a.reserve(n);
                MC_CHECK(c, a.capacity() >= n, "reserve did not provide the capacity");
                break;
            }
            case 10: {
                size_t n = a.capacity() + 1;
                c.op("a.reserve(capacity+1)");
                a.reserve(n);
                MC_CHECK(c, a.capacity() >= n, "reserve did not provide the capacity");
                break;
            }
            case 11: {
                size_t n = a.capacity() / 2;
                c.op("a.reserve(capacity/2)");
                a.reserve(n);
                MC_CHECK(c, a.capacity() >= n, "reserve did not provide the capacity");
                break;
            }
            case 12:
                c.op("a.append(b.begin, b.end)");
                a.append(b.begin(), b.end());
                ma.insert(ma.end(), mb.begin(), mb.end());
                break;
            case 13:
                c.op("a.assign(b.begin, b.end)");
                a.assign(b.begin(), b.end());
                ma = mb;
                break;
            case 14: {
                c.op("b = copy of a");
                P::Vector<T> t(a);
                check_same(c, t, ma, "copy");
                b = P::move(t);
                mb = ma;
                MC_CHECK(c, a == b, "a copy compares unequal to its original");
                break;
            }
            case 15: {
                c.op("b = move(a); a reused");
                b = P::move(a);
                mb = ma;
                ma.clear();
                break;
            }
            case 16: {
                c.op("Vector t(move(a)); a reused; a.push_back; b = move(t)");
                P::Vector<T> t(P::move(a));
                mb = ma;
                ma.clear();
                b = P::move(t);
                break;
            }
            case 17: {
                c.op("self move-assignment");
                P::Vector<T> &r = a;
                a = P::move(r);
                break;
            }
            case 18: {
                c.op("swap through moves");
                P::Vector<T> t(P::move(a));
                a = P::move(b);
                b = P::move(t);
                std::swap(ma, mb);
                break;
            }
            case 19: {
                int n = c.choose(6);
                if(n >= 4) { // all of it, all but the last
                    n = (int)ma.size() - (n - 4);
                    if(n < 4)
                        c.abandon();
                }
                c.op("Vector(range) of the first %d of a", n);
                if((size_t)n > ma.size())
                    c.abandon();
                P::Vector<T> t(a.begin(), a.begin() + n);
                b = P::move(t);
                mb.assign(ma.begin(), ma.begin() + n);
                break;
            }
            case 20: {
#if EPOCH == 2026
                static const int nums[] = {0, 1, 2, 3, 16, 40};
                int n = c.pick(nums);
                c.op("a.append_with_default(%d)", n);
                a.append_with_default(n);
                for(int i = 0; i < n; ++i)
                    ma.push_back(0);
#else
                c.abandon();
#endif
                break;
            }
            case 21: {
                c.op("invalid accesses must be reported and change nothing");
                if(!c.fresh())
                    break;
                size_t n = ma.size();
                const auto &ca = a;
                for(size_t bad : {n, n + 1, n + 3, n + 1000, ~size_t(0) / 2, ~size_t(0) - 1, ~size_t(0)}) {
                    MC_CHECK(c, throws([&] { (void)val(a[bad]); }), "a[%zu] of %zu was not reported", bad, n);
                    MC_CHECK(c, throws([&] { (void)val(ca[bad]); }), "a[%zu] of a const vector of %zu was not reported", bad, n);
                    MC_CHECK(c, throws([&] { (void)val(a.at(bad)); }), "at(%zu) of %zu was not reported", bad, n);
                    MC_CHECK(c, throws([&] { (void)val(ca.at(bad)); }), "at(%zu) of a const vector of %zu was not reported", bad, n);
                }
                if(n == 0) {
                    MC_CHECK(c, throws([&] { (void)val(a.front()); }), "front() of empty");
                    MC_CHECK(c, throws([&] { (void)val(a.back()); }), "back() of empty");
                    MC_CHECK(c, throws([&] { (void)val(ca.front()); }), "front() of a const empty vector");
                    MC_CHECK(c, throws([&] { (void)val(ca.back()); }), "back() of a const empty vector");
                }
                MC_CHECK(c, a == ca && !(a != ca), "a vector is not equal to itself");
                break;
            }
            }
            if(c.fresh()) { // else an earlier execution has come through here
                check_same(c, a, ma, "a");
                check_same(c, b, mb, "b");
                MC_CHECK(c, (a == b) == (ma == mb), "operator== disagrees with the contents");
                MC_CHECK(c, (a != b) == (ma != mb), "operator!= disagrees with the contents");
            }
            mc::Hash h;
            // The state: contents relative to the counter, and capacities.
            for(int x : ma)
                h.add(x == 0 ? -1 : fresh - x);
            h.add(99999);
            for(int x : mb)
                h.add(x == 0 ? -1 : fresh - x);
            h.add(a.capacity());
            h.add(b.capacity());
            if(prune)
                c.visit(h.h, depth - step - 1);
            else
                c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

// ------------------------------------------------------------------ FixedVector

template<typename T, size_t N>
static void check_same(Ctx &c, const P::FixedVector<T, N> &v, const std::vector<int> &m,
                       const char *who) {
    MC_CHECK(c, v.size() == m.size(), "FixedVector %s: size() is %zu, expected %zu", who, v.size(),
             m.size());
    MC_CHECK(c, v.is_empty() == m.empty(), "FixedVector %s: is_empty() wrong", who);
    MC_CHECK(c, v.capacity() == N, "FixedVector %s: capacity() wrong", who);
    size_t i = 0;
    for(const auto &e : v) {
        MC_CHECK(c, i < m.size(), "FixedVector %s: iteration yields too many elements", who);
        MC_CHECK(c, val(e) == m[i], "FixedVector %s: element %zu is %d, expected %d", who, i,
                 val(e), m[i]);
        MC_CHECK(c, val(v[i]) == m[i], "FixedVector %s: operator[] differs", who);
        ++i;
    }
    MC_CHECK(c, i == m.size(), "FixedVector %s: iteration yields too few elements", who);
    if(!m.empty())
        MC_CHECK(c, val(v.front()) == m.front() && val(v.back()) == m.back(),
                 "FixedVector %s: front/back wrong", who);
    auto &w = const_cast<P::FixedVector<T, N> &>(v);
    i = 0;
    for(auto &e : w) {
        MC_CHECK(c, i < m.size() && &e == &v[i] && &w[i] == &e, "FixedVector %s: mutable iteration", who);
        ++i;
    }
    MC_CHECK(c, i == m.size(), "FixedVector %s: mutable iteration yields too few elements", who);
    if(!m.empty())
        MC_CHECK(c, &w.front() == &v[0] && &w.back() == &v[m.size() - 1], "FixedVector %s: mutable front/back", who);
#if EPOCH == 2026
    auto sp = v.span();
    MC_CHECK(c, sp.size() == m.size(), "FixedVector %s: span size", who);
    for(size_t k = 0; k < m.size(); ++k)
        MC_CHECK(c, val(sp[k]) == m[k] && val(v.unsafe_at(k)) == m[k],
                 "FixedVector %s: span content", who);
    auto wp = w.span();
    MC_CHECK(c, wp.size() == m.size(), "FixedVector %s: mutable span size", who);
    for(size_t k = 0; k < m.size(); ++k)
        MC_CHECK(c, &wp[k] == &v[k] && &w.unsafe_at(k) == &v[k], "FixedVector %s: mutable span content", who);
    MC_CHECK(c, v.is_full() == (m.size() == N), "FixedVector %s: is_full() wrong", who);
#endif
}

template<typename T, size_t N> static void fixedvector_ops(Ctx &c, int depth, bool prune = true) {
    ExecScope scope(c);
    {
        P::FixedVector<T, N> a, b;
        std::vector<int> ma, mb;
        int fresh = 1;
        int start = c.choose(N + 1);
        for(int i = 0; i < start; ++i) {
            a.push_back(make<T>(fresh));
            ma.push_back(fresh++);
        }
        c.op("a <- %d elements", start);
        for(int step = 0; step < depth; ++step) {
            int op = c.choose(14);
            bool full = ma.size() == N;
            switch(op) {
            case 0: {
                T t = make<T>(fresh);
                c.op("a.try_push_back(const %d)", fresh);
                bool r = a.try_push_back(t);
                MC_CHECK(c, r == !full, "try_push_back(const T&) result wrong");
                MC_CHECK(c, val(t) == fresh, "try_push_back(const T&) changed its argument");
                if(r)
                    ma.push_back(fresh);
                fresh++;
                break;
            }
            case 1: {
                T t = make<T>(fresh);
                c.op("a.try_push_back(T(%d))", fresh);
                bool r = a.try_push_back(P::move(t));
                MC_CHECK(c, r == !full, "try_push_back(T&&) result wrong");
                if(r)
                    ma.push_back(fresh);
                else
                    MC_CHECK(c, val(t) == fresh, "a failed try_push_back consumed its argument");
                fresh++;
                break;
            }
            case 2: {
                T t = make<T>(fresh);
                c.op("a.push_back(const %d)", fresh);
                bool t2 = throws([&] { a.push_back(t); });
                MC_CHECK(c, t2 == full, "push_back to a full vector must be reported (and only then)");
                if(!full)
                    ma.push_back(fresh);
                fresh++;
                break;
            }
            case 3: {
                T t = make<T>(fresh);
                c.op("a.push_back(T(%d))", fresh);
                bool t2 = throws([&] { a.push_back(P::move(t)); });
                MC_CHECK(c, t2 == full, "push_back to a full vector must be reported (and only then)");
                if(!full)
                    ma.push_back(fresh);
                fresh++;
                break;
            }
            case 4: {
                int pos = c.choose(N + 2);
                c.op("a.insert(%d, %d)", pos, fresh);
                T t = make<T>(fresh);
                bool bad = full || (size_t)pos > ma.size();
                bool t2 = throws([&] { a.insert(pos, P::move(t)); });
                MC_CHECK(c, t2 == bad, "insert: misuse reporting wrong");
                if(!bad)
                    ma.insert(ma.begin() + pos, fresh);
                fresh++;
                break;
            }
            case 5:
                c.op("a.pop_back()");
                a.pop_back();
                if(!ma.empty())
                    ma.pop_back();
                break;
            case 6:
                c.op("a.pop_front()");
                a.pop_front();
                if(!ma.empty())
                    ma.erase(ma.begin());
                break;
            case 7: {
                int pos = c.choose(N + 1);
                c.op("a.delete_at(%d)", pos);
                bool bad = (size_t)pos >= ma.size();
                bool t2 = throws([&] { a.delete_at(pos); });
                MC_CHECK(c, t2 == bad, "delete_at: misuse reporting wrong");
                if(!bad)
                    ma.erase(ma.begin() + pos);
                break;
            }
            case 8: {
                c.op("a.move_append(b)");
                bool bad = ma.size() + mb.size() > N;
                bool t2 = throws([&] { a.move_append(b); });
                MC_CHECK(c, t2 == bad, "move_append: misuse reporting wrong");
                if(!bad) {
                    ma.insert(ma.end(), mb.begin(), mb.end());
                    // What is left in b has been moved from: drop it.
                    while(!b.is_empty())
                        b.pop_back();
                    mb.clear();
                }
                break;
            }
            case 9: {
                c.op("b = move(a)");
                b = P::move(a);
                mb = ma;
                ma.clear();
                break;
            }
            case 10: {
                c.op("FixedVector t(move(a)); a = move(b); b = move(t)");
                P::FixedVector<T, N> t(P::move(a));
                MC_CHECK(c, a.size() == 0, "moved-from FixedVector is not empty");
                a = P::move(b);
                b = P::move(t);
                std::swap(ma, mb);
                break;
            }
            case 11: {
                c.op("self move-assignment");
                auto &r = a;
                a = P::move(r);
                break;
            }
            case 12: {
#if EPOCH == 2026
                int which = c.choose(2);
                c.op("%s(%d)", which ? "try_emplace_back" : "emplace_back", fresh);
                if(which) {
                    bool r = a.try_emplace_back(fresh);
                    MC_CHECK(c, r == !full, "try_emplace_back result wrong");
                } else {
                    bool t2 = throws([&] { a.emplace_back(fresh); });
                    MC_CHECK(c, t2 == full, "emplace_back: misuse reporting wrong");
                }
                if(!full)
                    ma.push_back(fresh);
                fresh++;
#else
                c.abandon();
#endif
                break;
            }
            case 13: {
                c.op("invalid accesses");
                if(!c.fresh())
                    break;
                size_t n = ma.size();
                const auto &ca = a;
                for(size_t bad : {n, n + 1, n + 1000, ~size_t(0) / 2, ~size_t(0) - 1, ~size_t(0)}) {
                    MC_CHECK(c, throws([&] { (void)val(a[bad]); }), "a[%zu] of %zu was not reported", bad, n);
                    MC_CHECK(c, throws([&] { (void)val(ca[bad]); }), "a[%zu] of a const vector of %zu was not reported", bad, n);
                }
                if(n == 0) {
                    MC_CHECK(c, throws([&] { (void)val(a.front()); }), "front() of empty");
                    MC_CHECK(c, throws([&] { (void)val(a.back()); }), "back() of empty");
                    MC_CHECK(c, throws([&] { (void)val(ca.front()); }), "front() of a const empty vector");
                    MC_CHECK(c, throws([&] { (void)val(ca.back()); }), "back() of a const empty vector");
                }
                MC_CHECK(c, throws([&] { a.move_append(a); }), "move_append(self) not reported");
                break;
            }
            }
            if(c.fresh()) {
                check_same(c, a, ma, "a");
                check_same(c, b, mb, "b");
            }
            mc::Hash h;
            for(int x : ma)
                h.add(fresh - x);
            h.add(99999);
            for(int x : mb)
                h.add(fresh - x);
            if(prune)
                c.visit(h.h, depth - step - 1);
            else
                c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

void mc::mc_register() {
    static const std::vector<int> near16 = {0, 1, 2, 3, 15, 16, 17, 31, 32, 33};
    static const std::vector<int> few = {0, 1, 15, 16, 17, 32};
    static const std::vector<int> two = {0, 16};
    static const std::vector<int> sizes = [] {
        std::vector<int> r;
        for(int i = 0; i <= 300; ++i)
            r.push_back(i);
#if EPOCH == 2025
        // Its push_back moves every element each time: no bigger sizes.
        for(int i : {511, 512, 513})
            r.push_back(i);
        return r;
#endif
        for(int i : {511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537})
            r.push_back(i);
        return r;
    }();
    static const std::vector<int> sizes300(sizes.begin(), sizes.begin() + 301);
    (void)sizes300;
#ifdef PART_VECTOR
    mc::add("vector-int-all",
            "2 vectors, start sizes 0,1,15,16,17,32; every sequence of 3 (thorough 4) ops, unpruned",
            [](Ctx &c) { vector_ops<int>(c, few, c.bound(3, 4), false); });
    mc::add("vector-int-all4", "start sizes 0 and 16; every sequence of 4 (5) ops, unpruned",
            [](Ctx &c) { vector_ops<int>(c, two, c.bound(4, 5), false); });
    mc::add("vector-int-deep",
            "start sizes 0-3/15-17/31-33; all states reachable in 5 (6) ops",
            [](Ctx &c) { vector_ops<int>(c, near16, c.bound(5, 6)); });
    mc::add("vector-owner", "heap-owning elements, all states reachable in 5 (6) ops",
            [](Ctx &c) { vector_ops<Owner>(c, near16, c.bound(5, 6)); });
    mc::add("vector-wide", "over-aligned elements, all states reachable in 4 (6) ops",
            [](Ctx &c) { vector_ops<Wide>(c, few, c.bound(4, 6)); });
    mc::add("vector-small", "3-byte elements, all states reachable in 4 (6) ops",
            [](Ctx &c) { vector_ops<Small>(c, few, c.bound(4, 6)); });
    mc::add("vector-sizes",
            "start sizes 0-300, 511-513 and (2026) 1023-1025, 4096, 4097, 65535-65537; every 2 (3) ops",
            [](Ctx &c) { vector_ops<int>(c, sizes, c.bound(2, 3)); });
    mc::add("vector-sizes-owner", "start sizes as above, heap-owning elements; every op (2 ops)",
            [](Ctx &c) { vector_ops<Owner>(c, sizes, c.bound(1, 2)); });
    mc::add("vector-char", "char elements, all states reachable in 4 (6) ops",
            [](Ctx &c) { vector_ops<char>(c, few, c.bound(4, 6)); });
#endif
#ifdef PART_FIXED
    mc::add("fixedvector-int-all", "capacity 3, every sequence of 4 (5) ops, unpruned",
            [](Ctx &c) { fixedvector_ops<int, 3>(c, c.bound(4, 5), false); });
    mc::add("fixedvector-int-4", "capacity 4, all states reachable in 9 (12) ops",
            [](Ctx &c) { fixedvector_ops<int, 4>(c, c.bound(9, 12)); });
    mc::add("fixedvector-owner-3", "capacity 3, heap-owning elements, 9 (12) ops",
            [](Ctx &c) { fixedvector_ops<Owner, 3>(c, c.bound(9, 12)); });
    mc::add("fixedvector-wide-2", "capacity 2, over-aligned elements, 9 (12) ops",
            [](Ctx &c) { fixedvector_ops<Wide, 2>(c, c.bound(9, 12)); });
    mc::add("fixedvector-int-1", "capacity 1, 9 (12) ops",
            [](Ctx &c) { fixedvector_ops<int, 1>(c, c.bound(9, 12)); });
    mc::add("fixedvector-int-9", "capacity 9, 6 (7) ops",
            [](Ctx &c) { fixedvector_ops<int, 9>(c, c.bound(6, 7)); });
    mc::add("fixedvector-12", "capacity 12, every fill level and position, 3 (4) ops",
            [](Ctx &c) { fixedvector_ops<int, 12>(c, c.bound(3, 4)); });
    mc::add("fixedvector-17", "capacity 17, heap-owning, every fill level and position, 2 (3) ops",
            [](Ctx &c) { fixedvector_ops<Owner, 17>(c, c.bound(2, 3)); });
    mc::add("fixedvector-33", "capacity 33, every fill level and position, 2 (3) ops",
            [](Ctx &c) { fixedvector_ops<int, 33>(c, c.bound(2, 3)); });
    mc::add("fixedvector-65", "capacity 65, 3-byte elements, every fill level and position, 1 (2) ops",
            [](Ctx &c) { fixedvector_ops<Small, 65>(c, c.bound(1, 2)); });
    mc::add("fixedvector-300", "capacity 300, every fill level and position, 1 (2) ops",
            [](Ctx &c) { fixedvector_ops<int, 300>(c, c.bound(1, 2)); });
#endif
#ifdef PART_LIFE
    mc::add("life-vector-sizes", "lifetime-checked elements, start sizes 0-300; every op (2 ops)",
            [](Ctx &c) { vector_ops<Tracked>(c, sizes300, c.bound(1, 2)); });
    mc::add("life-fixedvector-40", "lifetime-checked elements, capacity 40, every op (2 ops)",
            [](Ctx &c) { fixedvector_ops<Tracked, 40>(c, c.bound(1, 2)); });
    mc::add("life-vector-all", "lifetime-checked elements, start 0 and 16, 3 (4) ops, unpruned",
            [](Ctx &c) { vector_ops<Tracked>(c, two, c.bound(3, 4), false); });
    mc::add("life-vector", "lifetime-checked elements, all states reachable in 5 (6) ops",
            [](Ctx &c) { vector_ops<Tracked>(c, few, c.bound(5, 6)); });
    mc::add("life-fixedvector", "lifetime-checked elements, capacity 3, 9 (12) ops",
            [](Ctx &c) { fixedvector_ops<Tracked, 3>(c, c.bound(9, 12)); });
    mc::add("life-fixedvector-all", "lifetime-checked elements, capacity 2, 4 (5) ops, unpruned",
            [](Ctx &c) { fixedvector_ops<Tracked, 2>(c, c.bound(4, 5), false); });
#endif
}
