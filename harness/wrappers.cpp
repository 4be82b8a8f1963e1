// Optional, Expected, unique_ptr, unique_arr, Stack.
#include "common.hpp"
#include "aborts.hpp"

// ------------------------------------------------------------------ Optional
// Misuse probes throw, which is slow: they run after the last step of every sequence.
static bool g_full = true;
static constexpr int NONE = -1000000;

template<typename T> static void same(Ctx &c, P::Optional<T> &o, int m, const char *who) {
    const P::Optional<T> &k = o;
    MC_CHECK(c, (bool)o == (m != NONE), "Optional %s: emptiness is wrong", who);
    if(m != NONE) {
        MC_CHECK(c, val(*o) == m, "Optional %s holds %d, expected %d", who, val(*o), m);
        MC_CHECK(c, val(o.value()) == m && val(*k) == m && val(k.value()) == m,
                 "Optional %s: accessors disagree", who);
        MC_CHECK(c, val(*o.operator->()) == m && val(*k.operator->()) == m,
                 "Optional %s: operator-> disagrees", who);
    } else if(g_full) {
        MC_CHECK(c, throws([&] { (void)val(*o); }), "Optional %s: * of empty not reported", who);
        MC_CHECK(c, throws([&] { (void)val(*k); }), "Optional %s: const * of empty", who);
        MC_CHECK(c, throws([&] { (void)val(o.value()); }), "Optional %s: value() of empty", who);
        MC_CHECK(c, throws([&] { (void)val(k.value()); }), "Optional %s: const value()", who);
        MC_CHECK(c, throws([&] { (void)o.operator->(); }), "Optional %s: -> of empty", who);
        MC_CHECK(c, throws([&] { (void)k.operator->(); }), "Optional %s: const -> of empty", who);
    }
}

template<typename T> static void optional_ops(Ctx &c, int depth) {
    ExecScope scope(c);
    {
        P::Optional<T> o[2];
        int m[2] = {NONE, NONE};
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
            int x = c.choose(2);
            int y = 1 - x;
            switch(c.choose(13)) {
            case 0: {
                T t = make<T>(fresh);
                c.op("o%d = const %d", x, fresh);
                o[x] = (const T &)t;
                m[x] = fresh++;
                MC_CHECK(c, val(t) == m[x], "assignment from const changed its source");
                break;
            }
            case 1: {
                T t = make<T>(fresh);
                c.op("o%d = T(%d)", x, fresh);
                o[x] = P::move(t);
                m[x] = fresh++;
                break;
            }
            case 2:
                c.op("o%d = o%d", x, y);
                o[x] = (const P::Optional<T> &)o[y];
                m[x] = m[y];
                break;
            case 3:
                c.op("o%d = move(o%d)", x, y);
                o[x] = P::move(o[y]);
                m[x] = m[y];
                m[y] = NONE;
                break;
            case 4: {
                c.op("o%d = o%d (self)", x, x);
                auto &r = o[x];
                o[x] = (const P::Optional<T> &)r;
                break;
            }
            case 5: {
                c.op("o%d = move(o%d) (self)", x, x);
                auto &r = o[x];
                o[x] = P::move(r);
                break;
            }
            case 6:
                c.op("o%d.reset()", x);
                o[x].reset();
                m[x] = NONE;
                break;
            case 7: {
                c.op("copy-construct from o%d", x);
                P::Optional<T> t((const P::Optional<T> &)o[x]);
                same(c, t, m[x], "copy");
                break;
            }
            case 8: {
                c.op("move-construct from o%d, back into o%d", x, y);
                P::Optional<T> t(P::move(o[x]));
                same(c, t, m[x], "move target");
                int keep = m[x];
                m[x] = NONE;
                same(c, o[x], NONE, "move source");
                o[y] = P::move(t);
                same(c, t, NONE, "assigned-from");
                m[y] = keep;
                break;
            }
            case 9: {
                c.op("construct from const T and from T&&");
                T t = make<T>(fresh);
                P::Optional<T> a((const T &)t);
                same(c, a, fresh, "from const T");
                P::Optional<T> b(P::move(t));
                same(c, b, fresh, "from T&&");
                ++fresh;
                break;
            }
            case 10:
                if(m[x] == NONE)
                    c.abandon();
                c.op("o%d = *o%d (own value)", x, x);
                o[x] = (const T &)*o[x];
                break;
            case 11:
                if(m[x] == NONE)
                    c.abandon();
                c.op("*o%d = %d", x, fresh);
                *o[x] = make<T>(fresh);
                m[x] = fresh++;
                break;
            case 12:
                c.op("o%d = {}", x);
                o[x] = P::Optional<T>{};
                m[x] = NONE;
                break;
            }
            same(c, o[0], m[0], "0");
            same(c, o[1], m[1], "1");
            mc::Hash h;
            for(int i = 0; i < 2; ++i)
                h.add(m[i] == NONE ? 0 : fresh - m[i]);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

template<typename T> static T &deref_value(T &t) { return t; }
template<typename T> static T &deref_value(T *t) { return *t; }

static void optional_ptr_ops(Ctx &c, int depth) {
    ExecScope scope(c);
    int objs[3] = {10, 20, 30};
    P::Optional<int *> o[2];
    int *m[2] = {nullptr, nullptr};
    for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
        int x = c.choose(2);
        int y = 1 - x;
        switch(c.choose(5)) {
        case 0: {
            int k = c.choose(4);
            c.op("o%d = pointer %d", x, k);
            m[x] = k < 3 ? &objs[k] : nullptr;
            o[x] = P::Optional<int *>(m[x]);
            break;
        }
        case 1:
            c.op("o%d = o%d", x, y);
            o[x] = (const P::Optional<int *> &)o[y];
            m[x] = m[y];
            break;
        case 2:
            c.op("o%d.reset()", x);
            o[x].reset();
            m[x] = nullptr;
            break;
        case 3: {
            c.op("copy of o%d", x);
            P::Optional<int *> t((const P::Optional<int *> &)o[x]);
            MC_CHECK(c, (bool)t == (m[x] != nullptr), "copy emptiness");
            if(t)
                MC_CHECK(c, &deref_value(t.value()) == m[x], "copy pointer");
            break;
        }
        case 4: {
            c.op("moved copy of o%d assigned back", x);
            P::Optional<int *> t(P::move(o[x]));
            o[x] = P::move(t);
            break;
        }
        }
        for(int i = 0; i < 2; ++i) {
            const auto &k = o[i];
            MC_CHECK(c, (bool)o[i] == (m[i] != nullptr), "Optional<T*> %d: emptiness wrong", i);
            if(m[i]) {
                MC_CHECK(c, &deref_value(o[i].value()) == m[i] && o[i].operator->() == m[i] &&
                                k.operator->() == m[i] && &*k == m[i] && &deref_value(k.value()) == m[i],
                         "Optional<T*> %d: accessors disagree", i);
#if EPOCH == 2026
                MC_CHECK(c, &*o[i] == m[i], "Optional<T*> %d: * wrong", i);
#endif
            } else if(g_full) {
                MC_CHECK(c, throws([&] { (void)o[i].value(); }), "Optional<T*>: value() of empty");
                MC_CHECK(c, throws([&] { (void)o[i].operator->(); }), "Optional<T*>: -> of empty");
                MC_CHECK(c, throws([&] { (void)k.operator->(); }), "Optional<T*>: const ->");
                MC_CHECK(c, throws([&] { (void)*k; }), "Optional<T*>: const * of empty");
                MC_CHECK(c, throws([&] { (void)k.value(); }), "Optional<T*>: const value() of empty");
#if EPOCH == 2026
                MC_CHECK(c, throws([&] { (void)*o[i]; }), "Optional<T*>: * of empty");
#endif
            }
        }
        mc::Hash h;
        for(int i = 0; i < 2; ++i)
            h.add(m[i] ? m[i] - objs + 1 : 0);
        c.state(h.h);
    }
}

// ------------------------------------------------------------------ Expected
template<typename T> struct ErrBox { // a distinct type with the same behaviour as T
    T t;
    char tag = 'e';
    ErrBox() noexcept = default;
    explicit ErrBox(int i) noexcept : t(i) {}
};
template<typename T> static int val(const ErrBox<T> &b) { return val(b.t); }

// model: NONE empty, >0 value, <0 error
template<typename V, typename E>
static void same(Ctx &c, P::Expected<V, E> &o, int m, const char *who) {
    bool isv = m > 0, ise = m != NONE && m < 0;
    MC_CHECK(c, o.has_value() == isv, "Expected %s: has_value() wrong", who);
    MC_CHECK(c, o.has_error() == ise, "Expected %s: has_error() wrong", who);
    MC_CHECK(c, (bool)o == isv, "Expected %s: operator bool wrong", who);
    if(isv) {
        bool rep = reported([&] {
            MC_CHECK(c, val(o.value()) == m, "Expected %s: value is %d, expected %d", who,
                     val(o.value()), m);
        });
        MC_CHECK(c, !rep, "Expected %s: value() refused although a value is stored", who);
    } else {
        MC_CHECK(c, reported([&] { (void)o.value(); }),
                 "Expected %s: value() without a value was not reported", who);
    }
    if(ise) {
        bool rep = reported([&] {
            MC_CHECK(c, val(o.error()) == -m, "Expected %s: error is %d, expected %d", who,
                     val(o.error()), -m);
        });
        MC_CHECK(c, !rep, "Expected %s: error() refused although an error is stored", who);
    } else {
        MC_CHECK(c, reported([&] { (void)o.error(); }),
                 "Expected %s: error() without an error was not reported", who);
    }
}

template<typename V> static void expected_ops(Ctx &c, int depth) {
    using E = ErrBox<V>;
    using X = P::Expected<V, E>;
    ExecScope scope(c);
    {
        X o[2];
        int m[2] = {NONE, NONE};
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
            int x = c.choose(2), y = 1 - x;
            switch(c.choose(11)) {
            case 0: {
                V t = make<V>(fresh);
                c.op("o%d = Expected(const V %d)", x, fresh);
                X e((const V &)t);
                same(c, e, fresh, "from const V");
                o[x] = P::move(e);
                m[x] = fresh++;
                break;
            }
            case 1:
                c.op("o%d = V(%d)", x, fresh);
                o[x] = X(make<V>(fresh));
                m[x] = fresh++;
                break;
            case 2: {
                E t(fresh);
                c.op("o%d = Expected(const E %d)", x, fresh);
                X e((const E &)t);
                same(c, e, -fresh, "from const E");
                o[x] = P::move(e);
                m[x] = -fresh++;
                break;
            }
            case 3:
                c.op("o%d = E(%d)", x, fresh);
                o[x] = X(E(fresh));
                m[x] = -fresh++;
                break;
            case 4: {
                c.op("o%d = Unexpected(%d)", x, fresh);
                P::Unexpected<E> u{E(fresh)};
                X e(P::move(u));
                same(c, e, -fresh, "from Unexpected");
                o[x] = P::move(e);
                m[x] = -fresh++;
                break;
            }
            case 5:
                c.op("o%d = move(o%d)", x, y);
                o[x] = P::move(o[y]);
                m[x] = m[y];
                // what the source holds afterwards is not specified: give it a new content
                o[y] = X();
                m[y] = NONE;
                break;
            case 6: {
                c.op("self move-assignment of o%d", x);
                auto &r = o[x];
                o[x] = P::move(r);
                break;
            }
            case 7: {
                c.op("X t(move(o%d)); o%d = move(t)", x, y);
                X t(P::move(o[x]));
                same(c, t, m[x], "move target");
                o[y] = P::move(t);
                m[y] = m[x];
                o[x] = X();
                m[x] = NONE;
                break;
            }
            case 8:
                c.op("o%d = {}", x);
                o[x] = X();
                m[x] = NONE;
                break;
            case 9: {
                c.op("swap through moves");
                X t(P::move(o[0]));
                o[0] = P::move(o[1]);
                o[1] = P::move(t);
                std::swap(m[0], m[1]);
                break;
            }
            case 10: {
                if(m[x] <= 0)
                    c.abandon();
                c.op("o%d.value() = %d", x, fresh);
                bool rep = reported([&] { o[x].value() = make<V>(fresh); });
                MC_CHECK(c, !rep, "value() refused although a value is stored");
                m[x] = fresh++;
                break;
            }
            }
            same(c, o[0], m[0], "0");
            same(c, o[1], m[1], "1");
            mc::Hash h;
            for(int i = 0; i < 2; ++i)
                h.add(m[i] == NONE ? 0 : m[i] > 0 ? 2 * (fresh - m[i]) : 2 * (fresh + m[i]) + 1);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

// ------------------------------------------------------------------ unique_ptr / unique_arr
static int g_deleted[64];
struct CountDel {
    static void del(Tracked *t) {
        if(t) {
            g_deleted[t->v & 63]++;
            delete t;
        }
    }
};

template<typename D> static void unique_ptr_ops(Ctx &c, int depth, bool counted) {
    ExecScope scope(c);
    memset(g_deleted, 0, sizeof(g_deleted));
    int fresh = 1;
    int released_alive = 0;
    {
        using U = P::unique_ptr<Tracked, D>;
        U o[2];
        Tracked *m[2] = {nullptr, nullptr};
        std::vector<Tracked *> released;
        for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
            int x = c.choose(2), y = 1 - x;
            switch(c.choose(8)) {
            case 0: {
                c.op("o%d.reset(new %d)", x, fresh);
                Tracked *t = new Tracked(fresh++);
                o[x].reset(t);
                m[x] = t;
                break;
            }
            case 1:
                c.op("o%d.reset(null)", x);
                o[x].reset(nullptr);
                m[x] = nullptr;
                break;
            case 2: {
                c.op("o%d.release()", x);
                Tracked *r = o[x].release();
                MC_CHECK(c, r == m[x], "release() returned something else");
                if(r)
                    released.push_back(r);
                m[x] = nullptr;
                break;
            }
            case 3:
                c.op("o%d = move(o%d)", x, y);
                o[x] = P::move(o[y]);
                m[x] = m[y];
                m[y] = nullptr;
                break;
            case 4: {
                c.op("self move-assignment o%d", x);
                auto &r = o[x];
                o[x] = P::move(r);
                break;
            }
            case 5: {
                c.op("U t(move(o%d))", x);
                U t(P::move(o[x]));
                MC_CHECK(c, t.get() == m[x], "move construction lost the object");
                m[x] = nullptr;
                break;
            }
            case 6: {
                c.op("o%d = U(new %d)", x, fresh);
                Tracked *t = new Tracked(fresh++);
                o[x] = U(t);
                m[x] = t;
                break;
            }
            case 7:
                c.op("o%d = U()", x);
                o[x] = U();
                m[x] = nullptr;
                break;
            }
            long alive = 0;
            for(int i = 0; i < 2; ++i) {
                const U &k = o[i];
                MC_CHECK(c, o[i].get() == m[i] && k.get() == m[i], "unique_ptr %d: get() wrong", i);
                MC_CHECK(c, (bool)o[i] == (m[i] != nullptr), "unique_ptr %d: bool wrong", i);
                if(m[i]) {
                    ++alive;
                    MC_CHECK(c, (*o[i]).get() == m[i]->get() && o[i]->get() == m[i]->get() &&
                                    k->get() == m[i]->get(),
                             "unique_ptr %d: dereference wrong", i);
                }
            }
            MC_CHECK(c, g_life.live == alive + (long)released.size(),
                     "unique_ptr: %ld objects alive, expected %ld", g_life.live,
                     alive + (long)released.size());
            mc::Hash h;
            h.add(m[0] != nullptr).add(m[1] != nullptr).add(released.size());
            c.state(h.h);
        }
        released_alive = released.size();
        for(auto *r : released)
            delete r;
    }
    if(counted) {
        int total = 0;
        for(int d : g_deleted) {
            MC_CHECK(c, d <= 1, "deleter run twice on one object");
            total += d;
        }
        MC_CHECK(c, total == fresh - 1 - released_alive, "deleter run %d times, expected %d", total,
                 fresh - 1 - released_alive);
    }
    ExecScope::finish(c);
}

static void unique_arr_ops(Ctx &c, int depth) {
    ExecScope scope(c);
    {
        using U = P::unique_arr<Tracked>;
        U o[2];
        std::vector<int> m[2];
        bool null[2] = {true, true};
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
            int x = c.choose(2), y = 1 - x;
            switch(c.choose(6)) {
            case 0: {
                int n = c.choose(4);
                c.op("o%d = U(size %d)", x, n);
                o[x] = U((size_t)n);
                m[x].assign(n, 0);
                null[x] = false;
                break;
            }
            case 1: {
                int n = 1 + c.choose(3);
                c.op("o%d = U(new[%d], %d)", x, n, n);
                o[x] = U(new Tracked[n], n);
                m[x].assign(n, 0);
                null[x] = false;
                break;
            }
            case 2:
                c.op("o%d = move(o%d)", x, y);
                o[x] = P::move(o[y]);
                m[x] = m[y];
                null[x] = null[y];
                m[y].clear();
                null[y] = true;
                break;
            case 3: {
                c.op("self move-assignment o%d", x);
                auto &r = o[x];
                o[x] = P::move(r);
                break;
            }
            case 4: {
                c.op("U t(move(o%d)); o%d = move(t)", x, y);
                U t(P::move(o[x]));
                MC_CHECK(c, t.size() == m[x].size(), "moved array has another size");
                o[y] = P::move(t);
                m[y] = m[x];
                null[y] = null[x];
                m[x].clear();
                null[x] = true;
                break;
            }
            case 5: {
                if(m[x].empty())
                    c.abandon();
                int i = c.choose(m[x].size());
                c.op("o%d[%d] = %d", x, i, fresh);
                o[x][i] = Tracked(fresh);
                m[x][i] = fresh++;
                break;
            }
            }
            long alive = 0;
            for(int i = 0; i < 2; ++i) {
                const U &k = o[i];
                MC_CHECK(c, k.size() == m[i].size(), "unique_arr %d: size %zu, expected %zu", i,
                         k.size(), m[i].size());
                MC_CHECK(c, k.size_bytes() == m[i].size() * sizeof(Tracked), "size_bytes wrong");
                MC_CHECK(c, (k.get() == nullptr) == null[i], "unique_arr %d: get() wrong", i);
                for(size_t j = 0; j < m[i].size(); ++j) {
                    MC_CHECK(c, val(o[i][j]) == m[i][j] && val(k[j]) == m[i][j] &&
                                    o[i].get() + j == &o[i][j],
                             "unique_arr %d: element %zu wrong", i, j);
                    ++alive;
                }
                size_t n = m[i].size();
                if(!g_full)
                    continue;
                MC_CHECK(c, throws([&] { (void)val(o[i][n]); }), "unique_arr [size()] not reported");
                MC_CHECK(c, throws([&] { (void)val(k[n]); }), "unique_arr const [size()]");
                MC_CHECK(c, throws([&] { (void)val(k[(size_t)-1]); }), "unique_arr [-1]");
            }
            MC_CHECK(c, g_life.live == alive, "unique_arr: %ld objects alive, expected %ld",
                     g_life.live, alive);
            mc::Hash h;
            h.add(m[0].size()).add(m[1].size()).add(null[0]).add(null[1]);
            c.state(h.h);
        }
    }
    ExecScope::finish(c);
}

template<typename T> static void stack_ops(Ctx &c, int depth, int start) {
    ExecScope scope(c);
    {
        P::Stack<T> s, s2;
        std::vector<int> m, m2;
        int fresh = 1;
        for(int i = 0; i < start; ++i) {
            s.push(make<T>(fresh));
            m.push_back(fresh++);
        }
        for(int step = 0; step < depth; ++step) {
            g_full = step == depth - 1;
            switch(c.choose(7)) {
            case 0:
                c.op("push(%d)", fresh);
                s.push(make<T>(fresh));
                m.push_back(fresh++);
                break;
            case 1:
                c.op("pop()");
                s.pop();
                if(!m.empty())
                    m.pop_back();
                break;
            case 2:
                c.op("clear()");
                s.clear();
                m.clear();
                break;
            case 3:
                if(m.empty())
                    c.abandon();
                c.op("push(top())");
                s.push(s.top());
                m.push_back(int(m.back()));
                break;
            case 4:
                if(m.empty())
                    c.abandon();
                c.op("top() = %d", fresh);
                s.top() = make<T>(fresh);
                m.back() = fresh++;
                break;
            case 5: {
                c.op("swap through moves");
                P::Stack<T> t(P::move(s));
                s = P::move(s2);
                s2 = P::move(t);
                std::swap(m, m2);
                break;
            }
            case 6:
                c.op("s2 = move(s)");
                s2 = P::move(s);
                m2 = m;
                m.clear();
                break;
            }
            const P::Stack<T> &k = s;
            MC_CHECK(c, k.size() == m.size() && k.is_empty() == m.empty(), "Stack: size wrong");
            MC_CHECK(c, s2.size() == m2.size(), "Stack: size of the other stack wrong");
            if(m.empty()) {
                MC_CHECK(c, throws([&] { (void)val(s.top()); }), "Stack: top() of empty");
                MC_CHECK(c, throws([&] { (void)val(k.top()); }), "Stack: const top() of empty");
            } else
                MC_CHECK(c, val(s.top()) == m.back() && val(k.top()) == m.back(),
                         "Stack: top() wrong");
            mc::Hash h;
            h.add(m.size()).add(m2.size());
            c.state(h.h);
        }
        while(!m.empty()) {
            MC_CHECK(c, val(s.top()) == m.back(), "Stack: wrong order when emptied");
            s.pop();
            m.pop_back();
        }
    }
    ExecScope::finish(c);
}

void mc::mc_register() {
#ifdef PART_WRAP
    mc::add("optional-int", "2 Optionals, every sequence of 4 (5) ops",
            [](Ctx &c) { optional_ops<int>(c, c.bound(4, 5)); });
    mc::add("optional-owner", "heap-owning content, 3 (5) ops",
            [](Ctx &c) { optional_ops<Owner>(c, c.bound(3, 5)); });
    mc::add("optional-tracked", "lifetime-checked content, 4 (5) ops",
            [](Ctx &c) { optional_ops<Tracked>(c, c.bound(4, 5)); });
    mc::add("optional-ptr", "2 pointer Optionals, every sequence of 5 (6) ops",
            [](Ctx &c) { optional_ptr_ops(c, c.bound(5, 6)); });
    mc::add("expected-int", "2 Expecteds, every sequence of 4 (5) ops",
            [](Ctx &c) { expected_ops<int>(c, c.bound(4, 5)); });
    mc::add("expected-owner", "heap-owning content, 3 (4) ops",
            [](Ctx &c) { expected_ops<Owner>(c, c.bound(3, 4)); });
    mc::add("stack-int", "2 stacks, start 0, 6 (7) ops",
            [](Ctx &c) { stack_ops<int>(c, c.bound(6, 7), 0); });
    mc::add("stack-int-15", "2 stacks, start 15, 5 (6) ops",
            [](Ctx &c) { stack_ops<int>(c, c.bound(5, 6), 15); });
#endif
#if defined(PART_WRAP) || defined(PART_LIFE)
    mc::add("unique_ptr", "2 owners, every sequence of 5 (6) ops", [](Ctx &c) {
        unique_ptr_ops<P::DefaultDeleter<Tracked>>(c, c.bound(5, 6), false);
    });
    mc::add("unique_ptr-deleter", "counting deleter, 5 (6) ops",
            [](Ctx &c) { unique_ptr_ops<CountDel>(c, c.bound(5, 6), true); });
    mc::add("unique_arr", "2 owners, every sequence of 4 (5) ops",
            [](Ctx &c) { unique_arr_ops(c, c.bound(4, 5)); });
#endif
#ifdef PART_LIFE
    mc::add("life-optional", "lifetime-checked content, 4 (5) ops",
            [](Ctx &c) { optional_ops<Tracked>(c, c.bound(4, 5)); });
    mc::add("life-expected", "lifetime-checked content, 4 (5) ops",
            [](Ctx &c) { expected_ops<Tracked>(c, c.bound(4, 5)); });
    mc::add("life-stack", "lifetime-checked content, start 15, 5 (6) ops",
            [](Ctx &c) { stack_ops<Tracked>(c, c.bound(5, 6), 15); });
#endif
}
