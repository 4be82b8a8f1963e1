// Variant: every alternative of variants with 1 to 30 types, every transition between them.
#include <utility>
#include "common.hpp"
#if EPOCH == 2026
#include <pystd2026_variant.hpp>
#endif

// Alternatives: distinct types of different sizes, alignments and lifetimes.
template<int I> struct Alt : Tracked {
    static constexpr int idx = I;
    char pad[1 + (I * 7) % 40] = {};
    Alt() noexcept : Tracked(1000 + I) {}
    explicit Alt(int v) noexcept : Tracked(v) {}
};
template<int I> struct PodAlt {
    static constexpr int idx = I;
    int v = 1000 + I;
    char pad[1 + (I * 5) % 17] = {};
    PodAlt() noexcept = default;
    explicit PodAlt(int v_) noexcept : v(v_) {}
    int get() const { return v; }
};
template<int I> struct OwnAlt : Owner {
    static constexpr int idx = I;
    OwnAlt() noexcept : Owner(1000 + I) {}
    explicit OwnAlt(int v) noexcept : Owner(v) {}
};
template<int I> struct alignas(16 << (I % 2)) WideAlt {
    static constexpr int idx = I;
    int v = 1000 + I;
    WideAlt() noexcept = default;
    explicit WideAlt(int v_) noexcept : v(v_) {}
    int get() const {
        if((uintptr_t)this % (16 << (I % 2)))
            g_ctx->fail("Variant storage is not aligned for its alternative");
        return v;
    }
};
template<int I> struct Pick;
template<int I>
    requires(I % 4 == 0)
struct Pick<I> {
    using type = Alt<I>;
};
template<int I>
    requires(I % 4 == 1)
struct Pick<I> {
    using type = OwnAlt<I>;
};
template<int I>
    requires(I % 4 == 2)
struct Pick<I> {
    using type = PodAlt<I>;
};
template<int I>
    requires(I % 4 == 3)
struct Pick<I> {
    using type = WideAlt<I>;
};

template<typename S> struct MakeVar;
template<int... I> struct MakeVar<std::integer_sequence<int, I...>> {
    using type = P::Variant<typename Pick<I>::type...>;
};
template<int N> using Var = typename MakeVar<std::make_integer_sequence<int, N>>::type;

template<int N, typename F> static void with_index(int i, F &&f) {
    [&]<int... I>(std::integer_sequence<int, I...>) {
        ((I == i ? (f.template operator()<I>(), 0) : 0), ...);
    }(std::make_integer_sequence<int, N>{});
}

struct Model {
    int idx = 0;
    int v = 1000;
};

template<int N> static void same(Ctx &c, Var<N> &v, const Model &m, const char *who) {
    const Var<N> &k = v;
    MC_CHECK(c, k.index() == m.idx, "Variant<%d> %s: index %d, expected %d", N, who, k.index(),
             m.idx);
    with_index<N>(m.idx, [&]<int J>() {
        using T = typename Pick<J>::type;
        MC_CHECK(c, v.template get_if<T>() && v.template get_if<T>()->get() == m.v,
                 "Variant<%d> %s: content of alternative %d is %d, expected %d", N, who, J,
                 v.template get_if<T>() ? v.template get_if<T>()->get() : -1, m.v);
        MC_CHECK(c, k.template get_if<T>() == v.template get_if<T>() &&
                        &v.template get<T>() == v.template get_if<T>() &&
                        &k.template get<T>() == k.template get_if<T>(),
                 "Variant<%d> %s: accessors disagree", N, who);
    });
    auto probe = [&]<int J>() {
        using T = typename Pick<J>::type;
        bool is = J == m.idx;
        MC_CHECK(c, v.template contains<T>() == is && (v.template get_if<T>() != nullptr) == is &&
                        (k.template get_if<T>() != nullptr) == is,
                 "Variant<%d> %s: claims alternative %d while holding %d", N, who, J, m.idx);
    };
    [&]<int... J>(std::integer_sequence<int, J...>) {
        (probe.template operator()<J>(), ...);
    }(std::make_integer_sequence<int, N>{});
}

// Asking for each other alternative is refused and changes nothing.
template<int N> static void refuse(Ctx &c, Var<N> &v, const Model &m, int other) {
    const Var<N> &k = v;
    with_index<N>(other, [&]<int J>() {
        using T = typename Pick<J>::type;
        MC_CHECK(c, throws([&] { (void)v.template get<T>(); }),
                 "Variant<%d>: get of another alternative not reported", N);
        MC_CHECK(c, throws([&] { (void)k.template get<T>(); }),
                 "Variant<%d>: const get of another alternative not reported", N);
    });
    same<N>(c, v, m, "after a refused access");
}

// Puts alternative i with value val into v in one of several ways.
template<int N> static void store(Ctx &c, Var<N> &v, Model &m, int i, int value, int how) {
    with_index<N>(i, [&]<int J>() {
        using T = typename Pick<J>::type;
        switch(how) {
        case 0:
            c.op("insert<%d>(%d)", J, value);
            v.template insert<T>(T(value));
            break;
        case 1:
            c.op("v = Variant(T%d&&(%d))", J, value);
            v = Var<N>(T(value));
            break;
        case 2: {
            c.op("v = Variant(const T%d &(%d))", J, value);
            const T t(value);
            v = Var<N>(t);
            MC_CHECK(c, t.get() == value, "storing a copy changed its source");
            break;
        }
        case 3: {
            c.op("v = Variant(T%d &(%d))", J, value);
            T t(value);
            v = Var<N>(t);
            MC_CHECK(c, t.get() == value, "storing a copy changed its source");
            break;
        }
        case 4: {
            c.op("insert<%d>(lvalue %d)", J, value);
            T t(value);
            v.template insert<T>(t);
            MC_CHECK(c, t.get() == value, "inserting a copy changed its source");
            break;
        }
        }
    });
    m.idx = i;
    m.v = value;
}
static constexpr int STORES = 5;

// One transition from every state to every state.
template<int N> static void transitions(Ctx &c) {
    ExecScope scope(c);
    {
        Var<N> v[2];
        Model m[2];
        same<N>(c, v[0], m[0], "default");
        int i = c.choose(N), j = c.choose(N);
        store<N>(c, v[0], m[0], i, 11, 0);
        store<N>(c, v[1], m[1], j, 22, 0);
        int what = c.choose(STORES + 7);
        switch(what) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
            store<N>(c, v[0], m[0], j, 33, what);
            break;
        case 11:
            if(i == j)
                c.abandon();
            c.op("get of alternative %d while holding %d", j, i);
            refuse<N>(c, v[0], m[0], j);
            break;
        case 5:
            c.op("v0 = v1");
            v[0] = (const Var<N> &)v[1];
            m[0] = m[1];
            break;
        case 6: {
            c.op("v0 = move(v1)");
            v[0] = P::move(v[1]);
            m[0] = m[1];
            store<N>(c, v[1], m[1], i, 44, 0);
            break;
        }
        case 7: {
            c.op("Variant t(const v1)");
            Var<N> t((const Var<N> &)v[1]);
            same<N>(c, t, m[1], "copy");
            break;
        }
        case 8: {
            c.op("Variant t(move(v1))");
            Var<N> t(P::move(v[1]));
            same<N>(c, t, m[1], "moved copy");
            v[1] = P::move(t);
            break;
        }
        case 9: {
            c.op("v0 = v0; v0 = move(v0)");
            auto &r = v[0];
            v[0] = (const Var<N> &)r;
            v[0] = P::move(r);
            break;
        }
        case 10:
            c.op("insert a copy of the own content");
            with_index<N>(i, [&]<int J>() {
                using T = typename Pick<J>::type;
                v[0].template insert<T>(v[0].template get<T>());
            });
            break;
        }
        same<N>(c, v[0], m[0], "0");
        same<N>(c, v[1], m[1], "1");
        c.state(mc::Hash().add(N).add(i).add(j).add(m[0].idx).add(m[1].idx).h);
    }
    ExecScope::finish(c);
}

template<int N> static void sequences(Ctx &c, int depth) {
    ExecScope scope(c);
    {
        Var<N> v[2];
        Model m[2];
        int fresh = 1;
        for(int step = 0; step < depth; ++step) {
                int x = c.choose(2), y = 1 - x;
            switch(c.choose(7)) {
            case 0:
                store<N>(c, v[x], m[x], c.choose(N), fresh++, 0);
                break;
            case 1:
                store<N>(c, v[x], m[x], c.choose(N), fresh++, 1 + fresh % 4);
                break;
            case 2:
                c.op("v%d = v%d", x, y);
                v[x] = (const Var<N> &)v[y];
                m[x] = m[y];
                break;
            case 3:
                c.op("v%d = move(v%d)", x, y);
                v[x] = P::move(v[y]);
                m[x] = m[y];
                // the content of a moved-from variant is unspecified but it is reusable
                store<N>(c, v[y], m[y], 0, fresh++, 0);
                break;
            case 4: {
                c.op("swap through moves");
                Var<N> t(P::move(v[0]));
                v[0] = P::move(v[1]);
                v[1] = P::move(t);
                std::swap(m[0], m[1]);
                break;
            }
            case 5:
                c.op("write through get of v%d", x);
                with_index<N>(m[x].idx, [&]<int J>() {
                    using T = typename Pick<J>::type;
                    v[x].template get<T>() = T(fresh);
                });
                m[x].v = fresh++;
                break;
            case 6: {
                c.op("v%d = v%d (self)", x, x);
                auto &r = v[x];
                v[x] = (const Var<N> &)r;
                break;
            }
            }
            same<N>(c, v[0], m[0], "0");
            same<N>(c, v[1], m[1], "1");
            c.state(mc::Hash().add(m[0].idx).add(m[1].idx).add(fresh - m[0].v).add(fresh - m[1].v).h);
        }
    }
    ExecScope::finish(c);
}

// Builtin alternatives, as users have them.
static void builtins(Ctx &c) {
    using V = P::Variant<int, P::CString, double, P::Vector<int>, bool>;
    V v[2];
    auto set = [&](V &t, int i) {
        switch(i) {
        case 0:
            t = V(5);
            break;
        case 1:
            t = V(P::CString("text long enough to live on the heap"));
            break;
        case 2:
            t = V(2.5);
            break;
        case 3: {
            P::Vector<int> q;
            q.push_back(1);
            q.push_back(2);
            t = V(P::move(q));
            break;
        }
        case 4:
            t = V(true);
            break;
        }
    };
    auto chk = [&](V &t, int i) {
        MC_CHECK(c, t.index() == i, "index %d, expected %d", t.index(), i);
        switch(i) {
        case 0:
            MC_CHECK(c, t.get<int>() == 5, "int lost");
            break;
        case 1:
            MC_CHECK(c, t.get<P::CString>() == "text long enough to live on the heap", "text lost");
            break;
        case 2:
            MC_CHECK(c, t.get<double>() == 2.5, "double lost");
            break;
        case 3:
            MC_CHECK(c, t.get<P::Vector<int>>().size() == 2 && t.get<P::Vector<int>>()[1] == 2,
                     "vector lost");
            break;
        case 4:
            MC_CHECK(c, t.get<bool>() == true, "bool lost");
            break;
        }
    };
    set(v[0], 0);
    set(v[1], 0);
    int a = 0, b = 0;
    for(int step = 0; step < 4; ++step) {
        c.op("step");
        switch(c.choose(4)) {
        case 0:
            set(v[0], a = c.choose(5));
            break;
        case 1:
            set(v[1], b = c.choose(5));
            break;
        case 2:
            v[0] = v[1];
            a = b;
            break;
        case 3: {
            V t(P::move(v[0]));
            v[0] = P::move(v[1]);
            v[1] = P::move(t);
            std::swap(a, b);
            break;
        }
        }
        chk(v[0], a);
        chk(v[1], b);
        c.state(mc::Hash().add(a).add(b).h);
    }
}

template<int N> static void add_transitions() {
    static std::string nm = "transitions-" + std::to_string(N);
    mc::add(nm.c_str(), "every alternative to every alternative by every operation",
            [](Ctx &c) { transitions<N>(c); });
}

void mc::mc_register() {
#ifdef PART_VARIANT
    [&]<int... I>(std::integer_sequence<int, I...>) {
        (add_transitions<I + 1>(), ...);
    }(std::make_integer_sequence<int, 30>{});
    mc::add("sequences-4", "2 variants of 4 types, every sequence of 4 (5) operations",
            [](Ctx &c) { sequences<4>(c, c.bound(4, 5)); });
    mc::add("builtins", "2 variants of built-in and library types, 4 operations", builtins);
#endif
#ifdef PART_LIFE
    mc::add("life-variant", "2 variants of 3 types, every sequence of 5 (6) operations",
            [](Ctx &c) { sequences<3>(c, c.bound(5, 6)); });
#endif
}
