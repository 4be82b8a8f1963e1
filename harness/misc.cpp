// C25 (PART_LOOP), C26 (PART_FORMAT), C27 (PART_ORDER), C28 (PART_SPAN).
#include <climits>
#include <cmath>
#include <cstdarg>
#include <fcntl.h>
#include <limits>
#include <unistd.h>
#include "common.hpp"
#include "aborts.hpp"

// Misuse that is reported by aborting prints a message first.
template<typename F> static bool quietly_reported(F &&fn) {
    fflush(stdout);
    fflush(stderr);
    int o = dup(1), e = dup(2), n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    bool r = reported(fn);
    fflush(stdout);
    fflush(stderr);
    dup2(o, 1);
    dup2(e, 2);
    close(o);
    close(e);
    close(n);
    return r;
}

#ifdef PART_LOOP
// ---------------------------------------------------------------- C25
using I = int64_t;
static const size_t MAXN = 40;
// The first integers of Python's range; more: true when there are more than MAXN.
static std::vector<I> reference(I a, I b, I s, bool &more) {
    std::vector<I> r;
    more = false;
    for(__int128 i = a; s > 0 ? i < b : i > b; i += s) {
        if(r.size() == MAXN) {
            more = true;
            break;
        }
        r.push_back((I)i);
    }
    return r;
}
static void check_range(Ctx &c, P::Range &r, const std::vector<I> &want, bool more, size_t from, const char *how, I a, I b, I s) {
    for(size_t k = from; k < want.size(); ++k) {
        auto x = r.next();
        MC_CHECK(c, (bool)x, "%s range(%lld,%lld,%lld) ends after %zu elements", how, (long long)a, (long long)b, (long long)s, k);
        MC_CHECK(c, *x == want[k], "%s range(%lld,%lld,%lld) yields %lld as element %zu", how, (long long)a, (long long)b, (long long)s, (long long)*x, k);
    }
    if(!more)
        for(int k = 0; k < 3; ++k)
            MC_CHECK(c, !r.next(), "%s range(%lld,%lld,%lld) does not end", how, (long long)a, (long long)b, (long long)s);
    c.ops(want.size() + 1);
}
static void one_range(Ctx &c, I a, I b, I s) {
    if(s == 0) {
        MC_CHECK(c, throws([&] { P::Range r(a, b, 0); }), "range(%lld,%lld,0) is accepted", (long long)a, (long long)b);
        return;
    }
    bool more;
    auto want = reference(a, b, s, more);
    {
        P::Range r(a, b, s);
        check_range(c, r, want, more, 0, "", a, b, s);
    }
    if(s == 1) {
        P::Range r(a, b);
        check_range(c, r, want, more, 0, "two-argument", a, b, s);
    }
    if(s == 1 && a == 0) {
        P::Range r(b);
        check_range(c, r, want, more, 0, "one-argument", a, b, s);
    }
    // moved and copied after every number of steps
    for(size_t k = 0; k <= want.size() && k < 6; ++k) {
        P::Range r(a, b, s);
        for(size_t i = 0; i < k; ++i)
            r.next();
        P::Range copy;
        MC_CHECK(c, !copy.next(), "an empty range yields something");
        copy = r;
        P::Range moved(P::move(r));
        check_range(c, moved, want, more, k, "moved", a, b, s);
        check_range(c, copy, want, more, k, "copied", a, b, s);
    }
    if(!more) {
        std::vector<I> got;
        for(auto x : P::Loopsume(P::Range(a, b, s)))
            got.push_back(x);
        MC_CHECK(c, got == want, "looping over range(%lld,%lld,%lld) yields other elements", (long long)a, (long long)b, (long long)s);
        got.clear();
        P::Range r(a, b, s);
        P::LoopView view(r);
        for(auto &x : view)
            got.push_back(x);
        MC_CHECK(c, got == want, "looping over a view of range(%lld,%lld,%lld) yields other elements", (long long)a, (long long)b, (long long)s);
    }
    c.state(mc::Hash().add(a).add(b).add(s).h);
}
static void small_ranges(Ctx &c) {
    int n = c.bound(7, 12);
    I a = c.choose(2 * n + 1) - n;
    I b = c.choose(2 * n + 1) - n;
    c.op("start %lld, stop %lld", (long long)a, (long long)b);
    for(I s = -n; s <= n; ++s)
        one_range(c, a, b, s);
}
static void extreme_ranges(Ctx &c) {
    const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    std::vector<I> v = {lo, lo + 1, lo + 2, lo + 7, lo / 2 - 1, lo / 2, -(1ll << 32), -3, -2, -1, 0, 1, 2, 3, 7, 1ll << 31, 1ll << 32, hi / 2, hi / 2 + 1, hi / 2 + 2, hi - 7, hi - 2, hi - 1, hi};
    I a = c.pick(v), b = c.pick(v);
    c.op("start %lld, stop %lld", (long long)a, (long long)b);
    for(I s : v)
        one_range(c, a, b, s);
}

// A source that counts how often it is asked, and by whom it is owned.
struct Source {
    int n = 0, i = 0;
    int *calls = nullptr;
    bool *over = nullptr;
    Source() noexcept = default;
    Source(int n_, int *c, bool *o) noexcept : n(n_), calls(c), over(o) {}
    Source(Source &&o) noexcept = default;
    Source &operator=(Source &&o) noexcept = default;
    P::Optional<Tracked> next() {
        ++*calls;
        if(i >= n) {
            if(i > n)
                *over = true;
            ++i;
            return {};
        }
        return P::Optional<Tracked>(Tracked(100 + i++));
    }
};
static void adapters(Ctx &c) {
    int kind = c.choose(3), n = c.choose(c.bound(7, 12)), stop = c.choose(n + 2);
    c.op("adapter %d over %d elements, left after %d", kind, n, stop);
    {
        ExecScope es(c);
        int calls = 0, seen = 0;
        bool over = false;
        auto body = [&](int v) {
            MC_CHECK(c, v == 100 + seen, "element %d is %d", seen, v);
            ++seen;
            MC_CHECK(c, calls == seen, "%d elements were taken from the source for %d delivered", calls, seen);
            return seen == stop;
        };
        if(kind == 0) {
            Source s(n, &calls, &over);
            {
                P::LoopView view(s);
                for(auto &x : view)
                    if(body(x.get()))
                        break;
            }
            int at = std::min(n, stop ? stop : n + 9);
            MC_CHECK(c, seen == at, "%d of %d elements are delivered", seen, at);
            MC_CHECK(c, !over && calls == (stop && stop <= n ? at : n + 1), "the source is asked %d times for %d of %d elements", calls, at, n);
            if(stop && stop <= n) // the rest is still there
                for(auto &x : P::LoopView(s))
                    body(x.get());
            if(stop && stop <= n)
                MC_CHECK(c, seen == n && !over, "continuing after leaving the loop delivers %d of %d", seen, n);
        } else if(kind == 1) {
            for(auto &&x : P::Loopsume(Source(n, &calls, &over)))
                if(body(x.get()))
                    break;
            int at = std::min(n, stop ? stop : n + 9);
            MC_CHECK(c, seen == at, "%d of %d elements are delivered", seen, at);
            MC_CHECK(c, !over && calls == (stop && stop <= n ? at : n + 1), "the source is asked %d times for %d of %d elements", calls, at, n);
        } else {
            P::Vector<Tracked> v;
            for(int i = 0; i < n; ++i)
                v.push_back(Tracked(100 + i));
            size_t k = 0;
            for(auto [i, x] : P::EnumerateView(v)) {
                MC_CHECK(c, i == k, "element %zu has index %zu", k, i);
                MC_CHECK(c, x.get() == 100 + (int)k && &x == &v[k], "element %zu is not the container's", k);
                x = Tracked(500 + (int)k);
                if(++k == (size_t)stop)
                    break;
            }
            MC_CHECK(c, k == (size_t)std::min(n, stop ? stop : n + 9), "%zu of %d elements are delivered", k, n);
            for(int i = 0; i < n; ++i)
                MC_CHECK(c, v[i].get() == (i < (int)k ? 500 : 100) + i, "element %d is %d after the loop", i, v[i].get());
            int arr[12] = {};
            P::Span<int> sp(arr, n);
            k = 0;
            for(auto e : P::EnumerateView(sp)) {
                MC_CHECK(c, e.i == k && &e.value == arr + k, "span element %zu has index %zu", k, e.i);
                e.value = 7;
                ++k;
            }
            MC_CHECK(c, k == (size_t)n, "%zu of %d span elements are delivered", k, n);
            // twice over the same view
            auto view = P::EnumerateView(v);
            for(int t = 0; t < 2; ++t) {
                k = 0;
                for(auto e : view)
                    MC_CHECK(c, e.i == k++, "index %zu in pass %d", e.i, t);
                MC_CHECK(c, k == (size_t)n, "pass %d delivers %zu of %d", t, k, n);
            }
        }
        c.state(mc::Hash().add(kind).add(n).add(stop).h);
    }
    ExecScope::finish(c);
}
// Ranges and containers of many elements.
static void counts(Ctx &c) {
    static const int ns[] = {39, 40, 41, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
    static const I starts[] = {0, -1, 1, -50, 250, -300, 65530, (1ll << 31) - 20, -(1ll << 31) + 5, (1ll << 32) - 3, INT64_MIN, INT64_MAX - 800000};
    static const I steps[] = {1, 2, 7, -1, -3};
    int n = c.pick(ns);
    I a = c.pick(starts), s = c.pick(steps);
    if(s < 0 && a == INT64_MIN)
        a = INT64_MAX;
    I b = a + s * n;
    c.op("%d elements from %lld in steps of %lld", n, (long long)a, (long long)s);
    for(int slack = 0; slack < (s > 0 ? s : -s) && slack < 3; ++slack) {
        I e = b - (s > 0 ? slack : -slack);
        int k = 0;
        P::Range r(a, e, s);
        while(auto x = r.next()) {
            MC_CHECK(c, k < n && *x == a + k * s, "element %d of %d is %lld", k, n, (long long)*x);
            ++k;
        }
        MC_CHECK(c, k == n && !r.next(), "%d of %d elements are delivered", k, n);
        k = 0;
        for(auto x : P::Loopsume(P::Range(a, e, s))) {
            MC_CHECK(c, k < n && x == a + k * s, "element %d of %d is %lld in a loop", k, n, (long long)x);
            ++k;
        }
        MC_CHECK(c, k == n, "%d of %d elements are delivered in a loop", k, n);
        c.ops(2 * n);
    }
    if(a == 0 && s == 1) {
        P::Vector<int> v;
        v.reserve(n);
        for(int i = 0; i < n; ++i)
            v.push_back(i ^ 5);
        size_t k = 0;
        for(auto [i, x] : P::EnumerateView(v)) {
            MC_CHECK(c, i == k && x == ((int)k ^ 5) && &x == &v[k], "element %zu is delivered as number %zu", k, i);
            ++k;
        }
        MC_CHECK(c, k == (size_t)n, "%zu of %d elements are enumerated", k, n);
        int calls = 0, seen = 0;
        bool over = false;
        Source src(n, &calls, &over);
        for(auto &x : P::LoopView(src)) {
            MC_CHECK(c, x.get() == 100 + seen, "element %d is %d", seen, x.get());
            ++seen;
        }
        MC_CHECK(c, seen == n && calls == n + 1 && !over, "%d of %d elements are delivered by %d calls", seen, n, calls);
    }
    c.state(mc::Hash().add(n).add(a).add(s).h);
}
// A source that has nothing now and something later: every loop delivers what there is.
static void refilled(Ctx &c) {
    c.op("a source refilled between loops");
    {
        ExecScope es(c);
        int calls = 0;
        bool over = false, again = false;
        Source s(0, &calls, &over);
        std::string hist;
        P::LoopView kept(s);
        int produced = 0;
        for(int round = 0; round < 4; ++round) {
            int more = c.choose(4), stop = c.choose(3);
            bool fresh = c.choose(2);
            c.op("%d more, left after %d, %s view", more, stop, fresh ? "new" : "same");
            s.n = std::max(s.i, s.n) + more; // what was asked in vain counts as delivered
            int left = s.n - s.i, seen = 0, first = 100 + s.i;
            auto body = [&](int v) {
                MC_CHECK(c, v == first + seen, "element %d of round %d is %d", seen, round, v);
                ++seen;
                return seen == stop;
            };
            if(fresh) {
                P::LoopView v(s);
                for(auto &x : v)
                    if(body(x.get()))
                        break;
            } else
                for(auto &x : kept)
                    if(body(x.get()))
                        break;
            MC_CHECK(c, seen == (stop && stop <= left ? stop : left), "round %d delivers %d of %d", round, seen, left);
            produced += seen;
            if(s.i > s.n)
                s.i = s.n;
        }
        c.state(mc::Hash().add(produced).add(s.i).h);
        (void)again;
    }
    ExecScope::finish(c);
}
void mc::mc_register() {
    mc::add("counts", "23 numbers of elements up to 100000, 12 starts, 5 steps, whole, in a loop, enumerated", counts, 1);
    mc::add("refilled", "4 loops over a source that has 0 to 3 more elements each time, left early, same or new view", refilled, 2);
    mc::add("small", "all start, stop and step of -7..7 (thorough: -12..12), whole, moved, copied, through both adapters", small_ranges, 2);
    mc::add("extreme", "all start, stop and step from 24 values at the ends and middle of the range", extreme_ranges, 2);
    mc::add("adapters", "3 adapters over sources of up to 6 (thorough: 11) elements, left after every element", adapters, 1);
}
#endif

#ifdef PART_FORMAT
// ---------------------------------------------------------------- C26
static std::string ref(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string ref(const char *f, ...) {
    va_list a, b;
    va_start(a, f);
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, f, a);
    std::string s(n + 1, '\0');
    vsnprintf(s.data(), n + 1, f, b);
    va_end(a);
    va_end(b);
    s.resize(n);
    return s;
}
static std::string str(const P::CString &s) { return std::string(s.c_str(), s.size()); }
static std::string str(const P::Bytes &s) { return s.size() ? std::string(s.data(), s.size()) : std::string(); }
static std::string str(const P::Vector<char> &v) {
    std::string s;
    for(size_t i = 0; i < v.size(); ++i)
        s += v[i];
    return s;
}
static std::string excerpt(const std::string &s) { return s.size() > 50 ? s.substr(0, 24) + "..." + s.substr(s.size() - 22) : s; }

static int g_calls;
static std::string *g_text;
static void take(const char *buf, size_t n, void *ctx) {
    ++g_calls;
    *g_text = std::string(buf, n);
    if(buf[n] != '\0')
        ((Ctx *)ctx)->fail("the text handed to the callback is not terminated");
}
static void call_cb(Ctx &c, const char *f, ...) {
    va_list a;
    va_start(a, f);
    P::cformat_with_cb(take, &c, f, a);
    va_end(a);
}
template<typename T> static void seed(T &t, int n) {
    for(int i = 0; i < n; ++i)
        t.push_back((char)('A' + i));
}
static void seed(P::CString &t, int n) {
    for(int i = 0; i < n; ++i)
        t.append((char)('A' + i));
}
template<typename... A> static void all(Ctx &c, int pre, const char *f, A... a) {
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wformat-security"
#pragma clang diagnostic ignored "-Wformat-nonliteral"
    std::string want = ref(f, a...);
    std::string old = std::string("ABCDEFGH").substr(0, pre);
    c.ops(5);
    auto same = [&](const char *who, const std::string &got, const std::string &w) {
        if(got == w)
            return;
        size_t i = 0;
        while(i < got.size() && i < w.size() && got[i] == w[i])
            ++i;
        c.fail("%s of '%s' gives %zu bytes, expected %zu; they differ from byte %zu on (%s / %s)", who, f, got.size(), w.size(), i, excerpt(got).c_str(), excerpt(w).c_str());
    };
    {
        P::CString s = P::cformat(f, a...);
        same("cformat", str(s), want);
    }
    {
        P::CString s;
        seed(s, pre);
        P::format_append(s, f, a...);
        same("format_append to CString", str(s), old + want);
    }
    {
        P::Bytes s;
        seed(s, pre);
        P::format_append(s, f, a...);
        same("format_append to Bytes", str(s), old + want);
    }
    // Vector<char> of 2025 grows by one element at a time
    if(EPOCH != 2025 || want.size() < 300 || (want.size() < 3000 && want.size() % 50 == 0) || (want.size() > 1020 && want.size() < 1028)) {
        P::Vector<char> s;
        seed(s, pre);
        P::format_append(s, f, a...);
        same("format_append to Vector", str(s), old + want);
    }
    {
        std::string t;
        g_text = &t;
        g_calls = 0;
        call_cb(c, f, a...);
        MC_CHECK(c, g_calls == 1, "the callback is called %d times for '%s'", g_calls, f);
        same("cformat_with_cb", t, want);
    }
#pragma clang diagnostic pop
    c.state(mc::Hash().str(want).h);
}

static const int KINDS = 9;
static void by_kind(Ctx &c, int kind, int len, int pre) {
    std::string s(len, 'x');
    for(int i = 0; i < len; ++i)
        s[i] = 'a' + i % 26;
    switch(kind) {
    case 0:
        return all(c, pre, "%s", s.c_str());
    case 1:
        return all(c, pre, "%*d", len, 42);
    case 2:
        return all(c, pre, "%-*d|", len - 1, -7);
    case 3:
        return all(c, pre, "%.*s%d", len, (s + "tail").c_str(), 12345);
    case 4:
        return all(c, pre, "%d %s %s %g", 17, s.c_str(), "after", 2.5);
    case 5:
        return all(c, pre, "%s%s", s.substr(0, len / 2).c_str(), s.substr(len / 2).c_str());
    case 6:
        return all(c, pre, "%.*f", len, 1.0 / 3.0);
    case 7:
        return all(c, pre, "%lld%%%s%c%p", -5000000000ll, s.c_str(), 'z', (void *)0x1234);
    default:
        return all(c, pre, (s + "%d").c_str(), 3);
    }
}
static void lengths(Ctx &c) {
    int block = c.choose(c.bound(88, 330)); // 25 lengths each
    int kind = c.choose(KINDS);
    c.op("lengths %d..%d, kind %d", block * 25, block * 25 + 24, kind);
    for(int l = block * 25; l < block * 25 + 25; ++l)
        by_kind(c, kind, l, l % 5 == 0 ? 0 : l % 5);
}
static void large(Ctx &c) {
    static const int sizes[] = {4096, 8192, 16384, 32768, 65536, 131072, 1000000};
    int len = c.pick(sizes) + c.choose(7) - 3;
    int kind = c.choose(KINDS);
    if(kind == 8 && len > 200000)
        c.abandon();
    c.op("length %d, kind %d", len, kind);
    by_kind(c, kind, len, 3);
}
// Sequences of appends, also of the destination to itself.
static void history(Ctx &c) {
    P::CString s;
    P::Bytes b;
    std::string m;
    int depth = c.bound(4, 5);
    for(int i = 0; i < depth; ++i) {
        int k = c.choose(7);
        c.op("append %d", k);
        switch(k) {
        case 0:
            P::format_append(s, "%s", "");
            P::format_append(b, "%s", "");
            break;
        case 1:
            P::format_append(s, "%d,", 5);
            P::format_append(b, "%d,", 5);
            m += "5,";
            break;
        case 2:
            P::format_append(s, "%*s", 700, "w");
            P::format_append(b, "%*s", 700, "w");
            m += std::string(699, ' ') + "w";
            break;
        case 3:
            P::format_append(s, "%s", s.c_str());
            P::format_append(b, "%s", m.c_str());
            m += m;
            break;
        case 4:
            P::format_append(s, "%s|%s", s.c_str(), s.c_str());
            P::format_append(b, "%s|%s", m.c_str(), m.c_str());
            m += m + "|" + m;
            break;
        case 5:
            s = P::cformat("<%s>", s.c_str());
            b = P::Bytes(s.c_str(), s.size());
            m = "<" + m + ">";
            break;
        default:
            P::format_append(s, "%1023c", 'q');
            P::format_append(b, "%1023c", 'q');
            m += std::string(1022, ' ') + "q";
        }
        MC_CHECK(c, str(s) == m && str(b) == m, "after %d appends the text has %zu or %zu bytes, expected %zu, or others", i + 1, s.size(), b.size(), m.size());
        if(m.size() > 100000)
            break;
        c.visit(mc::Hash().str(m).h, depth - i);
    }
}
// Formats that cannot be formatted, and zero bytes.
static void failing(Ctx &c) {
    int k = c.choose(4);
    c.op("case %d", k);
    std::string t;
    g_text = &t;
    g_calls = 0;
    switch(k) {
    case 0: {
        wchar_t w[] = {(wchar_t)0x7fffffff, 0};
        MC_CHECK(c, throws([&] { P::cformat("%ls", w); }), "an encoding error is not reported");
        MC_CHECK(c, throws([&] { call_cb(c, "%ls", w); }) && g_calls == 0, "an encoding error is delivered");
        P::CString s("old");
        MC_CHECK(c, throws([&] { P::format_append(s, "%ls", w); }) && s == "old", "an encoding error changes the destination");
        break;
    }
    case 1: { // zero bytes inside
        call_cb(c, "a%cb", 0);
        MC_CHECK(c, g_calls == 1 && t == std::string("a\0b", 3), "a zero byte is not delivered");
        P::Bytes b;
        P::format_append(b, "a%cb", 0);
        MC_CHECK(c, str(b) == std::string("a\0b", 3), "a zero byte is not appended");
        P::CString s("x");
        MC_CHECK(c, throws([&] { P::cformat("a%cb", 0); }), "cformat hides a zero byte");
        bool rep = throws([&] { P::format_append(s, "a%cb", 0); });
        MC_CHECK(c, rep, "format_append hides a zero byte");
        break;
    }
    case 2: { // more than INT_MAX characters
        MC_CHECK(c, throws([&] { P::cformat("%2147483647d%2147483647d", 1, 2); }), "a result that is too long is not reported");
        break;
    }
    default: {
        // a callback that throws
        int n = 0;
        auto cb = [](const char *, size_t, void *p) {
            ++*(int *)p;
            throw P::PyException("refused");
        };
        auto go = [&](const char *f, ...) {
            va_list a;
            va_start(a, f);
            bool r = throws([&] { P::cformat_with_cb(cb, &n, f, a); });
            va_end(a);
            return r;
        };
        MC_CHECK(c, go("%d", 1) && n == 1, "an exception of the callback is lost");
        MC_CHECK(c, go("%2000d", 1) && n == 2, "an exception of the callback is lost");
    }
    }
}
void mc::mc_register() {
    mc::add("lengths", "every result length 0..2199 (thorough: 0..8249) through 9 formats and 5 destinations", lengths, 2);
    mc::add("large", "lengths within 3 of 4k..1M through 9 formats and 5 destinations", large, 2);
    mc::add("history", "all sequences of 4 (thorough: 5) of 7 appends, also of the text to itself", history, 2);
    mc::add("failing", "encoding errors, zero bytes, overlong results, throwing callbacks", failing, 1);
}
#endif

#ifdef PART_ORDER
// ---------------------------------------------------------------- C27
static void clamp_int(Ctx &c) {
    const int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
    std::vector<int64_t> v = {lo, lo + 1, lo / 2, -(1ll << 53) - 1, -(1ll << 32), -(1ll << 31) - 1, -3, -2, -1, 0, 1, 2, 3, (1ll << 31), (1ll << 32) + 1, (1ll << 53) + 1, hi / 2, hi - 1, hi};
    int64_t a = c.pick(v), b = c.pick(v);
    c.op("clamp to [%lld,%lld]", (long long)a, (long long)b);
    if(a > b) {
        MC_CHECK(c, quietly_reported([&] { P::clamp((int64_t)0, a, b); }), "an empty range to clamp to is not reported");
        return;
    }
    for(int64_t x : v) {
        int64_t want = std::min(std::max(x, a), b), got = P::clamp(x, a, b);
        MC_CHECK(c, got == want, "clamp(%lld, %lld, %lld) is %lld", (long long)x, (long long)a, (long long)b, (long long)got);
        c.state(mc::Hash().add(x).add(a).add(b).h);
    }
    c.ops(v.size());
}
template<typename F> static std::vector<F> floats() {
    using L = std::numeric_limits<F>;
    std::vector<F> v;
    for(F x : {(F)0, L::denorm_min(), L::min() / 2, L::min(), L::epsilon(), (F)0.1, (F)0.5, std::nextafter((F)1, (F)0), (F)1, std::nextafter((F)1, (F)2), (F)1.5, (F)2, (F)16777217.0, (F)4294967296.0, (F)9007199254740993.0, (F)9223372036854775807.0, L::max() / 2, L::max(), L::infinity()}) {
        v.push_back(x);
        v.push_back(-x);
    }
    return v;
}
static void clamp_float(Ctx &c) {
    auto v = floats<double>();
    v.push_back(NAN);
    v.push_back(-NAN);
    double a = c.pick(v), b = c.pick(v);
    c.op("clamp to [%g,%g]", a, b);
    if(a > b) {
        MC_CHECK(c, quietly_reported([&] { P::clamp(0.0, a, b); }), "an empty range to clamp to is not reported");
        return;
    }
    for(double x : v) {
        double got = P::clamp(x, a, b);
        if(std::isnan(x) || std::isnan(a) || std::isnan(b))
            MC_CHECK(c, std::isnan(got), "clamp(%g, %g, %g) is %g", x, a, b, got);
        else
            MC_CHECK(c, got == std::min(std::max(x, a), b), "clamp(%g, %g, %g) is %g", x, a, b, got);
        c.state(mc::Hash().bytes(&x, 8).bytes(&a, 8).bytes(&b, 8).h);
    }
    c.ops(v.size());
}
#if EPOCH == 2026
static int sign(int x) { return x < 0 ? -1 : x > 0; }
// cmp is consistent with the reference sign (rank) for all pairs and triples.
template<typename T, typename Cmp, typename Rank> static void lawful(Ctx &c, const char *what, const std::vector<T> &v, const Cmp &cmp, Rank &&rank, size_t i) {
    for(size_t j = 0; j < v.size(); ++j) {
        int ij = sign(cmp.compare(v[i], v[j])), ji = sign(cmp.compare(v[j], v[i]));
        MC_CHECK(c, ij == -ji, "%s: compare of values %zu and %zu is %d one way and %d the other", what, i, j, ij, ji);
        int want = rank(v[i], v[j]);
        MC_CHECK(c, ij == want, "%s: compare of values %zu and %zu is %d, expected %d", what, i, j, ij, want);
        MC_CHECK(c, cmp.equal(v[i], v[j]) == (want == 0), "%s: equal of values %zu and %zu is wrong", what, i, j);
        for(size_t k = 0; k < v.size() && v.size() < 300; ++k)
            if(ij <= 0 && sign(cmp.compare(v[j], v[k])) <= 0)
                MC_CHECK(c, sign(cmp.compare(v[i], v[k])) <= 0, "%s: not transitive at %zu, %zu, %zu", what, i, j, k);
    }
    c.ops(v.size());
    c.state(mc::Hash().str(what).add(i).h);
}
template<typename T> static std::vector<T> integers() {
    using L = std::numeric_limits<T>;
    std::vector<T> v;
    if(sizeof(T) == 1) {
        for(int i = L::min(); i <= L::max(); ++i)
            v.push_back((T)i);
        return v;
    }
    for(long long d : {0, 1, 2, 100}) {
        v.push_back((T)(L::min() + d));
        v.push_back((T)(L::max() - d));
        v.push_back((T)(L::max() / 2 + d));
        v.push_back((T)d);
        if(L::is_signed)
            v.push_back((T)-d);
    }
    return v;
}
template<typename T> static void ints(Ctx &c, const char *n) {
    static const std::vector<T> v = integers<T>();
    size_t i = c.choose((int)v.size());
    auto rank = [](T a, T b) { return a < b ? -1 : b < a ? 1 : 0; };
    lawful(c, n, v, P::DefaultComparator<T>{}, rank, i);
    lawful(c, n, v, P::OnlyLessComparator<T>{}, rank, i);
}
struct OnlyLess {
    int v;
    bool operator<(const OnlyLess &o) const { return v < o.v; }
    bool operator==(const OnlyLess &o) const { return v == o.v; }
};
template<typename F> static void flts(Ctx &c, const char *n, int nans) {
    static std::vector<F> v = floats<F>(), w;
    if(w.empty()) {
        w = v;
        w.push_back(std::numeric_limits<F>::quiet_NaN());
        w.push_back(-std::numeric_limits<F>::quiet_NaN());
        w.push_back(std::numeric_limits<F>::signaling_NaN());
        w.push_back(-std::nan("123"));
    }
    if(nans) {
        size_t i = c.choose((int)w.size());
        lawful(c, n, w, P::FloatTotalOrderComparator<F>{}, [](F a, F b) { return std::isnan(a) ? (std::isnan(b) ? 0 : 1) : std::isnan(b) ? -1 : a < b ? -1 : b < a; }, i);
    } else {
        size_t i = c.choose((int)v.size());
        lawful(c, n, v, P::FloatIgnoreNanComparator<F>{}, [](F a, F b) { return a < b ? -1 : b < a; }, i);
    }
}
// Every value of the upper bits of a float against every boundary value.
static void all_floats(Ctx &c) {
    int hi = c.choose(256), low = c.choose(3);
    auto w = floats<float>();
    w.push_back(NAN);
    w.push_back(-NAN);
    c.op("floats %02x......", hi);
    for(uint32_t mid = 0; mid < 256; ++mid) {
        uint32_t bits = (uint32_t)hi << 24 | mid << 16 | (low == 0 ? 0 : low == 1 ? 1 : 0xffff);
        float f;
        memcpy(&f, &bits, 4);
        for(float g : w) {
            int want = std::isnan(f) ? (std::isnan(g) ? 0 : 1) : std::isnan(g) ? -1 : f < g ? -1 : g < f;
            MC_CHECK(c, sign(P::total_order_compare(f, g)) == want && sign(P::total_order_compare(g, f)) == -want, "total order of %08x and %g is wrong", bits, g);
            MC_CHECK(c, P::total_order_equal(f, g) == (want == 0), "total order equality of %08x and %g is wrong", bits, g);
            double df = f, dg = g;
            MC_CHECK(c, sign(P::total_order_compare(df, dg)) == want && P::total_order_equal(df, dg) == (want == 0), "total order of double %08x and %g is wrong", bits, g);
        }
    }
    c.ops(256 * w.size());
    c.state(mc::Hash().add(hi).add(low).h);
}
static void comparators(Ctx &c) {
    int k = c.choose(15);
    c.op("comparator family %d", k);
    switch(k) {
    case 0:
        return ints<signed char>(c, "signed char");
    case 1:
        return ints<unsigned char>(c, "unsigned char");
    case 2:
        return ints<int16_t>(c, "int16");
    case 3:
        return ints<uint16_t>(c, "uint16");
    case 4:
        return ints<int32_t>(c, "int32");
    case 5:
        return ints<uint32_t>(c, "uint32");
    case 6:
        return ints<int64_t>(c, "int64");
    case 7:
        return ints<uint64_t>(c, "uint64");
    case 8:
        return flts<float>(c, "float total order", 1);
    case 9:
        return flts<double>(c, "double total order", 1);
    case 10:
        return flts<float>(c, "float without NaN", 0);
    case 11:
        return flts<double>(c, "double without NaN", 0);
    case 12:
        return ints<char>(c, "char");
    case 13: {
        static std::vector<OnlyLess> v;
        if(v.empty())
            for(int x : {INT_MIN, INT_MIN + 1, -2, -1, 0, 1, 1, 2, INT_MAX - 1, INT_MAX})
                v.push_back({x});
        size_t i = c.choose((int)v.size());
        return lawful(c, "type with < only", v, P::OnlyLessComparator<OnlyLess>{}, [](const OnlyLess &a, const OnlyLess &b) { return a.v < b.v ? -1 : b.v < a.v; }, i);
    }
    default: {
        std::vector<P::CString> v;
        for(auto *s : {"", "a", "aa", "ab", "b", "A", "\x7f", "\x80", "\xff", "a\xff", "abc", "abd", "ab"})
            v.push_back(P::CString(s));
        size_t i = c.choose((int)v.size());
        lawful(c, "CString", v, P::DefaultComparator<P::CString>{}, [](const P::CString &a, const P::CString &b) { return sign(strcmp(a.c_str(), b.c_str())); }, i);
    }
    }
}
#endif
void mc::mc_register() {
    mc::add("clamp-int", "every triple of 19 boundary values", clamp_int, 2);
    mc::add("clamp-float", "every triple of 40 boundary values and NaNs", clamp_float, 2);
#if EPOCH == 2026
    mc::add("comparators", "15 families: all pairs and triples of all 8-bit values or of boundary values", comparators, 2);
    mc::add("floats", "every upper half of a float, 3 lower halves, against 40 boundary values", all_floats, 1);
#endif
}
#endif

#ifdef PART_SPAN
// ---------------------------------------------------------------- C28
static const size_t X = (size_t)-1;
static std::vector<size_t> amounts(size_t n) {
    std::vector<size_t> v;
    for(size_t i = 0; i <= n + 2; ++i)
        v.push_back(i);
    for(size_t i = 2; i <= n + 3; ++i)
        v.push_back(X - i + 1); // SIZE_MAX - 1 and below: sums that wrap
    v.push_back(X / 2);
    v.push_back(X / 2 + 1);
    v.push_back(X / 4 + 1);
    v.push_back((size_t)1 << 32);
    v.push_back((size_t)1 << 31);
    return v;
}
// Two levels of views on every range: exact or reported.
template<typename V, typename E> struct SpanCheck {
    Ctx &c;
    const E *base;
    void view(const V &v, size_t off, size_t n, const char *what) {
        MC_CHECK(c, v.size() == n && v.is_empty() == (n == 0), "%s: has %zu elements, expected %zu", what, v.size(), n);
        size_t k = 0;
        for(auto &x : v) {
            MC_CHECK(c, k < n && x == base[off + k], "%s: element %zu is wrong", what, k);
            if(n)
                MC_CHECK(c, &x == base + off + k, "%s: element %zu is a copy", what, k);
            ++k;
        }
        MC_CHECK(c, k == n, "%s: iterates over %zu of %zu elements", what, k, n);
        for(size_t i : amounts(n)) {
            bool in = i < n;
            E got{}, got2{};
            bool t = throws([&] { got = v[i]; });
            bool t2 = throws([&] { got2 = v.at(i); });
            V vv(v); // indexing a range that is not const
            E got3{};
            bool t3 = throws([&] { got3 = vv[i]; });
            MC_CHECK(c, t3 == !in && (!in || got3 == got), "%s: index %zu of %zu of a mutable range is wrong", what, i, n);
            MC_CHECK(c, t == !in && t2 == !in, "%s: index %zu of %zu is %s", what, i, n, in ? "refused" : "accepted");
            if(in)
                MC_CHECK(c, got == base[off + i] && got2 == base[off + i], "%s: index %zu is wrong", what, i);
        }
        c.ops(n + 1);
    }
    template<typename Sub> void subs(const V &v, size_t off, size_t n, int levels, Sub &&sub) {
        auto a = amounts(n);
        a.push_back(X);
        for(size_t o : a)
            for(size_t s : a)
                for(int form = 0; form < 2; ++form) {
                    if(form && s != X)
                        continue;
                    bool in = o <= n && (s == X || s <= n - o);
                    size_t want = in ? (s == X ? n - o : s) : 0;
                    V r{};
                    bool t = throws([&] { r = form ? sub(v, o) : sub(v, o, s); });
                    MC_CHECK(c, t == !in, "part (%zu, %zu) of a range of %zu is %s", o, s, n, in ? "refused" : "accepted");
                    c.ops(1);
                    if(!in)
                        continue;
                    c.state(mc::Hash().add(off).add(n).add(o).add(s).h);
                    view(r, off + o, want, "a part of a range");
                    if(levels > 1)
                        subs(r, off + o, want, levels - 1, sub);
                }
    }
};
template<typename E> static void span_of(Ctx &c, size_t n) {
    using V = P::Span<E>;
    std::vector<std::remove_const_t<E>> data;
    for(size_t i = 0; i < n; ++i)
        data.push_back((E)(i * 3 + 1));
    // an exact heap block: anything outside is an addressability error
    auto *blk = (std::remove_const_t<E> *)malloc(n * sizeof(E) + (n == 0));
    for(size_t i = 0; i < n; ++i)
        blk[i] = data[i];
    V v(blk, n);
    SpanCheck<V, std::remove_const_t<E>> s{c, blk};
    s.view(v, 0, n, "the whole range");
    struct {
        V operator()(const V &x, size_t o, size_t k) const { return x.subspan(o, k); }
        V operator()(const V &x, size_t o) const { return x.subspan(o); }
    } sub;
    s.subs(v, 0, n, c.bound(2, 3), sub);
    MC_CHECK(c, v.begin() == blk && v.end() == blk + n && v.cbegin() == blk && v.cend() == blk + n, "the ends of a range are wrong");
    V e;
    SpanCheck<V, std::remove_const_t<E>>{c, nullptr}.view(e, 0, 0, "an empty range");
    V copy(v), as;
    as = v;
    V mv(P::move(copy));
    s.view(as, 0, n, "a copy");
    s.view(mv, 0, n, "a moved range");
    if constexpr(!std::is_const_v<E>)
        for(size_t i = 0; i < n; ++i) {
            v[i] = (E)(i + 50);
            MC_CHECK(c, blk[i] == (E)(i + 50), "writing to element %zu writes elsewhere", i);
        }
    free(blk);
}
static void spans(Ctx &c) {
    size_t n = c.choose(c.bound(7, 8));
    int k = c.choose(4);
    c.op("%zu elements of type %d", n, k);
    switch(k) {
    case 0:
        return span_of<int>(c, n);
    case 1:
        return span_of<const char>(c, n);
    case 2:
        return span_of<double>(c, n);
    default:
        return span_of<const uint16_t>(c, n);
    }
}
// Long ranges.
template<typename V, typename E, typename Sub> static void long_parts(Ctx &c, const V &v, const E *base, size_t n, Sub &&sub) {
    std::vector<size_t> a;
    for(size_t b : {(size_t)0, (size_t)16, (size_t)128, (size_t)256, (size_t)1024, (size_t)4096, (size_t)65536, n / 2, n})
        for(size_t d = b < 2 ? 0 : b - 2; d <= b + 2; ++d)
            a.push_back(d);
    for(size_t b : {X, X - 1, X / 2, X / 2 + 1, X - n, X - n + 1, X - n + 2, (size_t)1 << 32, ((size_t)1 << 32) + n})
        a.push_back(b);
    std::sort(a.begin(), a.end());
    a.erase(std::unique(a.begin(), a.end()), a.end());
    for(size_t i : a) {
        bool in = i < n;
        E got{}, got2{};
        V vv(v);
        bool t = throws([&] { got = v[i]; });
        bool t2 = throws([&] { got2 = vv[i]; });
        MC_CHECK(c, t == !in && t2 == !in, "index %zu of %zu is %s", i, n, in ? "refused" : "accepted");
        MC_CHECK(c, !in || (got == base[i] && got2 == base[i]), "index %zu of %zu is wrong", i, n);
    }
    for(size_t o : a)
        for(size_t s : a) {
            bool in = o <= n && (s == X || s <= n - o);
            size_t want = in ? (s == X ? n - o : s) : 0;
            V r{};
            bool t = throws([&] { r = sub(v, o, s); });
            MC_CHECK(c, t == !in, "part (%zu, %zu) of a range of %zu is %s", o, s, n, in ? "refused" : "accepted");
            c.ops(1);
            if(!in)
                continue;
            MC_CHECK(c, r.size() == want && r.is_empty() == (want == 0), "part (%zu, %zu) of %zu has %zu elements", o, s, n, r.size());
            size_t k = 0;
            bool same = true;
            for(auto &x : r) {
                same = same && &x == base + o + k;
                ++k;
            }
            MC_CHECK(c, same && k == want, "part (%zu, %zu) of %zu is wrong", o, s, n);
            E e{};
            bool te = throws([&] { e = r[want]; });
            MC_CHECK(c, te, "part (%zu, %zu) of %zu: its index %zu is accepted", o, s, n, want);
            c.state(mc::Hash().add(n).add(o).add(s).h);
        }
}
static const int long_ranges[] = {31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 65535, 65536, 65537, 70000};
template<typename E> static void long_span(Ctx &c, size_t n) {
    using M = std::remove_const_t<E>;
    auto *blk = (M *)malloc(n * sizeof(E));
    for(size_t i = 0; i < n; ++i)
        blk[i] = (M)(i * 3 + 1);
    P::Span<E> v(blk, n);
    long_parts<P::Span<E>, M>(c, v, blk, n, [](const P::Span<E> &x, size_t o, size_t k) { return x.subspan(o, k); });
    free(blk);
}
static void long_spans(Ctx &c) {
    size_t n = c.pick(long_ranges);
    int k = c.choose(EPOCH == 2025 ? 3 : 2);
    c.op("%zu elements, type %d", n, k);
    if(k == 0)
        return long_span<int>(c, n);
    if(k == 1)
        return long_span<const char>(c, n);
#if EPOCH == 2025
    char *blk = (char *)malloc(n);
    for(size_t i = 0; i < n; ++i)
        blk[i] = (char)(i * 5 + 130);
    long_parts<P::BytesView, char>(c, P::BytesView(blk, n), blk, n,
                                   [](const P::BytesView &x, size_t o, size_t s) { return x.subview(o, s); });
    free(blk);
#endif
}
#if EPOCH == 2025
static void views(Ctx &c) {
    size_t n = c.choose(c.bound(7, 8));
    c.op("%zu bytes", n);
    char *blk = (char *)malloc(n + (n == 0));
    for(size_t i = 0; i < n; ++i)
        blk[i] = (char)(i * 5 + 130);
    P::BytesView v(blk, n);
    SpanCheck<P::BytesView, char> s{c, blk};
    s.view(v, 0, n, "the whole view");
    struct {
        P::BytesView operator()(const P::BytesView &x, size_t o, size_t k) const { return x.subview(o, k); }
        P::BytesView operator()(const P::BytesView &x, size_t o) const { return x.subview(o); }
    } sub;
    s.subs(v, 0, n, c.bound(2, 3), sub);
    P::BytesView e;
    SpanCheck<P::BytesView, char>{c, nullptr}.view(e, 0, 0, "an empty view");
    free(blk);
    // of a Bytes
    P::Bytes b;
    for(size_t i = 0; i < n; ++i)
        b.append((char)(i * 7 + 1));
    P::BytesView w(b);
    SpanCheck<P::BytesView, char> s2{c, b.data()};
    s2.view(w, 0, n, "the view of a Bytes");
    s2.subs(w, 0, n, 1, sub);
}
#else
// The spans the containers hand out.
static void containers(Ctx &c) {
    size_t n = c.choose(c.bound(9, 17));
    c.op("spans of containers of %zu elements", n);
    struct {
        P::Span<int> operator()(const P::Span<int> &x, size_t o, size_t k) const { return x.subspan(o, k); }
        P::Span<int> operator()(const P::Span<int> &x, size_t o) const { return x.subspan(o); }
    } sub;
    P::Vector<int> v;
    P::FixedVector<int, 16> f;
    P::Bytes b;
    for(size_t i = 0; i < n; ++i) {
        v.push_back(i * 2);
        f.push_back(i * 2 + 1);
        b.append((char)(i + 128));
    }
    SpanCheck<P::Span<int>, int> s{c, n ? &v[0] : nullptr};
    s.view(v.span(), 0, n, "the span of a Vector");
    if(n)
        s.subs(v.span(), 0, n, 1, sub);
    SpanCheck<P::Span<int>, int> sf{c, n ? &f[0] : nullptr};
    sf.view(f.span(), 0, n, "the span of a FixedVector");
    SpanCheck<P::Span<char>, char> sb{c, b.data()};
    sb.view(b.span(), 0, n, "the span of a Bytes");
    const auto &cv = v;
    const auto &cf = f;
    const auto &cb = b;
    MC_CHECK(c, cv.span().size() == n && cf.span().size() == n && cb.span().size() == n, "a const span has another size");
    SpanCheck<P::Span<const int>, int>{c, n ? &v[0] : nullptr}.view(cv.span(), 0, n, "the span of a const Vector");
    SpanCheck<P::Span<const int>, int>{c, n ? &f[0] : nullptr}.view(cf.span(), 0, n, "the span of a const FixedVector");
    SpanCheck<P::Span<const char>, char>{c, b.data()}.view(cb.span(), 0, n, "the span of a const Bytes");
}
#endif
void mc::mc_register() {
    mc::add("spans", "ranges of up to 6 (thorough: 7) elements of 4 types; every part of every part (thorough: three levels), offsets and sizes from 0 past the end, near SIZE_MAX and powers of two", spans, 1);
    mc::add("long-spans", "ranges of 17 lengths up to 70000, offsets and sizes around powers of two, the ends and wrap-around", long_spans, 2);
#if EPOCH == 2025
    mc::add("views", "the same for byte views", views, 1);
#else
    mc::add("containers", "the spans of containers of up to 8 (thorough: 16) elements", containers, 1);
#endif
}
#endif
