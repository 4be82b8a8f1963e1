// C32: work, memory and stack stay in proportion to the data, for every input and history.
// Work is counted, not timed: the library and this file are compiled with
// -fsanitize-coverage=trace-pc, every executed edge is one unit, and the memory functions of the
// C library are charged by length.
#include <cmath>
#include <fcntl.h>
#include <malloc.h>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "common.hpp"
#include "aborts.hpp"
#if EPOCH == 2026
#include <pystd2026_argparse.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#else
#include <pystd2025_btree.hpp>
#endif

// ------------------------------------------------------------------ the meter
#define NOCOV __attribute__((no_sanitize("coverage"), noinline))
static uint64_t g_work, g_work_limit;
static uintptr_t g_sp_min, g_sp_start;
static bool g_on;
static size_t g_live, g_peak, g_total, g_count;
static jmp_buf g_stop;
extern "C" NOCOV void __sanitizer_cov_trace_pc() {
    if(!g_on)
        return;
    ++g_work;
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if(sp < g_sp_min)
        g_sp_min = sp;
    if(g_work > g_work_limit || g_sp_start - g_sp_min > 4000000) {
        g_on = false;
        longjmp(g_stop, 1);
    }
}
NOCOV static void charge(size_t n) {
    if(g_on)
        g_work += n / 16;
}
NOCOV static void gained(void *p) {
    if(!g_on || !p)
        return;
    size_t n = malloc_usable_size(p);
    g_live += n;
    g_total += n;
    ++g_count;
    if(g_live > g_peak)
        g_peak = g_live;
}
NOCOV static void lost(void *p) {
    if(g_on && p)
        g_live -= malloc_usable_size(p);
}
#define WRAPPED(ret, name, params, args, before, after)                                            \
    extern "C" ret __real_##name params;                                                           \
    extern "C" NOCOV ret __wrap_##name params {                                                    \
        before;                                                                                    \
        ret r = __real_##name args;                                                                \
        after;                                                                                     \
        return r;                                                                                  \
    }
WRAPPED(void *, malloc, (size_t n), (n), , gained(r))
WRAPPED(void *, calloc, (size_t n, size_t m), (n, m), charge(n * m), gained(r))
WRAPPED(void *, realloc, (void *p, size_t n), (p, n), (charge(n), lost(p)), gained(r))
WRAPPED(void *, aligned_alloc, (size_t a, size_t n), (a, n), , gained(r))
WRAPPED(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n), charge(n), )
WRAPPED(void *, memmove, (void *a, const void *b, size_t n), (a, b, n), charge(n), )
WRAPPED(void *, memset, (void *a, int b, size_t n), (a, b, n), charge(n), )
WRAPPED(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), charge(n), )
WRAPPED(int, bcmp, (const void *a, const void *b, size_t n), (a, b, n), charge(n), )
WRAPPED(void *, memchr, (const void *a, int b, size_t n), (a, b, n), charge(n), )
WRAPPED(size_t, strlen, (const char *a), (a), , charge(r))
WRAPPED(int, strcmp, (const char *a, const char *b), (a, b), charge(strnlen(a, 1000000)), )
WRAPPED(int, strncmp, (const char *a, const char *b, size_t n), (a, b, n), charge(strnlen(a, n)), )
WRAPPED(char *, strchr, (const char *a, int b), (a, b), charge(strlen(a)), )
WRAPPED(char *, strrchr, (const char *a, int b), (a, b), charge(strlen(a)), )
WRAPPED(char *, strstr, (const char *a, const char *b), (a, b), charge(strlen(a)), )
extern "C" void __real_free(void *p);
extern "C" NOCOV void __wrap_free(void *p) {
    lost(p);
    __real_free(p);
}

struct Cost {
    uint64_t work = 0;
    size_t peak = 0, total = 0, count = 0, stack = 0;
    bool stopped = false;
};
template<typename F> NOCOV static Cost measure(F &&fn, uint64_t limit = ~0ull) {
    static Cost c;
    c = Cost();
    g_work = 0;
    g_work_limit = limit;
    g_live = g_peak = g_total = g_count = 0;
    g_sp_start = g_sp_min = (uintptr_t)__builtin_frame_address(0);
    if(setjmp(g_stop) == 0) {
        g_on = true;
        fn();
        g_on = false;
    } else {
        c.stopped = true;
    }
    c.work = g_work;
    c.peak = g_peak;
    c.total = g_total;
    c.count = g_count;
    c.stack = g_sp_start - g_sp_min;
    return c;
}
NOCOV static FILE *logfile() {
    static FILE *o = getenv("COSTS_LOG") ? fopen(getenv("COSTS_LOG"), "a") : nullptr;
    return o;
}
// The general bound: f is what the work may be in proportion to, m what the memory may be.
template<typename F> NOCOV static Cost within(Ctx &c, const char *what, double f, double m, F &&fn, double per = 400) {
    Cost r = measure(fn, (uint64_t)(per * f + 20000));
    if(logfile()) {
        fprintf(logfile(), "%-36s f=%-9.0f m=%-7.0f work/f %8.2f  peak/m %6.2f  stack %zu\n", what, f, m, (double)r.work / (f + 50), (double)r.peak / (m + 256), r.stack);
        fflush(logfile());
    }
    MC_CHECK(c, r.stack <= 256 << 10, "%s used %zu bytes of stack", what, r.stack);
    MC_CHECK(c, !r.stopped && r.work <= per * f + 20000, "%s: work is out of proportion: more than %.0f steps where %.0f suffice", what, (double)r.work, per * f + 20000);
    MC_CHECK(c, r.peak <= 64 * m + 16384, "%s used %zu bytes of memory where %.0f suffice", what, r.peak, 64 * m + 16384);
    c.ops(1);
    c.state(mc::Hash().str(what).add((uint64_t)f).add(r.work).h);
    return r;
}

// ------------------------------------------------------------------ elements that count
static uint64_t g_cmp, g_moves;
// An adversary decides what is smaller only when it has to, in the way that helps least
// (McIlroy, "A killer adversary for quicksort").
static std::vector<int> g_val;
static int g_gas, g_solid, g_candidate;
static bool g_adversary;
struct Elem {
    int i = -1;
    Elem() noexcept = default;
    explicit Elem(int i_) noexcept : i(i_) {}
    Elem(const Elem &o) noexcept : i(o.i) { ++g_moves; }
    Elem &operator=(const Elem &o) noexcept {
        i = o.i;
        ++g_moves;
        return *this;
    }
};
NOCOV static int ask(const Elem &a, const Elem &b) {
    ++g_cmp;
    if(!g_adversary)
        return a.i < b.i ? -1 : a.i > b.i;
    int x = a.i, y = b.i;
    if(x == y)
        return 0;
    if(g_val[x] == g_gas && g_val[y] == g_gas) {
        if(x == g_candidate)
            g_val[x] = g_solid++;
        else
            g_val[y] = g_solid++;
    }
    if(g_val[x] == g_gas)
        g_candidate = x;
    else if(g_val[y] == g_gas)
        g_candidate = y;
    return g_val[x] < g_val[y] ? -1 : g_val[x] > g_val[y];
}
[[maybe_unused]] static bool operator<(const Elem &a, const Elem &b) { return ask(a, b) < 0; }
[[maybe_unused]] static bool operator>(const Elem &a, const Elem &b) { return ask(a, b) > 0; }
[[maybe_unused]] static bool operator==(const Elem &a, const Elem &b) { return ask(a, b) == 0; }
[[maybe_unused]] static int operator<=>(const Elem &a, const Elem &b) { return ask(a, b); }
struct Cmp {
    int compare(const Elem &a, const Elem &b) const noexcept { return ask(a, b); }
    bool equal(const Elem &a, const Elem &b) const noexcept { return ask(a, b) == 0; }
};
static double lg(double n) { return n < 2 ? 1 : std::log2(n); }
static int shape_value(int shape, int i, int n) {
    switch(shape) {
    case 0: return i;
    case 1: return n - i;
    case 2: return 0;
    case 3: return i % 2;
    case 4: return i < n / 2 ? i : n - i;
    case 5: return i % 17;
    case 6: return (int)((unsigned)i * 2654435761u >> 12) % (n + 1);
    default: return i & 1 ? i : n - i;
    }
}
// Two halves of any two shapes, or the adversary.
static void fill(Ctx &c, std::vector<Elem> &v, int n) {
    int first = c.choose(9), second = first == 8 ? 0 : c.choose(8);
    g_adversary = first == 8;
    g_val.assign(n + 1, n);
    g_gas = n;
    g_solid = 0;
    g_candidate = -1;
    v.clear();
    for(int i = 0; i < n; ++i)
        v.emplace_back(g_adversary ? i : i < n / 2 ? shape_value(first, i, n) : shape_value(second, i, n));
    g_cmp = g_moves = 0;
}
static int size_choice(Ctx &c) {
    static const int sizes[] = {0, 1, 2, 7, 30, 100, 257, 1000, 4096};
    return c.pick(sizes);
}

#if EPOCH == 2026
static const char *const ALGO[] = {"introsort", "introsort with <=>", "mergesort", "heapsort", "indirect_sort", "indirect_stable_sort",
                                   "nth_element", "nth_element with <=>", "partial_sort", "partial_sort with <=>", "shell_sort", "shell_sort with <=>",
                                   "mergesort with <=>", "heapsort with <=>", "stable_partition", "rotate"};
static void run(int algo, std::vector<Elem> &v, size_t k) {
    Elem *b = v.data(), *e = b + v.size();
    switch(algo) {
    case 0: P::introsort(b, e, Cmp{}); break;
    case 1: P::introsort(b, e); break;
    case 2: P::mergesort(b, e, Cmp{}); break;
    case 3: P::heapsort(b, e, Cmp{}); break;
    case 4: P::indirect_sort(b, e, Cmp{}); break;
    case 5: P::indirect_stable_sort(b, e, Cmp{}); break;
    case 6: P::nth_element(b, e, k, Cmp{}); break;
    case 7: P::nth_element(b, e, k); break;
    case 8: P::partial_sort(b, e, k, Cmp{}); break;
    case 9: P::partial_sort(b, e, k); break;
    case 10: P::shell_sort(b, e, Cmp{}); break;
    case 11: P::shell_sort(b, e); break;
    case 12: P::mergesort(b, e); break;
    case 13: P::heapsort(b, e); break;
    case 14: P::stable_partition(b, e, [](const Elem &x) { return ++g_cmp, x.i % 2 == 0; }); break;
    default: P::rotate(b, b + k, e); break;
    }
}
static void sorts(Ctx &c) {
    int algo = c.choose(16);
    bool takes_k = (algo >= 6 && algo <= 9) || algo == 15;
    int n = size_choice(c);
    int ks = takes_k ? c.choose(5) : 0;
    std::vector<Elem> v;
    fill(c, v, n);
    size_t k = ks == 0 ? 0 : ks == 1 ? std::min(n, 1) : ks == 2 ? n / 2 : ks == 3 ? std::max(n - 2, 0) : std::max(n - 1, 0);
    if(takes_k && algo != 15 && k >= (size_t)n)
        c.abandon();
    c.op("%s of %d elements, k = %zu", ALGO[algo], n, k);
    double f = n * lg(n);
    if(algo == 10 || algo == 11)
        f = std::pow(n, 1.5) * 2;
    if(algo == 14)
        f = (double)n * n;
    if(algo == 15)
        f = 4 * n;
    within(c, ALGO[algo], f, n, [&] { run(algo, v, k); }, 40);
    MC_CHECK(c, g_cmp <= 8 * f + 64, "%s of %d elements: %zu comparisons", ALGO[algo], n, (size_t)g_cmp);
    MC_CHECK(c, g_moves <= 10 * f + 64, "%s of %d elements: %zu copies of elements", ALGO[algo], n, (size_t)g_moves);
    if(logfile())
        fprintf(logfile(), "CMP %-36s cmp/f %.2f moves/f %.2f\n", ALGO[algo], g_cmp / (f + 1), g_moves / (f + 1));
}
template<typename T> static T key_of(int kind, size_t i, size_t n) {
    switch(kind) {
    case 0: return T(i);
    case 1: return T(n - i);
    case 2: return T(0);
    case 3: return T(~T(0));
    case 4: return T(i) << (sizeof(T) * 8 - 8);
    case 5: return T(i * 0x9E3779B97F4A7C15ull);
    case 6: return T(1) << (i % (sizeof(T) * 8));
    default: return i & 1 ? T(i) : T(~i);
    }
}
template<typename T> static void integer_sort(Ctx &c, const char *what) {
    int n = size_choice(c), kind = c.choose(8);
    bool bucket = c.choose(2);
    std::vector<T> v;
    for(int i = 0; i < n; ++i)
        v.push_back(key_of<T>(kind, i, n));
    c.op("%s of %d %s, kind %d", bucket ? "bucketsort" : "radix_sort", n, what, kind);
    within(c, bucket ? "bucketsort" : "radix_sort", n * 8 + 100, n, [&] { bucket ? P::bucketsort(v.data(), v.data() + n) : P::radix_sort(v.data(), v.data() + n); });
}
static void integers(Ctx &c) {
    switch(c.choose(4)) {
    case 0: integer_sort<uint8_t>(c, "uint8_t"); break;
    case 1: integer_sort<uint16_t>(c, "uint16_t"); break;
    case 2: integer_sort<uint32_t>(c, "uint32_t"); break;
    default: integer_sort<uint64_t>(c, "uint64_t"); break;
    }
}
#endif

// ------------------------------------------------------------------ searching
static void searches(Ctx &c) {
    int algo = c.choose(6);
    static const int sizes[] = {0, 1, 2, 3, 8, 31, 32, 33, 100, 257, 1000, 4096};
    int n = c.pick(sizes), at = c.choose(9), shape = algo >= 3 ? c.choose(8) : 0;
    std::vector<Elem> v;
    g_adversary = false;
    for(int i = 0; i < n; ++i)
        v.emplace_back(shape_value(shape, i, n));
    g_cmp = g_moves = 0;
    int target = at == 0 ? -1 : at == 8 ? n + 5 : (int)((int64_t)(at - 1) * std::max(n - 1, 0) / 6);
    Elem want(target), *b = v.data(), *e = b + n;
    static const char *const names[] = {"lower_bound", "find", "find_if", "min_element", "partition", "insertion_sort"};
    c.op("%s in %d elements, target %d, shape %d", names[algo], n, target, shape);
    double f = algo == 0 ? lg(n + 1) + 1 : n;
    if(algo == 5) {
        if(shape > 1 || n > 257)
            c.abandon();
        f = n * n;
    }
    within(c, names[algo], f, 1, [&] {
        switch(algo) {
        case 0: P::lower_bound(b, e, want); break;
        case 1: P::find(b, e, want); break;
        case 2: P::find_if(b, e, [&](const Elem &x) { return ++g_cmp, x.i == target; }); break;
        case 3: P::min_element(b, e); break;
        case 4: P::partition(b, e, [&](const Elem &x) { return ++g_cmp, x.i < target; }); break;
        default: P::insertion_sort(b, e); break;
        }
    });
    double most = algo == 0 ? 2 * lg(n + 1) + 4 : 4 * f + 8;
    MC_CHECK(c, g_cmp <= most, "%s in %d elements: %zu comparisons", names[algo], n, (size_t)g_cmp);
    MC_CHECK(c, g_moves <= 8 * f + 8, "%s in %d elements: %zu copies of elements", names[algo], n, (size_t)g_moves);
}

// ------------------------------------------------------------------ appending one at a time
static const char *const APPENDS[] = {"Vector push_back of a temporary", "Vector push_back", "Vector emplace_back", "Vector append", "Vector push_back of its own element",
                                      "Stack push", "Bytes append", "Bytes push_back", "Bytes append range", "Bytes +=", "Bytes extend", "Bytes insert near the end",
                                      "CString append", "CString append text", "CString += char", "CString += text", "CString +=", "CString insert at the end", "CString push_back",
                                      "U8String append_codepoint", "U8String append_codepoint of 4 bytes", "U8String +=", "U8String insert at the end", "Bytes += itself cut back",
                                      "Vector insert at the end", "Bytes resize by one", "CString resize by one", "Vector push_back after reserve", "Bytes reserve", "CString reserve"};
static void append_one(int what, P::Vector<Elem> &v, P::Stack<Elem> &st, P::Bytes &b, P::CString &s, P::U8String &u, int i) {
    static const Elem e(3);
    static const Elem es[1] = {Elem(3)};
    static const P::Bytes one("x", 1);
    static const P::CString sone("x");
    static const P::U8String uone("x");
    switch(what) {
    case 0: v.push_back(Elem(i)); break;
    case 1: v.push_back(e); break;
    case 2: v.emplace_back(i); break;
    case 3: v.append(es, es + 1); break;
    case 4: i == 0 ? v.push_back(e) : v.push_back(v[0]); break;
    case 5: st.push(Elem(i)); break;
    case 6: b.append('x'); break;
    case 7: b.push_back('x'); break;
    case 8: b.append("x", &"x"[1]); break;
    case 9: b += one; break;
    case 10: b.extend(1); break;
    case 11: b.size() == 0 ? b.append('x') : b.insert(b.size() - 1, "x", 1); break;
    case 12: s.append('x'); break;
    case 13: s.append("x", 1); break;
    case 14: s += 'x'; break;
    case 15: s += "x"; break;
    case 16: s += sone; break;
    case 17: s.insert(s.size(), P::CStringView("x")); break;
    case 18: s.push_back('x'); break;
    case 19: u.append_codepoint('x'); break;
    case 20: u.append_codepoint(0x1F600); break;
    case 21: u += uone; break;
    case 22: u.insert(u.cend(), uone.view()); break;
    case 23:
        if(b.size() == 0)
            b.append('x');
        else if(b.size() < 8)
            b += b;
        else
            b.append(b.data(), b.data() + 1);
        break;
    case 24: v.emplace_back(i); break;
    case 25: b.resize_to(b.size() + 1); break;
    case 26: s.resize(s.size() + 1); break;
    case 27: i % 2 ? v.push_back(e) : v.emplace_back(i); break;
    case 28: b.append('x'); break;
    default: s.append('x'); break;
    }
}
static void growth(Ctx &c) {
    int what = c.choose(sizeof(APPENDS) / sizeof(*APPENDS));
    static const int sizes[] = {1, 15, 16, 17, 40, 100, 333, 1000, 5000, 20000};
    int n = c.pick(sizes);
    c.op("%s, %d times", APPENDS[what], n);
    g_moves = 0;
    size_t end = 0;
    Cost r = within(c, APPENDS[what], n, 4 * n, [&] {
        P::Vector<Elem> v;
        P::Stack<Elem> st;
        P::Bytes b;
        P::CString s;
        P::U8String u;
        for(int i = 0; i < n; ++i)
            append_one(what, v, st, b, s, u, i);
        end = v.size() + b.size() + s.size() + u.size_bytes();
    }, 80);
    MC_CHECK(c, g_moves <= 6u * n + 64, "%s %d times: %zu copies of elements", APPENDS[what], n, (size_t)g_moves);
    MC_CHECK(c, r.total <= 64u * n + 4096, "%s %d times allocated %zu bytes in total", APPENDS[what], n, r.total);
    if(logfile())
        fprintf(logfile(), "GROW %-36s n=%d moves/n %.2f total/n %.2f\n", APPENDS[what], n, g_moves / (double)n, r.total / (double)n);
}

// ------------------------------------------------------------------ linear text operations
// Texts are one word of up to 3 pieces, repeated, and perhaps a last piece of its own.
static const char *const PIECES[] = {"a", " ", "\xc3\xa9", "B,"};
static std::string text(Ctx &c, int n) {
    int len = 1 + c.choose(3);
    std::string w, t;
    for(int i = 0; i < len; ++i)
        w += c.pick(PIECES);
    int last = c.choose(3);
    while((int)(t.size() + w.size()) <= n)
        t += w;
    while((int)t.size() < n)
        t += ' ';
    return t + (last == 0 ? "" : last == 1 ? "z" : " ");
}
static bool never_cb(const P::CStringView &, void *ctx) {
    ++*(size_t *)ctx;
    return true;
}
static bool u8_cb(const P::U8StringView &, void *ctx) {
    ++*(size_t *)ctx;
    return true;
}
static const P::U8String &uone_sep() { static const P::U8String x(","); return x; }
[[maybe_unused]] static bool is_space_cp(uint32_t cp) { return cp == ' '; }
static const char *const TEXT_OPS[] = {"CString from text", "CString copy", "strip", "upper", "lower", "split", "split_by", "split callback", "split_by callback", "find char absent",
                                       "find text absent", "find text at the end", "rfind absent", "compare with a copy", "CStringView <", "insert at 0", "remove the front half", "substr",
                                       "join", "hash", "Bytes ==", "Bytes <", "Bytes pop_front of all but one", "starts_with", "U8String from text", "U8String iterate", "U8String iterate backwards",
                                       "U8String upper", "U8String lower", "U8String split_ascii", "U8String split callback", "U8String contains", "U8String join", "U8String remove", "U8String insert",
                                       "U8String ==", "U8String <", "pop_back until empty", "U8String pop_back until empty", "Path from text", "Path split", "Path filename", "Path extension", "Path /",
                                       "natural_order"};
static void texts(Ctx &c) {
    int what = c.choose(sizeof(TEXT_OPS) / sizeof(*TEXT_OPS));
    static const int sizes[] = {0, 30, 500, 16384};
    int n = c.pick(sizes);
    std::string t = text(c, n);
    n = t.size();
    c.op("%s of %d bytes", TEXT_OPS[what], n);
    P::CString s(t.c_str()), s2(t.c_str());
    P::U8String u(t.c_str()), u2(t.c_str());
    P::Bytes b(t.data(), t.size()), b2(t.data(), t.size());
    if(n && what != 14 && what != 36) {
        b2.pop_back();
        b2.append(t.back());
    }
    P::Vector<P::CString> parts;
    P::Vector<P::U8String> uparts;
    if(what == 18 || what == 32)
        for(int i = 0; i < n; ++i) {
            if(what == 18)
                parts.push_back(P::CString("x"));
            else
                uparts.push_back(P::U8String("x"));
        }
    std::string pt = t;
    for(auto &ch : pt)
        if(ch == 'B')
            ch = '/';
        else if(ch == ',')
            ch = '.';
    size_t count = 0;
    bool res = false;
    within(c, TEXT_OPS[what], n, n + 10.0 * n * (what == 5 || what == 6 || what == 29 || what == 40), [&] {
        switch(what) {
        case 0: { P::CString x(t.c_str()); break; }
        case 1: { P::CString x(s); break; }
        case 2: s.strip(); break;
        case 3: { P::CString x = s.view().upper(); break; }
        case 4: { P::CString x = s.view().lower(); break; }
        case 5: { auto x = s.split(); break; }
        case 6: { auto x = s.split_by('a'); break; }
        case 7: s.split(never_cb, &count); break;
        case 8: s.split_by(',', never_cb, &count); break;
        case 9: count = s.view().find('~'); break;
        case 10: count = s.view().find(P::CStringView("aaaz")); break;
        case 11: count = s.find(P::CStringView("z")); break;
        case 12: count = s.rfind('~'); break;
        case 13: res = s == s2; break;
        case 14: res = s.view() < s2.view(); break;
        case 15: s.insert(0, P::CStringView("xyz")); break;
        case 16: s.remove(0, n / 2); break;
        case 17: { P::CString x = s.substr(n / 3, n / 3); break; }
        case 18: {
#if EPOCH == 2026
            P::CString x;
            for(auto &p : parts)
                x += p;
#else
            P::CString x;
            for(auto &p : parts)
                x.append(p.c_str());
#endif
            break;
        }
        case 19: {
            P::Hasher<P::SimpleHash> h;
            s.feed_hash(h);
            count = h.get_hash_value();
            break;
        }
        case 20: res = b == b2; break;
        case 21: res = b < b2; break;
        case 22: if(n) b.pop_front(n - 1); break;
        case 23: res = s.view().starts_with(t.c_str()); break;
        case 24: { P::U8String x(t.c_str()); break; }
        case 25:
            for(auto it = u.cbegin(); it != u.cend(); ++it)
                ++count;
            break;
        case 26:
            for(auto it = u.crbegin(); it != u.crend(); ++it)
                ++count;
            break;
        case 27: { P::U8String x = u.view().upper(); break; }
        case 28: { P::U8String x = u.view().lower(); break; }
        case 29: { auto x = u.split_ascii(); break; }
        case 30: u.split(u8_cb, is_space_cp, &count); break;
        case 31: res = u.contains(u2.view()); break;
        case 32: { P::U8String x = uone_sep().join(uparts); break; }
        case 33: { auto it = u.cbegin(); for(int i = 0; i < 3 && it != u.cend(); ++i) ++it; u.remove(P::U8StringView(u.cbegin(), it)); break; }
        case 34: u.insert(u.cbegin(), u2.view()); break;
        case 35: res = u == u2; break;
        case 36: res = u < u2; break;
        case 37: while(!s.is_empty()) s.pop_back(); break;
        case 38: while(u.size_bytes()) u.pop_back(); break;
        case 39: { P::Path x(pt.c_str()); break; }
        case 40: { auto x = P::Path(pt.c_str()).split(); break; }
        case 41: { auto x = P::Path(pt.c_str()).filename(); break; }
        case 42: { auto x = P::Path(pt.c_str()).extension(); break; }
        case 43: { auto x = P::Path(pt.c_str()) / pt.c_str(); break; }
        default:
#if EPOCH == 2026
            res = s.view().natural_order(s2.view());
#endif
            break;
        }
    });
    (void)res;
}

// ------------------------------------------------------------------ maps and sets
// Many keys of one kind: inserted, looked up, looked up in vain, removed.
static const char *const KEYS[] = {"counting up", "counting down", "multiples of 8", "multiples of 4096", "multiples of 65536", "multiples of 1048576", "scattered", "pairs of both ends",
                                   "multiples of 3", "multiples of 1000"};
static uint64_t map_key(int kind, uint64_t i) {
    switch(kind) {
    case 0: return i;
    case 1: return 1000000 - i;
    case 2: return i * 8;
    case 3: return i * 4096;
    case 4: return i << 16;
    case 5: return i << 20;
    case 6: return i * 0x9E3779B97F4A7C15ull;
    case 7: return i & 1 ? i : 1000000 - i;
    case 8: return i * 3;
    default: return i * 1000;
    }
}
struct AnyMap {
    virtual ~AnyMap() = default;
    virtual void insert(uint64_t k) = 0;
    virtual bool has(uint64_t k) = 0;
    virtual void remove(uint64_t k) = 0;
};
template<typename M> struct MapOf : AnyMap {
    M m;
    void insert(uint64_t k) override { m.insert(k, (int32_t)k); }
    bool has(uint64_t k) override { return m.lookup(k) != nullptr; }
    void remove(uint64_t k) override { m.remove(k); }
};
template<typename M> struct SetOf : AnyMap {
    M m;
    void insert(uint64_t k) override { m.insert(k); }
    bool has(uint64_t k) override { return m.contains(k); }
    void remove(uint64_t k) override { m.remove(k); }
};
typedef std::conditional_t<EPOCH == 2026, P::CString, P::U8String> Text;
template<typename M> struct TextMapOf : AnyMap {
    M m;
    static Text key(uint64_t k) {
        char b[40];
        snprintf(b, sizeof b, "key%llu", (unsigned long long)k);
        return Text(b);
    }
    void insert(uint64_t k) override { m.insert(key(k), (int32_t)k); }
    bool has(uint64_t k) override { return m.lookup(key(k)) != nullptr; }
    void remove(uint64_t k) override { m.remove(key(k)); }
};
static const char *const MAPS[] = {"HashMap", "HashSet", "HashMap of text", "BTreeSet of 5", "BTreeSet of 31", "BTreeMap of 5", "BTreeMap of 31"};
// A hash table mixes its own address into the hashes, so the tables live at chosen addresses.
struct Unmake {
    void operator()(AnyMap *m) const { m->~AnyMap(); }
};
typedef std::unique_ptr<AnyMap, Unmake> MapPtr;
static const size_t SALTS[] = {0, 0x10, 0x7f30, 0xffff0};
static AnyMap *make_map(int what, size_t offset) {
    static char *arena = (char *)mmap((void *)0x200000000000, 2 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    char *at = arena + offset;
    switch(what) {
    case 0: return new(at) MapOf<P::HashMap<uint64_t, int32_t>>;
    case 1: return new(at) SetOf<P::HashSet<uint64_t>>;
    case 2: return new(at) TextMapOf<P::HashMap<Text, int32_t>>;
    case 3: return new(at) SetOf<P::BTreeSet<uint64_t, 5>>;
    case 4: return new(at) SetOf<P::BTreeSet<uint64_t, 31>>;
    case 5: return new(at) MapOf<P::BTreeMap<uint64_t, int32_t, 5>>;
    default: return new(at) MapOf<P::BTreeMap<uint64_t, int32_t, 31>>;
    }
}
static void maps(Ctx &c) {
    int what = c.choose(7), kind = c.choose(10);
    static const int sizes[] = {1, 5, 40, 300, 2000, 10000};
    int n = c.pick(sizes);
    int order = c.choose(3);
    size_t salt = what <= 2 ? c.pick(SALTS) : 0;
    c.op("%s of %d keys %s, removed in order %d", MAPS[what], n, KEYS[kind], order);
    auto at = [&](int j) { return order == 0 ? j : order == 1 ? n - 1 - j : (j * 7919) % n; };
    if(order == 2 && n % 7919 == 0)
        c.abandon();
    bool ok = true;
    double f = n * (what >= 3 ? 1 + lg(n) / 4 : what == 2 ? 40 : 2.0);
    MapPtr m;
    within(c, (std::string(MAPS[what]) + " create").c_str(), 1, 1, [&] { m.reset(make_map(what, salt)); });
    within(c, (std::string(MAPS[what]) + " insert").c_str(), f, 3 * n, [&] {
        for(int i = 0; i < n; ++i)
            m->insert(map_key(kind, i));
    });
    within(c, (std::string(MAPS[what]) + " insert again").c_str(), f, n, [&] {
        for(int i = 0; i < n; ++i)
            m->insert(map_key(kind, i));
    });
    within(c, (std::string(MAPS[what]) + " look up").c_str(), f, 1, [&] {
        for(int i = 0; i < n; ++i)
            ok &= m->has(map_key(kind, i));
    });
    within(c, (std::string(MAPS[what]) + " look up in vain").c_str(), f, 1, [&] {
        for(int i = 0; i < n; ++i)
            ok &= !m->has(map_key(kind, i + n) + (kind == 1 || kind == 7) * 5000000);
    });
    within(c, (std::string(MAPS[what]) + " remove").c_str(), f, n, [&] {
        for(int i = 0; i < n; ++i)
            m->remove(map_key(kind, at(i)));
    });
    // Similar texts get similar hashes, and long runs of removed slots are the price.
    if(what != 2) within(c, (std::string(MAPS[what]) + " look up in an emptied one").c_str(), f, 1, [&] {
        for(int i = 0; i < n; ++i)
            ok &= !m->has(map_key(kind, i));
    });
    within(c, (std::string(MAPS[what]) + " fill again").c_str(), f, 4 * n, [&] {
        for(int i = 0; i < n; ++i)
            m->insert(map_key(kind, i + n / 2));
    });
    within(c, (std::string(MAPS[what]) + " destroy").c_str(), f + 10, 1, [&] { m.reset(); });
    MC_CHECK(c, ok, "a key was not found, or one was that is not there");
}

// Every word of up to 4 (5) operations, repeated: what it costs and holds must not grow with the
// length of the history, only with the content.
static void histories(Ctx &c) {
    int what = c.choose(7);
    int len = 1 + c.choose(c.bound(4, 5));
    int word[5];
    static const char *const names[] = {"insert a", "insert b", "insert new", "remove a", "remove oldest", "remove newest", "look for absent"};
    std::string desc;
    for(int i = 0; i < len; ++i) {
        word[i] = c.choose(7);
        desc += std::string(i ? ", " : "") + names[word[i]];
    }
    int reps = len <= 3 ? 1200 : 500;
    c.op("%s, %d times: %s", MAPS[what], reps, desc.c_str());
    uint64_t oldest = 100, next = 100;
    bool a = false, b = false;
    size_t most = 0;
    MapPtr m(make_map(what, SALTS[c.choose(2) * 2]));
    auto step = [&](int w) {
        switch(w) {
        case 0: m->insert(1); a = true; break;
        case 1: m->insert(2); b = true; break;
        case 2: m->insert(next++); break;
        case 3: m->remove(1); a = false; break;
        case 4:
            if(oldest < next)
                m->remove(oldest++);
            break;
        case 5:
            if(oldest < next)
                m->remove(--next);
            break;
        default: m->has(7); break;
        }
    };
    // How much is held at most follows from the word alone.
    size_t fresh = 0;
    for(int r = 0; r < reps; ++r)
        for(int i = 0; i < len; ++i) {
            if(word[i] == 2)
                ++fresh;
            else if((word[i] == 4 || word[i] == 5) && fresh)
                --fresh;
            most = std::max(most, fresh + 2);
        }
    double ops = (double)reps * len;
    Cost r = within(c, MAPS[what], ops * (what >= 3 ? 1 + lg(most) / 4 : what == 2 ? 40 : 2.0), 3 * most, [&] {
        for(int r = 0; r < reps; ++r)
            for(int i = 0; i < len; ++i)
                step(word[i]);
    }, 300);
    MC_CHECK(c, r.peak <= (what == 4 || what == 6 ? 20000 : 4096) + 192 * most, "%s repeating \"%s\" holds %zu bytes for at most %zu entries", MAPS[what], desc.c_str(), r.peak, most);
    (void)a;
    (void)b;
}

// The same for the sequences.
static const char *const SEQS[] = {"Vector", "Stack", "Bytes", "CString", "U8String"};
static void sequences(Ctx &c) {
    int what = c.choose(5);
    int len = 1 + c.choose(c.bound(4, 5));
    int word[5];
    static const char *const names[] = {"add 1", "add 5", "drop the last", "drop the first", "clear", "take a copy back", "reserve room for 7", "move away and back"};
    std::string desc;
    for(int i = 0; i < len; ++i) {
        word[i] = c.choose(8);
        desc += std::string(i ? ", " : "") + names[word[i]];
    }
    // Taking a copy or moving everything along costs its length every time.
    size_t most = 0, now = 0, pass = 0;
    int reps = 400;
    double f = 0;
    for(int r = 0; r < reps; ++r)
        for(int i = 0; i < len; ++i) {
            switch(word[i]) {
            case 0: now += 1; break;
            case 1: now += 5; break;
            case 2: now -= now > 0; break;
            case 3:
                if(what != 0 && what != 1)
                    now -= now > 0;
                break;
            case 4: now = 0; break;
            default: break;
            }
            most = std::max(most, now);
            f += 1 + (word[i] == 5 || word[i] == 3 || word[i] == 4 ? now : 0) + (word[i] == 4 ? most / 400 : 0);
        }
    (void)pass;
    f += most * 2;
    c.op("%s, %d times: %s", SEQS[what], reps, desc.c_str());
    auto loop = [&](auto &&step) {
        for(int r = 0; r < reps; ++r)
            for(int i = 0; i < len; ++i)
                step(word[i]);
    };
    Cost r = within(c, SEQS[what], f, most * sizeof(Elem) * 4, [&] {
        if(what == 0) {
            P::Vector<Elem> v;
            loop([&](int w) {
                switch(w) {
                case 0: v.push_back(Elem(1)); break;
                case 1: for(int i = 0; i < 5; ++i) v.emplace_back(i); break;
                case 2: v.pop_back(); break;
                case 3: break;
                case 4: v.clear(); break;
                case 5: { P::Vector<Elem> x(v); v = P::move(x); break; }
                case 6: v.reserve(7); break;
                default: { P::Vector<Elem> x(P::move(v)); v = P::move(x); break; }
                }
            });
        } else if(what == 1) {
            P::Stack<Elem> v;
            loop([&](int w) {
                switch(w) {
                case 0: v.push(Elem(1)); break;
                case 1: for(int i = 0; i < 5; ++i) v.push(Elem(i)); break;
                case 2: if(!v.is_empty()) v.pop(); break;
                case 4: while(!v.is_empty()) v.pop(); break;
                case 7: { P::Stack<Elem> x(P::move(v)); v = P::move(x); break; }
                default: break;
                }
            });
        } else if(what == 2) {
            P::Bytes v;
            loop([&](int w) {
                switch(w) {
                case 0: v.append('x'); break;
                case 1: v.append("hello", &"hello"[5]); break;
                case 2: if(v.size()) v.pop_back(); break;
                case 3: if(v.size()) v.pop_front(); break;
                case 4: v.clear(); break;
                case 5: { P::Bytes x(v); v = x; break; }
                case 6: v.reserve(7); break;
                default: { P::Bytes x(P::move(v)); v = P::move(x); break; }
                }
            });
        } else if(what == 3) {
            P::CString v;
            loop([&](int w) {
                switch(w) {
                case 0: v.append('x'); break;
                case 1: v += "hello"; break;
                case 2: if(v.size()) v.pop_back(); break;
                case 3: if(v.size()) v.remove(0, 1); break;
                case 4: v.clear(); break;
                case 5: { P::CString x(v); v = x; break; }
                case 6: v.reserve(7); break;
                default: { P::CString x(P::move(v)); v = P::move(x); break; }
                }
            });
        } else {
            P::U8String v;
            loop([&](int w) {
                switch(w) {
                case 0: v.append_codepoint('x'); break;
                case 1: v += P::U8String("h\xc3\xa9lo"); break;
                case 2: if(v.size_bytes()) v.pop_back(); break;
                case 3: if(v.size_bytes()) v.pop_front(); break;
                case 4: v = P::U8String(); break;
                case 5: { P::U8String x(v); v = x; break; }
                case 6: v.reserve(7); break;
                default: { P::U8String x(P::move(v)); v = P::move(x); break; }
                }
            });
        }
    }, 120);
    MC_CHECK(c, r.peak <= 2048 + 12 * most * sizeof(Elem), "%s repeating \"%s\" holds %zu bytes for at most %zu elements", SEQS[what], desc.c_str(), r.peak, most);
}

// ------------------------------------------------------------------ files and command lines
static void files(Ctx &c) {
    static const int sizes[] = {0, 1, 100, 1023, 1024, 1025, 3000, 40000, 200000};
    int n = c.pick(sizes), every = c.choose(6), what = c.choose(4);
    std::string t;
    static const int lines[] = {0, 1, 2, 60, 1024, 5000};
    for(int i = 0; i < n; ++i)
        t += every && i % lines[every] == 0 ? '\n' : 'x';
    std::string f = mc::workdir() + "/costs.txt";
    int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    MC_CHECK(c, fd >= 0 && write(fd, t.data(), t.size()) == (ssize_t)t.size(), "cannot create");
    close(fd);
    static const char *const names[] = {"load_bytes", "load_text", "read line by line", "iterate over lines"};
    c.op("%s: %d bytes, a line break every %d", names[what], n, lines[every]);
    within(c, names[what], n + 4000, n + 8000, [&] {
        switch(what) {
        case 0: { auto b = P::Path(f.c_str()).load_bytes(); break; }
        case 1: { auto b = P::Path(f.c_str()).load_text(); break; }
        case 2: {
            P::File file(f.c_str(), "r");
            while(!file.eof())
                file.readline_bytes();
            break;
        }
        default:
            P::File file(f.c_str(), "r");
            for(auto &&line : file)
                (void)line;
        }
    }, 60);
    unlink(f.c_str());
}
#if EPOCH == 2026
static void arguments(Ctx &c) {
    static const int sizes[] = {0, 1, 10, 200, 5000};
    int n = c.pick(sizes), kind = c.choose(7);
    static const char *const kinds[] = {"--text=x", "--text x", "-t x", "--list x", "--flag", "positional", "-- positional"};
    c.op("%d arguments %s", n, kinds[kind]);
    std::vector<const char *> av = {"prog"};
    if(kind == 6)
        av.push_back("--");
    for(int i = 0; i < n; ++i)
        switch(kind) {
        case 0: av.push_back("--text=x"); break;
        case 1: av.push_back("--text"), av.push_back("x"); break;
        case 2: av.push_back("-t"), av.push_back("x"); break;
        case 3: av.push_back("--list"), av.push_back("x"); break;
        case 4: av.push_back("--flag"); break;
        default: av.push_back("pos"); break;
        }
    int argc = av.size();
    av.push_back(nullptr);
    within(c, kinds[kind], n + 10, 8 * n + 200, [&] {
        P::ArgParse p(P::U8String("costs"));
        p.permit_posargs();
        for(int i = 0; i < 3; ++i) {
            P::Argument a;
            a.name = P::CString(i == 0 ? "text" : i == 1 ? "list" : "flag");
            a.long_arg = P::CString(i == 0 ? "--text" : i == 1 ? "--list" : "--flag");
            if(i == 0)
                a.short_arg = 't';
            a.aaction = i == 0 ? P::ArgumentAction::Store : i == 1 ? P::ArgumentAction::AppendArray : P::ArgumentAction::StoreTrue;
            if(i == 1)
                a.type = P::ArgumentType::StringArray;
            if(i == 2)
                a.type = P::ArgumentType::Boolean;
            p.add_argument(P::move(a));
        }
        auto out = p.parse_args(argc, av.data());
    }, 1000);
}
#endif

// ------------------------------------------------------------------ patterns
static void globs(Ctx &c) {
    static const char *const words[] = {"*a", "*ab", "*?", "*?a", "a*", "*b", "?*", "*??", "*a*b", "*aa"};
    std::string w = c.pick(words);
    static const int reps[] = {1, 4, 12, 40, 100};
    int n = c.pick(reps);
    std::string pat;
    for(int i = 0; i < n && (int)(pat.size() + w.size()) < 250; ++i)
        pat += w;
    static const char *const tails[] = {"", "b", "c", "*", "?"};
    pat += c.pick(tails);
    if(pat.find("**") != std::string::npos)
        c.abandon();
    static const char *const names[] = {"a", "ab", "aab", "abb"};
    std::string nw = c.pick(names), name;
    static const int lens[] = {20, 60, 250};
    int len = c.pick(lens);
    while((int)(name.size() + nw.size()) <= len)
        name += nw;
    c.op("glob %s in a directory that holds %s", pat.c_str(), name.c_str());
    std::string d = mc::workdir() + "/costs";
    mkdir(d.c_str(), 0755);
    int fd = open((d + "/" + name).c_str(), O_CREAT | O_WRONLY, 0644);
    MC_CHECK(c, fd >= 0, "cannot create");
    close(fd);
    within(c, "glob", (double)pat.size() * name.size() + 100, 4000, [&] {
        P::Path root(d.c_str());
        auto g = root.glob(pat.c_str());
        while(g.next())
            ;
    }, 60);
    unlink((d + "/" + name).c_str());
}

void mc::mc_register() {
#if EPOCH == 2026
    mc::add("sorts", "16 algorithms, 9 sizes up to 4096, any two of 8 shapes and the adversary, 5 middles", sorts, 3);
    mc::add("integers", "bucketsort and radix_sort of 4 types, 9 sizes up to 4096, 8 kinds of keys", integers, 2);
#endif
    mc::add("searches", "6 algorithms, 12 sizes up to 4096, 9 targets, 8 shapes", searches, 2);
    mc::add("growth", "30 ways to append, 10 lengths up to 20000", growth, 1);
    mc::add("texts", "45 operations on 4 sizes up to 16384 of every repeated word of up to 3 pieces", texts, 2);
    mc::add("maps", "7 maps and sets, 10 kinds of keys, 6 sizes up to 10000, 3 orders of removal", maps, 2);
    mc::add("histories", "7 maps and sets, every word of up to 4 (thorough: 5) of 7 operations, repeated", histories, 4);
    mc::add("sequences", "5 sequences, every word of up to 4 (thorough: 5) of 8 operations, repeated 400 times", sequences, 4);
    mc::add("files", "4 ways to read, 9 sizes up to 200000, 6 distances of line breaks", files, 2);
#if EPOCH == 2026
    mc::add("arguments", "7 kinds of arguments, up to 5000 of them", arguments, 1);
#endif
    mc::add("globs", "patterns of up to 250 characters from 10 words, 5 tails, names of up to 250 characters", globs, 2);
}
