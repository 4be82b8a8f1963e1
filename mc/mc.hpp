// Bounded exhaustive explorer (stateless depth-first search over choice sequences) that runs the
// real pystd code.  See DESIGN.md, "The explorer".
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Abandon {}; // ends the current execution (pruned, or the subtree belongs to another worker)

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Hash {
    uint64_t h = 0x1234567;
    Hash &add(uint64_t v) {
        h = mix(h ^ mix(v));
        return *this;
    }
    Hash &bytes(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char *)p;
        add(n);
        while(n >= 8) {
            uint64_t v;
            memcpy(&v, c, 8);
            add(v);
            c += 8;
            n -= 8;
        }
        if(n) {
            uint64_t v = 0;
            memcpy(&v, c, n);
            add(v);
        }
        return *this;
    }
    Hash &str(const std::string &s) { return bytes(s.data(), s.size()); }
};

struct Ctx {
    bool thorough = false;
    bool tracing = false;
    std::string trace; // op log, only filled in while tracing

    // A nondeterministic choice; the explorer enumerates every value in [0, n).
    int choose(int n);
    // Same, for calls made from inside library callbacks: never unwinds.
    int choose_inner(int n);
    template<typename T, size_t N> const T &pick(const T (&arr)[N]) { return arr[choose((int)N)]; }
    template<typename T> const T &pick(const std::vector<T> &arr) {
        return arr[choose((int)arr.size())];
    }
    int bound(int quick, int thor) const { return thorough ? thor : quick; }

    // One API call on the implementation (a transition).
    void op(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void ops(uint64_t n); // n further transitions, not logged
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // Records a distinct observed state.
    void state(uint64_t h);
    // Records a state and ends the execution if it was already expanded with at least this
    // many remaining steps.
    void visit(uint64_t h, unsigned remaining);
    // False while a known prefix is replayed: its states were checked when they were new.
    bool fresh() const;
    // Ends the execution (an uninteresting branch).
    [[noreturn]] void abandon() { throw Abandon{}; }
    // Reports a violation; never returns.
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // A non-default environment answer: returns 0 when the deviation budget is used up.
    int deviate(int n);
    int deviation_budget = 0;
    bool no_leak_check = false; // set by scenarios whose executions end with live allocations
};

struct Scenario {
    std::string name;
    std::function<void(Ctx &)> fn;
    int split = 2;            // choices that make up one unit of work
    std::string bounds;       // human readable
    bool thorough_only = false;
};

void add(const char *name, const char *bounds, std::function<void(Ctx &)> fn, int split = 2,
         bool thorough_only = false);
int run_main(int argc, char **argv);
const std::string &workdir(); // scratch directory of this process
bool thorough(); // tier, for use while registering

// True while the allocation hooks count (so that the engine's own allocations do not).
extern bool track_allocs;
long live_allocs();

} // namespace mc

#define MC_CHECK(ctx, cond, ...)                                                                   \
    do {                                                                                           \
        if(!(cond)) {                                                                              \
            (ctx).fail(__VA_ARGS__);                                                               \
        }                                                                                          \
    } while(0)
