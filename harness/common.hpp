#pragma once
// Reference-model containers come from libstdc++ and must be included before pystd.
#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <string>
#include <vector>

#include "mc.hpp"

#if EPOCH == 2026
#include <pystd2026.hpp>
namespace P = pystd2026;
#else
#include <pystd2025.hpp>
namespace P = pystd2025;
#endif

using mc::Ctx;

namespace mc {
void mc_register();
}

#ifndef MC_NO_DESCRIBE
extern "C" bool mc_describe_exception(char *buf, size_t n) {
    try {
        throw;
    } catch(const P::PyException &e) {
        auto cs = e.what();
        snprintf(buf, n, "PyException: %s", cs.c_str());
        return true;
    } catch(const char *s) {
        snprintf(buf, n, "C string: %s", s);
        return true;
    } catch(...) {
    }
    return false;
}
#endif

// Runs fn; true when it reported the misuse by throwing one of the library's exceptions.
template<typename F> bool throws(F &&fn) {
    try {
        fn();
    } catch(const P::PyException &) {
        return true;
    } catch(mc::Abandon &) {
        throw;
    } catch(const char *) {
        return true;
    }
    return false;
}

// The context of the running execution, for callbacks.
extern Ctx *g_ctx;
#ifndef MC_NO_MAIN_CTX
Ctx *g_ctx = nullptr;
#endif

// ---------------------------------------------------------------- element types

// Registry of live Tracked objects: every construction, destruction and access is checked.
struct LifeReg {
    static constexpr size_t N = 1 << 14;
    const void *slot[N];
    uint32_t gen[N];
    uint32_t cur = 1;
    long live = 0;
    long constructed = 0;
    size_t used = 0; // slots taken by live and dead objects
    void clear() {
        ++cur;
        live = 0;
        constructed = 0;
        used = 0;
    }
    void rebuild() { // drops the dead ones
        std::vector<const void *> v;
        for(size_t i = 0; i < N; ++i)
            if(gen[i] == cur && alive[i])
                v.push_back(slot[i]);
        ++cur;
        used = 0;
        for(const void *p : v) {
            size_t i = find(p);
            gen[i] = cur;
            slot[i] = p;
            alive[i] = true;
            ++used;
        }
    }
    size_t find(const void *p) const {
        size_t i = mc::mix((uint64_t)p) & (N - 1);
        while(gen[i] == cur && slot[i] != p)
            i = (i + 1) & (N - 1);
        return i;
    }
    bool has(const void *p) const {
        size_t i = find(p);
        return gen[i] == cur && slot[i] == p && alive[i];
    }
    bool alive[N];
    void add(const void *p) {
        size_t i = find(p);
        if(gen[i] == cur && alive[i])
            g_ctx->fail("lifetime: object constructed over a live object");
        if(gen[i] != cur && ++used > N / 2) {
            rebuild();
            if(++used > N / 2) {
                fprintf(stderr, "lifetime registry is full\n");
                abort();
            }
            i = find(p);
        }
        gen[i] = cur;
        slot[i] = p;
        alive[i] = true;
        ++live;
        ++constructed;
    }
    void remove(const void *p) {
        size_t i = find(p);
        if(gen[i] != cur || !alive[i])
            g_ctx->fail("lifetime: destructor run on something that is not a live object");
        alive[i] = false;
        --live;
    }
    void access(const void *p) {
        if(!has(p))
            g_ctx->fail("lifetime: access to something that is not a live object");
    }
};
inline LifeReg g_life;

struct Tracked {
    static constexpr int MOVED = -777;
    int v;
    Tracked *self;
    Tracked() noexcept : v(0), self(this) { g_life.add(this); }
    explicit Tracked(int v_) noexcept : v(v_), self(this) { g_life.add(this); }
    Tracked(const Tracked &o) noexcept : v(o.get()), self(this) { g_life.add(this); }
    Tracked(Tracked &&o) noexcept : v(o.get()), self(this) {
        g_life.add(this);
        o.v = MOVED;
    }
    ~Tracked() {
        if(self != this)
            g_ctx->fail("lifetime: object relocated without running its constructor");
        g_life.remove(this);
        v = -888;
        self = nullptr;
    }
    Tracked &operator=(const Tracked &o) noexcept {
        g_life.access(this);
        v = o.get();
        return *this;
    }
    Tracked &operator=(Tracked &&o) noexcept {
        g_life.access(this);
        int nv = o.get();
        if(&o != this)
            o.v = MOVED;
        v = nv;
        return *this;
    }
    int get() const {
        g_life.access(this);
        if(self != this)
            g_ctx->fail("lifetime: object relocated without running its constructor");
        return v;
    }
    bool operator==(const Tracked &o) const { return get() == o.get(); }
    bool operator!=(const Tracked &o) const { return get() != o.get(); }
    bool operator<(const Tracked &o) const { return get() < o.get(); }
    int operator<=>(const Tracked &o) const {
        int a = get(), b = o.get();
        return a < b ? -1 : a > b ? 1 : 0;
    }
    template<typename Hasher> void feed_hash(Hasher &h) const { h.feed_hash((int32_t)get()); }
};

// Owns heap memory: leaks and double frees are seen by the allocator hooks and ASan.
struct Owner {
    int *p;
    Owner() noexcept : p(new int(0)) {}
    explicit Owner(int v) noexcept : p(new int(v)) {}
    Owner(const Owner &o) noexcept : p(new int(*o.p)) {}
    Owner(Owner &&o) noexcept : p(o.p) { o.p = nullptr; }
    ~Owner() { delete p; }
    Owner &operator=(const Owner &o) noexcept {
        int nv = *o.p;
        delete p;
        p = new int(nv);
        return *this;
    }
    Owner &operator=(Owner &&o) noexcept {
        if(this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    int get() const { return p ? *p : -777; }
    bool operator==(const Owner &o) const { return get() == o.get(); }
    bool operator!=(const Owner &o) const { return get() != o.get(); }
    bool operator<(const Owner &o) const { return get() < o.get(); }
    int operator<=>(const Owner &o) const {
        int a = get(), b = o.get();
        return a < b ? -1 : a > b ? 1 : 0;
    }
};

// Over-aligned, odd content.
struct alignas(32) Wide {
    int v = 0;
    char pad[20] = {};
    Wide() noexcept = default;
    explicit Wide(int v_) noexcept : v(v_) {}
    int get() const {
        if((uintptr_t)this % 32)
            g_ctx->fail("element storage is not aligned to the element type's alignment");
        return v;
    }
    bool operator==(const Wide &o) const { return v == o.v; }
    bool operator!=(const Wide &o) const { return v != o.v; }
};

struct Small { // size 3, alignment 1
    unsigned char b[3] = {0, 0, 0};
    Small() noexcept = default;
    explicit Small(int v) noexcept {
        b[0] = (unsigned char)v;
        b[1] = (unsigned char)(v >> 8);
        b[2] = (unsigned char)(v >> 16);
    }
    int get() const { return b[0] | b[1] << 8 | b[2] << 16; }
    bool operator==(const Small &o) const { return get() == o.get(); }
    bool operator!=(const Small &o) const { return get() != o.get(); }
};

inline int val(int i) { return i; }
inline int val(char i) { return i; }
inline int val(const Tracked &t) { return t.get(); }
inline int val(const Owner &t) { return t.get(); }
inline int val(const Wide &t) { return t.get(); }
inline int val(const Small &t) { return t.get(); }
template<typename T> T make(int v) { return T(v); }

struct ExecScope {
    explicit ExecScope(Ctx &c) {
        g_ctx = &c;
        g_life.clear();
    }
    // Called at the end of a completed execution, after every object has been destroyed.
    static void finish(Ctx &c) {
        if(g_life.live != 0)
            c.fail("lifetime: %ld element(s) still alive after their owner was destroyed",
                   g_life.live);
    }
};

inline std::string show(const std::vector<int> &v) {
    std::string s = "[";
    for(size_t i = 0; i < v.size(); ++i) {
        if(i)
            s += ",";
        s += std::to_string(v[i]);
    }
    return s + "]";
}
