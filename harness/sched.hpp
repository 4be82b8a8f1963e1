// A controlled scheduler: the threads of an execution are fibers of one OS thread, and every
// context switch is a choice of the explorer.  Include once per harness.
// Link with SCHED_WRAPS of tools/checks.py.
#pragma once
#include <cerrno>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include "mc.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SCHED_ASAN 1
#endif
#endif
#ifdef SCHED_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" void mc_switch(void **save, void *to);
asm(R"(
    .pushsection .text
    .globl mc_switch
    .type mc_switch, @function
mc_switch:
    endbr64
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .size mc_switch, .-mc_switch
    .popsection
)");

namespace sched {

constexpr size_t STACK = 256 * 1024;
constexpr int MAXF = 12, MAXM = 16;
enum St { FREE, READY, WAIT_MUTEX, WAIT_JOIN, WAIT_GUARD, WAIT_ONCE, WAIT_YIELD, DONE };
enum Outcome { FINISHED, DEADLOCK, TERMINATED };

struct Fiber {
    void *sp = nullptr;
    St st = FREE;
    void *wait = nullptr;
    char *stack = nullptr;
    void *fake = nullptr;
    char eh[16];
    int err = 0;
    std::vector<char> tls;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    std::function<void()> body;
    bool detached = false, joined = false;
    uint64_t obs = 0; // everything this fiber has observed
};
struct Mutex {
    void *addr;
    int owner; // -1: free
    int kind;
    int depth;
};

struct Scheduler {
    mc::Ctx *c = nullptr;
    bool active = false;
    Fiber f[MAXF];
    int cur = -1, nf = 0;
    int preemptions = -1; // left; -1: unbounded
    Mutex m[MAXM];
    int nm = 0;
    std::vector<void *> guards; // static initialisations in progress
    bool terminated = false;
    bool faults = false;
    int fault_count = 0;
    const char *fault_name = "";
    int creates = 0, joins = 0;
    bool prune = false;
    std::function<uint64_t()> shared;
    uint64_t switches = 0, yields = 0;
    void *host_sp = nullptr;
    void *host_fake = nullptr;
    const void *host_bottom = nullptr;
    size_t host_size = 0;
    char host_eh[16];
    std::vector<char> host_tls;
};
static Scheduler S;
static char *tls_base;
static size_t tls_size;
static std::vector<char> tls_image;

// With ASan the thread local variables of the executable are those of its runtime: no swapping.
static void find_tls() {
#ifdef SCHED_ASAN
    return;
#endif
    if(tls_base)
        return;
    dl_iterate_phdr(
        [](dl_phdr_info *i, size_t, void *) -> int {
            for(int k = 0; k < i->dlpi_phnum; ++k)
                if(i->dlpi_phdr[k].p_type == PT_TLS) {
                    tls_base = (char *)i->dlpi_tls_data;
                    tls_size = i->dlpi_phdr[k].p_memsz;
                    const char *img = (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                    tls_image.assign(tls_size, 0);
                    for(size_t b = 0; b < i->dlpi_phdr[k].p_filesz; ++b)
                        tls_image[b] = img[b];
                }
            return 1; // the executable comes first
        },
        nullptr);
}
__attribute__((no_sanitize("address"))) static void copy(char *to, const char *from, size_t n) {
    for(size_t i = 0; i < n; ++i)
        ((volatile char *)to)[i] = from[i];
}

// Leaves the current fiber for the host.
__attribute__((noinline)) static void to_host(bool forever = false) {
    Fiber &f = S.f[S.cur];
    copy(f.eh, (char *)__cxxabiv1::__cxa_get_globals(), 16);
    f.err = errno;
    if(tls_size)
        copy(f.tls.data(), tls_base, tls_size);
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(forever ? nullptr : &f.fake, S.host_bottom, S.host_size);
#endif
    mc_switch(&f.sp, S.host_sp);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(f.fake, nullptr, nullptr);
#endif
    errno = f.err;
}
static void entry() {
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &S.host_bottom, &S.host_size);
#endif
    Fiber &f = S.f[S.cur];
    errno = 0;
    try {
        if(f.fn)
            f.ret = f.fn(f.arg);
        else
            f.body();
    } catch(mc::Abandon &) {
        S.c->fail("harness error: a choice of a fiber was abandoned");
    } catch(...) {
        char buf[300] = "";
        mc_describe_exception(buf, sizeof buf);
        S.c->fail("an unexpected exception ended a thread: %s", buf);
    }
    S.f[S.cur].st = DONE;
    to_host(true);
    __builtin_unreachable();
}
__attribute__((noinline)) static void to_fiber(int id) {
    Fiber &f = S.f[id];
    S.cur = id;
    ++S.switches;
    copy(S.host_eh, (char *)__cxxabiv1::__cxa_get_globals(), 16);
    copy((char *)__cxxabiv1::__cxa_get_globals(), f.eh, 16);
    if(tls_size) {
        copy(S.host_tls.data(), tls_base, tls_size);
        copy(tls_base, f.tls.data(), tls_size);
    }
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(&S.host_fake, f.stack, STACK);
#endif
    mc_switch(&S.host_sp, f.sp);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(S.host_fake, nullptr, nullptr);
#endif
    if(tls_size)
        copy(tls_base, S.host_tls.data(), tls_size);
    copy((char *)__cxxabiv1::__cxa_get_globals(), S.host_eh, 16);
    S.cur = -1;
}

static int spawn(void *(*fn)(void *), void *arg, std::function<void()> body) {
    if(S.nf >= MAXF)
        S.c->fail("harness error: too many threads");
    int id = S.nf++;
    Fiber &f = S.f[id];
    if(!f.stack)
        f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#ifdef SCHED_ASAN
    __asan_unpoison_memory_region(f.stack, STACK);
#endif
    bool t = mc::track_allocs;
    mc::track_allocs = false;
    f.tls = tls_image;
    f.body = std::move(body);
    mc::track_allocs = t;
    memset(f.eh, 0, 16);
    f.fn = fn;
    f.arg = arg;
    f.ret = nullptr;
    f.detached = f.joined = false;
    f.fake = nullptr;
    f.obs = 17 + id;
    f.wait = nullptr;
    uint64_t *top = (uint64_t *)(f.stack + STACK) - 3; // aligned as after a call
    *top = 0;                       // no caller
    *--top = (uint64_t)&entry;
    for(int i = 0; i < 6; ++i)
        *--top = 0;
    f.sp = top;
    f.st = READY;
    return id;
}
static Mutex *find(void *a) {
    for(int i = 0; i < S.nm; ++i)
        if(S.m[i].addr == a)
            return &S.m[i];
    return nullptr;
}
static bool enabled(const Fiber &f) {
    switch(f.st) {
    case READY:
        return true;
    case WAIT_MUTEX: {
        Mutex *m = find(f.wait);
        return !m || m->owner == -1;
    }
    case WAIT_JOIN:
        return ((Fiber *)f.wait)->st == DONE;
    case WAIT_ONCE:
        return *(volatile int *)f.wait != 1;
    case WAIT_GUARD:
        for(void *g : S.guards)
            if(g == f.wait)
                return false;
        return true;
    default:
        return false;
    }
}

static bool on() { return S.active && S.cur >= 0; }
static int self() { return S.cur; }
static void observe(uint64_t v) {
    if(on())
        S.f[S.cur].obs = mc::mix(S.f[S.cur].obs ^ mc::mix(v));
}
// A place where the scheduler may switch.
static void point() {
    if(!on())
        return;
    observe(3);
    if(S.preemptions == 0)
        return;
    to_host();
}
static void block(St st, void *w) {
    Fiber &f = S.f[S.cur];
    f.st = st;
    f.wait = w;
    if(!enabled(f))
        to_host();
    f.st = READY;
    f.wait = nullptr;
}
// The process would end here.
[[noreturn]] static void terminate_process() {
    S.terminated = true;
    to_host();
    abort();
}

// Runs body as the main thread, exploring every schedule.
static Outcome run(mc::Ctx &c, std::function<void()> body) {
    find_tls();
    S.c = &c;
    S.nf = S.nm = 0;
    S.cur = -1;
    S.terminated = false;
    S.yields = 0;
    S.fault_count = 0;
    S.creates = S.joins = 0;
    S.guards.clear();
    S.host_tls.resize(tls_size);
    S.active = true;
    struct Off {
        ~Off() { S.active = false; }
    } off;
    spawn(nullptr, nullptr, std::move(body));
    int last = 0;
    for(;;) {
        int en[MAXF], n = 0;
        bool cont = enabled(S.f[last]) && S.f[last].st != FREE;
        if(cont)
            en[n++] = last;
        for(int i = 0; i < S.nf; ++i)
            if((!cont || i != last) && enabled(S.f[i]))
                en[n++] = i;
        if(n == 0) { // only threads that gave way are left
            for(int i = 0; i < S.nf; ++i)
                if(S.f[i].st == WAIT_YIELD)
                    S.f[i].st = READY;
            for(int i = 0; i < S.nf && n == 0; ++i)
                if(enabled(S.f[i]))
                    en[n++] = i;
            if(n == 0 || ++S.yields > 10000)
                break;
        }
        if(cont && S.preemptions == 0)
            n = 1;
        if(n > 1 && S.prune) {
            mc::Hash h;
            h.add(last).add(c.deviation_budget).add(S.nf);
            for(int i = 0; i < S.nf; ++i)
                h.add(S.f[i].obs).add(S.f[i].st).add(S.f[i].joined * 2 + S.f[i].detached);
            for(int i = 0; i < S.nm; ++i)
                h.add(S.m[i].owner + 1);
            if(S.shared)
                h.add(S.shared());
            c.visit(h.h, 1);
        }
        int k = n > 1 ? c.choose(n) : 0;
        if(cont && k > 0 && S.preemptions > 0)
            --S.preemptions;
        last = en[k];
        for(int i = 0; i < S.nf; ++i)
            if(i != last && S.f[i].st == WAIT_YIELD)
                S.f[i].st = READY;
        if(c.tracing)
            c.note("thread %d runs", last);
        to_fiber(last);
        if(S.terminated)
            return TERMINATED;
    }
    for(int i = 0; i < S.nf; ++i)
        if(S.f[i].st != DONE)
            return DEADLOCK;
    return FINISHED;
}

static int fault(const char *name, std::initializer_list<int> errs) {
    if(!S.faults || S.c->deviation_budget <= 0)
        return 0;
    int k = S.c->deviate((int)errs.size() + 1);
    if(!k)
        return 0;
    S.fault_name = name;
    ++S.fault_count;
    observe(1000 + k);
    S.c->op("%s fails with %d", name, errs.begin()[k - 1]);
    return errs.begin()[k - 1];
}
static Mutex *add_mutex(void *a, int kind) {
    Mutex *m = find(a);
    if(!m) {
        for(int i = 0; i < S.nm && !m; ++i)
            if(!S.m[i].addr)
                m = &S.m[i];
        if(!m) {
            if(S.nm == MAXM)
                S.c->fail("harness error: too many mutexes");
            m = &S.m[S.nm++];
        }
    }
    *m = {a, -1, kind, 0};
    return m;
}
static Mutex *get(pthread_mutex_t *p, const char *who) {
    Mutex *m = find(p);
    if(m)
        return m;
    pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
    if(memcmp(p, &z, sizeof z) == 0)
        return add_mutex(p, PTHREAD_MUTEX_DEFAULT);
    S.c->fail("%s of a mutex that is not initialised", who);
}
} // namespace sched

extern "C" {
using namespace sched;
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
pthread_t __real_pthread_self();
int __real_pthread_attr_init(pthread_attr_t *);
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);

int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a) {
    if(!on())
        return __real_pthread_mutex_init(p, a);
    S.c->op("%d: mutex_init", self());
    if(int e = fault("pthread_mutex_init", {ENOMEM, EAGAIN}))
        return e;
    int kind = PTHREAD_MUTEX_DEFAULT;
    if(a)
        pthread_mutexattr_gettype(a, &kind);
    memset(p, 0, sizeof *p);
    memset(p, 0x5a, 4); // not the static initialiser
    add_mutex(p, kind);
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *p) {
    if(!on())
        return __real_pthread_mutex_destroy(p);
    point();
    S.c->op("%d: mutex_destroy", self());
    if(int e = fault("pthread_mutex_destroy", {EBUSY}))
        return e;
    sched::Mutex *m = sched::get(p, "destruction");
    if(m->owner != -1)
        return EBUSY;
    m->addr = nullptr;
    memset(p, 0xa5, sizeof *p);
    return 0;
}
static int do_lock(pthread_mutex_t *p, sched::Mutex *m) {
    if(m->owner == self()) {
        if(m->kind == PTHREAD_MUTEX_RECURSIVE) {
            ++m->depth;
            return 0;
        }
        if(m->kind == PTHREAD_MUTEX_ERRORCHECK)
            return EDEADLK;
    }
    block(WAIT_MUTEX, p);
    m = sched::get(p, "lock");
    m->owner = self();
    m->depth = 1;
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) {
    if(!on())
        return __real_pthread_mutex_lock(p);
    point();
    S.c->op("%d: lock", self());
    if(int e = fault("pthread_mutex_lock", {EINVAL, EAGAIN, EDEADLK}))
        return e;
    return do_lock(p, sched::get(p, "lock"));
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *p) {
    if(!on())
        return __real_pthread_mutex_trylock(p);
    point();
    if(int e = fault("pthread_mutex_trylock", {EINVAL, EAGAIN}))
        return e;
    sched::Mutex *m = sched::get(p, "trylock");
    int r = 0;
    if(m->owner != -1 && !(m->owner == self() && m->kind == PTHREAD_MUTEX_RECURSIVE)) {
        r = EBUSY;
    } else {
        m->depth = m->owner == -1 ? 1 : m->depth + 1;
        m->owner = self();
    }
    observe(r);
    S.c->op("%d: trylock %d", self(), r);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) {
    if(!on())
        return __real_pthread_mutex_unlock(p);
    point();
    S.c->op("%d: unlock", self());
    if(int e = fault("pthread_mutex_unlock", {EPERM, EINVAL}))
        return e;
    sched::Mutex *m = sched::get(p, "unlock");
    if(m->owner != self()) {
        if(m->kind == PTHREAD_MUTEX_ERRORCHECK || m->kind == PTHREAD_MUTEX_RECURSIVE)
            return EPERM;
        S.c->fail("a thread unlocks a mutex that it does not hold");
    }
    if(--m->depth == 0)
        m->owner = -1;
    point();
    return 0;
}
int __wrap_pthread_attr_init(pthread_attr_t *a) {
    if(on())
        if(int e = fault("pthread_attr_init", {ENOMEM})) {
            memset(a, 0xa5, sizeof *a);
            return e;
        }
    return __real_pthread_attr_init(a);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if(!on())
        return __real_pthread_create(t, a, fn, arg);
    if(int e = fault("pthread_create", {EAGAIN, EPERM, EINVAL}))
        return e;
    int id = spawn(fn, arg, nullptr);
    ++S.creates;
    S.c->op("%d: create %d", self(), id);
    int d = PTHREAD_CREATE_JOINABLE;
    if(a)
        pthread_attr_getdetachstate(a, &d);
    S.f[id].detached = d == PTHREAD_CREATE_DETACHED;
    *t = (pthread_t)(0x7000 + id);
    point();
    return 0;
}
static int fiber_of(pthread_t t, const char *what) {
    size_t id = (size_t)t - 0x7000;
    if(id >= (size_t)S.nf || S.f[id].joined || S.f[id].detached)
        S.c->fail("pthread_%s of a thread that cannot be joined (anymore)", what);
    return (int)id;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
    if(!on())
        return __real_pthread_join(t, ret);
    point();
    S.c->op("%d: join", self());
    if(int e = fault("pthread_join", {EINVAL, ESRCH, EDEADLK}))
        return e;
    int id = fiber_of(t, "join");
    if(id == self())
        return EDEADLK;
    ++S.joins;
    block(WAIT_JOIN, &S.f[id]);
    S.f[id].joined = true;
    if(ret)
        *ret = S.f[id].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t t) {
    if(!on())
        return __real_pthread_detach(t);
    point();
    S.c->op("%d: detach", self());
    if(int e = fault("pthread_detach", {EINVAL, ESRCH}))
        return e;
    S.f[fiber_of(t, "detach")].detached = true;
    return 0;
}
pthread_t __wrap_pthread_self() {
    if(!on())
        return __real_pthread_self();
    return (pthread_t)(0x7000 + self());
}
// Function-local statics.
int __wrap___cxa_guard_acquire(uint64_t *g) {
    if(!on())
        return __real___cxa_guard_acquire(g);
    point();
    for(;;) {
        if(*(volatile char *)g)
            return 0;
        bool busy = false;
        for(void *x : S.guards)
            busy |= x == g;
        if(!busy)
            break;
        block(WAIT_GUARD, g);
    }
    bool t = mc::track_allocs;
    mc::track_allocs = false;
    S.guards.push_back(g);
    mc::track_allocs = t;
    return 1;
}
static void drop_guard(uint64_t *g) {
    for(size_t i = 0; i < S.guards.size(); ++i)
        if(S.guards[i] == g) {
            S.guards.erase(S.guards.begin() + i);
            break;
        }
}
void __wrap___cxa_guard_release(uint64_t *g) {
    if(!on())
        return __real___cxa_guard_release(g);
    *(volatile char *)g = 1;
    drop_guard(g);
    point();
}
void __wrap___cxa_guard_abort(uint64_t *g) {
    if(!on())
        return __real___cxa_guard_abort(g);
    drop_guard(g);
    point();
}
}
