// C29: Mutex, LockGuard and Thread under every schedule and with failing primitives.
#include <functional>
#include "common.hpp"
#include "sched.hpp"
#if EPOCH == 2026
#include <pystd2026_threading.hpp>
#else
#include <pystd2025_threading.hpp>
#endif

static_assert(!__is_constructible(P::Mutex, const P::Mutex &) && !__is_constructible(P::Mutex, P::Mutex &&));
static_assert(!__is_constructible(P::Thread, const P::Thread &));
static_assert(!__is_constructible(P::LockGuard<P::Mutex>, const P::LockGuard<P::Mutex> &));

// What was written to stderr, in bytes, since the last call.
static int g_err = -1;
static void watch_stderr(Ctx &c) {
    if(c.tracing)
        return;
    if(g_err < 0) {
        g_err = memfd_create("stderr", 0);
        dup2(g_err, 2);
    }
    if(lseek(g_err, 0, SEEK_CUR) > 0) {
        if(ftruncate(g_err, 0) != 0)
            c.fail("harness error: ftruncate");
        lseek(g_err, 0, SEEK_SET);
    }
}
static bool wrote_stderr(Ctx &c) {
    return c.tracing || lseek(g_err, 0, SEEK_CUR) > 0; }

static void on_terminate() {
    if(sched::on())
        sched::terminate_process();
    abort();
}
extern "C" void __real_abort() __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap_abort() {
    if(sched::on())
        sched::terminate_process();
    __real_abort();
}
static void prepare(Ctx &c, bool prune) {
    g_ctx = &c;
    std::set_terminate(on_terminate);
    sched::S.preemptions = -1;
    sched::S.faults = false;
    sched::S.prune = prune;
    sched::S.shared = nullptr;
    c.no_leak_check = true;
}

// ---- shared state of the threads
struct World {
    P::Mutex *mu[2];
    int inside[2], count[2], expect[2];
    int done[4], runs[4];
    int prog[4][3], len;
    void *seen[4];
};
static World w;
static uint64_t world_hash() {
    mc::Hash h;
    h.bytes(w.prog, sizeof w.prog);
    for(int i = 0; i < 2; ++i)
        h.add(w.inside[i]).add(w.count[i]).add(w.expect[i]);
    for(int i = 0; i < 4; ++i)
        h.add(w.done[i] * 4 + w.runs[i]);
    return h.h;
}
// The critical section: must never overlap with another one of the same mutex.
static void critical(int k) {
    MC_CHECK(*g_ctx, w.inside[k] == 0, "two threads are in the critical section at once");
    w.inside[k] = 1;
    int v = w.count[k];
    sched::point();
    MC_CHECK(*g_ctx, w.inside[k] == 1 && w.count[k] == v, "another thread ran the critical section");
    w.count[k] = v + 1;
    ++w.expect[k];
    w.inside[k] = 0;
}
static const int OPS = 8;
static void one(int op) {
    switch(op) {
    case 0: {
        P::LockGuard<P::Mutex> g(*w.mu[0]);
        critical(0);
        return;
    }
    case 1:
        w.mu[0]->lock();
        critical(0);
        w.mu[0]->unlock();
        return;
    case 2:
        if(w.mu[0]->try_lock()) {
            critical(0);
            w.mu[0]->unlock();
        }
        return;
    case 3:
        try {
            P::LockGuard<P::Mutex> g(*w.mu[0]);
            critical(0);
            throw 5;
        } catch(int) {
            sched::point();
        }
        return;
    case 4: { // nested, always in the same order
        P::LockGuard<P::Mutex> g(*w.mu[0]);
        P::LockGuard<P::Mutex> h(*w.mu[1]);
        critical(1);
        critical(0);
        return;
    }
    case 5: {
        P::LockGuard<P::Mutex> h(*w.mu[1]);
        critical(1);
        return;
    }
    case 6: { // try_lock while holding: must not succeed while another thread holds it
        P::LockGuard<P::Mutex> h(*w.mu[1]);
        if(w.mu[0]->try_lock()) {
            P::Mutex *m = w.mu[0];
            critical(0);
            m->unlock();
        }
        critical(1);
        return;
    }
    default: { // two sections in a row, one left by a return inside a nested function
        auto f = [](int x) {
            P::LockGuard<P::Mutex> g(*w.mu[0]);
            critical(0);
            return x;
        };
        f(1);
        P::LockGuard<P::Mutex> g(*w.mu[0]);
        critical(0);
    }
    }
}
static void *section_thread(void *p) {
    int me = (int)(long)p;
    ++w.runs[me];
    for(int i = 0; i < w.len; ++i)
        one(w.prog[me][i]);
    w.done[me] = 1;
    return nullptr;
}
static void sections(Ctx &c, int threads, int len) {
    prepare(c, true);
    w = World();
    w.len = len;
    sched::S.shared = world_hash;
    std::string d;
    for(int t = 0; t < threads; ++t)
        for(int i = 0; i < len; ++i) {
            w.prog[t][i] = c.choose(OPS);
            d += (char)('0' + w.prog[t][i]);
        }
    // symmetric threads: programs in ascending order
    for(int t = 1; t < threads; ++t)
        for(int i = 0; i < len; ++i) {
            if(w.prog[t - 1][i] > w.prog[t][i])
                c.abandon();
            if(w.prog[t - 1][i] < w.prog[t][i])
                break;
        }
    c.op("programs %s", d.c_str());
    auto r = sched::run(c, [&] {
        P::Mutex m0, m1;
        w.mu[0] = &m0;
        w.mu[1] = &m1;
        {
            P::Thread a(section_thread, (void *)0l);
            P::Thread b(section_thread, (void *)1l);
            if(threads > 2) {
                P::Thread e(section_thread, (void *)2l);
            }
            MC_CHECK(c, threads < 3 || w.done[2], "a destroyed thread object did not wait");
        }
        for(int t = 0; t < threads; ++t)
            MC_CHECK(c, w.done[t] && w.runs[t] == 1, "thread %d ran %d times when its object had been destroyed", t, w.runs[t]);
        for(int k = 0; k < 2; ++k) {
            MC_CHECK(c, w.count[k] == w.expect[k], "an update was lost: %d of %d", w.count[k], w.expect[k]);
            MC_CHECK(c, m0.try_lock(), "a mutex is still locked at the end");
            m0.unlock();
        }
    });
    MC_CHECK(c, r == sched::FINISHED, r == sched::DEADLOCK ? "the threads block each other forever" : "the process ended");
}
static void two(Ctx &c) { sections(c, 2, c.bound(2, 3)); }
static void three(Ctx &c) { sections(c, 3, c.bound(1, 2)); }

// ---- life of threads
static void *life_thread(void *p) {
    World **q = (World **)p;
    int me = (int)(q - (World **)w.seen);
    ++w.runs[me];
    sched::point();
    sched::point();
    w.done[me] = 1;
    return p;
}
static void life(Ctx &c) {
    prepare(c, true);
    w = World();
    sched::S.shared = world_hash;
    int n = 2, depth = c.bound(2, 3);
    auto &prog = w.prog;
    int order = c.choose(2);
    w.prog[2][0] = order;
    for(int t = 0; t < n; ++t)
        for(int i = 0; i < depth; ++i)
            prog[t][i] = c.choose(4);
    c.op("operations %d%d %d%d, %s", prog[0][0], prog[0][1], prog[1][0], prog[1][1], order ? "interleaved" : "one after the other");
    auto r = sched::run(c, [&] {
        P::Thread *t[2];
        bool final[2] = {}, joined[2] = {};
        auto step = [&](int k, int op) {
            switch(op) {
            case 0: { // join
                bool rep = throws([&] { t[k]->join(); });
                if(final[k]) {
                    MC_CHECK(c, rep, "joining a thread that was joined or detached is not reported");
                } else {
                    MC_CHECK(c, !rep && w.done[k] == 1, "join returned before the function had ended");
                    final[k] = joined[k] = true;
                }
                return;
            }
            case 1: {
                bool rep = throws([&] { t[k]->detach(); });
                MC_CHECK(c, rep == final[k], "detaching %s", rep ? "fails" : "a thread that was joined or detached is not reported");
                final[k] = true;
                return;
            }
            case 2:
                sched::point();
                return;
            default: // some work of the creator
                sched::point();
                sched::observe(w.done[k]);
            }
        };
        auto finish = [&](int k) {
            delete t[k];
            if(!final[k])
                joined[k] = true;
            MC_CHECK(c, !joined[k] || (w.done[k] == 1 && w.runs[k] == 1), "the destructor returned before the function had ended");
            MC_CHECK(c, w.runs[k] <= 1, "the function ran %d times", w.runs[k]);
        };
        auto start = [&](int k) { t[k] = new P::Thread(life_thread, &w.seen[k]); };
        if(order == 0) {
            for(int k = 0; k < 2; ++k) {
                start(k);
                for(int i = 0; i < depth; ++i)
                    step(k, prog[k][i]);
                finish(k);
            }
        } else {
            start(0);
            start(1);
            for(int i = 0; i < depth; ++i)
                for(int k = 0; k < 2; ++k)
                    step(k, prog[k][i]);
            finish(0);
            finish(1);
        }
    });
    MC_CHECK(c, r == sched::FINISHED, r == sched::DEADLOCK ? "a thread waits forever" : "the process ended");
    for(int k = 0; k < 2; ++k)
        MC_CHECK(c, w.runs[k] == 1 && w.done[k] == 1, "function %d ran %d times", k, w.runs[k]);
}
// Threads that start threads, also deep ones; destruction by an exception.
static void *nest_thread(void *p) {
    int lev = (int)(long)p;
    ++w.runs[lev];
    if(lev < w.len) {
        if(w.prog[lev][0] == 0) {
            P::Thread t(nest_thread, (void *)(long)(lev + 1));
            sched::point();
        } else if(w.prog[lev][0] == 1) {
            try {
                P::Thread t(nest_thread, (void *)(long)(lev + 1));
                sched::point();
                throw 7;
            } catch(int) {
                MC_CHECK(*g_ctx, w.done[lev + 1], "unwinding left a running thread behind");
            }
        } else if(w.prog[lev][0] == 2) {
            P::Thread t(nest_thread, (void *)(long)(lev + 1));
            t.detach();
        } else {
            P::Thread t(nest_thread, (void *)(long)(lev + 1));
            t.join();
            MC_CHECK(*g_ctx, w.done[lev + 1], "join returned early");
        }
        MC_CHECK(*g_ctx, w.done[lev + 1] || w.prog[lev][0] == 2, "a thread outlived its object");
    }
    sched::point();
    w.done[lev] = 1;
    return nullptr;
}
static void nested(Ctx &c) {
    prepare(c, true);
    w = World();
    sched::S.shared = world_hash;
    w.len = c.bound(2, 3);
    for(int i = 0; i < w.len; ++i)
        w.prog[i][0] = c.choose(4);
    c.op("nesting %d%d%d", w.prog[0][0], w.prog[1][0], w.prog[2][0]);
    auto r = sched::run(c, [&] { nest_thread((void *)0l); });
    MC_CHECK(c, r == sched::FINISHED, "the threads do not end");
    for(int i = 0; i <= w.len; ++i)
        MC_CHECK(c, w.runs[i] == 1 && w.done[i], "function %d ran %d times", i, w.runs[i]);
}
// A thread that joins itself: the system reports it, and so must the library.
static P::Thread *g_self;
static void *self_thread(void *) {
    {
        P::LockGuard<P::Mutex> g(*w.mu[0]); // until the object is complete
    }
    w.done[0] = throws([&] { g_self->join(); }) ? 1 : 2;
    return nullptr;
}
static void self_join(Ctx &c) {
    prepare(c, true);
    w = World();
    sched::S.shared = world_hash;
    auto r = sched::run(c, [&] {
        P::Mutex m;
        w.mu[0] = &m;
        m.lock();
        P::Thread t(self_thread, nullptr);
        g_self = &t;
        m.unlock();
        if(c.choose_inner(2))
            t.join();
    });
    MC_CHECK(c, r == sched::FINISHED, "a thread that joins itself waits forever");
    MC_CHECK(c, w.done[0] == 1, "joining oneself is not reported");
}

// ---- failing primitives
static void *fault_thread(void *p) {
    int me = (int)(long)p;
    ++w.runs[me];
    bool inside = false;
    try {
        if(w.prog[0][0] == 0) {
            P::LockGuard<P::Mutex> g(*w.mu[0]);
            inside = true;
            critical(0);
        } else if(w.prog[0][0] == 1) {
            w.mu[0]->lock();
            inside = true;
            critical(0);
            w.mu[0]->unlock();
        } else if(w.mu[0]->try_lock()) {
            inside = true;
            critical(0);
            w.mu[0]->unlock();
        }
    } catch(const P::PyException &) {
        w.prog[1][me] = inside ? 2 : 1;
    }
    w.done[me] = 1;
    return nullptr;
}
static void faults(Ctx &c) {
    prepare(c, false);
    watch_stderr(c);
    w = World();
    int how = c.choose(4);
    w.prog[0][0] = c.choose(3);
    c.op("main does %d, threads do %d", how, w.prog[0][0]);
    sched::S.preemptions = c.bound(1, 2);
    c.deviation_budget = c.bound(1, 2);
    int started = 0;
    bool reported = false, waited[2] = {}, left = false;
    auto r = sched::run(c, [&] {
        sched::S.faults = true;
        P::Mutex m;
        w.mu[0] = &m;
        for(int k = 0; k < 2; ++k) {
            P::Thread *t = nullptr;
            int before = sched::S.creates;
            try {
                t = new P::Thread(fault_thread, (void *)(long)k);
                ++started;
                MC_CHECK(c, sched::S.creates == before + 1, "a thread object without a thread is not reported");
            } catch(const P::PyException &) {
                reported = true;
                MC_CHECK(c, sched::S.creates == before, "a thread was started and a failure reported");
            }
            if(!t)
                continue;
            if(how == 1 || how == 3) {
                try {
                    t->join();
                    waited[k] = true;
                    MC_CHECK(c, w.done[k], "join returned early and reported nothing");
                } catch(const P::PyException &) {
                    reported = true;
                }
            }
            if(how == 2) {
                try {
                    t->detach();
                    left = true;
                } catch(const P::PyException &) {
                    reported = true;
                }
            }
            bool wait = how == 0 || how == 1;
            int f = sched::S.fault_count;
            if(wait || k == 0) {
                delete t;
                if(how != 2 && f == sched::S.fault_count && !(how == 3 && !waited[k]))
                    MC_CHECK(c, w.done[k] || wrote_stderr(c), "the destructor returned early and reported nothing");
            } else {
                delete t;
            }
        }
        sched::S.faults = false;
        // everything that still runs ends first
        for(int i = 1; i < sched::S.nf; ++i)
            sched::block(sched::WAIT_JOIN, &sched::S.f[i]);
    });
    (void)left;
    c.state(mc::Hash().add(r).add(sched::S.fault_count).add(world_hash()).add(how).h);
    if(r == sched::TERMINATED) {
        MC_CHECK(c, sched::S.fault_count > 0, "the process ended although nothing failed");
        return; // reported by ending the process
    }
    if(sched::S.fault_count == 0) {
        MC_CHECK(c, r == sched::FINISHED, "the threads block each other forever");
        MC_CHECK(c, !reported && !wrote_stderr(c) == !c.tracing && !w.prog[1][0] && !w.prog[1][1], "a failure is reported although nothing failed");
        return;
    }
    if(r == sched::DEADLOCK) // a lock that could not be released
        return;
    std::string n = sched::S.fault_name;
    bool rep = reported || w.prog[1][0] || w.prog[1][1] || wrote_stderr(c);
    if(sched::S.fault_count == 1) {
        if(n == "pthread_mutex_trylock" || n == "pthread_mutex_init") {
            // not acquired, or still usable
        } else {
            MC_CHECK(c, rep, "a failure of %s is not reported", n.c_str());
        }
        if(n == "pthread_mutex_lock")
            MC_CHECK(c, w.prog[1][0] == 1 || w.prog[1][1] == 1, "the section is run without the lock");
        if(n == "pthread_create" || n == "pthread_attr_init")
            MC_CHECK(c, started == 1 && w.runs[0] + w.runs[1] == 1, "a thread that could not be started runs");
    }
}
// ---- the guard with any lockable type
struct Lockable {
    int locked = 0, locks = 0, unlocks = 0;
    bool refuse = false;
    void lock() {
        if(refuse)
            throw 3;
        if(locked)
            g_ctx->fail("locked twice");
        ++locked;
        ++locks;
    }
    void unlock() {
        if(!locked)
            g_ctx->fail("unlocked without being locked");
        --locked;
        ++unlocks;
    }
};
static void guard(Ctx &c) {
    prepare(c, false);
    Lockable l;
    int ok = 0;
    int depth = 4;
    for(int i = 0; i < depth; ++i) {
        int k = c.choose(5);
        c.op("guard %d", k);
        switch(k) {
        case 0: {
            P::LockGuard<Lockable> g(l);
            MC_CHECK(c, l.locked == 1, "a guard does not lock");
            ++ok;
            break;
        }
        case 1:
            try {
                P::LockGuard<Lockable> g(l);
                ++ok;
                throw 1.5;
            } catch(double) {
            }
            break;
        case 2: {
            l.refuse = true;
            bool got = false;
            try {
                P::LockGuard<Lockable> g(l);
            } catch(int) {
                got = true;
            }
            l.refuse = false;
            MC_CHECK(c, got, "the failure to lock is hidden");
            break;
        }
        case 3: {
            Lockable o;
            P::LockGuard<Lockable> g(l);
            P::LockGuard<Lockable> h(o);
            MC_CHECK(c, o.locked == 1 && l.locked == 1, "guards share state");
            ++ok;
            break;
        }
        default:
            [&] {
                P::LockGuard<Lockable> g(l);
                ++ok;
                return;
            }();
        }
        MC_CHECK(c, l.locked == 0 && l.locks == ok && l.unlocks == ok, "%d guards locked %d and unlocked %d times", ok, l.locks, l.unlocks);
        c.state(mc::Hash().add(i).add(ok).h);
    }
}
// A mutex that is destroyed while locked is reported.
static void destroy(Ctx &c) {
    prepare(c, false);
    watch_stderr(c);
    int k = c.choose(3);
    auto r = sched::run(c, [&] {
        P::Mutex m;
        if(k)
            m.lock();
        if(k == 2)
            m.unlock();
    });
    MC_CHECK(c, r == sched::TERMINATED ? k == 1 : r == sched::FINISHED, "the process ended");
    if(!c.tracing)
        MC_CHECK(c, wrote_stderr(c) == (k == 1), "destroying a %s mutex is %s", k == 1 ? "locked" : "free", k == 1 ? "not reported" : "reported");
}
void mc::mc_register() {
    mc::add("two-threads", "two threads, every program of 2 (thorough: 3) of 8 ways to use two mutexes, every interleaving", two, 4);
    mc::add("three-threads", "three threads, every program of 1 (thorough: 2) of the same, every interleaving", three, 3);
    mc::add("life", "two threads, every 2 (thorough: 3) of join, detach, wait before destruction, every interleaving", life, 4);
    mc::add("nested", "threads that start threads 2 (thorough: 3) deep in 4 ways, every interleaving", nested, 2);
    mc::add("self-join", "a thread that joins itself, every interleaving", self_join, 1);
    mc::add("faults", "one (thorough: two) failing primitives anywhere, 12 programs, 1 (thorough: 2) preemptions", faults, 2);
    mc::add("guard", "all sequences of 4 of 5 uses of a guard with a recording lockable", guard, 2);
    mc::add("destroy", "destruction of free and locked mutexes", destroy, 1);
}
