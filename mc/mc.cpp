// The explorer itself.  Linked with each harness; never includes pystd.
#include "mc.hpp"
#include <filesystem>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=8:"
           "symbolize=0:max_allocation_size_mb=4096:detect_container_overflow=0:"
           "replace_intrin=1:check_initialization_order=0:detect_odr_violation=0:"
           "print_legend=0:alloc_dealloc_mismatch=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:symbolize=0"; }
#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *));
#endif

// How an exception that escaped a scenario describes itself; harnesses override.
extern "C" __attribute__((weak)) bool mc_describe_exception(char *buf, size_t n) {
    (void)buf;
    (void)n;
    return false;
}

namespace mc {

bool track_allocs = false;
static long live = 0;
long live_allocs() { return live; }
static void on_malloc(const volatile void *, size_t) {
    if(track_allocs)
        ++live;
}
static void on_free(const volatile void *p) {
    if(track_allocs && p)
        --live;
}
struct Untracked {
    bool old = track_allocs;
    Untracked() { track_allocs = false; }
    ~Untracked() { track_allocs = old; }
};

constexpr unsigned MAXC = 8192;
constexpr int EXIT_VIOLATION = 77;
constexpr int MAXW = 64;
constexpr size_t MAXUNITS = 1u << 24;

struct Slot {
    // Written by the worker, read by the parent.
    volatile uint64_t execs, transitions, pruned, skipped, maxlen;
    volatile uint64_t exec_id; // increments at each execution start
    volatile uint32_t n;
    volatile uint32_t done;
    volatile uint32_t has_msg;
    char msg[4096];
    // Unit bookkeeping survives a worker crash.
    volatile uint64_t unit_idx;
    volatile uint32_t unit_mine, unit_len;
    uint16_t choice[MAXC];
    uint16_t arity[MAXC];
};

struct Global {
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> set_full;
    std::atomic<uint8_t> claimed[MAXUNITS];
};

static Slot *slots;
static Global *glob;
static std::atomic<uint64_t> *seen;
static uint64_t seen_mask;
static bool g_thorough;

bool thorough() { return g_thorough; }

static std::vector<Scenario> &scenarios() {
    static std::vector<Scenario> s;
    return s;
}

void add(const char *name, const char *bounds, std::function<void(Ctx &)> fn, int split,
         bool thorough_only) {
    Scenario s;
    s.name = name;
    s.bounds = bounds;
    s.fn = fn;
    s.split = split;
    s.thorough_only = thorough_only;
    scenarios().push_back(s);
}

// ---- state of the current execution (one per process)
static Slot *S;
static unsigned prefix_len; // choices that are forced
static unsigned pos;
static bool unit_checked, unit_ok, exploring;
static int split_depth;
static uint16_t last_unit[64];

// Returns true when the hash was new or known only with fewer remaining steps.
static bool set_insert(uint64_t h, unsigned remaining) {
    h = mix(h);
    uint64_t key = h & ~0xffull;
    if(key == 0)
        key = 0x100;
    if(remaining > 254)
        remaining = 254;
    uint64_t want = key | (remaining + 1);
    uint64_t i = (h >> 8) & seen_mask;
    for(int probes = 0; probes < 4096; ++probes, i = (i + 1) & seen_mask) {
        uint64_t cur = seen[i].load(std::memory_order_relaxed);
        for(;;) {
            if(cur == 0) {
                if(seen[i].compare_exchange_strong(cur, want)) {
                    glob->states.fetch_add(1, std::memory_order_relaxed);
                    return true;
                }
                continue;
            }
            break;
        }
        while((cur & ~0xffull) == key) {
            if((cur & 0xff) >= remaining + 1)
                return false;
            if(seen[i].compare_exchange_strong(cur, want))
                return true;
        }
    }
    glob->set_full.store(1);
    return true;
}

[[noreturn]] static void die(const char *what) {
    if(!S->has_msg) {
        snprintf(S->msg, sizeof(S->msg), "%s", what);
        S->has_msg = 1;
    }
    _exit(EXIT_VIOLATION);
}

int Ctx::choose_inner(int n) {
    if(n <= 0) {
        die("harness error: choose(0)");
    }
    if(pos >= MAXC) {
        die("harness error: too many choices");
    }
    if(pos < prefix_len) {
        if(S->arity[pos] != n) {
            if(S->arity[pos] == 0)
                S->arity[pos] = (uint16_t)n;
            else
                die("nondeterministic execution: a replayed prefix met a different choice");
        }
        if(S->choice[pos] >= n)
            die("nondeterministic execution: replayed choice out of range");
    } else {
        S->choice[pos] = 0;
        S->arity[pos] = (uint16_t)n;
        S->n = pos + 1;
    }
    return S->choice[pos++];
}

static void check_unit() {
    unit_checked = true;
    bool same = S->unit_len == pos && S->unit_len > 0;
    if(same) {
        for(unsigned i = 0; i < pos && i < 64; ++i)
            if(last_unit[i] != S->choice[i])
                same = false;
    }
    if(!same) {
        for(unsigned i = 0; i < pos && i < 64; ++i)
            last_unit[i] = S->choice[i];
        S->unit_len = pos;
        uint64_t id = S->unit_idx;
        S->unit_idx = id + 1;
        S->unit_mine = id < MAXUNITS ? glob->claimed[id].exchange(1) == 0 : 1;
    }
    unit_ok = S->unit_mine;
    if(!unit_ok) {
        S->n = pos;
        throw Abandon{};
    }
}

int Ctx::choose(int n) {
    if(exploring && !unit_checked && (int)pos >= split_depth)
        check_unit();
    return choose_inner(n);
}

int Ctx::deviate(int n) {
    if(deviation_budget <= 0 || n <= 1)
        return 0;
    int r = choose_inner(n);
    if(r != 0)
        --deviation_budget;
    return r;
}

void Ctx::ops(uint64_t n) { S->transitions = S->transitions + n; }

void Ctx::op(const char *fmt, ...) {
    S->transitions = S->transitions + 1;
    if(tracing) {
        Untracked u;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        fprintf(stdout, "%s\n", buf);
        fflush(stdout);
    }
}

void Ctx::note(const char *fmt, ...) {
    if(tracing) {
        Untracked u;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof(buf), fmt, ap);
        va_end(ap);
        fprintf(stdout, "  # %s\n", buf);
        fflush(stdout);
    }
}

void Ctx::state(uint64_t h) {
    if(exploring && unit_checked)
        set_insert(h, 0);
    else if(exploring)
        set_insert(h, 0);
}

bool Ctx::fresh() const { return !exploring || pos >= prefix_len; }

void Ctx::visit(uint64_t h, unsigned remaining) {
    // States on the replayed prefix are known, and were not pruned when they were new.
    if(!exploring || pos < prefix_len)
        return;
    if(!unit_checked) {
        set_insert(h, 0);
        return;
    }
    if(!set_insert(h, remaining)) {
        S->pruned = S->pruned + 1;
        throw Abandon{};
    }
}

void Ctx::fail(const char *fmt, ...) {
    track_allocs = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
    va_end(ap);
    S->has_msg = 1;
    if(tracing) {
        fprintf(stdout, "VIOLATED: %s\n", S->msg);
        fflush(stdout);
    }
    _exit(EXIT_VIOLATION);
}

// Runs one execution. Returns false when abandoned.
static bool run_once(Scenario &sc, Ctx &ctx) {
    pos = 0;
    unit_checked = false;
    unit_ok = true;
    ctx.deviation_budget = 0;
    ctx.no_leak_check = false;
    S->exec_id = S->exec_id + 1;
    bool completed = true;
    live = 0;
    track_allocs = true;
    try {
        sc.fn(ctx);
    } catch(Abandon &) {
        completed = false;
    } catch(...) {
        track_allocs = false;
        char buf[512];
        buf[0] = 0;
        const std::type_info *ti = abi::__cxa_current_exception_type();
        char what[400];
        what[0] = 0;
        try {
            if(!mc_describe_exception(what, sizeof(what)))
                what[0] = 0;
        } catch(...) {
        }
        snprintf(buf,
                 sizeof(buf),
                 "an unexpected exception (%s) escaped: %s",
                 ti ? ti->name() : "?",
                 what);
        ctx.fail("%s", buf);
    }
    track_allocs = false;
    return completed;
}

static bool advance() {
    unsigned n = S->n;
    while(n > 0 && S->choice[n - 1] + 1 >= S->arity[n - 1])
        --n;
    if(n == 0)
        return false;
    S->choice[n - 1]++;
    S->n = n;
    prefix_len = n;
    return true;
}

static void worker(Scenario &sc, int w, bool resume) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    S = &slots[w];
    exploring = true;
    split_depth = sc.split;
    Ctx ctx;
    ctx.thorough = g_thorough;
    if(!resume) {
        S->n = 0;
        prefix_len = 0;
    } else {
        for(unsigned i = 0; i < S->unit_len && i < 64; ++i)
            last_unit[i] = S->choice[i];
        if(!advance()) {
            S->done = 1;
            _exit(0);
        }
    }
    for(;;) {
        S->n = prefix_len;
        bool completed = run_once(sc, ctx);
        if(completed && !unit_checked) {
            // Shorter than the split depth: everybody runs it, one worker counts it.
            try {
                check_unit();
            } catch(Abandon &) {
            }
            if(!unit_ok)
                completed = false;
        }
        if(completed || (unit_checked && unit_ok)) {
            S->execs = S->execs + 1;
            if(S->n > S->maxlen)
                S->maxlen = S->n;
        } else {
            S->skipped = S->skipped + 1;
        }
#ifdef MC_ASAN
        if(completed && live != 0 && !ctx.no_leak_check) {
            // Lazily created globals are allocated once: only a leak that repeats is a leak.
            prefix_len = S->n;
            bool e = exploring;
            uint64_t t = S->transitions;
            exploring = false;
            run_once(sc, ctx);
            exploring = e;
            S->transitions = t;
            if(live != 0)
                ctx.fail("memory leak: %ld allocation(s) not released when every object of the "
                         "execution had been destroyed",
                         live);
        }
#endif
        if(!advance())
            break;
    }
    S->done = 1;
    _exit(0);
}

struct Failure {
    std::string scenario, kind, msg, log;
    std::vector<unsigned> choices;
    bool confirmed = false;
};

static std::string slurp(const std::string &p) {
    std::string r;
    FILE *f = fopen(p.c_str(), "rb");
    if(!f)
        return r;
    char buf[65536];
    size_t n;
    while((n = fread(buf, 1, sizeof(buf), f)) > 0)
        r.append(buf, n);
    fclose(f);
    return r;
}

static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double cpu_of(pid_t p) {
    clockid_t c;
    if(clock_getcpuclockid(p, &c) != 0)
        return -1;
    timespec ts;
    if(clock_gettime(c, &ts) != 0)
        return -1;
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Replays one choice vector in a child of its own with tracing on. Returns exit description.
static std::string
replay(Scenario &sc, const std::vector<unsigned> &ch, const std::string &tmp, std::string &log,
       std::string &msg, double limit) {
    Slot *rs = &slots[MAXW - 1];
    memset((void *)rs, 0, sizeof(Slot));
    rs->n = ch.size();
    for(size_t i = 0; i < ch.size(); ++i) {
        rs->choice[i] = ch[i];
        rs->arity[i] = 0;
    }
    std::string out = tmp + "/replay.log";
    pid_t p = fork();
    if(p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        S = rs;
        exploring = false;
        prefix_len = ch.size();
        Ctx ctx;
        ctx.thorough = g_thorough;
        ctx.tracing = true;
        bool completed = run_once(sc, ctx);
#ifdef MC_ASAN
        if(completed && live != 0 && !ctx.no_leak_check) {
            ctx.tracing = false;
            prefix_len = S->n;
            run_once(sc, ctx);
            if(live != 0)
                ctx.fail("memory leak: %ld allocation(s) not released when every object of the "
                         "execution had been destroyed",
                         live);
        }
#endif
        (void)completed;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    for(;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p)
            break;
        double c = cpu_of(p);
        if(c > limit || now() - t0 > limit * 10) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            log = slurp(out);
            return "hang";
        }
        usleep(1000);
    }
    log = slurp(out);
    if(rs->has_msg)
        msg = rs->msg;
    if(WIFSIGNALED(st))
        return "signal " + std::to_string(WTERMSIG(st));
    if(WEXITSTATUS(st) == 0)
        return "ok";
    if(WEXITSTATUS(st) == EXIT_VIOLATION)
        return "violation";
    return "exit " + std::to_string(WEXITSTATUS(st));
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if(c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

static std::string tail(const std::string &s, size_t n) {
    return s.size() <= n ? s : s.substr(s.size() - n);
}

struct Result {
    uint64_t execs = 0, transitions = 0, states = 0, pruned = 0, maxlen = 0;
    bool exhaustive = true;
    std::string cap;
    double wall = 0;
    std::vector<Failure> failures;
    std::vector<std::string> samples;
};

static int hung_scenarios = 0;

static Result explore(Scenario &sc, int W, double deadline, unsigned maxfail,
                      const std::string &tmp) {
    Result res;
    double t0 = now();
    memset((void *)slots, 0, sizeof(Slot) * MAXW);
    madvise(glob, sizeof(Global), MADV_REMOVE);
    munmap((void *)glob, sizeof(Global));
    glob = (Global *)mmap(
        0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    munmap((void *)seen, (seen_mask + 1) * 8);
    seen = (std::atomic<uint64_t> *)mmap(0,
                                         (seen_mask + 1) * 8,
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                         -1,
                                         0);
    std::vector<pid_t> pid(W, 0);
    std::vector<uint64_t> last_exec(W, 0);
    std::vector<double> cpu_at(W, 0), wall_at(W, 0);
    std::set<std::vector<unsigned>> sample_vecs;
    std::vector<std::vector<unsigned>> samples;
    auto logname = [&](int w) { return tmp + "/w" + std::to_string(w) + ".log"; };
    auto spawn = [&](int w, bool resume) {
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if(p == 0) {
            int fd = open(logname(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 1);
            dup2(fd, 2);
            worker(sc, w, resume);
            _exit(0);
        }
        if(p < 0) {
            perror("fork");
            exit(3);
        }
        pid[w] = p;
        last_exec[w] = 0;
        cpu_at[w] = 0;
        wall_at[w] = now();
    };
    std::set<std::vector<unsigned>> dedupe;
    int active = 0;
    auto vec_of = [&](int w) {
        std::vector<unsigned> v;
        for(unsigned i = 0; i < slots[w].n; ++i)
            v.push_back(slots[w].choice[i]);
        return v;
    };
    auto on_death = [&](int w, int st, bool hang) {
        // The worker died in the middle of an execution.
        Failure f;
        f.scenario = sc.name;
        f.choices = vec_of(w);
        if(dedupe.insert(f.choices).second) {
            std::string how = hang                 ? "hang"
                              : WIFSIGNALED(st)    ? "signal " + std::to_string(WTERMSIG(st))
                              : WEXITSTATUS(st) == EXIT_VIOLATION ? "violation"
                                                                  : "exit " + std::to_string(
                                                                                  WEXITSTATUS(st));
            f.kind = how;
            f.msg = slots[w].has_msg ? std::string(slots[w].msg) : "";
            std::string wlog = tail(slurp(logname(w)), 6000);
            std::string rlog, rmsg;
            std::string r = replay(sc, f.choices, tmp, rlog, rmsg, hang ? 25 : 30);
            f.confirmed = r != "ok" && !(hang && r == "hang" && false);
            if(!f.confirmed && !hang) {
                // e.g. depends on memory left behind by earlier executions: still a failure
                // that the real code produced; keep the original evidence.
                f.log = "(the replay in a fresh process ended with '" + r + "')\n" + wlog;
            } else {
                f.log = rlog;
                if(f.msg.empty())
                    f.msg = rmsg;
            }
            if(hang && r == "ok") {
                // slow, not hung: ignore
            } else {
                res.failures.push_back(f);
            }
        }
        slots[w].has_msg = 0;
    };
    for(int w = 0; w < W; ++w) {
        spawn(w, false);
        ++active;
    }
    bool stop = false;
    double last_sample = now();
    useconds_t nap = 200;
    while(active > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if(p > 0) {
            for(int w = 0; w < W; ++w) {
                if(pid[w] != p)
                    continue;
                pid[w] = 0;
                --active;
                if(!(slots[w].done && WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if(!stop) {
                        on_death(w, st, false);
                        if(res.failures.size() >= maxfail) {
                            stop = true;
                            res.exhaustive = false;
                            res.cap = "stopped after " + std::to_string(maxfail) + " failures";
                        } else {
                            spawn(w, true);
                            ++active;
                        }
                    }
                }
            }
            if(stop) {
                for(int w = 0; w < W; ++w)
                    if(pid[w])
                        kill(pid[w], SIGKILL);
            }
            continue;
        }
        if(!stop && now() > deadline) {
            stop = true;
            res.exhaustive = false;
            res.cap = "time limit reached";
            for(int w = 0; w < W; ++w)
                if(pid[w])
                    kill(pid[w], SIGKILL);
        }
        // hang detection
        for(int w = 0; w < W && !stop; ++w) {
            if(!pid[w])
                continue;
            if(slots[w].exec_id != last_exec[w]) {
                last_exec[w] = slots[w].exec_id;
                cpu_at[w] = -1;
                wall_at[w] = now();
            } else if(now() - wall_at[w] > 3) {
                double c = cpu_of(pid[w]);
                if(cpu_at[w] < 0)
                    cpu_at[w] = c;
                if(c - cpu_at[w] > 10 || now() - wall_at[w] > 200) {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    pid[w] = 0;
                    --active;
                    size_t before = res.failures.size();
                    on_death(w, st, true);
                    if(res.failures.size() > before) {
                        // one confirmed hang ends the scenario: every further one costs as much
                        ++hung_scenarios;
                        stop = true;
                        res.exhaustive = false;
                        res.cap = "stopped after an execution that does not end";
                        for(int k = 0; k < W; ++k)
                            if(pid[k])
                                kill(pid[k], SIGKILL);
                    } else {
                        spawn(w, true);
                        ++active;
                    }
                }
            }
        }
        if(samples.size() < 3 && now() - last_sample > 0.01) {
            last_sample = now();
            int w = samples.size() % W;
            std::vector<unsigned> v = vec_of(w);
            if(slots[w].unit_mine && !v.empty() && sample_vecs.insert(v).second)
                samples.push_back(v);
        }
        usleep(nap);
        if(nap < 2000)
            nap += 50;
    }
    for(int w = 0; w < W; ++w) {
        res.execs += slots[w].execs;
        res.transitions += slots[w].transitions;
        res.pruned += slots[w].pruned;
        if(slots[w].maxlen > res.maxlen)
            res.maxlen = slots[w].maxlen;
    }
    res.states = glob->states;
    if(glob->set_full)
        res.cap += "state table full: distinct states under-counted, pruning incomplete";
    if(samples.empty()) {
        std::vector<unsigned> v;
        samples.push_back(v); // the all-zero execution
    }
    for(auto &v : samples) {
        std::string l, m;
        // A vector sampled in flight may be a prefix: remaining choices default to 0.
        if(replay(sc, v, tmp, l, m, 3) == "hang")
            continue;
        std::string s = "choices=[";
        for(size_t i = 0; i < v.size() && i < 60; ++i)
            s += (i ? "," : "") + std::to_string(v[i]);
        s += "] ";
        std::string one;
        for(char c : l)
            one += c == '\n' ? ';' : c;
        res.samples.push_back(s + one.substr(0, 500));
    }
    res.wall = now() - t0;
    return res;
}

static std::string g_tmp;

// A scratch directory of this process, removed together with the run's temporary directory.
const std::string &workdir() {
    static std::string dir;
    static pid_t owner = 0;
    if(owner != getpid()) {
        bool t = track_allocs;
        track_allocs = false;
        owner = getpid();
        dir = g_tmp + "/d" + std::to_string(owner);
        mkdir(dir.c_str(), 0700);
        track_allocs = t;
    }
    return dir;
}

int run_main(int argc, char **argv) {
    std::string out, replay_file, only, tmp;
    int W = 8;
    double budget = 600;
    unsigned maxfail = 6;
    bool list = false;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if(a == "--out")
            out = val();
        else if(a == "--replay")
            replay_file = val();
        else if(a == "--only")
            only = val();
        else if(a == "--workers")
            W = atoi(argv[++i]);
        else if(a == "--budget")
            budget = atof(argv[++i]);
        else if(a == "--maxfail")
            maxfail = atoi(argv[++i]);
        else if(a == "--thorough")
            g_thorough = true;
        else if(a == "--list")
            list = true;
        else if(a == "--tmp")
            tmp = val();
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    // Fixed addresses, where permitted: the same choices give the same execution.
    if(!getenv("MC_NOREEXEC")) {
        int pers = personality(0xffffffff);
        if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) &&
           personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOREEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    // A replayed or explored execution may not fill the disk or the memory with a runaway loop.
    rlimit rl{1ull << 32, 1ull << 32};
    setrlimit(RLIMIT_FSIZE, &rl);
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if(W > MAXW - 1)
        W = MAXW - 1;
    extern void mc_register();
    mc_register();
    if(list) {
        for(auto &s : scenarios())
            printf("%s\t%s\n", s.name.c_str(), s.bounds.c_str());
        return 0;
    }
    bool own_tmp = tmp.empty();
    if(own_tmp) {
        char t[] = "/tmp/mcXXXXXX";
        tmp = mkdtemp(t);
    }
    g_tmp = tmp;
    slots = (Slot *)mmap(
        0, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    glob = (Global *)mmap(
        0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    seen_mask = (1ull << (g_thorough ? 28 : 26)) - 1;
    seen = (std::atomic<uint64_t> *)mmap(0,
                                         (seen_mask + 1) * 8,
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                         -1,
                                         0);
#ifdef MC_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    signal(SIGPIPE, SIG_IGN);
    if(!replay_file.empty()) {
        // First line: scenario name; second line: choices.
        std::string txt = slurp(replay_file);
        size_t e = txt.find('\n');
        std::string name = txt.substr(0, e);
        std::vector<unsigned> ch;
        const char *p = txt.c_str() + e + 1;
        while(*p && *p != '\n') {
            char *q;
            unsigned long v = strtoul(p, &q, 10);
            if(q == p)
                break;
            ch.push_back(v);
            p = q;
        }
        for(auto &s : scenarios())
            if(s.name == name) {
                std::string log, msg;
                std::string r = replay(s, ch, tmp, log, msg, 60);
                printf("%s\nresult: %s\n", log.c_str(), r.c_str());
                return r == "ok" ? 0 : 1;
            }
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 3;
    }
    double deadline = now() + budget;
    std::string js = "{\"scenarios\":[";
    bool first = true;
    int rc = 0;
    size_t failed = 0;
    for(auto &s : scenarios()) {
        if(!only.empty() && s.name.find(only) == std::string::npos)
            continue;
        if(s.thorough_only && !g_thorough)
            continue;
        Result r = explore(s, W, deadline, maxfail, tmp);
        fprintf(stderr,
                "%-34s execs=%llu transitions=%llu states=%llu pruned=%llu maxlen=%llu %.1fs%s%s\n",
                s.name.c_str(),
                (unsigned long long)r.execs,
                (unsigned long long)r.transitions,
                (unsigned long long)r.states,
                (unsigned long long)r.pruned,
                (unsigned long long)r.maxlen,
                r.wall,
                r.cap.empty() ? "" : " CAP: ",
                r.cap.c_str());
        if(!first)
            js += ",\n";
        first = false;
        char buf[512];
        snprintf(buf,
                 sizeof(buf),
                 "\"execs\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,"
                 "\"max_choices\":%llu,\"wall\":%.3f,\"exhaustive\":%s",
                 (unsigned long long)r.execs,
                 (unsigned long long)r.transitions,
                 (unsigned long long)r.states,
                 (unsigned long long)r.pruned,
                 (unsigned long long)r.maxlen,
                 r.wall,
                 r.exhaustive ? "true" : "false");
        js += "{\"name\":" + jstr(s.name) + ",\"bounds\":" + jstr(s.bounds) + "," + buf +
              ",\"cap\":" + jstr(r.cap) + ",\"samples\":[";
        for(size_t i = 0; i < r.samples.size(); ++i)
            js += (i ? "," : "") + jstr(r.samples[i]);
        js += "],\"failures\":[";
        for(size_t i = 0; i < r.failures.size(); ++i) {
            auto &f = r.failures[i];
            rc = 1;
            fprintf(stderr, "  FAILURE %s: %s\n", f.kind.c_str(), f.msg.c_str());
            if(i)
                js += ",";
            js += "{\"kind\":" + jstr(f.kind) + ",\"msg\":" + jstr(f.msg) +
                  ",\"log\":" + jstr(tail(f.log, 12000)) + ",\"choices\":[";
            for(size_t k = 0; k < f.choices.size(); ++k)
                js += (k ? "," : "") + std::to_string(f.choices[k]);
            js += "]}";
        }
        js += "]}";
        failed += r.failures.size();
        if(now() > deadline || hung_scenarios >= 3 || failed >= 60)
            break;
    }
    js += "]}\n";
    if(!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if(!f) {
            perror("out");
            return 3;
        }
        fputs(js.c_str(), f);
        fclose(f);
    }
    if(own_tmp)
        std::filesystem::remove_all(tmp);
    return rc;
}

} // namespace mc

int main(int argc, char **argv) { return mc::run_main(argc, argv); }
