// C30: two threads operate on distinct objects (or only read a shared one); every interleaving at
// the accesses that can conflict.  The library and conc_ops.cpp are compiled with
// -fsanitize=thread, but this file is the runtime: each access is a call into it.
#define MC_NO_DESCRIBE
#include <clocale>
#include <cstdarg>
#include <cstddef>
#include <fstream>
#include <malloc.h>
#include <sys/stat.h>
#include "mc.hpp"
extern "C" bool mc_describe_exception(char *, size_t) { return false; }
#include "sched.hpp"
#include "conc_ops.hpp"
using mc::Ctx;
namespace mc {
void mc_register();
}
extern "C" char _edata, _end;

// ---- who executes: 0 and 1 are the two threads, 2 is the preparation, -1 the machinery
static int g_rec = -1;
static int who() { return sched::on() ? sched::self() - 1 : g_rec; }

// ---- memory
constexpr size_t ARENA = 16 << 20;
static char *arena[3];
static size_t used[3];
static long live[3];
struct Head {
    size_t size;
    uint32_t magic, freed;
};
static void *take(int w, size_t n, size_t align = 16) {
    if(align < 16)
        align = 16;
    size_t o = used[w] + sizeof(Head);
    o = (o + align - 1) / align * align;
    if(o + n + 32 > ARENA)
        sched::S.c->fail("harness error: the arena is full");
    used[w] = (o + n + 31) & ~(size_t)15;
    Head *h = (Head *)(arena[w] + o) - 1;
    h->size = n;
    h->magic = 0xa110c;
    h->freed = 0;
    memset(arena[w] + o, 0xcd, n);
    ++live[w];
    return arena[w] + o;
}
static int owner(const void *p) {
    for(int i = 0; i < 3; ++i)
        if(arena[i] && (char *)p >= arena[i] && (char *)p < arena[i] + ARENA)
            return i;
    return -1;
}

// ---- shadow: which 8 byte granules each thread touched; bit 2w read, bit 2w+1 written
constexpr size_t GMAX = 1 << 16; // granules of globals
static std::vector<uint8_t> gshadow, sshadow, ghot, shot;
static bool recording, opaque_hot, cwd_hot, any_hot;
static int points, point_limit = 400;
static bool pending[2];
static char *g_base[2];
static size_t g_len[2];

static size_t global_granule(const char *p) { // or -1
    for(int i = 0; i < 2; ++i)
        if(p >= g_base[i] && p < g_base[i] + g_len[i])
            return (i ? g_len[0] / 8 + 1 : 0) + (p - g_base[i]) / 8;
    return (size_t)-1;
}
static void schedule() {
    if(++points > point_limit)
        return;
    sched::point();
}
static void flush(int w) {
    if(w >= 0 && w < 2 && pending[w] && sched::on()) {
        pending[w] = false;
        schedule();
    }
}
static void access(const void *p, size_t n, bool write) {
    int w = who();
    if(w < 0 || w > 1 || n == 0)
        return;
    flush(w);
    const char *a = (const char *)p;
    size_t g = global_granule(a);
    bool hot = false;
    if(g != (size_t)-1) {
        size_t e = global_granule(a + n - 1);
        if(e == (size_t)-1 || e < g)
            e = g;
        for(; g <= e; ++g) {
            if(recording)
                gshadow[g] |= (write ? 2 : 1) << (2 * w);
            hot |= ghot[g];
        }
    } else {
        int o = owner(p);
        if(o == 2) {
            for(size_t k = (a - arena[2]) / 8; k <= (a + n - 1 - arena[2]) / 8; ++k) {
                if(k >= sshadow.size())
                    break;
                if(recording)
                    sshadow[k] |= (write ? 2 : 1) << (2 * w);
                hot |= shot[k];
            }
        } else if(o >= 0 && o != w) {
            hot = true;
        }
    }
    if(hot && sched::on()) {
        schedule();
        pending[w] = true;
    }
}
// A call into libc with hidden state.
static void always() {
    if(recording)
        any_hot = true;
    else if(sched::on())
        schedule();
}
static void path_call() {
    flush(who());
    if(cwd_hot && sched::on())
        schedule();
}

// ---- allocation
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) {
    int w = who();
    return w < 0 ? __real_malloc(n) : take(w, n);
}
void *__wrap_aligned_alloc(size_t a, size_t n) {
    int w = who();
    return w < 0 ? __real_aligned_alloc(a, n) : take(w, n, a);
}
void *__wrap_calloc(size_t a, size_t b) {
    int w = who();
    if(w < 0)
        return __real_calloc(a, b);
    void *p = take(w, a * b);
    memset(p, 0, a * b);
    return p;
}
void __wrap_free(void *p) {
    int o = owner(p);
    if(o < 0) {
        __real_free(p);
        return;
    }
    Head *h = (Head *)p - 1;
    if(h->magic != 0xa110c)
        sched::S.c->fail("memory is freed at an address that was never allocated");
    if(h->freed)
        sched::S.c->fail("memory is freed twice");
    if(h->size)
        access(p, h->size, true);
    if(h->freed)
        sched::S.c->fail("memory is freed twice");
    h->freed = 1;
    memset(p, 0xdd, h->size);
    --live[o];
}
void *__wrap_realloc(void *p, size_t n) {
    int w = who();
    if(w < 0 || (p && owner(p) < 0))
        return __real_realloc(p, n);
    void *q = take(w, n);
    if(p) {
        Head *h = (Head *)p - 1;
        access(p, h->size, false);
        memcpy(q, p, h->size < n ? h->size : n);
        __wrap_free(p);
    }
    return q;
}
}
void *operator new(size_t n) { return __wrap_malloc(n); }
void *operator new[](size_t n) { return __wrap_malloc(n); }
void *operator new(size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t)a, n); }
void *operator new[](size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t)a, n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

// ---- the instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {
    int w = who();
    if(w < 0 || w > 1)
        return;
    flush(w);
    if(opaque_hot && sched::on())
        schedule();
}
void __tsan_func_exit() {
    int w = who();
    if(w < 0 || w > 1)
        return;
    flush(w);
    if(opaque_hot && sched::on())
        schedule();
}
#define RW(N)                                                                                      \
    void __tsan_read##N(void *p) { access(p, N, false); }                                          \
    void __tsan_write##N(void *p) { access(p, N, true); }                                          \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); }                                \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); }                                \
    void __tsan_read_write##N(void *p) { access(p, N, false); access(p, N, true); }                \
    void __tsan_unaligned_read_write##N(void *p) { access(p, N, false); access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, size_t n) {
    access(d, n, true);
    return memset(d, v, n);
}
// A thread that spins gives way.
static int spins;
static void atomic_access(volatile void *p, size_t n, bool write) {
    access((void *)p, n, write);
    if(sched::on() && ++spins > 60) {
        spins = 0;
        int keep = sched::S.preemptions;
        sched::Fiber &f = sched::S.f[sched::self()];
        (void)keep;
        f.st = sched::WAIT_YIELD;
        sched::to_host();
        f.st = sched::READY;
    }
}
#define ATOMIC(B, T)                                                                               \
    T __tsan_atomic##B##_load(const volatile T *p, int) {                                          \
        atomic_access((volatile void *)p, sizeof(T), false);                                       \
        return *p;                                                                                 \
    }                                                                                              \
    void __tsan_atomic##B##_store(volatile T *p, T v, int) {                                       \
        atomic_access(p, sizeof(T), true);                                                         \
        *p = v;                                                                                    \
    }                                                                                              \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int) {                                       \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = v;                                                                                    \
        return o;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) {                                      \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = o + v;                                                                                \
        return o;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) {                                      \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = o - v;                                                                                \
        return o;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) {                                      \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = o & v;                                                                                \
        return o;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) {                                       \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = o | v;                                                                                \
        return o;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) {                                      \
        atomic_access(p, sizeof(T), true);                                                         \
        T o = *p;                                                                                  \
        *p = o ^ v;                                                                                \
        return o;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {           \
        atomic_access(p, sizeof(T), true);                                                         \
        if(*p == *e) {                                                                             \
            *p = v;                                                                                \
            return 1;                                                                              \
        }                                                                                          \
        *e = *p;                                                                                   \
        return 0;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) {         \
        return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b);                          \
    }                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int a, int b) {             \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, a, b);                                \
        return e;                                                                                  \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- libc functions that touch memory or hidden state behind the instrumentation's back
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    if(n)
        access(b, 1, true);
    int r = __real_vsnprintf(b, n, f, ap);
    if(r > 0 && n)
        access(b, (size_t)r < n ? r + 1 : n, true);
    return r;
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
int __wrap_sprintf(char *b, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = __wrap_vsnprintf(b, (size_t)1 << 20, f, ap);
    va_end(ap);
    return r;
}
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) {
    access(s, 1, false);
    return __real_strlen(s);
}
int __real_strcmp(const char *, const char *);
int __wrap_strcmp(const char *a, const char *b) {
    access(a, 1, false);
    access(b, 1, false);
    return __real_strcmp(a, b);
}
int __real_strncmp(const char *, const char *, size_t);
int __wrap_strncmp(const char *a, const char *b, size_t n) {
    access(a, n ? 1 : 0, false);
    access(b, n ? 1 : 0, false);
    return __real_strncmp(a, b, n);
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    access(a, n, false);
    access(b, n, false);
    return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
void *__real_memchr(const void *, int, size_t);
void *__wrap_memchr(const void *a, int v, size_t n) {
    access(a, n, false);
    return __real_memchr(a, v, n);
}
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return __real_memcpy(d, s, n);
}
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return __real_memmove(d, s, n);
}
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int v, size_t n) {
    access(d, n, true);
    return __real_memset(d, v, n);
}
char *__real_strcpy(char *, const char *);
char *__wrap_strcpy(char *d, const char *s) {
    size_t n = __real_strlen(s) + 1;
    access(s, n, false);
    access(d, n, true);
    return __real_strcpy(d, s);
}
char *__real_strncpy(char *, const char *, size_t);
char *__wrap_strncpy(char *d, const char *s, size_t n) {
    access(d, n, true);
    return __real_strncpy(d, s, n);
}
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
    access(b, s * n, true);
    size_t r = __real_fread(b, s, n, f);
    access(b, s * n, true);
    return r;
}
char *__real_strtok(char *, const char *);
char *__wrap_strtok(char *s, const char *d) {
    always();
    char *r = __real_strtok(s, d);
    always();
    return r;
}
int __real_rand();
int __wrap_rand() {
    always();
    return __real_rand();
}
void __real_srand(unsigned);
void __wrap_srand(unsigned s) {
    always();
    __real_srand(s);
    always();
}
char *__real_setlocale(int, const char *);
char *__wrap_setlocale(int c, const char *s) {
    always();
    char *r = __real_setlocale(c, s);
    always();
    return r;
}
mode_t __real_umask(mode_t);
mode_t __wrap_umask(mode_t m) {
    always();
    mode_t r = __real_umask(m);
    always();
    return r;
}
int __real_chdir(const char *);
int __wrap_chdir(const char *p) {
    if(recording)
        cwd_hot = true;
    always();
    int r = __real_chdir(p);
    always();
    return r;
}
int __real_fchdir(int);
int __wrap_fchdir(int fd) {
    if(recording)
        cwd_hot = true;
    always();
    int r = __real_fchdir(fd);
    always();
    return r;
}
#define PATHCALL(R, NAME, DECL, ARGS)                                                              \
    R __real_##NAME DECL;                                                                          \
    R __wrap_##NAME DECL {                                                                         \
        path_call();                                                                               \
        return __real_##NAME ARGS;                                                                 \
    }
PATHCALL(void *, opendir, (const char *p), (p))
PATHCALL(void *, readdir64, (void *p), (p))
PATHCALL(void *, readdir, (void *p), (p))
PATHCALL(int, stat64, (const char *p, void *s), (p, s))
PATHCALL(int, lstat64, (const char *p, void *s), (p, s))
PATHCALL(void *, fopen64, (const char *p, const char *m), (p, m))
PATHCALL(int, rename, (const char *a, const char *b), (a, b))
PATHCALL(char *, getcwd, (char *a, size_t b), (a, b))
PATHCALL(char *, realpath, (const char *a, char *b), (a, b))

// per thread values and one time initialisation
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
    if(!sched::on())
        return __real_pthread_once(o, f);
    schedule();
    while(*(volatile int *)o == 1)
        sched::block(sched::WAIT_ONCE, o);
    if(*(volatile int *)o == 0) {
        *(volatile int *)o = 1;
        f();
        *(volatile int *)o = 2;
        schedule();
    }
    return 0;
}
static std::vector<std::pair<unsigned, const void *>> specific[3];
int __real_pthread_setspecific(unsigned, const void *);
void *__real_pthread_getspecific(unsigned);
int __wrap_pthread_setspecific(unsigned k, const void *v) {
    int w = who();
    if(w < 0)
        return __real_pthread_setspecific(k, v);
    for(auto &x : specific[w])
        if(x.first == k) {
            x.second = v;
            return 0;
        }
    int keep = g_rec;
    g_rec = -1;
    specific[w].reserve(64);
    specific[w].push_back({k, v});
    g_rec = keep;
    return 0;
}
void *__wrap_pthread_getspecific(unsigned k) {
    int w = who();
    if(w < 0)
        return __real_pthread_getspecific(k);
    for(auto &x : specific[w])
        if(x.first == k)
            return (void *)x.second;
    return nullptr;
}
extern void __real_abort() __attribute__((noreturn));
__attribute__((noreturn)) void __wrap_abort() {
    if(who() >= 0)
        sched::S.c->fail("the library aborts");
    __real_abort();
}
}

// ---- running
static std::vector<char> g_image[2], g_after[2];
static std::string g_dir, g_cwd;
static void setup() {
    if(!g_dir.empty())
        return;
    g_base[0] = &conc_data_begin;
    g_len[0] = &_edata - &conc_data_begin;
    g_base[1] = &conc_bss_begin;
    g_len[1] = &_end - &conc_bss_begin;
    for(int i = 0; i < 2; ++i)
        if(g_len[i] > GMAX * 8)
            g_len[i] = GMAX * 8;
    for(int i = 0; i < 2; ++i)
        g_image[i].assign(g_base[i], g_base[i] + g_len[i]);
    size_t n = g_len[0] / 8 + g_len[1] / 8 + 4;
    gshadow.assign(n, 0);
    ghot.assign(n, 0);
    sshadow.assign(1 << 16, 0);
    shot.assign(1 << 16, 0);
    for(auto &a : arena)
        a = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string d = mc::workdir() + "/conc";
    mkdir(d.c_str(), 0755);
    mkdir((d + "/sub").c_str(), 0755);
    mkdir((d + "/ren").c_str(), 0755);
    auto put = [&](const char *f, const char *t) { std::ofstream(d + "/" + f) << t; };
    put("a.txt", "first line\nsecond line\nlast");
    put("b.txt", "text of b \xc3\xa4\n");
    put("sub/c.txt", "other text\n");
    put("ren/own-1.tmp", "1");
    put("ren/own-2.tmp", "2");
    char b[4096];
    g_cwd = getcwd(b, sizeof b);
    g_dir = d;
}
static void restore() {
    for(int i = 0; i < 2; ++i)
        for(size_t k = 0; k < g_len[i]; ++k)
            if(g_base[i][k] != g_image[i][k])
                g_base[i][k] = g_image[i][k];
    for(int i = 0; i < 3; ++i)
        used[i] = live[i] = 0;
    for(auto &s : specific)
        s.clear();
    pending[0] = pending[1] = false;
    points = 0;
    spins = 0;
    if(cwd_hot && __real_chdir(g_cwd.c_str()) != 0)
        sched::S.c->fail("harness error: chdir");
}
struct Job {
    std::function<void(ConcEnv &)> prep, th[2];
};
struct Result {
    uint64_t h[2];
    long live;
    bool operator==(const Result &o) const { return h[0] == o.h[0] && h[1] == o.h[1] && live == o.live; }
};
static ConcEnv g_env[3];
static void fresh_env() {
    for(int i = 0; i < 3; ++i)
        g_env[i] = {g_dir.c_str(), i + 1, 99};
}
static void one(const Job &j, int w, Ctx &c) {
    g_rec = w;
    try {
        j.th[w](g_env[w]);
    } catch(...) {
        g_rec = -1;
        c.fail("an operation throws when it is run alone");
    }
    g_rec = -1;
}
static void prepare(const Job &j) {
    fresh_env();
    if(j.prep) {
        g_rec = 2;
        j.prep(g_env[2]);
        g_rec = -1;
    }
}
// Runs the operations one after the other and notes what they touch.
static Result sequential(Ctx &c, const Job &j, int first) {
    restore();
    prepare(j);
    recording = true;
    for(int i = 0; i < 2; ++i)
        g_after[i].assign(g_base[i], g_base[i] + g_len[i]);
    for(int k = 0; k < 2; ++k) {
        int w = k ? 1 - first : first;
        one(j, w, c);
        for(int i = 0; i < 2; ++i)
            for(size_t b = 0; b < g_len[i]; ++b)
                if(g_after[i][b] != g_base[i][b]) {
                    g_after[i][b] = g_base[i][b];
                    size_t g = global_granule(g_base[i] + b);
                    if(!(gshadow[g] & (2 << (2 * w)))) { // not seen by the instrumentation
                        gshadow[g] |= 2 << (2 * w);
                        opaque_hot = true;
                    }
                }
    }
    recording = false;
    return {{g_env[0].h, g_env[1].h}, live[0] + live[1] + live[2]};
}
static Result expect[2];
static int cached_key = -1;
static size_t hot_count;
static void explore(Ctx &c, const Job &j, int key, const char *what, bool everywhere = false) {
    point_limit = everywhere ? 20000 : 400;
    sched::S.c = &c;
    sched::S.prune = false;
    sched::S.faults = false;
    sched::S.shared = nullptr;
    c.no_leak_check = true;
    if(cached_key != key) {
        std::fill(gshadow.begin(), gshadow.end(), 0);
        std::fill(sshadow.begin(), sshadow.end(), 0);
        std::fill(ghot.begin(), ghot.end(), 0);
        std::fill(shot.begin(), shot.end(), 0);
        opaque_hot = cwd_hot = any_hot = false;
        expect[0] = sequential(c, j, 0);
        expect[1] = sequential(c, j, 1);
        // conflicts: touched by both, written by one; for globals: written at all
        hot_count = any_hot;
        for(size_t g = 0; g < gshadow.size(); ++g)
            hot_count += ghot[g] = (gshadow[g] & 10) != 0;
        for(size_t g = 0; g < sshadow.size(); ++g)
            hot_count += shot[g] = (sshadow[g] & 3) && (sshadow[g] & 12) && (sshadow[g] & 10);
        cached_key = key;
    }
    c.op("%s: %zu places where the two can conflict", what, hot_count);
    restore();
    prepare(j);
    if(everywhere)
        opaque_hot = true;
    sched::S.preemptions = everywhere ? 1 : c.bound(2, 3);
    auto r = sched::run(c, [&] {
        for(long w = 0; w < 2; ++w)
            sched::spawn(nullptr, nullptr, [w, &j] {
                j.th[w](g_env[w]);
                pending[w] = false;
            });
    });
    MC_CHECK(c, r == sched::FINISHED, "%s: %s", what, r == sched::DEADLOCK ? "the threads wait for each other" : "the process ended");
    Result got{{g_env[0].h, g_env[1].h}, live[0] + live[1] + live[2]};
    c.ops(points + 1);
    c.state(mc::Hash().add(key).add(got.h[0]).add(got.h[1]).add(sched::S.switches).h);
    sched::S.switches = 0;
    if(got == expect[0] || got == expect[1])
        return;
    bool only_live = (got.h[0] == expect[0].h[0] && got.h[1] == expect[0].h[1]);
    c.fail("%s: %s", what, only_live ? "memory is lost or freed too often when they overlap" : got.h[0] != expect[0].h[0] ? "the first gets another result when they overlap" : "the second gets another result when they overlap");
}
static void pairs(Ctx &c) {
    setup();
    size_t n;
    const ConcOp *o = conc_ops(&n);
    int a = c.choose((int)n), b = c.choose((int)n);
    if(b < a)
        c.abandon();
    Job j;
    j.th[0] = [&](ConcEnv &e) { o[a].fn(e); };
    j.th[1] = [&](ConcEnv &e) { o[b].fn(e); };
    explore(c, j, a * 1000 + b, (std::string(o[a].name) + " and " + o[b].name).c_str());
}
// One preemption at any function entry or exit, whatever the instrumentation has seen.
static void switches(Ctx &c) {
    setup();
    size_t n;
    const ConcOp *o = conc_ops(&n);
    int a = c.choose((int)n), b = c.thorough ? c.choose((int)n) : a;
    Job j;
    j.th[0] = [&](ConcEnv &e) { o[a].fn(e); };
    j.th[1] = [&](ConcEnv &e) { o[b].fn(e); };
    explore(c, j, 3000000 + a * 1000 + b, (std::string(o[a].name) + " and " + o[b].name).c_str(), true);
}
static void copies(Ctx &c) {
    setup();
    size_t n;
    const ConcObj *o = conc_objs(&n);
    int a = c.choose((int)n), mode = c.choose(4);
    if(!o[a].copy || (mode != 3 && !o[a].mutate))
        c.abandon();
    static void *x, *y;
    Job j;
    j.prep = [&](ConcEnv &e) {
        x = o[a].make(e);
        y = o[a].copy(x);
    };
    // the destructors run in the threads as well
    auto act = [&](void *&p, bool mut, ConcEnv &e) {
        if(mut)
            o[a].mutate(p, e);
        else
            o[a].read(p, e);
        void *z = o[a].copy(p);
        o[a].destroy(p);
        o[a].destroy(z);
    };
    j.th[0] = [&](ConcEnv &e) { act(x, mode & 1 && o[a].mutate, e); };
    j.th[1] = [&](ConcEnv &e) { act(y, mode & 2 && o[a].mutate, e); };
    explore(c, j, 1000000 + a * 4 + mode, (std::string("copies of ") + o[a].name).c_str());
}
static void shared(Ctx &c) {
    setup();
    size_t n;
    const ConcObj *o = conc_objs(&n);
    int a = c.choose((int)n);
    static void *x;
    Job j;
    j.prep = [&](ConcEnv &e) { x = o[a].make(e); };
    j.th[0] = [&](ConcEnv &e) { o[a].read(x, e); };
    j.th[1] = [&](ConcEnv &e) { o[a].read(x, e); };
    explore(c, j, 2000000 + a, (std::string("reading one ") + o[a].name).c_str());
}
void mc::mc_register() {
    mc::add("pairs", "every pair of operation groups on objects of their own, 2 (thorough: 3) preemptions at conflicting accesses", pairs, 2);
    mc::add("switches", "two threads that run the same (thorough: any two) operation groups, one preemption at any function entry or exit", switches, 3);
    mc::add("copies", "an object and its copy, each read or changed in its own thread", copies, 2);
    mc::add("shared", "two threads that only read one object", shared, 1);
}
