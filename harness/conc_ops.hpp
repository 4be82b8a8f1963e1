// Interface between conc.cpp (scheduler, no instrumentation) and conc_ops.cpp (instrumented).
#pragma once
#include <stddef.h>
#include <stdint.h>
struct ConcEnv {
    const char *dir; // holds a.txt, b.txt, sub/c.txt, ren/own-1.tmp, ren/own-2.tmp
    int seed;        // the two threads use different ones
    uint64_t h;      // what was observed
};
struct ConcOp {
    const char *name;
    void (*fn)(ConcEnv &);
};
struct ConcObj {
    const char *name;
    void *(*make)(ConcEnv &);
    void *(*copy)(const void *);             // may be null
    void (*mutate)(void *, ConcEnv &);       // may be null
    void (*read)(const void *, ConcEnv &);
    void (*destroy)(void *);
};
extern "C" const ConcOp *conc_ops(size_t *n);
extern "C" const ConcObj *conc_objs(size_t *n);
extern "C" char conc_data_begin, conc_bss_begin;
