#pragma once
// Link with -Wl,--wrap=abort: aborts that a scenario expects are turned into a report.
#include <csetjmp>
static jmp_buf g_abort_jmp;
static bool g_abort_armed = false;
extern "C" void __real_abort() __attribute__((noreturn));
extern "C" __attribute__((noreturn, no_sanitize("address"))) void __wrap_abort() {
    if(g_abort_armed) {
        g_abort_armed = false;
        longjmp(g_abort_jmp, 1);
    }
    __real_abort();
}
// True when fn reported the misuse: by an exception or by aborting.
template<typename F> __attribute__((noinline)) bool reported(F &&fn) {
    volatile bool res = false;
    if(setjmp(g_abort_jmp) == 0) {
        g_abort_armed = true;
        res = throws(fn);
        g_abort_armed = false;
    } else {
        res = true;
    }
    return res;
}
