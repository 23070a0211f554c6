// Model of the OpenMP runtime entry points clang emits. By default a parallel region runs its body once per thread, one thread after
// the other; iterations of dynamically scheduled loops all go to one thread (qsx_set_dispatch_owner). After qsx_sched(k) threads are
// coroutines: whenever several could go on at a synchronisation point (critical section, lock, reduction, single, next chunk of a
// dynamic loop) any of them may (the first k such decisions are free choices, then in turn), barriers wait, and accesses are checked for data races.
#include "qsx.h"
#include <cstddef>
#include <pthread.h>
#define NI __attribute__((noinline))
extern "C" { void qsx_co_start(int id, void (*fn)(int), int arg); void qsx_co_switch(int id); void qsx_hb(int op, uint64_t x); }
enum { HB_BEGIN, HB_END, HB_ACQ, HB_REL, HB_BARRIER };
enum { MAXT = 4 };
static int g_nt = 1, g_cur = 0, g_in = 0;
static bool g_sched = false, g_par = false; static long g_left = 0;     // scheduled mode, inside a scheduled region, free decisions left
enum { READY, WANTS, BARRIER, DONE };
static int g_state[MAXT]; static void* g_want[MAXT]; static void* g_held[16]; static int g_nheld = 0; static char g_reduce, g_default;
typedef void* P;
static P g_micro; static int g_argc; static P g_args[12]; static int g_dcount[MAXT], g_scount[MAXT], g_ssc, g_dreg;
static bool held(void* l) { for (int i = 0; i < g_nheld; ++i) if (g_held[i] == l) return true; return false; }
static NI void yield() { qsx_co_switch(0); }
static NI void lock(void* l) { g_want[g_cur] = l; g_state[g_cur] = WANTS; yield(); qsx_hb(HB_ACQ, (uint64_t)l); g_held[g_nheld++] = l; }
static NI void unlock(void* l) { qsx_hb(HB_REL, (uint64_t)l); for (int i = 0; i < g_nheld; ++i) if (g_held[i] == l) { g_held[i] = g_held[--g_nheld]; break; } }
static NI void call(int t) {
    int gt = t, bt = t; P *a = g_args, micro = g_micro;
    switch (g_argc) {
#define T(k, ...) case k: ((void (*)(int*, int*, ...))micro)(&gt, &bt, ##__VA_ARGS__); break;
    T(0) T(1, a[0]) T(2, a[0], a[1]) T(3, a[0], a[1], a[2]) T(4, a[0], a[1], a[2], a[3]) T(5, a[0], a[1], a[2], a[3], a[4]) T(6, a[0], a[1], a[2], a[3], a[4], a[5])
    T(7, a[0], a[1], a[2], a[3], a[4], a[5], a[6]) T(8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) T(9, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
    T(10, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]) T(11, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10])
    T(12, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11])
    default: __builtin_trap();
    }
}
static NI void thread_main(int t) { call(t); g_state[t] = DONE; yield(); }
static NI void region(int n) {
    g_par = true; g_nheld = 0; g_ssc = 0; g_dreg = 0; qsx_hb(HB_BEGIN, (uint64_t)n);
    for (int t = 0; t < n; ++t) { g_state[t] = READY; g_dcount[t] = g_scount[t] = 0; qsx_co_start(t + 1, thread_main, t); }
    for (;;) {
        int ready[MAXT], k = 0, run = -1, done = 0, wait = 0;
        for (int t = 0; t < n; ++t) { if (g_state[t] == READY && run < 0) run = t; else if (g_state[t] == WANTS && !held(g_want[t])) ready[k++] = t; done += g_state[t] == DONE; wait += g_state[t] == BARRIER; }
        if (run < 0) { // everybody is at a synchronisation point
            if (done == n) break;
            if (k) { run = ready[0]; for (int i = k; i-- > 0;) if (ready[i] > g_cur) run = ready[i]; if (k > 1 && g_left > 0) { --g_left; run = ready[qsx_choice("schedule", (uint64_t)k)]; } }
            else if (wait && wait + done == n) { qsx_hb(HB_BARRIER, 0); for (int t = 0; t < n; ++t) if (g_state[t] == BARRIER) g_state[t] = READY; continue; }
            else qsx_assert(false, "the threads of a parallel region do not block each other for ever");
        }
        g_state[run] = READY; g_cur = run; qsx_co_switch(run + 1);
    }
    qsx_hb(HB_END, 0); g_par = false; qsx_reach(n > 1 ? "threads" : "one thread");
}
extern "C" {
NI int omp_get_max_threads() { return g_nt; }
NI int omp_get_num_threads() { return g_in ? g_nt : 1; }
NI int omp_get_thread_num() { return g_cur; }
NI int omp_in_parallel() { return g_in > 0; }
static NI void threads(int n) { g_nt = n; g_left = (long)qsx_arg("sched", 0); g_sched = g_left > 0; }
NI void omp_set_num_threads(int n) { threads(n); }
NI void qsx_set_threads(int n) { threads(n); }
NI void __kmpc_fork_call(P loc, int argc, P micro, P a0, P a1, P a2, P a3, P a4, P a5, P a6, P a7, P a8, P a9, P a10, P a11) {
    int n = g_in ? 1 : g_nt; int save = g_cur; P keep[12], km = g_micro; int ka = g_argc; for (int i = 0; i < 12; ++i) keep[i] = g_args[i]; P in[12] = {a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11}; for (int i = 0; i < 12; ++i) g_args[i] = i < argc ? in[i] : nullptr; g_micro = micro; g_argc = argc;
    g_in++; if (g_sched && n > 1 && n <= MAXT && g_in == 1) region(n); else { for (int t = 0; t < n; ++t) { if (!g_par) g_cur = t; call(g_par ? g_cur : t); } }
    g_in--; g_cur = save; g_micro = km; g_argc = ka; for (int i = 0; i < 12; ++i) g_args[i] = keep[i];
}
NI int __kmpc_global_thread_num(P) { return g_cur; }
NI void __kmpc_push_num_threads(P, int, int n) { g_nt = n; }
NI void __kmpc_barrier(P, int) { if (g_par) { g_state[g_cur] = BARRIER; yield(); } }
NI void __kmpc_critical(P, int, P l) { if (g_par) lock(l); }
NI void __kmpc_critical_with_hint(P, int, P l, unsigned) { if (g_par) lock(l); }
NI void __kmpc_end_critical(P, int, P l) { if (g_par) unlock(l); }
NI void omp_init_lock(P) {} NI void omp_destroy_lock(P) {}
NI void omp_set_lock(P l) { if (g_par) lock(l); }
NI void omp_unset_lock(P l) { if (g_par) unlock(l); }
#ifndef QSX_NATIVE
NI int pthread_mutex_lock(pthread_mutex_t* l) { if (g_par) lock(l); return 0; }
NI int pthread_mutex_unlock(pthread_mutex_t* l) { if (g_par) unlock(l); return 0; }
#endif
NI int __kmpc_single(P, int) { if (!g_par) return g_cur == 0; g_want[g_cur] = &g_default; g_state[g_cur] = WANTS; yield(); const int k = g_scount[g_cur]++; if (k >= g_ssc) { g_ssc = k + 1; return 1; } return 0; }
NI void __kmpc_end_single(P, int) {}
NI int __kmpc_master(P, int) { return g_cur == 0; }
NI void __kmpc_end_master(P, int) {}
NI int __kmpc_masked(P, int, int f) { return g_cur == f; }
NI void __kmpc_end_masked(P, int) {}
NI int __kmpc_reduce(P, int, int, size_t, P, P, P) { if (g_par) lock(&g_reduce); return 1; }
NI int __kmpc_reduce_nowait(P, int, int, size_t, P, P, P) { if (g_par) lock(&g_reduce); return 1; }
NI void __kmpc_end_reduce(P, int, P) { if (g_par) { unlock(&g_reduce); g_state[g_cur] = BARRIER; yield(); } }
NI void __kmpc_end_reduce_nowait(P, int, P) { if (g_par) unlock(&g_reduce); }
NI void __kmpc_serialized_parallel(P, int) {}
NI void __kmpc_end_serialized_parallel(P, int) {}
NI void __kmpc_flush(P) {}
// static schedules: 33/34 = chunked / unchunked (signed and unsigned, 32 and 64 bit)
#define STATIC_INIT(NAME, IT, SIT) \
NI void NAME(P, int tid, int sched, int* last, IT* lo, IT* hi, SIT* st, SIT incr, SIT chunk) { \
    int nt = g_in ? g_nt : 1; IT n = (IT)((*hi - *lo) / (IT)incr + 1); \
    if (*hi + (IT)incr == *lo) n = 0; \
    if (sched == 33) { IT span = (IT)(chunk * incr); *last = 0; *st = (SIT)(span * (IT)nt); *lo = *lo + span * (IT)tid; *hi = *lo + span - (IT)incr; return; } \
    IT small = n / (IT)nt, ext = n % (IT)nt; IT me = small + ((IT)tid < ext ? 1 : 0); IT first = (IT)tid * small + ((IT)tid < ext ? (IT)tid : ext); \
    IT base = *lo; *last = (tid == nt - 1); *st = (SIT)(n * (IT)incr); \
    *lo = base + first * (IT)incr; *hi = *lo + me * (IT)incr - (IT)incr; \
}
STATIC_INIT(__kmpc_for_static_init_4, int, int)
STATIC_INIT(__kmpc_for_static_init_4u, unsigned, int)
STATIC_INIT(__kmpc_for_static_init_8, long, long)
STATIC_INIT(__kmpc_for_static_init_8u, unsigned long, long)
NI void __kmpc_for_static_fini(P, int) {}
// dynamic schedules
static unsigned long d_lo, d_hi, d_st; static bool d_any; static int d_owner = 0;
static long q_lo[8], q_n[8], q_next[8], q_st[8], q_chunk[8];     // the dynamic loops of a region, in program order
NI void qsx_set_dispatch_owner(int t) { d_owner = t; }
static NI void d_init(int tid, long lo, long n, long st, long chunk) { const int k = g_dcount[tid]++ % 8; if (g_dcount[tid] > g_dreg) { g_dreg = g_dcount[tid]; q_lo[k] = lo; q_n[k] = n; q_next[k] = 0; q_st[k] = st; q_chunk[k] = chunk < 1 ? 1 : chunk; } }
static NI bool d_take(int tid, int* last, long& a, long& b, long& st) { g_want[tid] = &g_default; g_state[tid] = WANTS; yield(); const int k = (g_dcount[tid] - 1) % 8; if (q_next[k] >= q_n[k]) return false; long c = q_chunk[k]; if (q_next[k] + c > q_n[k]) c = q_n[k] - q_next[k]; a = q_lo[k] + q_next[k] * q_st[k]; b = a + (c - 1) * q_st[k]; st = q_st[k]; q_next[k] += c; *last = q_next[k] >= q_n[k]; return true; }
#define DISPATCH(SUF, IT, SIT) \
NI void __kmpc_dispatch_init_##SUF(P, int tid, int, IT lo, IT hi, SIT st, SIT chunk) { if (g_par) { d_init(g_cur, (long)lo, (IT)(hi + 1) == (IT)lo ? 0 : (IT)lo > (IT)hi && st > 0 ? 0 : ((long)hi - (long)lo) / st + 1, st, chunk); return; } d_lo = lo; d_hi = hi; d_st = st; d_any = (tid == d_owner % (g_in ? g_nt : 1)) && (IT)lo <= (IT)hi && !((IT)(hi + 1) == (IT)lo); } \
NI int __kmpc_dispatch_next_##SUF(P, int, int* last, IT* lo, IT* hi, SIT* st) { if (g_par) { long a, b, s; if (!d_take(g_cur, last, a, b, s)) return 0; *lo = (IT)a; *hi = (IT)b; *st = (SIT)s; return 1; } if (!d_any) return 0; d_any = false; *last = 1; *lo = (IT)d_lo; *hi = (IT)d_hi; *st = (SIT)d_st; return 1; } \
NI void __kmpc_dispatch_fini_##SUF(P, int) {}
DISPATCH(4, int, int) DISPATCH(4u, unsigned, int) DISPATCH(8, long, long) DISPATCH(8u, unsigned long, long)
NI void __kmpc_dispatch_deinit(P, int) {}
}
