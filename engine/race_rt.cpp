// Native race detection for replays: the hooks clang's thread sanitizer inserts, over the same detector and scheduler as in qsx.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>
#include <unordered_map>
#include "race.h"
static Race R; static std::unordered_map<uint64_t, RaceByte>* g_sh; static bool busy = false;
static void acc(void* p, size_t n, bool wr, bool at = false) { if (!R.on || busy) return; busy = true; if (!g_sh) g_sh = new std::unordered_map<uint64_t, RaceByte>(); bool bad = false; for (size_t i = 0; i < n; ++i) bad |= R.access((*g_sh)[(uint64_t)p + i], wr, at); busy = false; if (bad) { printf("REPLAY violated data race: unsynchronised accesses of two threads to the same memory\n"); fflush(stdout); _exit(1); } }
static void fresh(void* p, size_t n) { if (!R.on || busy || !g_sh) return; busy = true; for (size_t i = 0; i < n; ++i) g_sh->erase((uint64_t)p + i); busy = false; }
void qsx_race_cur(int t) { R.cur = t; }
extern "C" {
void qsx_hb(int op, uint64_t x) { switch (op) { case 0: R.begin((int)x); if (g_sh) { busy = true; g_sh->clear(); busy = false; } break; case 1: R.end(); break; case 2: R.acquire(x); break; case 3: R.release(x); break; case 4: R.barrier(); break; } }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { acc(p, N, false); } void __tsan_write##N(void* p) { acc(p, N, true); } void __tsan_unaligned_read##N(void* p) { acc(p, N, false); } void __tsan_unaligned_write##N(void* p) { acc(p, N, true); } void __tsan_read_write##N(void* p) { acc(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { acc(p, 8, false); } void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true); }
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); } void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, false); acc(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, false); acc(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, true); return memset(d, c, n); }
static void pre(volatile void* p, int mo) { if (mo != 0) R.acquire((uint64_t)p); } static void post(volatile void* p, int mo) { if (mo >= 3) R.release((uint64_t)p); }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* p, int mo) { acc((void*)p, sizeof(T), false, true); pre((volatile void*)p, mo); return __atomic_load_n(p, 5); } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); post(p, mo); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_fetch_xor(p, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { acc((void*)p, sizeof(T), true, true); pre(p, mo); post(p, mo); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); return p; }
void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t n) noexcept { acc(p, n, true); free(p); }
