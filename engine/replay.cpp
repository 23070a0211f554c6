// Native replay of a counterexample found by qsx: feeds the recorded values to the harness in call order.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cinttypes>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <unistd.h>
#include <ucontext.h>
#include "../harness/qsx.h"
struct Rec { bool isint; std::string name; uint64_t v; };
static std::vector<Rec> R; static size_t pos = 0; static std::map<std::string, std::string> A; static std::string want; static int seen = 0;
static void fin(int c, const char* m, const char* l) { printf("REPLAY %s %s\n", m, l); fflush(stdout); _exit(c); }
static Rec& next(const char* name, bool isint) { if (pos >= R.size()) fin(3, "exhausted", name); Rec& r = R[pos++]; std::string n = r.name.substr(0, r.name.rfind('#')); if (n != name || r.isint != isint) fin(3, "diverged", name); return r; }
extern "C" {
double qsx_real(const char* n, double lo, double hi) { double d; memcpy(&d, &next(n, false).v, 8); if (d < lo || d > hi) fin(3, "range", n); return d; }
double qsx_fp64(const char* n, double lo, double hi) { return qsx_real(n, lo, hi); }
uint64_t qsx_int(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = next(n, true).v; if (v < lo || v > hi) fin(3, "range", n); return v; }
uint64_t qsx_choice(const char* n, uint64_t k) { return qsx_int(n, 0, k - 1); }
uint64_t qsx_concretize(uint64_t v) { return v; }
void qsx_assume(bool c) { if (!c) fin(3, "assumption-not-met", ""); }
void qsx_assert(bool c, const char* l) { if (!c) fin(1, "violated", l); }
void qsx_reach(const char*) {}
uint64_t qsx_arg(const char* n, uint64_t d) { auto it = A.find(n); return it == A.end() ? d : strtoull(it->second.c_str(), 0, 0); }
void qsx_print(const char* n, double v) { printf("  %s = %.17g\n", n, v); }
// coroutines of the scheduled parallel regions (harness/omp_rt.cpp); race_rt.cpp, if linked in, detects races
__attribute__((weak)) void qsx_hb(int, uint64_t) {}
static ucontext_t g_ctx[16]; static char* g_stk[16]; static int g_now = 0; static void (*g_fn[16])(int); static int g_av[16];
static void tramp(int id) { g_fn[id](g_av[id]); _exit(98); }
}
__attribute__((weak)) void qsx_race_cur(int) {}
extern "C" {
void qsx_co_start(int id, void (*fn)(int), int arg) { getcontext(&g_ctx[id]); if (!g_stk[id]) g_stk[id] = (char*)malloc(8 << 20); g_ctx[id].uc_stack.ss_sp = g_stk[id]; g_ctx[id].uc_stack.ss_size = 8 << 20; g_ctx[id].uc_link = nullptr; g_fn[id] = fn; g_av[id] = arg; makecontext(&g_ctx[id], (void (*)())tramp, 1, id); }
void qsx_co_switch(int id) { int me = g_now; g_now = id; qsx_race_cur(id ? id - 1 : 0); swapcontext(&g_ctx[me], &g_ctx[id]); }
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r"); if (!f) return 4; char ln[4096];
    while (fgets(ln, sizeof ln, f)) { std::string l = ln; while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.rfind("real ", 0) == 0) l = l.substr(0, l.rfind(' ')); /* decimal value */ const size_t a = l.find(' '), b = l.rfind(' '); if (a == std::string::npos) continue;
        const std::string k = l.substr(0, a), v = l.substr(b + 1), n = b > a ? l.substr(a + 1, b - a - 1) : ""; // names may contain blanks
        if (k == "int") R.push_back({true, n, strtoull(v.c_str(), 0, 10)}); else if (k == "real") R.push_back({false, n, strtoull(v.c_str(), 0, 16)}); else if (k == "arg") A[n] = v; else if (k == "label") want = l.substr(6); }
    fclose(f);
    try { qsx_main(); } catch (const std::exception& e) { fin(1, "violated uncaught exception:", e.what()); } catch (...) { fin(1, "violated", "uncaught exception"); }
    fin(0, "held", ""); return 0;
}
