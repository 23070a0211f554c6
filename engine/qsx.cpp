// qsx - a small symbolic executor for LLVM 18 IR, deciding assertions with Z3.
//
// Memory model : one object per allocation, at its real host address; concrete bytes live in host memory,
//                symbolic scalars live in an overlay (per object). Every access is checked against the
//                object table (out-of-bounds / use-after-free is a violation).
// Paths        : every two-sided symbolic branch forks the process; both sides are explored.
// Doubles      : symbolic doubles are Z3 reals (exact arithmetic) or, if created by qsx_fp64, IEEE-754
//                Z3 floating-point terms (bit-precise). Concrete doubles are computed natively (IEEE).
// Integers     : bit-vectors of their IR width.
// External functions (libstdc++/libc/libm) are run natively on concrete arguments via libffi.

#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <ffi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cxxabi.h>
#include <cmath>
#include <cstring>
#include <cstdarg>
#include <cinttypes>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <string>
#include <atomic>
#include <typeinfo>
#include <algorithm>
#include <functional>
#include "race.h"

using namespace llvm;
typedef unsigned __int128 u128;

// ------------------------------------------------------------------------------------------------ shared state
static const int MAXLBL = 256, MAXVIOL = 12, LBLLEN = 200;
struct Shm {
    std::atomic<int> lock;
    std::atomic<long> tokens, procs;
    std::atomic<int> stop, deadline_hit;
    std::atomic<long> paths, pruned, errors, instrs, forks;
    std::atomic<long> iv_decided, uni_decided, iv_assert; std::atomic<long> q_total, q_sat, q_unsat, q_unknown, q_cachehit;
    std::atomic<long> solver_us, solver_max_us;
    std::atomic<long> symfp;         // floating-point operations on symbolic operands (real semantics)
    std::atomic<long> concretized;
    std::atomic<int> nreach; char reach[MAXLBL][LBLLEN]; std::atomic<long> reachcnt[MAXLBL];
    std::atomic<int> nass; char ass[MAXLBL][LBLLEN];
    std::atomic<long> ass_conc[MAXLBL], ass_unsat[MAXLBL], ass_sat[MAXLBL], ass_unk[MAXLBL];
    std::atomic<int> nerr; char err[MAXLBL][LBLLEN]; std::atomic<long> errcnt[MAXLBL];
    std::atomic<int> nviol;
    std::atomic<unsigned char> fnused[1 << 16];
    std::atomic<long> ticket;
};
static Shm* S;
struct Lock { Lock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } } ~Lock() { S->lock = 0; } };
static int slot(std::atomic<int>& n, char (*tab)[LBLLEN], const char* s) {
    Lock l;
    for (int i = 0; i < n; i++) if (!strncmp(tab[i], s, LBLLEN - 1)) return i;
    int i = n; if (i >= MAXLBL - 1) return MAXLBL - 1;
    strncpy(tab[i], s, LBLLEN - 1); tab[i][LBLLEN - 1] = 0; n = i + 1; return i;
}

static std::string g_out; static double g_deadline = 0; static int g_jobs = 8, g_maxviol = 6; static bool g_trace = false;
static long g_maxinstr = 2000000000L; static unsigned g_rl_branch = 4000000, g_rl_assert = 40000000; static int g_ms_branch = 4000, g_ms_assert = 60000;
static std::string g_dumpdir;
static std::map<std::string, std::string> g_args;
static bool g_child_of_token = false; static bool g_forked = false;
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

// ------------------------------------------------------------------------------------------------ objects
struct Val;
enum Kind : uint8_t { K_C, K_BV, K_BOOL, K_R, K_F, K_AGG, K_UNDEF };
struct Val { Kind k = K_UNDEF; uint8_t pad = 0; uint64_t c = 0; union { uint64_t hi; Z3_ast a; std::vector<Val>* agg; }; Val() : hi(0) {} };
static inline Val C(uint64_t c) { Val v; v.k = K_C; v.c = c; return v; }
static inline Val CD(double d) { Val v; v.k = K_C; memcpy(&v.c, &d, 8); return v; }
static inline Val CF(float d) { Val v; v.k = K_C; uint32_t u; memcpy(&u, &d, 4); v.c = u; return v; }
static inline double D(const Val& v) { double d; memcpy(&d, &v.c, 8); return d; }
static inline float F32(const Val& v) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); return f; }

struct Cell { Val v; uint32_t size; };
struct Obj { uint64_t base, size; const char* kind; bool ro = false; std::vector<uint8_t>* mask = nullptr; std::map<uint64_t, Cell>* cells = nullptr; RaceByte* sh = nullptr; };
typedef std::map<uint64_t, Obj*> OMap;
static OMap* g_objs; static Obj* g_last = nullptr;
static int g_native = 0; static bool g_up = false;
struct Region { uint64_t lo, hi; bool w; }; static std::vector<Region>* g_regions;

static Obj* findObj(uint64_t a) {
    if (g_last && a >= g_last->base && a < g_last->base + g_last->size) return g_last;
    auto it = g_objs->upper_bound(a); if (it == g_objs->begin()) return nullptr; --it;
    Obj* o = it->second; if (a >= o->base && (a < o->base + o->size || (o->size == 0 && a == o->base))) { g_last = o; return o; } return nullptr;
}
static Obj* addObj(uint64_t base, uint64_t size, const char* kind) {
    Obj* o = new Obj(); o->base = base; o->size = size; o->kind = kind; (*g_objs)[base] = o; return o;
}
static void delObj(Obj* o) { g_objs->erase(o->base); if (g_last == o) g_last = nullptr; delete o->mask; delete o->cells; ::free(o->sh); delete o; }
static uint64_t allocMem(uint64_t size, const char* kind) { void* p = calloc(1, size + 32); addObj((uint64_t)p + 16 - ((uint64_t)p & 15), size, kind); return (uint64_t)p + 16 - ((uint64_t)p & 15); }

// operator new used by natively executed libstdc++ code: register the object.
void* operator new(size_t n) { void* p = malloc(n + 16); if (!p) abort(); if (g_up && g_native) { g_native--; int sv = g_native; g_native = 0; addObj((uint64_t)p, n, "heap"); g_native = sv + 1; } return p; }
void operator delete(void* p) noexcept { if (!p) return; if (g_up && g_native) { int sv = g_native; g_native = 0; Obj* o = nullptr; auto it = g_objs->find((uint64_t)p); if (it != g_objs->end()) o = it->second; if (o) { delObj(o); g_native = sv; return; } g_native = sv; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

static void loadRegions() {
    g_regions = new std::vector<Region>(); FILE* f = fopen("/proc/self/maps", "r"); char line[600];
    while (fgets(line, sizeof line, f)) { uint64_t a, b; char p[8]; if (sscanf(line, "%lx-%lx %7s", &a, &b, p) == 3 && p[0] == 'r' && (strstr(line, ".so") || strstr(line, "qsx") || strchr(line, '/') == nullptr) && !strstr(line, "[heap]")) g_regions->push_back({a, b, p[1] == 'w'}); }
    fclose(f);
}
static bool foreignOk(uint64_t a, uint64_t n) { for (auto& r : *g_regions) if (a >= r.lo && a + n <= r.hi) return true; return false; }

// ------------------------------------------------------------------------------------------------ termination of a path
[[noreturn]] static void finish() {
    // no atexit handlers, no destructors
    if (g_child_of_token) S->tokens++;
    if (!g_forked) { // root: wait for every token child
        int st; while (wait(&st) > 0) {}
        return _exit(0);
    }
    int st; while (wait(&st) > 0) {}
    _exit(0);
}
static std::string where();
static void flushInstr();
[[noreturn]] static void pathDone(bool pruned) { flushInstr(); if (pruned) S->pruned++; else S->paths++; finish(); }
[[noreturn]] static void engineError(const char* fmt, ...) {
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    flushInstr(); S->errors++; std::string m = std::string(b) + " @ " + where(); int i = slot(S->nerr, S->err, m.c_str()); S->errcnt[i]++;
    if (g_trace) fprintf(stderr, "[engine error] %s\n", m.c_str());
    finish();
}
static void checkStop() { if (S->stop || (g_deadline && now() > g_deadline)) { if (!S->stop) S->deadline_hit = 1; flushInstr(); S->errors++; int i = slot(S->nerr, S->err, S->stop ? "stopped: enough counterexamples" : "deadline"); S->errcnt[i]++; finish(); } }

// ------------------------------------------------------------------------------------------------ Z3
static Z3_context Z; static Z3_sort sReal, sBool, sF64, sF32; static Z3_ast rmRNE;
static std::vector<Z3_ast>* g_pc; static Z3_model g_model = nullptr; static bool g_model_ok = true;
struct Var { std::string name; Z3_ast a; int kind; /*0 real 1 bv64 2 fp 3 aux*/ double lo, hi; };
static std::vector<Var>* g_vars; static std::unordered_map<unsigned, int>* g_varidx; // ast id -> index
static void zerr(Z3_context c, Z3_error_code e) { engineError("z3: %s", Z3_get_error_msg(c, e)); }
static Z3_ast K(Z3_ast a) { return a; }
static Z3_ast bvNum(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static Z3_ast bvNum128(u128 v, unsigned w) { if (w <= 64) return bvNum((uint64_t)v, w); return Z3_mk_concat(Z, bvNum((uint64_t)(v >> 64), w - 64), bvNum((uint64_t)v, 64)); }
static std::string ratStr(double d) { // exact rational of a finite double
    if (d == 0) return "0"; int e; double m = frexp(d, &e); int64_t mi = (int64_t)ldexp(m, 53); e -= 53; while ((mi & 1) == 0) { mi >>= 1; e++; }
    // value = mi * 2^e
    auto pow2 = [](int n) { // decimal string of 2^n
        std::vector<int> dg{1}; for (int i = 0; i < n; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); } std::string s; for (auto it = dg.rbegin(); it != dg.rend(); ++it) s += char('0' + *it); return s; };
    if (e < 0) return std::to_string(mi) + "/" + pow2(-e);
    if (e == 0) return std::to_string(mi);
    std::vector<int> dg; bool neg = mi < 0; uint64_t u = neg ? -(uint64_t)mi : mi; while (u) { dg.push_back(u % 10); u /= 10; }
    for (int i = 0; i < e; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); }
    std::string s = neg ? "-" : ""; for (auto it = dg.rbegin(); it != dg.rend(); ++it) s += char('0' + *it); return s;
}
static std::unordered_map<uint64_t, Z3_ast>* g_numcache;
static Z3_ast realNum(double d) { uint64_t k; memcpy(&k, &d, 8); auto it = g_numcache->find(k); if (it != g_numcache->end()) return it->second; Z3_ast a = Z3_mk_numeral(Z, ratStr(d).c_str(), sReal); (*g_numcache)[k] = a; return a; }
static Z3_ast mkNot(Z3_ast a) { return Z3_mk_not(Z, a); }
static Z3_ast mkAnd(std::vector<Z3_ast> v) { if (v.empty()) return Z3_mk_true(Z); if (v.size() == 1) return v[0]; return Z3_mk_and(Z, v.size(), v.data()); }
static bool isTrue(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_TRUE; }
static bool isFalse(Z3_ast a) { return Z3_get_bool_value(Z, a) == Z3_L_FALSE; }

// support sets + features
struct Info { std::vector<int> vars; bool nonlin = false, bv = false, fp = false, real = false, toint = false; bool isnum = false; };
static std::unordered_map<unsigned, Info*>* g_info;
static const Info& infoOf(Z3_ast a) {
    unsigned id = Z3_get_ast_id(Z, a); auto it = g_info->find(id); if (it != g_info->end()) return *it->second;
    Info* I = new Info(); (*g_info)[id] = I;
    Z3_ast_kind ak = Z3_get_ast_kind(Z, a);
    Z3_sort_kind sk = Z3_get_sort_kind(Z, Z3_get_sort(Z, a));
    if (sk == Z3_REAL_SORT) I->real = true; if (sk == Z3_BV_SORT) I->bv = true; if (sk == Z3_FLOATING_POINT_SORT || sk == Z3_ROUNDING_MODE_SORT) I->fp = true; if (sk == Z3_INT_SORT) I->toint = true;
    if (ak == Z3_NUMERAL_AST) { I->isnum = true; return *I; }
    if (ak != Z3_APP_AST) return *I;
    Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap);
    if (n == 0) { auto v = g_varidx->find(id); if (v != g_varidx->end()) I->vars.push_back(v->second); else if (sk == Z3_REAL_SORT) I->isnum = true; return *I; }
    Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); int nsym = 0; bool den_sym = false; bool allnum = true;
    std::vector<int> vs;
    for (unsigned i = 0; i < n; i++) { const Info& c = infoOf(Z3_get_app_arg(Z, ap, i)); vs.insert(vs.end(), c.vars.begin(), c.vars.end()); I->nonlin |= c.nonlin; I->bv |= c.bv; I->fp |= c.fp; I->real |= c.real; I->toint |= c.toint; if (!c.vars.empty()) nsym++; if (i == 1 && !c.vars.empty()) den_sym = true; if (!c.isnum) allnum = false; }
    std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); I->vars = vs;
    if (dk == Z3_OP_MUL && nsym > 1) I->nonlin = true; if (dk == Z3_OP_DIV && den_sym) I->nonlin = true; if (dk == Z3_OP_POWER) I->nonlin = true;
    (void)allnum;
    return *I;
}
static volatile bool g_in_solver = false;
static void onAlarm(int) { if (g_in_solver) Z3_interrupt(Z); }
static Z3_symbol sym(const char* s) { return Z3_mk_string_symbol(Z, s); }

static long g_dumpno = 0;
static void dumpQuery(const std::vector<Z3_ast>& cs, const char* tag) {
    if (g_dumpdir.empty()) return; char fn[300]; snprintf(fn, sizeof fn, "%s/q_%d_%ld_%s.smt2", g_dumpdir.c_str(), getpid(), g_dumpno++, tag);
    Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); for (auto c : cs) Z3_solver_assert(Z, s, c); FILE* f = fopen(fn, "w"); if (f) { fputs(Z3_solver_to_string(Z, s), f); fputs("(check-sat)\n", f); fclose(f); } Z3_solver_dec_ref(Z, s);
}
// the path-condition conjuncts that (transitively) share variables with `vars`
static void slice(std::vector<int> vars, std::vector<Z3_ast>& out, std::vector<int>& allvars) {
    std::vector<char> inV(g_vars->size(), 0); for (int v : vars) inV[v] = 1; std::vector<char> used(g_pc->size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < g_pc->size(); i++) if (!used[i]) { auto& I = infoOf((*g_pc)[i]); bool hit = false; for (int v : I.vars) if (inV[v]) { hit = true; break; } if (hit) { used[i] = 1; out.push_back((*g_pc)[i]); for (int v : I.vars) if (!inV[v]) { inV[v] = 1; ch = true; } } } }
    for (size_t i = 0; i < inV.size(); i++) if (inV[i]) allvars.push_back(i);
}
static Z3_lbool runSolver(const std::vector<Z3_ast>& cs, bool nonlin, bool bv, bool fp, bool toint, unsigned rl, int ms, Z3_model* mout) {
    std::vector<int> tries;
    if (nonlin && !bv && !fp && !toint) tries = {1, 0}; else tries = {0};
    if (nonlin && !bv && !fp && !toint) tries = {1, 0, 2};
    Z3_lbool r = Z3_L_UNDEF; double t0 = now();
    for (size_t ti = 0; ti < tries.size(); ti++) {
        Z3_solver s;
        if (tries[ti] == 1) { Z3_tactic t1 = Z3_mk_tactic(Z, "qfnra-nlsat"); Z3_tactic_inc_ref(Z, t1); s = Z3_mk_solver_from_tactic(Z, t1); }
        else if (tries[ti] == 2) s = Z3_mk_solver(Z);
        else if (!nonlin && bv && !toint && !fp) { Z3_tactic t1 = Z3_mk_tactic(Z, "qfbv"); bool real = false; for (auto c : cs) real |= infoOf(c).real; if (real) s = Z3_mk_simple_solver(Z); else { Z3_tactic_inc_ref(Z, t1); s = Z3_mk_solver_from_tactic(Z, t1); } }
        else s = Z3_mk_simple_solver(Z);
        Z3_solver_inc_ref(Z, s);
        Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
        unsigned myrl = tries.size() > 1 && ti + 1 < tries.size() ? rl / 2 : rl; if (g_deadline) { double left = g_deadline - now(); if (left < 0.05) { S->deadline_hit = 1; r = Z3_L_UNDEF; break; } if (left * 1000 < ms) ms = (int)(left * 1000) + 20; }
        Z3_params_set_uint(Z, p, sym("rlimit"), myrl); Z3_solver_set_params(Z, s, p);
        for (auto c : cs) Z3_solver_assert(Z, s, c);
        itimerval iv; memset(&iv, 0, sizeof iv); int m2 = tries.size() > 1 ? std::max(50, ms / 2) : ms; iv.it_value.tv_sec = m2 / 1000; iv.it_value.tv_usec = (m2 % 1000) * 1000; iv.it_interval.tv_usec = 200000; 
        g_in_solver = true; setitimer(ITIMER_REAL, &iv, 0);
        r = Z3_solver_check(Z, s);
        memset(&iv, 0, sizeof iv); setitimer(ITIMER_REAL, &iv, 0); g_in_solver = false;
        if (r == Z3_L_TRUE && mout) { *mout = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, *mout); }
        Z3_solver_dec_ref(Z, s); Z3_params_dec_ref(Z, p);
        if (r != Z3_L_UNDEF) break;
    }
    long us = (long)((now() - t0) * 1e6); S->solver_us += us; long mx = S->solver_max_us; while (us > mx && !S->solver_max_us.compare_exchange_weak(mx, us)) {}
    static bool tq = getenv("QSX_TRACEQ"); if (tq) fprintf(stderr, "[query] %s\n", where().c_str());
    S->q_total++; if (r == Z3_L_TRUE) S->q_sat++; else if (r == Z3_L_FALSE) S->q_unsat++; else { S->q_unknown++; dumpQuery(cs, "unknown"); }
    if (us > 2000000) dumpQuery(cs, "slow");
    return r;
}
// sat(pc /\ extra)? On sat, *mout is a full model (slice model merged into the current one).
static Z3_lbool query(const std::vector<Z3_ast>& extra, bool assertq, Z3_model* mout) {
    std::vector<Z3_ast> cs; std::vector<int> vars, all;
    for (auto e : extra) { if (isFalse(e)) return Z3_L_FALSE; auto& I = infoOf(e); vars.insert(vars.end(), I.vars.begin(), I.vars.end()); }
    slice(vars, cs, all); for (auto e : extra) cs.push_back(e);
    bool nl = false, bv = false, fp = false, ti = false; for (auto c : cs) { auto& I = infoOf(c); nl |= I.nonlin; bv |= I.bv; fp |= I.fp; ti |= I.toint; }
    static bool tq2 = getenv("QSX_TRACEC");
    Z3_model m = nullptr;
    double tq0 = now();
    Z3_lbool r = runSolver(cs, nl, bv, fp, ti, assertq ? g_rl_assert : g_rl_branch, assertq ? g_ms_assert : g_ms_branch, mout ? &m : nullptr);
    if (tq2) fprintf(stderr, "[time] %.3f %d %zu %s || %.500s\n", now() - tq0, (int)r, cs.size(), where().substr(0, 80).c_str(), Z3_ast_to_string(Z, extra[0]));
    if (r == Z3_L_TRUE && mout) {
        Z3_model out = Z3_mk_model(Z); Z3_model_inc_ref(Z, out); std::vector<char> inS(g_vars->size(), 0); for (int v : all) inS[v] = 1;
        for (size_t i = 0; i < g_vars->size(); i++) {
            Z3_ast val = nullptr; Z3_ast va = (*g_vars)[i].a;
            if (inS[i]) Z3_model_eval(Z, m, va, true, &val);
            else if (g_model && g_model_ok) Z3_model_eval(Z, g_model, va, true, &val);
            if (!val) continue;
            Z3_func_decl fd = Z3_get_app_decl(Z, Z3_to_app(Z, va)); Z3_add_const_interp(Z, out, fd, val);
        }
        *mout = out;
    }
    return r;
}
static int evalUnder(Z3_model m, Z3_ast c);


// ------------------------------------------------------------------------------------------------ interval pre-solver
// Before Z3 is asked, a branch condition is evaluated in outward-rounded interval arithmetic with mean-value forms over
// the current box of the inputs (declared bounds, shaved by the constraints of the path). Decides most far-away predicates.
struct Iv { double lo, hi; };
static inline double dn(double x) { return std::nextafter(x, -INFINITY); }
static inline double up(double x) { return std::nextafter(x, INFINITY); }
static inline Iv ivN(double a, double b) { if (!(a <= b)) return {-INFINITY, INFINITY}; return {a, b}; }
static inline Iv ivAdd(Iv a, Iv b) { return ivN(dn(a.lo + b.lo), up(a.hi + b.hi)); }
static inline Iv ivNeg(Iv a) { return {-a.hi, -a.lo}; }
static inline Iv ivMul(Iv a, Iv b) { if ((a.lo == 0 && a.hi == 0) || (b.lo == 0 && b.hi == 0)) return {0, 0}; double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; double l = p[0], h = p[0]; for (double x : p) { if (std::isnan(x)) return {-INFINITY, INFINITY}; l = std::min(l, x); h = std::max(h, x); } return ivN(dn(l), up(h)); }
static inline Iv ivSqr(Iv a) { double l = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, h = std::max(std::fabs(a.lo), std::fabs(a.hi)); return ivN(l == 0 ? 0 : dn(l * l), up(h * h)); }
static inline Iv ivInv(Iv a) { if (a.lo <= 0 && a.hi >= 0) return {-INFINITY, INFINITY}; return ivN(dn(1 / a.hi), up(1 / a.lo)); }
static inline Iv ivSqrt(Iv a) { double l = a.lo <= 0 ? 0 : dn(std::sqrt(a.lo)); if (a.hi < 0) return {0, INFINITY}; return ivN(std::max(0.0, l), up(std::sqrt(a.hi))); }
static inline Iv ivHull(Iv a, Iv b) { return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
static inline bool ivWhole(Iv a) { return std::isinf(a.lo) && std::isinf(a.hi); }
enum { IVN = 6 };
struct IvBox { int n = 0; int var[IVN]; Iv b[IVN]; bool overflow = false; };
static bool g_forksel = false; static IvBox g_ivb; static bool g_iv = true; static std::unordered_map<unsigned, Z3_ast>* g_sqrtdef; // aux ast id -> radicand
struct J { Iv v, m; bool grad; Iv g[IVN]; };
struct IvEval {
    const IvBox& B; std::unordered_map<unsigned, J> memo; int n; double mid[IVN];
    IvEval(const IvBox& b) : B(b) { n = b.n; for (int i = 0; i < n; i++) mid[i] = 0.5 * (b.b[i].lo + b.b[i].hi); }
    void mv(J& j) { if (!j.grad) return; Iv f = j.m; for (int i = 0; i < n; i++) if (j.g[i].lo != 0 || j.g[i].hi != 0) f = ivAdd(f, ivMul(j.g[i], {dn(B.b[i].lo - mid[i]), up(B.b[i].hi - mid[i])})); if (std::isnan(f.lo) || std::isnan(f.hi)) return; j.v.lo = std::max(j.v.lo, f.lo); j.v.hi = std::min(j.v.hi, f.hi); if (j.v.lo > j.v.hi) j.v = f; }
    J cst(Iv v) { J j; j.v = j.m = v; j.grad = true; for (int i = 0; i < n; i++) j.g[i] = {0, 0}; return j; }
    J whole() { J j = cst({-INFINITY, INFINITY}); j.grad = false; return j; }
    J add(const J& a, const J& b) { J j; j.v = ivAdd(a.v, b.v); j.m = ivAdd(a.m, b.m); j.grad = a.grad && b.grad; if (j.grad) for (int i = 0; i < n; i++) j.g[i] = ivAdd(a.g[i], b.g[i]); mv(j); return j; }
    J neg(const J& a) { J j = a; j.v = ivNeg(a.v); j.m = ivNeg(a.m); if (j.grad) for (int i = 0; i < n; i++) j.g[i] = ivNeg(a.g[i]); return j; }
    J mul(const J& a, const J& b, bool sq) { J j; j.v = sq ? ivSqr(a.v) : ivMul(a.v, b.v); j.m = sq ? ivSqr(a.m) : ivMul(a.m, b.m); j.grad = a.grad && b.grad; if (j.grad) for (int i = 0; i < n; i++) { if (sq) j.g[i] = ivMul({2, 2}, ivMul(a.v, a.g[i])); else j.g[i] = ivAdd(ivMul(a.g[i], b.v), ivMul(a.v, b.g[i])); } mv(j); return j; }
    J inv(const J& a) { J j; j.v = ivInv(a.v); if (ivWhole(j.v)) return whole(); j.m = ivInv(a.m); j.grad = a.grad; if (j.grad) { Iv s = ivNeg(ivSqr(j.v)); for (int i = 0; i < n; i++) j.g[i] = ivMul(s, a.g[i]); } mv(j); return j; }
    J root(const J& a) { J j; j.v = ivSqrt(a.v); j.m = ivSqrt(a.m); j.grad = a.grad && j.v.lo > 0; if (j.grad) { Iv s = ivMul({0.5, 0.5}, ivInv(j.v)); for (int i = 0; i < n; i++) j.g[i] = ivMul(s, a.g[i]); } mv(j); return j; }
    static Iv num(Z3_ast a) { double d; int64_t p, q; if (Z3_get_numeral_rational_int64(Z, a, &p, &q)) { if (std::llabs(p) < (1ll << 53) && std::llabs(q) < (1ll << 53)) { d = (double)p / (double)q; return (q & (q - 1)) == 0 ? Iv{d, d} : Iv{dn(d), up(d)}; } } std::string s = Z3_get_numeral_decimal_string(Z, a, 40); if (!s.empty() && s.back() == '?') s.pop_back(); d = strtod(s.c_str(), 0); return {dn(d), up(d)}; }
    J ev(Z3_ast a) { unsigned id = Z3_get_ast_id(Z, a); auto it = memo.find(id); if (it != memo.end()) return it->second; J j = ev0(a); memo.emplace(id, j); return j; }
    J ev0(Z3_ast a) {
        if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) return cst(num(a)); if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return whole();
        Z3_app ap = Z3_to_app(Z, a); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
        if (k == 0) { auto d = g_sqrtdef->find(Z3_get_ast_id(Z, a)); if (d != g_sqrtdef->end()) return root(ev(d->second));
            auto v = g_varidx->find(Z3_get_ast_id(Z, a)); if (v != g_varidx->end()) for (int i = 0; i < n; i++) if (B.var[i] == v->second) { J j = cst({0, 0}); j.v = B.b[i]; j.m = {mid[i], mid[i]}; j.g[i] = {1, 1}; return j; } return whole(); }
        switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
        case Z3_OP_ADD: { J j = ev(A(0)); for (unsigned i = 1; i < k; i++) j = add(j, ev(A(i))); return j; }
        case Z3_OP_SUB: { J j = ev(A(0)); for (unsigned i = 1; i < k; i++) j = add(j, neg(ev(A(i)))); return j; }
        case Z3_OP_UMINUS: return neg(ev(A(0)));
        case Z3_OP_MUL: { J j; bool first = true; for (unsigned i = 0; i < k; i++) { unsigned p = 1; while (i + 1 < k && A(i + 1) == A(i)) { p++; i++; } J b = ev(A(i)), q = b; if (p >= 2) { J s = mul(b, b, true); q = s; for (unsigned e = 2; e + 1 < p; e += 2) q = mul(q, s, false); if (p % 2) q = mul(q, b, false); } j = first ? q : mul(j, q, false); first = false; } return j; }
        case Z3_OP_DIV: return mul(ev(A(0)), inv(ev(A(1))), false);
        case Z3_OP_POWER: { int64_t p, q; if (Z3_get_ast_kind(Z, A(1)) == Z3_NUMERAL_AST && Z3_get_numeral_rational_int64(Z, A(1), &p, &q) && q == 1 && p >= 1 && p <= 16) { J b = ev(A(0)), j = b; if (p >= 2) { J s = mul(b, b, true); j = s; for (int e = 2; e + 1 < p; e += 2) j = mul(j, s, false); if (p % 2) j = mul(j, b, false); } return j; } return whole(); }
        case Z3_OP_ITE: { int c = bo(A(0)); if (c == 1) return ev(A(1)); if (c == 0) return ev(A(2)); J x = ev(A(1)), y = ev(A(2)); J j = whole(); j.v = ivHull(x.v, y.v); j.m = ivHull(x.m, y.m); return j; }
        default: return whole();
        }
    }
    std::unordered_map<unsigned, int> bmemo;
    int bo(Z3_ast a) { unsigned id = Z3_get_ast_id(Z, a); auto it = bmemo.find(id); if (it != bmemo.end()) return it->second; int r = bo0(a); bmemo[id] = r; return r; }
    int bo0(Z3_ast a) {
        if (isTrue(a)) return 1; if (isFalse(a)) return 0; if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return -1;
        Z3_app ap = Z3_to_app(Z, a); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
        Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
        switch (dk) {
        case Z3_OP_NOT: { int x = bo(A(0)); return x < 0 ? -1 : 1 - x; }
        case Z3_OP_AND: { int r = 1; for (unsigned i = 0; i < k; i++) { int x = bo(A(i)); if (x == 0) return 0; if (x < 0) r = -1; } return r; }
        case Z3_OP_OR: { int r = 0; for (unsigned i = 0; i < k; i++) { int x = bo(A(i)); if (x == 1) return 1; if (x < 0) r = -1; } return r; }
        case Z3_OP_ITE: { int c = bo(A(0)); if (c == 1) return bo(A(1)); if (c == 0) return bo(A(2)); int x = bo(A(1)), y = bo(A(2)); return x == y ? x : -1; }
        case Z3_OP_LE: case Z3_OP_LT: case Z3_OP_GE: case Z3_OP_GT: case Z3_OP_EQ: {
            if (Z3_get_sort_kind(Z, Z3_get_sort(Z, A(0))) != Z3_REAL_SORT) { if (dk == Z3_OP_EQ && Z3_get_sort_kind(Z, Z3_get_sort(Z, A(0))) == Z3_BOOL_SORT) { int x = bo(A(0)), y = bo(A(1)); return x < 0 || y < 0 ? -1 : x == y; } return -1; }
            Iv d = add(ev(A(0)), neg(ev(A(1)))).v;
            switch (dk) { case Z3_OP_LE: return d.hi <= 0 ? 1 : d.lo > 0 ? 0 : -1; case Z3_OP_LT: return d.hi < 0 ? 1 : d.lo >= 0 ? 0 : -1; case Z3_OP_GE: return d.lo >= 0 ? 1 : d.hi < 0 ? 0 : -1; case Z3_OP_GT: return d.lo > 0 ? 1 : d.hi <= 0 ? 0 : -1; default: return d.lo > 0 || d.hi < 0 ? 0 : -1; } }
        default: return -1;
        }
    }
};
// truth value of c in a model: interval arithmetic around the model's values first (exact evaluation of algebraic numbers can take very long)
static Z3_model g_evm = nullptr; static IvBox g_evb; static bool g_evalg; static std::unique_ptr<IvEval> g_eve; static size_t g_evn = 0;
static int evalUnder(Z3_model m, Z3_ast c) {
    if (!m) return -1; Z3_ast v; auto& I = infoOf(c);
    if (!I.fp && !I.bv && I.real) {
        if (g_evm != m || g_evn != g_vars->size()) { g_evm = m; g_evn = g_vars->size(); g_evb = g_ivb; g_evalg = false; g_eve.reset();
            for (int i = 0; i < g_evb.n; i++) if (Z3_model_eval(Z, m, (*g_vars)[g_evb.var[i]].a, true, &v)) { if (Z3_is_algebraic_number(Z, v)) { g_evalg = true; v = Z3_get_algebraic_number_lower(Z, v, 60); } Iv q = IvEval::num(v); q.lo = dn(q.lo); q.hi = up(q.hi); g_evb.b[i] = q; }
            for (auto& d : *g_sqrtdef) { (void)d; g_evalg = true; break; }
            if (g_evb.n) g_eve.reset(new IvEval(g_evb)); }
        if (g_eve) { int r = g_eve->bo(c); if (r >= 0) return r; }
        if (g_evalg) return -1; }
    if (!Z3_model_eval(Z, m, c, true, &v)) return -1; if (isTrue(v)) return 1; if (isFalse(v)) return 0; Z3_ast s = Z3_simplify(Z, v); if (isTrue(s)) return 1; if (isFalse(s)) return 0; return -1; }
static bool ivUsable(Z3_ast c) { if (!g_iv || g_ivb.n == 0) return false; auto& I = infoOf(c); if (I.fp || I.bv || !I.real) return false; return true; }
static std::unique_ptr<IvEval> g_ivcur;
static int ivDecideAt(const IvBox& b, Z3_ast c, int depth) {
    IvEval e(b); int r = e.bo(c); if (r >= 0 || depth == 0) return r; int w = 0; for (int i = 1; i < b.n; i++) if (b.b[i].hi - b.b[i].lo > b.b[w].hi - b.b[w].lo) w = i;
    double m = 0.5 * (b.b[w].lo + b.b[w].hi); if (!(m > b.b[w].lo && m < b.b[w].hi)) return -1; IvBox l = b, h = b; l.b[w].hi = m; h.b[w].lo = m; int x = ivDecideAt(l, c, depth - 1); if (x < 0) return -1; int y = ivDecideAt(h, c, depth - 1); return x == y ? x : -1;
}
static int ivDecide(Z3_ast c) {
    if (!ivUsable(c)) return -1; if (!g_ivcur) g_ivcur.reset(new IvEval(g_ivb)); int r = g_ivcur->bo(c); if (r >= 0) { S->iv_decided++; return r; }
    r = ivDecideAt(g_ivb, c, g_ivb.n == 1 ? 4 : 2); if (r >= 0) S->iv_decided++; return r;
}
static std::unordered_map<unsigned, char>* g_pcdef; // conjuncts that only define auxiliary roots
static bool ivAllReal() { // every input is a real inside the box and no bit-vector constraint is around
    if (!g_iv || g_ivb.n == 0) return false; for (auto& v : *g_vars) if (v.kind == 1 || v.kind == 2) return false;
    int k = 0; for (auto& v : *g_vars) if (v.kind == 0) k++; return k == g_ivb.n; }
static bool ivPC(IvEval& e) { for (size_t i = g_pc->size(); i-- > 0;) if (!g_pcdef->count(Z3_get_ast_id(Z, (*g_pc)[i])) && e.bo((*g_pc)[i]) != 1) return false; return true; }
static bool g_wit_ok = false; static IvBox g_wit; // a point known to satisfy the path condition
static bool uniPoint(Z3_ast extra, IvBox& out);
// a point of the box that satisfies the path condition (and extra), found by interval evaluation at sample points
static bool ivPoint(Z3_ast extra, IvBox& out) {
    if (!ivAllReal()) return false; unsigned rs = 12345; int nt = g_ivb.n == 1 ? 48 : 64;
    for (int t = 0; t < nt; t++) { IvBox b = g_ivb; for (int i = 0; i < b.n; i++) { rs = rs * 1664525u + 1013904223u; double f = t == 0 ? 0.5 : b.n == 1 ? (t - 0.5) / (nt - 1) : (rs >> 8) / 16777216.0; double x = b.b[i].lo + f * (b.b[i].hi - b.b[i].lo); double y = std::ldexp(std::round(std::ldexp(x, 30)), -30); if (y >= g_ivb.b[i].lo && y <= g_ivb.b[i].hi) x = y; b.b[i] = {x, x}; }
        IvEval e(b); if (extra && e.bo(extra) != 1) continue; if (!ivPC(e)) continue; out = b; return true; }
    return uniPoint(extra, out);
}
static Z3_model ivPointModel(const IvBox& b) { Z3_model m = Z3_mk_model(Z); Z3_model_inc_ref(Z, m); for (int i = 0; i < b.n; i++) Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, (*g_vars)[b.var[i]].a)), realNum(b.b[i].lo)); return m; }
static Z3_model ivModel(Z3_ast extra) { IvBox b; if (g_wit_ok && g_wit.n == g_ivb.n && ivAllReal()) { IvEval e(g_wit); if (!extra || e.bo(extra) == 1) return ivPointModel(g_wit); } if (!ivPoint(extra, b)) return nullptr; return ivPointModel(b); }
// branch and prune: true if no point of the box satisfies the path condition and extra
static bool ivPrune(const IvBox& b, Z3_ast extra, int depth, int& budget) {
    if (--budget < 0) return false; IvEval e(b); if (e.bo(extra) == 0) return true; for (size_t i = g_pc->size(); i-- > 0;) if (!g_pcdef->count(Z3_get_ast_id(Z, (*g_pc)[i])) && infoOf((*g_pc)[i]).real && e.bo((*g_pc)[i]) == 0) return true;
    if (depth == 0) return false; int w = 0; for (int i = 1; i < b.n; i++) if (b.b[i].hi - b.b[i].lo > b.b[w].hi - b.b[w].lo) w = i;
    double m = 0.5 * (b.b[w].lo + b.b[w].hi); if (!(m > b.b[w].lo && m < b.b[w].hi)) return false; IvBox l = b, h = b; l.b[w].hi = m; h.b[w].lo = m; return ivPrune(l, extra, depth - 1, budget) && ivPrune(h, extra, depth - 1, budget);
}
static bool ivUnsat(Z3_ast extra) { if (!ivUsable(extra)) return false; int budget = g_ivb.n == 1 ? 150 : 100; bool r = ivPrune(g_ivb, extra, g_ivb.n == 1 ? 30 : 12, budget); if (r) S->iv_decided++; return r; }
static int ivDecide0(Z3_ast c) { if (!ivUsable(c)) return -1; if (!g_ivcur) g_ivcur.reset(new IvEval(g_ivb)); int r = g_ivcur->bo(c); if (r >= 0) S->iv_decided++; return r; }
static void ivShave(Z3_ast c) { // remove parts of the box that violate a constraint of the path
    if (!ivUsable(c)) return; bool any = false;
    for (int i = 0; i < g_ivb.n; i++) { for (int side = 0; side < 2; side++) { double fr = 0.5; for (int it = 0; it < 40 && fr > 1e-3; it++) { IvBox b = g_ivb; double w = b.b[i].hi - b.b[i].lo; if (!(w > 1e-12)) break; double cut = side ? b.b[i].hi - fr * w : b.b[i].lo + fr * w; if (side) b.b[i].lo = cut; else b.b[i].hi = cut; IvEval e(b);
        if (e.bo(c) == 0) { if (side) g_ivb.b[i].hi = cut; else g_ivb.b[i].lo = cut; any = true; } else fr *= 0.5; } } if (g_ivb.n > 3) break; }
    if (any) g_ivcur.reset();
}
#include "uni.h"
static bool uniPoint(Z3_ast extra, IvBox& out) { // a point of the only real input that satisfies everything, by the exact solver
    if (!g_uni || g_ivb.n != 1 || g_unis->size() != 1) return false; if (!(uniBoth(extra ? extra : Z3_mk_true(Z)) & 1)) return false; double x = g_unipt[1].convert_to<double>(); Uni& u = g_unis->begin()->second; Qn X(x); for (auto& h : u.holes) if (h == X) return false; if (X < u.lo || X > u.hi || (u.lo_open && X == u.lo) || (u.hi_open && X == u.hi)) return false; for (auto c : u.rest) if (segTruth(c, u, X, false, X, false) != 1) return false; if (extra && segTruth(extra, u, X, false, X, false) != 1) return false; out = g_ivb; out.b[0] = {x, x}; return true; }
static void addPC(Z3_ast c) { if (isTrue(c)) return; g_pc->push_back(c); uniAbsorb(c); ivShave(c); }
// Fork. Returns true in the child. Parent: continues (token) or waits for the child first.
static bool forkPath() {
    checkStop(); S->forks++;
    long t = S->tokens; bool tok = false; while (t > 0) { if (S->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; } }
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { if (tok) S->tokens++; engineError("fork failed"); }
    if (p == 0) { g_forked = true; g_child_of_token = tok; return true; }
    if (!tok) { int st; while (waitpid(p, &st, 0) < 0) {} if (WIFSIGNALED(st)) { S->errors++; int i = slot(S->nerr, S->err, "worker killed by signal"); S->errcnt[i]++; } checkStop(); }
    return false;
}
static Z3_ast simp(Z3_ast a) { return Z3_simplify(Z, a); }
// Decide a symbolic condition on this path: returns the side taken (forking when both are feasible).
static bool branch(Z3_ast c) {
    c = simp(c); if (isTrue(c)) return true; if (isFalse(c)) return false;
    checkStop();
    { int q = ivDecide(c); if (q >= 0) return q == 1; }
    if (uniUsable(c)) { int q = uniDecide(c); if (q == 0 || q == 1) { S->uni_decided++; return q == 1; } if (q < 0) { int w = uniBoth(c); if ((w & 3) == 3) q = 2; else if ((w & 12) == 12) pathDone(true); else if (w & 12) { S->uni_decided++; return (w & 8) != 0; } if (q != 2 && getenv("QSX_UNIDBG")) { Atom t = uniAtom(c); fprintf(stderr, "[uni] open w=%d ok=%d var=%d", w, t.ok, t.f.var); if (t.ok && t.f.var >= 0) { Uni& u = (*g_unis)[t.f.var]; fprintf(stderr, " root=%u exact=%d rest=%zu lo=%.17g w=%g deg %zu %zu %zu", t.f.root, u.exact, u.rest.size(), u.lo.convert_to<double>(), Qn(u.hi - u.lo).convert_to<double>(), t.f.n0.size(), t.f.n1.size(), t.f.d.size()); if (u.exact) for (auto r : u.rest) { Atom x = uniAtom(r); fprintf(stderr, "\n      rest ok=%d root=%u %s", x.ok, x.f.root, Z3_ast_to_string(Z, r)); } } fprintf(stderr, " %s\n", Z3_ast_to_string(Z, c)); } } if (q == 2) { S->uni_decided++; Z3_ast nc = simp(mkNot(c)); bool ch = forkPath(); addPC(ch ? nc : c); g_wit_ok = false; g_model_ok = false; return !ch; } }
    if (ivUsable(c) && ivAllReal()) { // feasibility of both sides by interval witnesses and branch-and-prune
        Z3_ast nc = simp(mkNot(c)); IvBox p1, p2; bool w1 = false, w2 = false;
        if (!g_wit_ok || g_wit.n != g_ivb.n) g_wit_ok = ivPoint(nullptr, g_wit);
        if (g_wit_ok) { IvEval e(g_wit); int v = e.bo(c); if (v == 1) { w1 = true; p1 = g_wit; } else if (v == 0) { w2 = true; p2 = g_wit; } }
        if (!w1) w1 = ivPoint(c, p1); if (!w2) w2 = ivPoint(nc, p2);
        if (w1 && !w2 && ivUnsat(nc)) return true; if (w2 && !w1 && ivUnsat(c)) return false;
        if (w1 && w2) { S->iv_decided++; if (forkPath()) { addPC(nc); g_wit = p2; g_wit_ok = true; g_model_ok = false; return false; } addPC(c); g_wit = p1; g_wit_ok = true; g_model_ok = false; return true; }
        if (w1 || w2) { // the other side is open: only that one is asked for
            Z3_model m2 = nullptr; Z3_ast o = w1 ? nc : c; Z3_lbool r = query({o}, false, &m2); if (r == Z3_L_FALSE) return w1;
            if (forkPath()) { addPC(o); g_wit_ok = false; if (r == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } else g_model_ok = false; return !w1; } addPC(w1 ? c : nc); g_wit = w1 ? p1 : p2; g_wit_ok = true; g_model_ok = false; return w1; }
    }
    int e = g_model_ok ? evalUnder(g_model, c) : -1;
    Z3_ast nc = simp(mkNot(c));
    if (e == 1) { S->q_cachehit++; Z3_model m2 = nullptr; Z3_lbool r = query({nc}, false, &m2); if (r == Z3_L_FALSE) return true;
        if (forkPath()) { addPC(nc); if (r == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } else g_model_ok = false; return false; } addPC(c); return true; }
    if (e == 0) { S->q_cachehit++; Z3_model m2 = nullptr; Z3_lbool r = query({c}, false, &m2); if (r == Z3_L_FALSE) return false;
        if (forkPath()) { addPC(c); if (r == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } else g_model_ok = false; return true; } addPC(nc); return false; }
    Z3_model m1 = nullptr, m2 = nullptr; Z3_lbool r1 = query({c}, false, &m1), r2 = query({nc}, false, &m2);
    if (r1 == Z3_L_FALSE && r2 == Z3_L_FALSE) pathDone(true);
    if (r1 == Z3_L_FALSE) { addPC(nc); if (r2 == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } return false; }
    if (r2 == Z3_L_FALSE) { addPC(c); if (r1 == Z3_L_TRUE) { g_model = m1; g_model_ok = true; } return true; }
    if (forkPath()) { addPC(nc); if (r2 == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } else g_model_ok = false; return false; }
    addPC(c); if (r1 == Z3_L_TRUE) { g_model = m1; g_model_ok = true; } else g_model_ok = false; return true;
}
static size_t g_feas_unknown = 0; // size of the path condition when its satisfiability was not found out
static bool feasibleNow() { // is the current path condition satisfiable (used when the model is unknown)
    if (g_model_ok) return true; if (g_wit_ok && g_wit.n == g_ivb.n && ivAllReal()) return true; if (g_feas_unknown == g_pc->size() + 1) return true; if (ivPoint(nullptr, g_wit)) { g_wit_ok = true; return true; } std::vector<Z3_ast> cs = *g_pc; bool nl = false, bv = false, fp = false, ti = false; for (auto c : cs) { auto& I = infoOf(c); nl |= I.nonlin; bv |= I.bv; fp |= I.fp; ti |= I.toint; }
    static bool tq3 = getenv("QSX_TRACEC"); const double tt = now(); Z3_model m = nullptr; Z3_lbool r = runSolver(cs, nl, bv, fp, ti, g_rl_assert, g_uni && g_unis->size() == 1 && g_unis->begin()->second.exact ? std::min(g_ms_assert, 1000) : g_ms_assert, &m); if (tq3) fprintf(stderr, "\n[time] %.3f %d %zu feasible < . || .\n", now() - tt, (int)r, cs.size()); if (r == Z3_L_TRUE) { g_model = m; g_model_ok = true; } if (r == Z3_L_UNDEF) g_feas_unknown = g_pc->size() + 1; return r != Z3_L_FALSE;
}

// ------------------------------------------------------------------------------------------------ counterexamples
static double numeralToDouble(Z3_ast v, bool* ok) {
    *ok = true;
    if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) { // exact enough: decimal string with many digits -> strtod (correctly rounded for the printed digits)
        std::string s = Z3_get_numeral_string(Z, v); size_t p = s.find('/');
        if (p == std::string::npos) return strtod(s.c_str(), 0);
        std::string d = Z3_get_numeral_decimal_string(Z, v, 60); if (!d.empty() && d.back() == '?') d.pop_back(); return strtod(d.c_str(), 0);
    }
    if (Z3_is_algebraic_number(Z, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(Z, v, 30); return numeralToDouble(lo, ok); }
    *ok = false; return 0;
}
static double fpToDouble(Z3_ast v) { Z3_ast b = simp(Z3_mk_fpa_to_ieee_bv(Z, v)); uint64_t u = 0; Z3_get_numeral_uint64(Z, b, (uint64_t*)&u); double d; memcpy(&d, &u, 8); return d; }
static void writeCE(const char* label, const char* wherestr, std::vector<Z3_ast> extra, Z3_model m) {
    int id; { Lock l; id = S->nviol; if (id >= MAXVIOL) return; S->nviol = id + 1; }
    // make the witness replayable: greedily pin real inputs to short dyadic values
    std::vector<Z3_ast> pins = extra; Z3_model cur = m;
    for (size_t i = 0; i < g_vars->size(); i++) {
        Var& v = (*g_vars)[i]; if (v.kind != 0) continue; Z3_ast val = nullptr; if (cur) Z3_model_eval(Z, cur, v.a, true, &val); if (!val) continue; bool ok; double d = numeralToDouble(val, &ok); if (!ok) continue;
        bool pinned = false; for (int k : {2, 5, 10, 20, 36}) { for (int off : {0, 1, -1}) { double q = (std::round(std::ldexp(d, k)) + off) / std::ldexp(1.0, k); auto p2 = pins; p2.push_back(Z3_mk_eq(Z, v.a, realNum(q))); Z3_model m2 = nullptr; if (query(p2, false, &m2) == Z3_L_TRUE) { pins = p2; cur = m2; pinned = true; break; } } if (pinned) break; }
        if (g_deadline && now() > g_deadline - 1) break;
    }
    char fn[400]; snprintf(fn, sizeof fn, "%s.ce%d", g_out.c_str(), id); FILE* f = fopen(fn, "w"); if (!f) return;
    fprintf(f, "label %s\nwhere %s\n", label, wherestr);
    for (auto& a : g_args) fprintf(f, "arg %s %s\n", a.first.c_str(), a.second.c_str());
    for (auto& v : *g_vars) { if (v.kind == 3) continue; if (v.kind == 4) { fprintf(f, "int %s %" PRIu64 "\n", v.name.c_str(), (uint64_t)v.lo); continue; } Z3_ast val = nullptr; if (cur) Z3_model_eval(Z, cur, v.a, true, &val); double d = 0; bool ok = false;
        if (v.kind == 1) { uint64_t u = 0; if (val) Z3_get_numeral_uint64(Z, val, (uint64_t*)&u); fprintf(f, "int %s %" PRIu64 "\n", v.name.c_str(), u); }
        else { if (val) { if (v.kind == 0) d = numeralToDouble(val, &ok); else d = fpToDouble(val); } uint64_t b; memcpy(&b, &d, 8); fprintf(f, "real %s %016" PRIx64 " %.17g\n", v.name.c_str(), b, d); } }
    fclose(f);
    if (S->nviol >= g_maxviol) S->stop = 1;
}
static void violation(const char* label, std::vector<Z3_ast> extra, Z3_model m) { int i = slot(S->nass, S->ass, label); S->ass_sat[i]++; writeCE(label, where().c_str(), extra, m); }
[[noreturn]] static void fatalViolation(const char* fmt, ...) {
    char b[LBLLEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!feasibleNow()) pathDone(true);
    Z3_model fm = g_model_ok ? g_model : ivModel(nullptr);
    if (!fm) { int i = slot(S->nass, S->ass, b); S->ass_unk[i]++; pathDone(false); }
    violation(b, {}, fm); pathDone(false);
}

// ------------------------------------------------------------------------------------------------ term helpers
static Z3_ast toBool(const Val& v) { if (v.k == K_C) return (v.c & 1) ? Z3_mk_true(Z) : Z3_mk_false(Z); if (v.k == K_BOOL) return v.a; if (v.k == K_BV) { unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, v.a)); return Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, v.a), bvNum(1, 1)); (void)w; } if (v.k == K_UNDEF) return Z3_mk_false(Z); engineError("toBool kind %d", v.k); }
// The bytes of a symbolic real are an uninterpreted function of it: they can be moved, reordered and put together again.
static Z3_func_decl encDecl(unsigned w) { static Z3_func_decl d[2]; Z3_func_decl& f = d[w == 64]; if (!f) { f = Z3_mk_func_decl(Z, sym(w == 64 ? "bits64" : "bits32"), 1, &sReal, Z3_mk_bv_sort(Z, w)); Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, f)); } return f; }
static Z3_ast encR(Z3_ast r, unsigned w) { return Z3_mk_app(Z, encDecl(w), 1, &r); }
static Z3_ast decR(Z3_ast bv) { if (Z3_get_ast_kind(Z, bv) != Z3_APP_AST) return nullptr; Z3_app ap = Z3_to_app(Z, bv); Z3_func_decl d = Z3_get_app_decl(Z, ap); return Z3_get_app_num_args(Z, ap) == 1 && (d == encDecl(64) || d == encDecl(32)) ? Z3_get_app_arg(Z, ap, 0) : nullptr; }
static Z3_ast toBV(const Val& v, unsigned w) {
    if (v.k == K_C) return bvNum128(((u128)v.hi << 64) | v.c, w);
    if (v.k == K_BV) return v.a; if (v.k == K_BOOL) return Z3_mk_ite(Z, v.a, bvNum(1, w), bvNum(0, w)); if (v.k == K_UNDEF) return bvNum(0, w);
    if (v.k == K_F) return Z3_mk_fpa_to_ieee_bv(Z, v.a);
    if (v.k == K_R && (w == 64 || w == 32)) return encR(v.a, w);
    engineError("integer use of a symbolic real");
}
static Val BV(Z3_ast a, unsigned w) { a = simp(a); Val v; if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST && w <= 64) { uint64_t u; Z3_get_numeral_uint64(Z, a, (uint64_t*)&u); return C(u); } v.k = K_BV; v.a = a; return v; }
static Val BOOL(Z3_ast a) { a = simp(a); if (isTrue(a)) return C(1); if (isFalse(a)) return C(0); Val v; v.k = K_BOOL; v.a = a; return v; }
static Val RV(Z3_ast a) { Val v; v.k = K_R; v.a = a; return v; }
static Val FV(Z3_ast a) { Val v; v.k = K_F; v.a = a; return v; }
static double cd(const Val& v, bool f32) { return f32 ? (double)F32(v) : D(v); }
static Z3_ast toReal(const Val& v, bool f32) { if (v.k == K_R) return v.a; if (v.k == K_C) return realNum(cd(v, f32)); if (v.k == K_UNDEF) return realNum(0); engineError("toReal kind %d", v.k); }
static Z3_ast toFP(const Val& v, bool f32) { if (v.k == K_F) return v.a; if (v.k == K_C) { if (f32) return Z3_mk_fpa_numeral_float(Z, F32(v), sF32); uint64_t b = v.c; return simp(Z3_mk_fpa_to_fp_bv(Z, bvNum(b, 64), sF64)); } if (v.k == K_BV) return Z3_mk_fpa_to_fp_bv(Z, v.a, f32 ? sF32 : sF64); engineError("toFP kind %d", v.k); }
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sext64(uint64_t c, unsigned w) { return w >= 64 ? (int64_t)c : (int64_t)(c << (64 - w)) >> (64 - w); }

// enumerate (by forking) every feasible value of a symbolic bit-vector
static uint64_t concretize(const Val& v, unsigned w) {
    if (v.k == K_C) return v.c; if (v.k == K_UNDEF) return 0; S->concretized++;
    if (v.k == K_BOOL) return branch(v.a) ? 1 : 0;
    Z3_ast a = toBV(v, w);
    for (int n = 0; n < 64; n++) { // branch on the real conditions the value selects by, then simplify
        std::vector<Z3_ast> st{a}; std::set<unsigned> seen; Z3_ast cond = nullptr;
        while (!st.empty() && !cond) { Z3_ast t = st.back(); st.pop_back(); if (Z3_get_ast_kind(Z, t) != Z3_APP_AST || !seen.insert(Z3_get_ast_id(Z, t)).second) continue; Z3_app ap = Z3_to_app(Z, t);
            if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_ITE && infoOf(Z3_get_app_arg(Z, ap, 0)).real) cond = Z3_get_app_arg(Z, ap, 0); else for (unsigned i = 0; i < Z3_get_app_num_args(Z, ap); i++) st.push_back(Z3_get_app_arg(Z, ap, i)); }
        if (!cond) break; Z3_ast to = branch(cond) ? Z3_mk_true(Z) : Z3_mk_false(Z); a = simp(Z3_substitute(Z, a, 1, &cond, &to)); if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) { uint64_t u; if (Z3_get_numeral_uint64(Z, a, (uint64_t*)&u)) return u; }
    }
    for (int n = 0; n < 100000; n++) {
        if (!g_model_ok && !feasibleNow()) pathDone(true);
        if (!g_model_ok) engineError("concretize: no model");
        Z3_ast val; Z3_model_eval(Z, g_model, a, true, &val); val = simp(val); uint64_t u; if (!Z3_get_numeral_uint64(Z, val, (uint64_t*)&u)) engineError("concretize: no numeral");
        if (branch(Z3_mk_eq(Z, a, bvNum(u, w)))) return u;
    }
    engineError("concretize: too many values");
}
static bool g_i2r = false;   // -i2r: integer-to-real conversions stay symbolic
static int64_t concretizeFloor(Z3_ast r, bool trunc) { // floor (or trunc toward zero) of a symbolic real, enumerated by forking
    S->concretized++;
    for (int n = 0; n < 100000; n++) {
        if (!g_model_ok && !feasibleNow()) pathDone(true); if (!g_model_ok) engineError("floor: no model");
        Z3_ast val; Z3_model_eval(Z, g_model, r, true, &val); val = simp(val); bool ok; double d = numeralToDouble(val, &ok); if (!ok) engineError("floor: value"); double fl = trunc ? std::trunc(d) : std::floor(d);
        Z3_ast c; if (!trunc || fl > 0) { Z3_ast a2[2] = {Z3_mk_ge(Z, r, realNum(fl)), Z3_mk_lt(Z, r, realNum(fl + 1))}; c = Z3_mk_and(Z, 2, a2); } else if (fl < 0) { Z3_ast a2[2] = {Z3_mk_le(Z, r, realNum(fl)), Z3_mk_gt(Z, r, realNum(fl - 1))}; c = Z3_mk_and(Z, 2, a2); } else { Z3_ast a2[2] = {Z3_mk_gt(Z, r, realNum(-1)), Z3_mk_lt(Z, r, realNum(1))}; c = Z3_mk_and(Z, 2, a2); }
        if (branch(c)) return (int64_t)fl;
        }
    engineError("floor: too many values");
}

// ------------------------------------------------------------------------------------------------ program representation
static Module* M; static const DataLayout* DL;
struct Op { int slot = -1; Val v; };
struct FnInfo;
struct IInst { Instruction* I; unsigned opc; int dst = -1; std::vector<Op> ops; unsigned w = 0; bool f32 = false; bool isfp = false; uint64_t off = 0; std::vector<std::pair<int, uint64_t>> scaled; int t1 = -1, t2 = -1; Type* ty = nullptr; Function* callee = nullptr; FnInfo* fi = nullptr; int builtin = -2; void* native = nullptr; };
struct Phi { int dst; std::unordered_map<int, Op> in; };
struct BBInfo { std::vector<Phi> phis; std::vector<IInst> insts; };
struct FnInfo { Function* F; std::vector<BBInfo> bbs; std::unordered_map<const BasicBlock*, int> bbid; std::unordered_map<const Value*, int> slots; int nslots = 0; int id = 0; bool built = false; std::string name; int harness = -1; };
static std::unordered_map<const Function*, FnInfo*>* g_fns; static std::unordered_map<const GlobalValue*, uint64_t>* g_gaddr; static std::unordered_map<uint64_t, Function*>* g_faddr;
static std::vector<std::string>* g_fnnames;

struct Frame { FnInfo* fn; std::vector<Val> regs; int bb = 0, pc = 0, prev = -1; std::vector<Obj*> allocas; std::vector<Val> varargs; };
static std::vector<Frame>* g_st; static long g_icount = 0, g_iflushed = 0;
static void flushInstr() { S->instrs += g_icount - g_iflushed; g_iflushed = g_icount; }
static std::string where() {
    std::string r; if (!g_st) return r; int n = 0;
    for (auto it = g_st->rbegin(); it != g_st->rend() && n < 6; ++it) { int pc = it->pc - 1; if (pc < 0) pc = 0; if (it->bb < (int)it->fn->bbs.size() && pc < (int)it->fn->bbs[it->bb].insts.size()) { auto* I = it->fn->bbs[it->bb].insts[pc].I; std::string nm = demangle(it->fn->F->getName().str()); size_t p = nm.find('('); if (p != std::string::npos) nm = nm.substr(0, p); if (nm.size() > 60) nm = nm.substr(0, 60); r += (n ? " < " : "") + nm; if (auto& dl = I->getDebugLoc()) { const DILocation* L = dl.get(); r += ":" + std::to_string(L->getLine()); } n++; } }
    return r;
}

static Val constVal(Constant* c);
static uint64_t gaddr(GlobalValue* g) {
    auto it = g_gaddr->find(g); if (it != g_gaddr->end()) return it->second;
    if (auto* ga = dyn_cast<GlobalAlias>(g)) { uint64_t a = constVal(ga->getAliasee()).c; (*g_gaddr)[g] = a; return a; }
    if (auto* f = dyn_cast<Function>(g)) { uint64_t a = 0; if (f->isDeclaration()) a = (uint64_t)dlsym(RTLD_DEFAULT, f->getName().str().c_str()); if (!a) a = (uint64_t)calloc(1, 16); (*g_gaddr)[g] = a; (*g_faddr)[a] = f; return a; }
    engineError("global without address: %s", g->getName().str().c_str());
}
static Val constVal(Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { Val v; v.k = K_C; const APInt& a = ci->getValue(); v.c = a.getRawData()[0]; v.hi = a.getNumWords() > 1 ? a.getRawData()[1] : 0; return v; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { Val v = C(cf->getValueAPF().bitcastToAPInt().getRawData()[0]); return v; }
    if (isa<ConstantPointerNull>(c)) return C(0);
    if (isa<UndefValue>(c)) { if (c->getType()->isStructTy() || c->getType()->isArrayTy() || c->getType()->isVectorTy()) { Val v; v.k = K_AGG; v.agg = new std::vector<Val>(); unsigned n = isa<StructType>(c->getType()) ? c->getType()->getStructNumElements() : isa<ArrayType>(c->getType()) ? c->getType()->getArrayNumElements() : cast<FixedVectorType>(c->getType())->getNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(cast<UndefValue>(c)->getElementValue(i))); return v; } return C(0); }
    if (auto* gv = dyn_cast<GlobalValue>(c)) return C(gaddr(gv));
    if (c->getType()->isStructTy() || c->getType()->isArrayTy() || c->getType()->isVectorTy()) {
        Val v; v.k = K_AGG; v.agg = new std::vector<Val>(); unsigned n = isa<StructType>(c->getType()) ? c->getType()->getStructNumElements() : isa<ArrayType>(c->getType()) ? c->getType()->getArrayNumElements() : cast<FixedVectorType>(c->getType())->getNumElements();
        for (unsigned i = 0; i < n; i++) { Constant* e = c->getAggregateElement(i); if (!e) engineError("agg const"); v.agg->push_back(constVal(e)); } return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) engineError("const gep"); return C(b.c + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
        case Instruction::Sub: return C(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        case Instruction::Add: return C(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::Trunc: return C(constVal(ce->getOperand(0)).c & maskw(ce->getType()->getIntegerBitWidth()));
        default: engineError("const expr opcode %u", ce->getOpcode());
        }
    }
    engineError("constant kind");
}
static void initConst(uint64_t at, Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) { memset((void*)at, 0, DL->getTypeStoreSize(t)); return; }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy((void*)at, r.data(), r.size()); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(at + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto* arr = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(arr->getElementType()); for (unsigned i = 0; i < arr->getNumElements(); i++) initConst(at + i * es, c->getAggregateElement(i)); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initConst(at + i * es, c->getAggregateElement(i)); return; }
    Val v = constVal(c); uint64_t n = DL->getTypeStoreSize(t); memcpy((void*)at, &v.c, std::min<uint64_t>(n, 8)); if (n > 8) memcpy((void*)(at + 8), &v.hi, n - 8);
}

static int builtinId(const std::string& n);
static FnInfo* fnInfo(Function* F) { auto it = g_fns->find(F); if (it != g_fns->end()) return it->second; FnInfo* fi = new FnInfo(); fi->F = F; fi->id = g_fns->size(); (*g_fns)[F] = fi; return fi; }
static Op mkOp(FnInfo* fi, Value* v) { Op o; if (auto* c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; } if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o; o.slot = fi->slots.at(v); return o; }
static void build(FnInfo* fi) {
    if (fi->built) return; fi->built = true; Function* F = fi->F;
    for (auto& a : F->args()) fi->slots[&a] = fi->nslots++;
    for (auto& bb : *F) { int k = fi->bbid.size(); fi->bbid[&bb] = k; for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->slots[&i] = fi->nslots++; }
    fi->bbs.resize(F->size());
    for (auto& bb : *F) {
        BBInfo& B = fi->bbs[fi->bbid[&bb]];
        for (auto& i : bb) {
            if (auto* p = dyn_cast<PHINode>(&i)) { Phi ph; ph.dst = fi->slots[p]; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph.in[fi->bbid[p->getIncomingBlock(k)]] = mkOp(fi, p->getIncomingValue(k)); B.phis.push_back(std::move(ph)); continue; }
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::donothing || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch || id == Intrinsic::var_annotation) { if (id != Intrinsic::invariant_start) continue; } }
            IInst x; x.I = &i; x.opc = i.getOpcode(); x.ty = i.getType(); if (!i.getType()->isVoidTy()) x.dst = fi->slots[&i];
            Type* st = i.getType(); if (i.getNumOperands() && (isa<CmpInst>(i) || isa<StoreInst>(i) || isa<CastInst>(i))) st = i.getOperand(0)->getType();
            if (st->isIntegerTy()) x.w = st->getIntegerBitWidth(); else if (st->isPointerTy()) x.w = 64; else if (st->isFloatTy()) { x.w = 32; x.f32 = true; x.isfp = true; } else if (st->isDoubleTy()) { x.w = 64; x.isfp = true; }
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                for (auto& a : cb->args()) x.ops.push_back(mkOp(fi, a.get()));
                x.ops.push_back(mkOp(fi, cb->getCalledOperand())); x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (auto* inv = dyn_cast<InvokeInst>(cb)) { x.t1 = fi->bbid[inv->getNormalDest()]; x.t2 = fi->bbid[inv->getUnwindDest()]; }
                if (x.callee) x.builtin = builtinId(x.callee->getName().str());
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
                x.ops.push_back(mkOp(fi, gep->getPointerOperand()));
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) { Value* idx = gi.getOperand(); if (auto* st2 = gi.getStructTypeOrNull()) x.off += DL->getStructLayout(st2)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) x.off += ci->getSExtValue() * sz; else { x.scaled.push_back({(int)x.ops.size(), sz}); x.ops.push_back(mkOp(fi, idx)); x.w = idx->getType()->getIntegerBitWidth(); } } }
            } else if (auto* br = dyn_cast<BranchInst>(&i)) { x.t1 = fi->bbid[br->getSuccessor(0)]; if (br->isConditional()) { x.ops.push_back(mkOp(fi, br->getCondition())); x.t2 = fi->bbid[br->getSuccessor(1)]; } }
            else if (auto* sw = dyn_cast<SwitchInst>(&i)) { x.ops.push_back(mkOp(fi, sw->getCondition())); x.w = sw->getCondition()->getType()->getIntegerBitWidth(); }
            else for (auto& o : i.operands()) x.ops.push_back(mkOp(fi, o.get()));
            B.insts.push_back(std::move(x));
        }
    }
}

// ------------------------------------------------------------------------------------------------ memory access
static void clearSym(Obj* o, uint64_t off, uint64_t n);
static bool hasSym(Obj* o, uint64_t off, uint64_t n) { if (!o->mask) return false; for (uint64_t i = 0; i < n; i++) if ((*o->mask)[off + i]) return true; return false; }
static Val readBytesBV(Obj* o, uint64_t off, uint64_t n);
static void clearSym(Obj* o, uint64_t off, uint64_t n) {
    if (!hasSym(o, off, n)) return;
    auto it = o->cells->lower_bound(off > 16 ? off - 16 : 0);
    while (it != o->cells->end() && it->first < off + n) {
        uint64_t b = it->first, e = b + it->second.size; if (e <= off) { ++it; continue; }
        Cell cc = it->second; it = o->cells->erase(it);
        for (uint64_t i = b; i < e; i++) (*o->mask)[i] = 0;
        if (b < off || e > off + n) { // partial overwrite: keep the remaining bytes
                        Z3_ast bv = toBV(cc.v, cc.size * 8); for (uint64_t i = b; i < e; i++) if (i < off || i >= off + n) { Val bb = BV(Z3_mk_extract(Z, (i - b) * 8 + 7, (i - b) * 8, bv), 8); if (bb.k == K_C) *(uint8_t*)(o->base + i) = bb.c; else { (*o->cells)[i] = {bb, 1}; (*o->mask)[i] = 1; } }
            it = o->cells->lower_bound(off);
        }
    }
}
static Val readBytesBV(Obj* o, uint64_t off, uint64_t n) {
    Z3_ast r = nullptr; for (uint64_t i = 0; i < n; i++) { Z3_ast b; uint64_t p = off + i; if (!(*o->mask)[p]) b = bvNum(*(uint8_t*)(o->base + p), 8); else { auto it = o->cells->upper_bound(p); --it; Cell& c = it->second; b = Z3_mk_extract(Z, (p - it->first) * 8 + 7, (p - it->first) * 8, toBV(c.v, c.size * 8)); } r = r ? Z3_mk_concat(Z, b, r) : b; }
    return BV(r, n * 8);
}
// data races between the threads of a scheduled parallel region (harness/omp_rt.cpp)
static bool harnessFrame(); static Race g_race; static bool g_atomic = false;
static void raceAccess(Obj* o, uint64_t a, uint64_t n, bool wr) {
    if (!o || harnessFrame()) return; if (!o->sh) o->sh = (RaceByte*)calloc(o->size ? o->size : 1, sizeof(RaceByte));
    for (uint64_t i = a - o->base; i < a - o->base + n; i++) if (g_race.access(o->sh[i], wr, g_atomic)) fatalViolation("data race: unsynchronised accesses of two threads to the same memory");
}
static Obj* access(uint64_t a, uint64_t n, bool wr) {
    Obj* o = findObj(a);
    if (!o) { if (a > 4096 && foreignOk(a, n)) return nullptr; fatalViolation("memory: invalid %s of %" PRIu64 " bytes%s", wr ? "write" : "read", n, a < 4096 ? " (null)" : ""); }
    if (a + n > o->base + o->size) fatalViolation("memory: out-of-bounds %s (%s object of %" PRIu64 " bytes)", wr ? "write" : "read", o->kind, o->size);
    if (wr && o->ro) fatalViolation("memory: write to constant");
    if (g_race.on && !o->ro) raceAccess(o, a, n, wr);
    return o;
}
static unsigned typeWidth(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; engineError("typeWidth"); }
static Val loadVal(uint64_t a, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { Val v; v.k = K_AGG; v.agg = new std::vector<Val>(); auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadVal(a + sl->getElementOffset(i), st->getElementType(i))); return v; }
    if (auto* ar = dyn_cast<ArrayType>(t)) { Val v; v.k = K_AGG; v.agg = new std::vector<Val>(); uint64_t es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) v.agg->push_back(loadVal(a + i * es, ar->getElementType())); return v; }
    if (auto* ar = dyn_cast<FixedVectorType>(t)) { Val v; v.k = K_AGG; v.agg = new std::vector<Val>(); uint64_t es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) v.agg->push_back(loadVal(a + i * es, ar->getElementType())); return v; }
    uint64_t n = DL->getTypeStoreSize(t); Obj* o = access(a, n, false);
    if (o && o->mask && hasSym(o, a - o->base, n)) {
        auto it = o->cells->find(a - o->base); if (it != o->cells->end() && it->second.size == n) { Val v = it->second.v; unsigned w = typeWidth(t); if (t->isIntegerTy() && v.k == K_BV && w < n * 8) return BV(Z3_mk_extract(Z, w - 1, 0, v.a), w); if (t->isIntegerTy() && v.k == K_F) return BV(Z3_mk_fpa_to_ieee_bv(Z, v.a), w); if ((t->isDoubleTy() || t->isFloatTy()) && v.k == K_BV) if (Z3_ast q = decR(v.a)) return RV(q); else return FV(Z3_mk_fpa_to_fp_bv(Z, v.a, t->isFloatTy() ? sF32 : sF64)); return v; }
        Val v = readBytesBV(o, a - o->base, n); if (t->isDoubleTy() || t->isFloatTy()) { if (v.k == K_BV) if (Z3_ast q = decR(v.a)) return RV(q); else return FV(Z3_mk_fpa_to_fp_bv(Z, v.a, t->isFloatTy() ? sF32 : sF64)); } return v;
    }
    Val v = C(0); if (n <= 8) memcpy(&v.c, (void*)a, n); else { memcpy(&v.c, (void*)a, 8); memcpy(&v.hi, (void*)(a + 8), n - 8); }
    if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) v.c &= maskw(t->getIntegerBitWidth()); return v;
}
static void storeVal(uint64_t a, Type* t, const Val& v) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(a + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]); return; }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) { Type* et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < v.agg->size(); i++) storeVal(a + i * es, et, (*v.agg)[i]); return; }
    uint64_t n = DL->getTypeStoreSize(t); Obj* o = access(a, n, true);
    if (o && o->mask) clearSym(o, a - o->base, n);
    if (v.k == K_C || v.k == K_UNDEF) { if (n <= 8) memcpy((void*)a, &v.c, n); else { memcpy((void*)a, &v.c, 8); memcpy((void*)(a + 8), &v.hi, n - 8); } return; }
    if (!o) engineError("symbolic store to foreign memory");
    if (!o->mask) { o->mask = new std::vector<uint8_t>(o->size, 0); o->cells = new std::map<uint64_t, Cell>(); }
    Val s = v; unsigned w = typeWidth(t); if (v.k == K_BV && w < n * 8) s = BV(Z3_mk_zero_ext(Z, n * 8 - w, v.a), n * 8);
    (*o->cells)[a - o->base] = {s, (uint32_t)n}; for (uint64_t i = 0; i < n; i++) (*o->mask)[a - o->base + i] = 1;
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return; Obj* so = access(s, n, false); Obj* dob = access(d, n, true); std::vector<std::pair<uint64_t, Cell>> cs;
    if (so && so->mask && hasSym(so, s - so->base, n)) { uint64_t off = s - so->base; for (auto it = so->cells->lower_bound(off > 16 ? off - 16 : 0); it != so->cells->end() && it->first < off + n; ++it) { uint64_t b = it->first, e = b + it->second.size; if (e <= off) continue; if (b >= off && e <= off + n) cs.push_back({b - off, it->second}); else { for (uint64_t i = std::max(b, off); i < std::min(e, off + n); i++) cs.push_back({i - off, Cell{readBytesBV(so, i, 1), 1}}); } } }
    if (dob && dob->mask) clearSym(dob, d - dob->base, n);
    memmove((void*)d, (void*)s, n);
    if (!cs.empty()) { if (!dob) engineError("symbolic copy to foreign memory"); if (!dob->mask) { dob->mask = new std::vector<uint8_t>(dob->size, 0); dob->cells = new std::map<uint64_t, Cell>(); } for (auto& c : cs) { if (c.second.v.k == K_C) { memcpy((void*)(d + c.first), &c.second.v.c, c.second.size); continue; } (*dob->cells)[d - dob->base + c.first] = c.second; for (uint64_t i = 0; i < c.second.size; i++) (*dob->mask)[d - dob->base + c.first + i] = 1; } }
}
static std::string cstr(uint64_t a) { Obj* o = findObj(a); (void)o; return std::string((const char*)a); }

// ------------------------------------------------------------------------------------------------ floating point
static bool isSymFP(const Val& v) { return v.k == K_R || v.k == K_F || v.k == K_BV; }
static Val mkConcFP(double d, bool f32) { return f32 ? CF((float)d) : CD(d); }
static int realSign(Z3_ast r) { if (branch(Z3_mk_gt(Z, r, realNum(0)))) return 1; if (branch(Z3_mk_eq(Z, r, realNum(0)))) return 0; return -1; }
static bool isNumAst(Z3_ast a) { return Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST; }
static Val wrapR(Z3_ast a, bool f32) { (void)f32; return RV(a); }
static std::unordered_map<unsigned, char>* g_sqrtpos;
static bool harnessFrame(); static void clearRootMemo();
static Val fpBin(unsigned opc, const Val& a, const Val& b, bool f32) {
    if (a.k == K_C && b.k == K_C) {
        if (f32) { float x = F32(a), y = F32(b); switch (opc) { case Instruction::FAdd: return CF(x + y); case Instruction::FSub: return CF(x - y); case Instruction::FMul: return CF(x * y); case Instruction::FDiv: return CF(x / y); case Instruction::FRem: return CF(fmodf(x, y)); } }
        double x = D(a), y = D(b); switch (opc) { case Instruction::FAdd: return CD(x + y); case Instruction::FSub: return CD(x - y); case Instruction::FMul: return CD(x * y); case Instruction::FDiv: return CD(x / y); case Instruction::FRem: return CD(fmod(x, y)); }
    }
    S->symfp++;
    if (a.k == K_F || b.k == K_F || a.k == K_BV || b.k == K_BV) { Z3_ast x = toFP(a, f32), y = toFP(b, f32); switch (opc) { case Instruction::FAdd: return FV(Z3_mk_fpa_add(Z, rmRNE, x, y)); case Instruction::FSub: return FV(Z3_mk_fpa_sub(Z, rmRNE, x, y)); case Instruction::FMul: return FV(Z3_mk_fpa_mul(Z, rmRNE, x, y)); case Instruction::FDiv: return FV(Z3_mk_fpa_div(Z, rmRNE, x, y)); } engineError("frem fp"); }
    const Val* cc = a.k == K_C ? &a : b.k == K_C ? &b : nullptr;
    if (cc) { double d = cd(*cc, f32); Z3_ast r = a.k == K_C ? b.a : a.a;
        if (std::isnan(d)) return *cc;
        if (std::isinf(d)) { switch (opc) { case Instruction::FAdd: return *cc; case Instruction::FSub: return cc == &a ? *cc : mkConcFP(-d, f32); case Instruction::FMul: { int s = realSign(r); return s == 0 ? mkConcFP(NAN, f32) : mkConcFP(s * d, f32); } case Instruction::FDiv: if (cc == &b) return mkConcFP(0.0, f32); else { int s = realSign(r); return mkConcFP(s < 0 ? -d : d, f32); } } }
        if (d == 0) { if (opc == Instruction::FMul) return mkConcFP(0.0, f32); if (opc == Instruction::FAdd) return RV(r); if (opc == Instruction::FSub) return cc == &b ? RV(r) : RV(simp(Z3_mk_unary_minus(Z, r))); if (opc == Instruction::FDiv) { if (cc == &b) { int s = realSign(r); return mkConcFP(s == 0 ? NAN : (std::signbit(d) ? -s : s) * INFINITY, f32); } if (branch(Z3_mk_eq(Z, r, realNum(0)))) return mkConcFP(NAN, f32); return mkConcFP(0.0, f32); } }
        if (d == 1 && (opc == Instruction::FMul || (opc == Instruction::FDiv && cc == &b))) return RV(r);
    }
    Z3_ast x = toReal(a, f32), y = toReal(b, f32); Z3_ast xs[2] = {x, y};
    switch (opc) {
    case Instruction::FAdd: return RV(simp(Z3_mk_add(Z, 2, xs)));
    case Instruction::FSub: return RV(simp(Z3_mk_sub(Z, 2, xs)));
    case Instruction::FMul: return RV(simp(Z3_mk_mul(Z, 2, xs)));
    case Instruction::FDiv: {
        if (!isNumAst(y)) { if (branch(Z3_mk_eq(Z, y, realNum(0)))) { int s = a.k == K_C ? (cd(a, f32) > 0) - (cd(a, f32) < 0) : realSign(x); return mkConcFP(s == 0 ? NAN : s * INFINITY, f32); } }
        { auto sv = g_sqrtdef->find(Z3_get_ast_id(Z, y)); if (sv != g_sqrtdef->end()) if (!g_sqrtpos->count(Z3_get_ast_id(Z, y))) { (*g_sqrtpos)[Z3_get_ast_id(Z, y)] = 1; clearRootMemo(); } } // a root that is not zero is positive
        if (Z3_get_ast_kind(Z, y) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, y))) == Z3_OP_DIV) { Z3_ast den = Z3_get_app_arg(Z, Z3_to_app(Z, y), 1); if (g_sqrtpos->count(Z3_get_ast_id(Z, den))) { Z3_ast ps[2] = {x, den}; return RV(simp(Z3_mk_div(Z, simp(Z3_mk_mul(Z, 2, ps)), Z3_get_app_arg(Z, Z3_to_app(Z, y), 0)))); } }
        return RV(simp(Z3_mk_div(Z, x, y)));
    }
    }
    engineError("fp op %u", opc);
}
typedef std::map<unsigned, std::pair<Z3_ast, int>> RootPow;
static std::unordered_map<unsigned, std::pair<Z3_ast, RootPow>>* g_rpmemo;
// t = r * product of positive roots^k
static std::pair<Z3_ast, RootPow> rootParts(Z3_ast t) {
    unsigned id = Z3_get_ast_id(Z, t); auto it = g_rpmemo->find(id); if (it != g_rpmemo->end()) return it->second; std::pair<Z3_ast, RootPow> res{t, {}};
    if (Z3_get_ast_kind(Z, t) == Z3_APP_AST) { Z3_app ap = Z3_to_app(Z, t); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
        if (k == 0) { if (g_sqrtpos->count(id)) { res.first = realNum(1); res.second[id] = {t, 1}; } }
        else switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
        case Z3_OP_MUL: { std::vector<Z3_ast> f; RootPow p; for (unsigned i = 0; i < k; i++) { auto c = rootParts(A(i)); f.push_back(c.first); for (auto& q : c.second) { auto& e = p[q.first]; e.first = q.second.first; e.second += q.second.second; } } if (!p.empty()) { res.first = simp(Z3_mk_mul(Z, f.size(), f.data())); res.second = p; } break; }
        case Z3_OP_UMINUS: { auto c = rootParts(A(0)); if (!c.second.empty()) { res.first = simp(Z3_mk_unary_minus(Z, c.first)); res.second = c.second; } break; }
        case Z3_OP_DIV: { auto c = rootParts(A(0)), d = rootParts(A(1)); RootPow p = c.second; for (auto& q : d.second) { auto& e = p[q.first]; e.first = q.second.first; e.second -= q.second.second; } if (!c.second.empty() || !d.second.empty()) { res.first = simp(Z3_mk_div(Z, c.first, d.first)); res.second = p; } break; }
        case Z3_OP_ADD: { auto c = rootParts(A(0)); if (c.second.empty()) break; std::vector<Z3_ast> f{c.first}; bool same = true; for (unsigned i = 1; i < k && same; i++) { auto d = rootParts(A(i)); if (d.second != c.second) same = false; f.push_back(d.first); } if (same) { res.first = simp(Z3_mk_add(Z, f.size(), f.data())); res.second = c.second; } break; }
        default: break; } }
    for (auto i2 = res.second.begin(); i2 != res.second.end();) if (i2->second.second == 0) i2 = res.second.erase(i2); else ++i2;
    (*g_rpmemo)[id] = res; return res;
}
static void clearRootMemo() { g_rpmemo->clear(); }
static bool isZeroAst(Z3_ast a) { int64_t p, q; return Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST && Z3_get_numeral_rational_int64(Z, a, &p, &q) && p == 0; }
static void cancelRoots(Z3_ast& x, Z3_ast& y) { if (g_sqrtpos->empty()) return; auto a = rootParts(x), b = rootParts(y); if (a.second.empty() && b.second.empty()) { if (a.first != x) x = a.first; if (b.first != y) y = b.first; return; } if (isZeroAst(y) || isZeroAst(x) || a.second == b.second) { x = a.first; y = b.first; } }
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b, bool f32) {
    if (p == CmpInst::FCMP_TRUE) return C(1); if (p == CmpInst::FCMP_FALSE) return C(0);
    if (a.k == K_C && b.k == K_C) { double x = cd(a, f32), y = cd(b, f32); bool un = std::isnan(x) || std::isnan(y); switch (p) {
        case CmpInst::FCMP_OEQ: return C(!un && x == y); case CmpInst::FCMP_OGT: return C(!un && x > y); case CmpInst::FCMP_OGE: return C(!un && x >= y); case CmpInst::FCMP_OLT: return C(!un && x < y); case CmpInst::FCMP_OLE: return C(!un && x <= y); case CmpInst::FCMP_ONE: return C(!un && x != y); case CmpInst::FCMP_ORD: return C(!un); case CmpInst::FCMP_UNO: return C(un); case CmpInst::FCMP_UEQ: return C(un || x == y); case CmpInst::FCMP_UGT: return C(un || x > y); case CmpInst::FCMP_UGE: return C(un || x >= y); case CmpInst::FCMP_ULT: return C(un || x < y); case CmpInst::FCMP_ULE: return C(un || x <= y); case CmpInst::FCMP_UNE: return C(un || x != y); default: break; } }
    S->symfp++;
    bool unord = CmpInst::isUnordered(p);
    if (a.k == K_F || b.k == K_F || a.k == K_BV || b.k == K_BV) { Z3_ast x = toFP(a, f32), y = toFP(b, f32); Z3_ast nn[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)}; Z3_ast un = Z3_mk_or(Z, 2, nn); Z3_ast r;
        switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(Z, x, y); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(Z, x, y); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(Z, x, y); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(Z, x, y); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(Z, x, y); break; case CmpInst::FCMP_ORD: return BOOL(mkNot(un)); case CmpInst::FCMP_UNO: return BOOL(un); case CmpInst::FCMP_ONE: { Z3_ast q[2] = {mkNot(Z3_mk_fpa_eq(Z, x, y)), mkNot(un)}; return BOOL(Z3_mk_and(Z, 2, q)); } case CmpInst::FCMP_UNE: return BOOL(mkNot(Z3_mk_fpa_eq(Z, x, y))); default: engineError("fcmp"); }
        if (unord) { Z3_ast q[2] = {r, un}; r = Z3_mk_or(Z, 2, q); } return BOOL(r); }
    if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_UNO) { bool un = (a.k == K_C && std::isnan(cd(a, f32))) || (b.k == K_C && std::isnan(cd(b, f32))); return C((p == CmpInst::FCMP_UNO) == un); }
    const Val* cc = a.k == K_C ? &a : b.k == K_C ? &b : nullptr;
    if (cc) { double d = cd(*cc, f32); if (std::isnan(d)) return C(unord); if (std::isinf(d)) { double other = 0; double x = cc == &a ? d : other, y = cc == &a ? other : d; return fcmp(p, mkConcFP(x, f32), mkConcFP(y, f32), f32); } }
    Z3_ast x = toReal(a, f32), y = toReal(b, f32);
    cancelRoots(x, y); Z3_ast rr; switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: rr = (Z3_mk_eq(Z, x, y)); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: rr = (mkNot(Z3_mk_eq(Z, x, y))); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: rr = (Z3_mk_gt(Z, x, y)); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: rr = (Z3_mk_ge(Z, x, y)); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: rr = (Z3_mk_lt(Z, x, y)); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: rr = (Z3_mk_le(Z, x, y)); break; default: engineError("fcmp pred"); }
    Val rv = BOOL(rr); if (rv.k == K_BOOL && !harnessFrame()) { int q = ivDecide0(rv.a); if (q >= 0) return C(q); if (uniUsable(rv.a)) { q = uniDecide(rv.a); if (q == 0 || q == 1) { S->uni_decided++; return C(q); } } } return rv;
}
static int g_auxno = 0;
static void addVar(const char* name, Z3_ast a, int kind, double lo, double hi) { (*g_varidx)[Z3_get_ast_id(Z, a)] = g_vars->size(); g_vars->push_back({name, a, kind, lo, hi}); if (kind == 0 && std::isfinite(lo) && std::isfinite(hi)) { if (g_ivb.n < IVN) { g_ivb.var[g_ivb.n] = (int)g_vars->size() - 1; g_ivb.b[g_ivb.n] = {lo, hi}; g_ivb.n++; g_ivcur.reset(); } Uni u; u.var = (int)g_vars->size() - 1; u.lo = Qn(lo); u.hi = Qn(hi); g_unis->emplace(u.var, u); } }
static void extendModel() { // after new constraints were added without a model for them
    g_model_ok = false; }
static std::unordered_map<unsigned, Z3_ast>* g_sqrt;
static Z3_ast qAst(const Qn& q) { return Z3_mk_numeral(Z, (numerator(q).str() + "/" + denominator(q).str()).c_str(), sReal); }
static Z3_ast polyAst(const Poly& p, Z3_ast v) { Z3_ast r = qAst(p.empty() ? Qn(0) : p.back()); for (size_t i = p.size(); i-- > 1;) { Z3_ast m[2] = {r, v}; Z3_ast t[2] = {qAst(p[i - 1]), Z3_mk_mul(Z, 2, m)}; r = simp(Z3_mk_add(Z, 2, t)); } return r; }
static bool qRoot(const Qn& q, Qn& r) { Zn a = sqrt(numerator(q)), b = sqrt(denominator(q)); if (a * a != numerator(q) || b * b != denominator(q)) return false; r = Qn(a, b); return true; }
static bool pSquare(const Poly& p, Poly& q, Qn& c) { // p = c * q^2 with q monic
    if (p.size() % 2 == 0) return false; c = p.back(); const size_t m = p.size() / 2; q.assign(m + 1, Qn(0)); q[m] = 1;
    for (size_t i = 1; i <= m; i++) { Qn s = p[2 * m - i] / c; for (size_t j = 1; j < i; j++) s -= q[m - j] * q[m - i + j]; q[m - i] = s / 2; } Poly z = pmul(q, q); for (auto& x : z) x *= c; return z == p; }
static Val fpSqrt(const Val& a, bool f32) {
    if (a.k == K_C) return f32 ? CF(sqrtf(F32(a))) : CD(sqrt(D(a)));
    S->symfp++; if (a.k == K_F) return FV(Z3_mk_fpa_sqrt(Z, rmRNE, a.a));
    Z3_ast x = simp(a.a); if (branch(Z3_mk_lt(Z, x, realNum(0)))) return mkConcFP(NAN, f32);
    if (isNumAst(x)) { bool ok; double d = numeralToDouble(x, &ok); if (ok) return CD(sqrt(d)); } // a constant after all
    if (Z3_get_ast_kind(Z, x) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, x))) == Z3_OP_MUL) { // k * t * t with a numeral k
        Z3_app ap = Z3_to_app(Z, x); unsigned n = Z3_get_app_num_args(Z, ap); unsigned o = n == 3 ? 1 : 0; Z3_ast k0 = Z3_get_app_arg(Z, ap, 0);
        if ((n == 2 || (n == 3 && isNumAst(k0))) && Z3_get_app_arg(Z, ap, o) == Z3_get_app_arg(Z, ap, o + 1)) { bool ok = true; double kd = n == 3 ? sqrt(numeralToDouble(k0, &ok)) : 1; if (ok) { Z3_ast t = Z3_get_app_arg(Z, ap, o); if (!branch(Z3_mk_ge(Z, t, realNum(0)))) t = Z3_mk_unary_minus(Z, t); Z3_ast ts[2] = {realNum(kd), t}; return RV(simp(kd == 1 ? t : Z3_mk_mul(Z, 2, ts))); } } }
    if (g_uni && !g_unis->empty()) { RF r = rfConv(x); Poly q, e; Qn c; if (r.ok && !r.root && r.var >= 0 && pSquare(pmul(r.n0, {Qn(1)}), q, c) && qs(c) > 0) { Qn c2; if (pSquare(r.d, e, c2)) { // c * q^2 / e^2 in one input
        Z3_ast v = (*g_vars)[r.var].a, n = polyAst(q, v), t = n; if (!branch(Z3_mk_ge(Z, n, realNum(0)))) t = simp(Z3_mk_unary_minus(Z, n)); if (e.size() > 1) { Z3_ast m = polyAst(e, v); if (!branch(Z3_mk_ge(Z, m, realNum(0)))) m = simp(Z3_mk_unary_minus(Z, m)); t = Z3_mk_div(Z, t, m); }
        if (c != 1) { Qn rt; Z3_ast ts[2] = {qRoot(c, rt) ? qAst(rt) : realNum(sqrt(c.convert_to<double>())), t}; t = Z3_mk_mul(Z, 2, ts); } return RV(simp(t)); } } }
    unsigned id = Z3_get_ast_id(Z, x); auto it = g_sqrt->find(id); if (it != g_sqrt->end()) return RV(it->second);
    char nm[32]; snprintf(nm, sizeof nm, "sqrt!%d", g_auxno++); Z3_ast s = Z3_mk_const(Z, sym(nm), sReal); addVar(nm, s, 3, 0, 0); (*g_sqrtdef)[Z3_get_ast_id(Z, s)] = x;
    Z3_ast ss[2] = {s, s}; Z3_ast c1 = Z3_mk_ge(Z, s, realNum(0)), c2 = Z3_mk_eq(Z, Z3_mk_mul(Z, 2, ss), x); (*g_pcdef)[Z3_get_ast_id(Z, c1)] = 1; (*g_pcdef)[Z3_get_ast_id(Z, c2)] = 1; addPC(c1); addPC(c2); (*g_sqrt)[id] = s;
    if (g_model_ok) { Z3_ast val; Z3_model_eval(Z, g_model, x, true, &val); val = simp(val); // extend the model with the algebraic value
        bool done = false; if (Z3_algebraic_is_value(Z, val)) { Z3_ast rt = Z3_algebraic_is_zero(Z, val) ? realNum(0) : Z3_algebraic_root(Z, val, 2); if (rt) { Z3_model m = Z3_mk_model(Z); Z3_model_inc_ref(Z, m); for (auto& v : *g_vars) { Z3_ast vv = nullptr; if (v.a == s) vv = rt; else Z3_model_eval(Z, g_model, v.a, true, &vv); if (vv) Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, v.a)), vv); } g_model = m; done = true; } } if (!done) extendModel(); }
    return RV(s);
}
static Val fpNeg(const Val& a, bool f32) { if (a.k == K_C) return f32 ? CF(-F32(a)) : CD(-D(a)); if (a.k == K_F) return FV(Z3_mk_fpa_neg(Z, a.a)); return RV(simp(Z3_mk_unary_minus(Z, toReal(a, f32)))); }
static Val fpAbs(const Val& a, bool f32) { if (a.k == K_C) return f32 ? CF(fabsf(F32(a))) : CD(fabs(D(a))); S->symfp++; if (a.k == K_F) return FV(Z3_mk_fpa_abs(Z, a.a)); Z3_ast r = toReal(a, f32); if (branch(Z3_mk_ge(Z, r, realNum(0)))) return a; return RV(simp(Z3_mk_unary_minus(Z, r))); }

// ------------------------------------------------------------------------------------------------ interpreter core
static inline const Val& ev(Frame& f, const Op& o) { return o.slot < 0 ? o.v : f.regs[o.slot]; }
static uint64_t addrOf(const Val& v) { if (v.k == K_C) return v.c; return concretize(v, 64); }

static Val intBin(unsigned opc, const Val& a, const Val& b, unsigned w) {
    if ((a.k == K_C || a.k == K_UNDEF) && (b.k == K_C || b.k == K_UNDEF)) {
        if (w > 64) { u128 x = ((u128)a.hi << 64) | a.c, y = ((u128)b.hi << 64) | b.c, r = 0; switch (opc) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = x << (unsigned)y; break; case Instruction::LShr: r = x >> (unsigned)y; break; case Instruction::AShr: r = (u128)((__int128)x >> (unsigned)y); break; default: engineError("i128 op"); } Val v = C((uint64_t)r); v.hi = (uint64_t)(r >> 64); return v; }
        uint64_t x = a.c & maskw(w), y = b.c & maskw(w), r = 0;
        switch (opc) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) fatalViolation("division by zero"); r = x / y; break; case Instruction::URem: if (!y) fatalViolation("division by zero"); r = x % y; break;
        case Instruction::SDiv: if (!y) fatalViolation("division by zero"); r = (sext64(y, w) == -1) ? -x : (uint64_t)(sext64(x, w) / sext64(y, w)); break; case Instruction::SRem: if (!y) fatalViolation("division by zero"); r = (sext64(y, w) == -1) ? 0 : (uint64_t)(sext64(x, w) % sext64(y, w)); break;
        case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = y >= w ? (sext64(x, w) < 0 ? ~0ull : 0) : (uint64_t)(sext64(x, w) >> y); break; default: engineError("int op"); }
        return C(r & maskw(w));
    }
    bool ba = a.k == K_BOOL || (a.k == K_C && a.c <= 1), bb = b.k == K_BOOL || (b.k == K_C && b.c <= 1);
    if (ba && bb) { Z3_ast q[2] = {toBool(a), toBool(b)}; if (opc == Instruction::And) return BOOL(Z3_mk_and(Z, 2, q)); if (opc == Instruction::Or) return BOOL(Z3_mk_or(Z, 2, q)); if (opc == Instruction::Xor) return BOOL(Z3_mk_xor(Z, q[0], q[1])); if (opc == Instruction::Mul) return BOOL(Z3_mk_and(Z, 2, q)); }
    if (w == 1 && opc == Instruction::Xor) { return BOOL(Z3_mk_xor(Z, toBool(a), toBool(b))); }
    if ((a.k == K_R || b.k == K_R)) { // sign-bit manipulation of a real
        if (opc == Instruction::And && b.k == K_C && b.c == 0x7fffffffffffffffull) return fpAbs(a, false); if (opc == Instruction::Xor && b.k == K_C && b.c == 0x8000000000000000ull) return fpNeg(a, false); }
    Z3_ast x = toBV(a, w), y = toBV(b, w);
    switch (opc) { case Instruction::Add: return BV(Z3_mk_bvadd(Z, x, y), w); case Instruction::Sub: return BV(Z3_mk_bvsub(Z, x, y), w); case Instruction::Mul: return BV(Z3_mk_bvmul(Z, x, y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if (branch(Z3_mk_eq(Z, y, bvNum(0, w)))) fatalViolation("division by zero"); switch (opc) { case Instruction::UDiv: return BV(Z3_mk_bvudiv(Z, x, y), w); case Instruction::URem: return BV(Z3_mk_bvurem(Z, x, y), w); case Instruction::SDiv: return BV(Z3_mk_bvsdiv(Z, x, y), w); default: return BV(Z3_mk_bvsrem(Z, x, y), w); }
    case Instruction::And: return BV(Z3_mk_bvand(Z, x, y), w); case Instruction::Or: return BV(Z3_mk_bvor(Z, x, y), w); case Instruction::Xor: return BV(Z3_mk_bvxor(Z, x, y), w); case Instruction::Shl: return BV(Z3_mk_bvshl(Z, x, y), w); case Instruction::LShr: return BV(Z3_mk_bvlshr(Z, x, y), w); case Instruction::AShr: return BV(Z3_mk_bvashr(Z, x, y), w); }
    engineError("int op %u", opc);
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
    if ((a.k == K_C || a.k == K_UNDEF) && (b.k == K_C || b.k == K_UNDEF)) {
        if (w > 64) { u128 x = ((u128)a.hi << 64) | a.c, y = ((u128)b.hi << 64) | b.c; switch (p) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); default: engineError("i128 cmp"); } }
        uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sx = sext64(x, w), sy = sext64(y, w);
        switch (p) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_SGT: return C(sx > sy); case CmpInst::ICMP_SGE: return C(sx >= sy); case CmpInst::ICMP_SLT: return C(sx < sy); case CmpInst::ICMP_SLE: return C(sx <= sy); default: engineError("icmp"); } }
    if (a.k == K_BOOL && b.k == K_C && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { if (b.c > 1) return C(p == CmpInst::ICMP_NE); bool pos = (b.c == 1) == (p == CmpInst::ICMP_EQ); return pos ? a : BOOL(mkNot(a.a)); }
    Z3_ast x = toBV(a, w), y = toBV(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return BOOL(Z3_mk_eq(Z, x, y)); case CmpInst::ICMP_NE: return BOOL(mkNot(Z3_mk_eq(Z, x, y))); case CmpInst::ICMP_UGT: return BOOL(Z3_mk_bvugt(Z, x, y)); case CmpInst::ICMP_UGE: return BOOL(Z3_mk_bvuge(Z, x, y)); case CmpInst::ICMP_ULT: return BOOL(Z3_mk_bvult(Z, x, y)); case CmpInst::ICMP_ULE: return BOOL(Z3_mk_bvule(Z, x, y)); case CmpInst::ICMP_SGT: return BOOL(Z3_mk_bvsgt(Z, x, y)); case CmpInst::ICMP_SGE: return BOOL(Z3_mk_bvsge(Z, x, y)); case CmpInst::ICMP_SLT: return BOOL(Z3_mk_bvslt(Z, x, y)); case CmpInst::ICMP_SLE: return BOOL(Z3_mk_bvsle(Z, x, y)); default: engineError("icmp"); }
}
static bool harnessFrame() { if (g_st->empty()) return false; FnInfo* f = g_st->back().fn; if (f->harness < 0) { f->harness = 0; if (auto* sp = f->F->getSubprogram()) if (sp->getFile() && (sp->getFile()->getFilename().contains("harness/") || sp->getFile()->getDirectory().contains("harness"))) f->harness = 1; } return f->harness; }
static Val castOp(IInst& x, const Val& a) {
    Instruction* I = x.I; Type* st = I->getOperand(0)->getType(); Type* dt = I->getType();
    if (st->isVectorTy()) { if (x.opc == Instruction::BitCast && a.k == K_AGG) engineError("vector bitcast"); engineError("vector cast"); }
    switch (x.opc) {
    case Instruction::Trunc: { unsigned w = dt->getIntegerBitWidth(); if (a.k == K_C || a.k == K_UNDEF) { Val v = C(a.c & maskw(w)); return v; } if (a.k == K_BOOL) return a; return BV(Z3_mk_extract(Z, w - 1, 0, toBV(a, x.w)), w); }
    case Instruction::ZExt: { unsigned w = dt->getIntegerBitWidth(); if (a.k == K_C || a.k == K_UNDEF) { Val v = C(a.c & maskw(x.w)); return v; } if (a.k == K_BOOL) return a; return BV(Z3_mk_zero_ext(Z, w - x.w, toBV(a, x.w)), w); }
    case Instruction::SExt: { unsigned w = dt->getIntegerBitWidth(); if (a.k == K_C || a.k == K_UNDEF) { int64_t s = sext64(a.c, x.w); Val v = C((uint64_t)s & maskw(w)); if (w > 64) v.hi = s < 0 ? ~0ull : 0; return v; } if (a.k == K_BOOL && x.w == 1) return BV(Z3_mk_ite(Z, a.a, bvNum128(~(u128)0, w), bvNum(0, w)), w); return BV(Z3_mk_sign_ext(Z, w - x.w, toBV(a, x.w)), w); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { if (dt->isIntegerTy() && dt->getIntegerBitWidth() < 64) { if (a.k == K_C) return C(a.c & maskw(dt->getIntegerBitWidth())); } return a; }
    case Instruction::BitCast: { if (st->isIntegerTy() && dt->isFloatingPointTy() && a.k == K_BV) return FV(Z3_mk_fpa_to_fp_bv(Z, a.a, dt->isFloatTy() ? sF32 : sF64)); if (st->isFloatingPointTy() && dt->isIntegerTy() && a.k == K_F) return BV(Z3_mk_fpa_to_ieee_bv(Z, a.a), dt->getIntegerBitWidth()); return a; }
    case Instruction::UIToFP: case Instruction::SIToFP: { bool f32 = dt->isFloatTy(); bool sg = x.opc == Instruction::SIToFP; Val v = a; if (v.k == K_UNDEF) v = C(0); if (v.k != K_C && g_i2r) return RV(simp(Z3_mk_int2real(Z, Z3_mk_bv2int(Z, toBV(v, x.w), sg)))); if (v.k != K_C) v = C(concretize(a, x.w)); double d = sg ? (double)sext64(v.c, x.w) : (double)(v.c & maskw(x.w)); return mkConcFP(d, f32); }
    case Instruction::FPToUI: case Instruction::FPToSI: { unsigned w = dt->getIntegerBitWidth(); bool sg = x.opc == Instruction::FPToSI; if (a.k == K_C) { double d = std::trunc(cd(a, x.f32)); double lo = sg ? -std::ldexp(1.0, w - 1) : 0.0, hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w); if (!(d >= lo && d < hi)) fatalViolation("UB: float-to-integer conversion out of range"); return C((sg ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(w)); }
        if (a.k == K_F) { // IEEE term: must be in range
            Z3_ast lo = Z3_mk_fpa_numeral_double(Z, sg ? -std::ldexp(1.0, w - 1) : -1.0, sF64), hi = Z3_mk_fpa_numeral_double(Z, sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w), sF64); Z3_ast q[2] = {sg ? Z3_mk_fpa_geq(Z, a.a, lo) : Z3_mk_fpa_gt(Z, a.a, lo), Z3_mk_fpa_lt(Z, a.a, hi)}; if (!branch(Z3_mk_and(Z, 2, q))) fatalViolation("UB: float-to-integer conversion out of range"); Z3_ast rtz = Z3_mk_fpa_rtz(Z); return BV(sg ? Z3_mk_fpa_to_sbv(Z, rtz, a.a, w) : Z3_mk_fpa_to_ubv(Z, rtz, a.a, w), w); }
        Z3_ast r = toReal(a, x.f32); if (!sg) { if (branch(Z3_mk_le(Z, r, realNum(-1)))) fatalViolation("UB: float-to-integer conversion out of range"); } int64_t k = concretizeFloor(r, true); return C((uint64_t)k & maskw(w)); }
    case Instruction::FPExt: if (a.k == K_C) return CD((double)F32(a)); if (a.k == K_F) return FV(Z3_mk_fpa_to_fp_float(Z, rmRNE, a.a, sF64)); return a;
    case Instruction::FPTrunc: if (a.k == K_C) return CF((float)D(a)); if (a.k == K_F) return FV(Z3_mk_fpa_to_fp_float(Z, rmRNE, a.a, sF32)); return a;
    }
    engineError("cast %u", x.opc);
}
static bool sameVal(const Val& a, const Val& b) { if (a.k != b.k) return false; if (a.k == K_C) return a.c == b.c && a.hi == b.hi; if (a.k == K_AGG || a.k == K_UNDEF) return false; return a.a == b.a; }
static Val selectVal(const Val& c, const Val& t, const Val& f, unsigned w, bool isfp, Type* ty) {
    if (c.k == K_C || c.k == K_UNDEF) return (c.c & 1) ? t : f;
    if (sameVal(t, f)) return t;
    if (c.k == K_AGG) engineError("vector select");
    if (isfp && (t.k == K_F || f.k == K_F)) { bool f32 = ty->isFloatTy(); return FV(Z3_mk_ite(Z, toBool(c), toFP(t, f32), toFP(f, f32))); }
    if (isfp || ty->isPointerTy() || t.k == K_AGG || t.k == K_R || f.k == K_R) return branch(toBool(c)) ? t : f;
    if ((t.k == K_BOOL || (t.k == K_C && t.c <= 1)) && (f.k == K_BOOL || (f.k == K_C && f.c <= 1))) return BOOL(Z3_mk_ite(Z, toBool(c), toBool(t), toBool(f)));
    return BV(Z3_mk_ite(Z, toBool(c), toBV(t, w), toBV(f, w)), w);
}

// ------------------------------------------------------------------------------------------------ calls
static void pushFrame(Function* F, const std::vector<Val>& args, CallBase* cb) {
    FnInfo* fi = fnInfo(F); build(fi); if (fi->id < (1 << 16)) S->fnused[fi->id] = 1;
    if (g_st->size() > 3000) engineError("stack depth");
    g_st->emplace_back(); Frame& f = g_st->back(); f.fn = fi; f.regs.resize(fi->nslots); unsigned n = F->arg_size();
    for (unsigned i = 0; i < args.size(); i++) { if (i < n) { Val a = args[i]; if (cb && cb->isByValArgument(i)) { Type* t = cb->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t); uint64_t m = allocMem(sz, "byval"); copyMem(m, a.c, sz); f.allocas.push_back(findObj(m)); a = C(m); } f.regs[i] = a; } else f.varargs.push_back(args[i]); }
}
static void popFrame() { Frame& f = g_st->back(); for (auto* o : f.allocas) delObj(o); g_st->pop_back(); }

struct Exc { uint64_t obj; uint64_t ti; uint64_t dtor; bool native = false; int handlers = 0; };
static std::vector<Exc>* g_caught; static std::map<uint64_t, Exc>* g_excs; static Exc g_cur; static std::vector<uint64_t>* g_tids;
static int typeidFor(uint64_t ti) { for (size_t i = 0; i < g_tids->size(); i++) if ((*g_tids)[i] == ti) return i + 1; g_tids->push_back(ti); return g_tids->size(); }
struct TI : std::type_info { static bool match(const std::type_info* c, const std::type_info* t, void** p) { return c->__do_catch(t, p, 1); } };
static bool catches(uint64_t cti, uint64_t tti) { if (!cti) return true; if (cti == tti) return true; if (!tti) return false; void* p = nullptr; uint64_t obj = g_cur.obj; p = (void*)obj; return TI::match((const std::type_info*)cti, (const std::type_info*)tti, &p); }
static std::string excName(uint64_t ti) { if (!ti) return "?"; return demangle(((const std::type_info*)ti)->name()); }
static void unwind() {
    // current frame's current instruction threw g_cur; search for a landing pad
    while (!g_st->empty()) {
        Frame& f = g_st->back(); IInst& x = f.fn->bbs[f.bb].insts[f.pc - 1];
        if (auto* inv = dyn_cast<InvokeInst>(x.I)) {
            LandingPadInst* lp = inv->getLandingPadInst(); bool ok = lp->isCleanup();
            if (!ok) for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) { uint64_t t = constVal(lp->getClause(i)).c; if (catches(t, g_cur.ti)) ok = true; } else { ok = true; } }
            if (ok) { f.prev = f.bb; f.bb = x.t2; f.pc = 0; 
                for (auto& ph : f.fn->bbs[f.bb].phis) (void)ph;
                std::vector<Val> nv; for (auto& ph : f.fn->bbs[f.bb].phis) nv.push_back(ev(f, ph.in.at(f.prev))); size_t k = 0; for (auto& ph : f.fn->bbs[f.bb].phis) f.regs[ph.dst] = nv[k++]; return; }
        }
        popFrame();
    }
    fatalViolation("uncaught exception %s", excName(g_cur.ti).c_str());
}
static void throwExc(uint64_t obj, uint64_t ti, uint64_t dtor) { g_cur.obj = obj; g_cur.ti = ti; g_cur.dtor = dtor; (*g_excs)[obj] = g_cur; unwind(); }

static void retVal(const Val& v) { // return v from the current frame to its caller
    popFrame(); if (g_st->empty()) return; Frame& f = g_st->back(); IInst& x = f.fn->bbs[f.bb].insts[f.pc - 1]; if (x.dst >= 0) f.regs[x.dst] = v;
    if (x.opc == Instruction::Invoke) { f.prev = f.bb; f.bb = x.t1; f.pc = 0; std::vector<Val> nv; for (auto& ph : f.fn->bbs[f.bb].phis) nv.push_back(ev(f, ph.in.at(f.prev))); size_t k = 0; for (auto& ph : f.fn->bbs[f.bb].phis) f.regs[ph.dst] = nv[k++]; }
}
static void jump(Frame& f, int to) { f.prev = f.bb; f.bb = to; f.pc = 0; auto& ph = f.fn->bbs[to].phis; if (!ph.empty()) { if (ph.size() == 1) { Val v = ev(f, ph[0].in.at(f.prev)); f.regs[ph[0].dst] = v; } else { std::vector<Val> nv; nv.reserve(ph.size()); for (auto& p : ph) nv.push_back(ev(f, p.in.at(f.prev))); size_t k = 0; for (auto& p : ph) f.regs[p.dst] = nv[k++]; } } }
static void finishCall(Frame& f, IInst& x, const Val& v) { if (x.dst >= 0) f.regs[x.dst] = v; if (x.opc == Instruction::Invoke) jump(f, x.t1); }

enum B { B_NONE = -1, B_REAL, B_FP64, B_INT, B_ASSUME, B_ASSERT, B_REACH, B_CHOICE, B_ARG, B_ISSYM, B_FORKI, B_PRINT, B_EXP, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_GUARD_ACQ, B_GUARD_REL, B_ATEXIT, B_EXC_ALLOC, B_EXC_FREE, B_THROW, B_RETHROW, B_BEGIN_CATCH, B_END_CATCH, B_RESUME, B_TERMINATE, B_SQRT, B_FABS, B_FLOOR, B_CEIL, B_POW, B_FMIN, B_FMAX, B_UNIFORM, B_RDCTOR, B_RDVAL, B_NOP0, B_CURTIME, B_GETEXCPTR, B_EXIT, B_DYNCAST, B_NEWALIGN, B_REAL_UNBOUNDED, B_TRUNC, B_ROUND, B_FMOD, B_COSTART, B_COSWITCH, B_HB };
static const std::map<std::string, int> BUILTINS = {
    {"qsx_real", B_REAL}, {"qsx_fp64", B_FP64}, {"qsx_int", B_INT}, {"qsx_assume", B_ASSUME}, {"qsx_assert", B_ASSERT}, {"qsx_reach", B_REACH}, {"qsx_choice", B_CHOICE}, {"qsx_arg", B_ARG}, {"qsx_is_symbolic", B_ISSYM}, {"qsx_concretize", B_FORKI}, {"qsx_print", B_PRINT}, {"qsx_co_start", B_COSTART}, {"qsx_co_switch", B_COSWITCH}, {"qsx_hb", B_HB},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEW},
    {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP0}, {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT}, {"__cxa_allocate_exception", B_EXC_ALLOC}, {"__cxa_free_exception", B_EXC_FREE}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_begin_catch", B_BEGIN_CATCH}, {"__cxa_end_catch", B_END_CATCH}, {"_Unwind_Resume", B_RESUME},
    {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"abort", B_TERMINATE}, {"__assert_fail", B_TERMINATE}, {"_ZSt10unexpectedv", B_TERMINATE}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_TERMINATE}, {"__cxa_pure_virtual", B_TERMINATE}, {"exit", B_EXIT},
    {"sqrt", B_SQRT}, {"fabs", B_FABS}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"pow", B_POW}, {"fmin", B_FMIN}, {"fmax", B_FMAX}, {"trunc", B_TRUNC}, {"round", B_ROUND},
};
static int builtinId(const std::string& n) {
    if (n.rfind("_ZNSaI", 0) == 0 && n.size() > 9 && (n.find("EC1") != std::string::npos || n.find("EC2") != std::string::npos || n.find("ED1") != std::string::npos || n.find("ED2") != std::string::npos)) return B_NOP0;
    auto it = BUILTINS.find(n); if (it != BUILTINS.end()) return it->second;
    if (n.find("uniform_real_distributionId") != std::string::npos && n.find("clI") != std::string::npos) return B_UNIFORM;
    if (n.find("St13random_device") != std::string::npos) { if (n.find("C1") != std::string::npos || n.find("C2") != std::string::npos || n.find("D1") != std::string::npos || n.find("D2") != std::string::npos || n.find("_M_init") != std::string::npos || n.find("_M_fini") != std::string::npos) return B_RDCTOR; return B_RDVAL; }
    return B_NONE;
}
static Val newReal(const char* name, double lo, double hi) {
    char nm[200]; snprintf(nm, sizeof nm, "%s#%zu", name, g_vars->size()); Z3_ast a = Z3_mk_const(Z, sym(nm), sReal); addVar(nm, a, 0, lo, hi);
    if (lo == hi) { /* still a variable */ } addPC(Z3_mk_ge(Z, a, realNum(lo))); addPC(Z3_mk_le(Z, a, realNum(hi)));
    if (g_model_ok) { if (!g_model) { g_model = Z3_mk_model(Z); Z3_model_inc_ref(Z, g_model); } double mid = lo + (hi - lo) * 0.40625; Z3_add_const_interp(Z, g_model, Z3_get_app_decl(Z, Z3_to_app(Z, a)), realNum(mid)); }
    return RV(a);
}
// coroutines: stack 0 is the thread that entered the region, stacks 1.. are the threads of the region
struct Co { std::vector<Frame>* st = nullptr; std::vector<Exc>* caught = nullptr; Exc cur; }; static Co g_co[8]; static int g_conow = 0;
static Val doBuiltin(Frame& f, IInst& x, int b, std::vector<Val>& A, bool& ctl) {
    switch (b) {
    case B_COSTART: { Co& c = g_co[A[0].c]; auto it = g_faddr->find(A[1].c); if (it == g_faddr->end()) engineError("qsx_co_start"); auto* st = g_st; c.st = g_st = new std::vector<Frame>(); g_st->reserve(4096); c.caught = new std::vector<Exc>(); pushFrame(it->second, {A[2]}, nullptr); g_st = st; return C(0); }
    case B_COSWITCH: { ctl = true; finishCall(f, x, C(0)); g_co[g_conow] = {g_st, g_caught, g_cur}; g_conow = (int)A[0].c; g_st = g_co[g_conow].st; g_caught = g_co[g_conow].caught; g_cur = g_co[g_conow].cur; g_race.cur = g_conow ? g_conow - 1 : 0; return C(0); }
    case B_HB: switch (A[0].c) { case 0: g_race.begin((int)A[1].c); break; case 1: g_race.end(); break; case 2: g_race.acquire(A[1].c); break; case 3: g_race.release(A[1].c); break; case 4: g_race.barrier(); break; } return C(0);
    case B_REAL: return newReal(cstr(A[0].c).c_str(), D(A[1]), D(A[2]));
    case B_FP64: { char nm[200]; snprintf(nm, sizeof nm, "%s#%zu", cstr(A[0].c).c_str(), g_vars->size()); Z3_ast a = Z3_mk_const(Z, sym(nm), sF64); addVar(nm, a, 2, D(A[1]), D(A[2])); addPC(Z3_mk_fpa_geq(Z, a, Z3_mk_fpa_numeral_double(Z, D(A[1]), sF64))); addPC(Z3_mk_fpa_leq(Z, a, Z3_mk_fpa_numeral_double(Z, D(A[2]), sF64))); if (g_model_ok) { if (!g_model) { g_model = Z3_mk_model(Z); Z3_model_inc_ref(Z, g_model); } Z3_add_const_interp(Z, g_model, Z3_get_app_decl(Z, Z3_to_app(Z, a)), Z3_mk_fpa_numeral_double(Z, D(A[1]), sF64)); } return FV(a); }
    case B_INT: { char nm[200]; snprintf(nm, sizeof nm, "%s#%zu", cstr(A[0].c).c_str(), g_vars->size()); uint64_t lo = A[1].c, hi = A[2].c; unsigned nb = 1; while (nb < 64 && (hi >> nb)) nb++; // only as many bits as the range needs
        Z3_ast a = Z3_mk_const(Z, sym(nm), Z3_mk_bv_sort(Z, nb)); addVar(nm, a, 1, lo, hi); if (lo) addPC(Z3_mk_bvuge(Z, a, bvNum(lo, nb))); if (hi != maskw(nb)) addPC(Z3_mk_bvule(Z, a, bvNum(hi, nb))); if (g_model_ok) { if (!g_model) { g_model = Z3_mk_model(Z); Z3_model_inc_ref(Z, g_model); } Z3_add_const_interp(Z, g_model, Z3_get_app_decl(Z, Z3_to_app(Z, a)), bvNum(lo, nb)); } Val v; v.k = K_BV; v.a = nb < 64 ? Z3_mk_zero_ext(Z, 64 - nb, a) : a; return v; }
    case B_FORKI: return C(concretize(A[0], 64));
    case B_ISSYM: return C(A[0].k != K_C);
    case B_ASSUME: { if (A[0].k == K_C) { if (!(A[0].c & 1)) pathDone(true); return C(0); } Z3_ast c = simp(toBool(A[0])); if (isTrue(c)) return C(0); if (isFalse(c)) pathDone(true); { int q = ivDecide(c); if (q < 0 && uniUsable(c)) { q = uniDecide(c); if (q == 2) q = -1; if (q < 0) { int w = uniBoth(c); if (w & 4) q = 0; else if (w & 8) q = 1; else if (w & 1) { addPC(c); g_wit_ok = g_model_ok = false; return C(0); } } } if (q == 1) return C(0); if (q == 0) pathDone(true); }
        int e = g_model_ok ? evalUnder(g_model, c) : -1; if (e == 1) { addPC(c); return C(0); } Z3_model m = nullptr; Z3_lbool r = query({c}, true, &m); if (r == Z3_L_FALSE) pathDone(true); addPC(c); if (r == Z3_L_TRUE) { g_model = m; g_model_ok = true; } else g_model_ok = false; return C(0); }
    case B_ASSERT: { std::string l = cstr(A[1].c); int i = slot(S->nass, S->ass, l.c_str()); if (A[0].k == K_C) { if (A[0].c & 1) { S->ass_conc[i]++; return C(0); } if (!feasibleNow()) pathDone(true); Z3_model fm = g_model_ok ? g_model : ivModel(nullptr); if (!fm) { S->ass_unk[i]++; pathDone(false); } violation(l.c_str(), {}, fm); pathDone(false); }
        Z3_ast c = simp(toBool(A[0])); Z3_ast nc = simp(mkNot(c)); if (isTrue(c)) { S->ass_conc[i]++; return C(0); }
        // the interval solver first; Z3 cross-checks what it proves (in short time) and decides the rest
        int q = ivDecide(c); if (q < 0 && uniUsable(c)) { q = uniDecide(c); if (q != 1) q = -1; } int msa = g_ms_assert; if (q == 1) g_ms_assert = std::min(g_ms_assert, 1500);
        Z3_model m = nullptr; Z3_lbool r = query({nc}, true, &m); g_ms_assert = msa;
        if (r == Z3_L_FALSE) { S->ass_unsat[i]++; return C(0); }
        if (q == 1) { if (r == Z3_L_TRUE) engineError("interval solver and Z3 disagree"); S->ass_unsat[i]++; S->iv_assert++; return C(0); }
        if (r == Z3_L_UNDEF && (m = ivModel(nc))) r = Z3_L_TRUE;
        if (r == Z3_L_UNDEF) { S->ass_unk[i]++; return C(0); }
        violation(l.c_str(), {nc}, m); // continue on the holding side
        Z3_model m2 = nullptr; Z3_lbool r2 = query({c}, false, &m2); if (r2 == Z3_L_FALSE) pathDone(false); addPC(c); if (r2 == Z3_L_TRUE) { g_model = m2; g_model_ok = true; } else g_model_ok = false; return C(0); }
    case B_REACH: { if (!g_model_ok && !feasibleNow()) pathDone(true); if (!g_model_ok && !ivModel(nullptr)) return C(0); int i = slot(S->nreach, S->reach, cstr(A[0].c).c_str()); S->reachcnt[i]++; return C(0); }
    case B_CHOICE: { uint64_t n = A[1].c, v = n - 1; for (uint64_t k = 0; k + 1 < n; k++) if (!forkPath()) { v = k; break; } // one path per value
        char nm[200]; snprintf(nm, sizeof nm, "%s#%zu", cstr(A[0].c).c_str(), g_vars->size()); addVar(nm, Z3_mk_fresh_const(Z, "choice", Z3_mk_bool_sort(Z)), 4, (double)v, (double)v); return C(v); }
    case B_ARG: { auto it = g_args.find(cstr(A[0].c)); if (it == g_args.end()) return A[1]; return C(strtoull(it->second.c_str(), 0, 0)); }
    case B_PRINT: { if (!g_trace) return C(0); fprintf(stderr, "[print] %s ", cstr(A[0].c).c_str()); if (A[1].k == K_C) fprintf(stderr, "%.17g\n", D(A[1])); else fprintf(stderr, "%s\n", Z3_ast_to_string(Z, A[1].a)); return C(0); }
    case B_MALLOC: { uint64_t n = concretize(A[0], 64); if (n > (1ull << 31)) fatalViolation("allocation of %" PRIu64 " bytes", n); return C(allocMem(n, "heap")); }
    case B_NEW: { uint64_t n = concretize(A[0], 64); if (n > (1ull << 31)) { return C(0); } return C(allocMem(n, "heap")); }
    case B_CALLOC: return C(allocMem(concretize(A[0], 64) * concretize(A[1], 64), "heap"));
    case B_REALLOC: { uint64_t n = concretize(A[1], 64); uint64_t m = allocMem(n, "heap"); if (A[0].c) { Obj* o = findObj(A[0].c); if (!o) fatalViolation("memory: realloc of invalid pointer"); copyMem(m, A[0].c, std::min(n, o->size)); delObj(o); } return C(m); }
    case B_FREE: case B_DELETE: { uint64_t a = addrOf(A[0]); if (!a) return C(0); auto it = g_objs->find(a); if (it == g_objs->end()) { fatalViolation("memory: invalid free"); } if (g_race.on && it->second->size) raceAccess(it->second, a, it->second->size, true); delObj(it->second); return C(0); }
    case B_MEMCPY: copyMem(addrOf(A[0]), addrOf(A[1]), concretize(A[2], 64)); return A[0];
    case B_MEMSET: { uint64_t a = addrOf(A[0]), n = concretize(A[2], 64); if (!n) return A[0]; Obj* o = access(a, n, true); if (A[1].k != K_C) engineError("symbolic memset"); if (o && o->mask) clearSym(o, a - o->base, n); memset((void*)a, (int)A[1].c, n); return A[0]; }
    case B_MEMCMP: { uint64_t a = addrOf(A[0]), c = addrOf(A[1]), n = concretize(A[2], 64); if (!n) return C(0); Obj* o1 = access(a, n, false); Obj* o2 = access(c, n, false); bool sy = (o1 && hasSym(o1, a - o1->base, n)) || (o2 && hasSym(o2, c - o2->base, n)); if (!sy) return C((uint32_t)memcmp((void*)a, (void*)c, n)); Type* i8 = Type::getInt8Ty(M->getContext()); for (uint64_t i = 0; i < n; i++) { Val p = loadVal(a + i, i8), q = loadVal(c + i, i8); Val e = icmp(CmpInst::ICMP_EQ, p, q, 8); if (branch(toBool(e))) continue; Val l = icmp(CmpInst::ICMP_ULT, p, q, 8); return C(branch(toBool(l)) ? (uint32_t)-1 : 1); } return C(0); }
    case B_STRLEN: return C(strlen((const char*)addrOf(A[0])));
    case B_GUARD_ACQ: { uint8_t* g = (uint8_t*)A[0].c; if (g_race.on) g_race.acquire(A[0].c); return C(*g == 0); }
    case B_GUARD_REL: if (g_race.on) g_race.release(A[0].c); *(uint8_t*)A[0].c = 1; return C(0);
    case B_ATEXIT: case B_NOP0: return C(0);
    case B_EXC_ALLOC: return C(allocMem(A[0].c, "exception"));
    case B_EXC_FREE: return C(0);
    case B_THROW: ctl = true; throwExc(A[0].c, A[1].c, A[2].c); return C(0);
    case B_RETHROW: { if (g_caught->empty()) fatalViolation("rethrow without exception"); Exc e = g_caught->back(); g_caught->pop_back(); ctl = true; g_cur = e; (*g_excs)[e.obj] = e; unwind(); return C(0); }
    case B_BEGIN_CATCH: { auto it = g_excs->find(A[0].c); if (it == g_excs->end()) engineError("begin_catch of unknown exception"); g_caught->push_back(it->second); return A[0]; }
    case B_END_CATCH: { if (!g_caught->empty()) g_caught->pop_back(); return C(0); }
    case B_RESUME: ctl = true; { auto it = g_excs->find(A[0].c); if (it != g_excs->end()) g_cur = it->second; } g_st->back().pc = std::max(1, g_st->back().pc); popFrame(); if (g_st->empty()) fatalViolation("uncaught exception %s", excName(g_cur.ti).c_str()); unwind(); return C(0);
    case B_TERMINATE: fatalViolation("abnormal termination in %s", x.callee ? x.callee->getName().str().c_str() : "?");
    case B_EXIT: pathDone(false);
    case B_SQRT: return fpSqrt(A[0], false); case B_FABS: return fpAbs(A[0], false);
    case B_FLOOR: if (A[0].k == K_C) return CD(floor(D(A[0]))); if (A[0].k == K_F) return FV(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtn(Z), A[0].a)); return CD((double)concretizeFloor(A[0].a, false));
    case B_CEIL: if (A[0].k == K_C) return CD(ceil(D(A[0]))); if (A[0].k == K_F) return FV(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtp(Z), A[0].a)); return CD(-(double)concretizeFloor(simp(Z3_mk_unary_minus(Z, A[0].a)), false));
    case B_TRUNC: if (A[0].k == K_C) return CD(trunc(D(A[0]))); if (A[0].k == K_F) return FV(Z3_mk_fpa_round_to_integral(Z, Z3_mk_fpa_rtz(Z), A[0].a)); return CD((double)concretizeFloor(A[0].a, true));
    case B_ROUND: if (A[0].k == K_C) return CD(round(D(A[0]))); engineError("round");
    case B_POW: if (A[0].k == K_C && A[1].k == K_C) return CD(pow(D(A[0]), D(A[1]))); if (A[1].k == K_C) { double e = D(A[1]); if (e == 0.5) return fpSqrt(A[0], false); if (e == std::floor(e) && std::fabs(e) <= 16) { Val r = CD(1.0); for (int i = 0; i < (int)std::fabs(e); i++) r = fpBin(Instruction::FMul, r, A[0], false); if (e < 0) r = fpBin(Instruction::FDiv, CD(1.0), r, false); return r; } } engineError("pow");
    case B_FMIN: case B_FMAX: { bool f32 = x.I->getType()->isFloatTy(); Val c = fcmp(b == B_FMIN ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, A[0], A[1], f32); return selectVal(c, A[0], A[1], f32 ? 32 : 64, true, x.I->getType()); }
    case B_UNIFORM: { // std::uniform_real_distribution<double>::operator(): any value of [a,b)
        Type* dt = Type::getDoubleTy(M->getContext()); uint64_t p = A[0].c; Val lo = loadVal(p, dt), hi = loadVal(p + 8, dt); if (lo.k != K_C || hi.k != K_C) engineError("uniform bounds"); return newReal("uniform", D(lo), D(hi)); }
    case B_RDCTOR: return C(0); case B_RDVAL: return C(12345);
    }
    engineError("builtin %d", b);
}
static void applyShift(IInst& x, std::vector<Val>& A, Val& r, bool left);
static bool doIntrinsic(Frame& f, IInst& x, Intrinsic::ID id, std::vector<Val>& A, Val& r) {
    Type* t = x.I->getType(); bool f32 = t->isFloatTy(); unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
    if (t->isVectorTy()) { // element-wise
        engineError("vector intrinsic");
    }
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(addrOf(A[0]), addrOf(A[1]), concretize(A[2], 64)); return true;
    case Intrinsic::memset: { std::vector<Val> B = {A[0], A[1], A[2]}; bool c; doBuiltin(f, x, B_MEMSET, B, c); return true; }
    case Intrinsic::fabs: r = fpAbs(A[0], f32); return true; case Intrinsic::sqrt: r = fpSqrt(A[0], f32); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: { bool c; std::vector<Val> B = {A[0]}; r = doBuiltin(f, x, id == Intrinsic::floor ? B_FLOOR : id == Intrinsic::ceil ? B_CEIL : B_TRUNC, B, c); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: if (id == Intrinsic::fma && A[0].k == K_C && A[1].k == K_C && A[2].k == K_C) { r = CD(fma(D(A[0]), D(A[1]), D(A[2]))); return true; } r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, A[0], A[1], f32), A[2], f32); return true;
    case Intrinsic::pow: { bool c; r = doBuiltin(f, x, B_POW, A, c); return true; }
    case Intrinsic::powi: { Val e = CD((double)sext64(A[1].c, 32)); std::vector<Val> B = {A[0], e}; bool c; r = doBuiltin(f, x, B_POW, B, c); return true; }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: { bool c; r = doBuiltin(f, x, (id == Intrinsic::minnum || id == Intrinsic::minimum) ? B_FMIN : B_FMAX, A, c); return true; }
    case Intrinsic::copysign: if (A[0].k == K_C && A[1].k == K_C) { r = CD(copysign(D(A[0]), D(A[1]))); return true; } { Val m = fpAbs(A[0], f32); bool neg; if (A[1].k == K_C) neg = std::signbit(cd(A[1], f32)); else neg = branch(Z3_mk_lt(Z, toReal(A[1], f32), realNum(0))); r = neg ? fpNeg(m, f32) : m; return true; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { CmpInst::Predicate p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; r = selectVal(icmp(p, A[0], A[1], w), A[0], A[1], w, false, t); return true; }
    case Intrinsic::abs: { Val c = icmp(CmpInst::ICMP_SLT, A[0], C(0), w); r = selectVal(c, intBin(Instruction::Sub, C(0), A[0], w), A[0], w, false, t); return true; }
    case Intrinsic::ctpop: r = C(__builtin_popcountll(concretize(A[0], w))); return true;
    case Intrinsic::ctlz: { uint64_t v = concretize(A[0], w) & maskw(w); r = C(v ? __builtin_clzll(v) - (64 - w) : w); return true; }
    case Intrinsic::cttz: { uint64_t v = concretize(A[0], w) & maskw(w); r = C(v ? __builtin_ctzll(v) : w); return true; }
    case Intrinsic::bswap: if (A[0].k == K_C) { r = C(__builtin_bswap64(A[0].c) >> (64 - w)); return true; } { Z3_ast a = toBV(A[0], w), o = nullptr; for (unsigned i = 0; i < w / 8; i++) { Z3_ast e = Z3_mk_extract(Z, i * 8 + 7, i * 8, a); o = o ? Z3_mk_concat(Z, o, e) : e; } r = BV(o, w); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t s = concretize(A[2], w) % w; bool l = id == Intrinsic::fshl; if (s == 0) { r = l ? A[0] : A[1]; return true; } r = intBin(Instruction::Or, intBin(Instruction::Shl, A[0], C(l ? s : w - s), w), intBin(Instruction::LShr, A[1], C(l ? w - s : s), w), w); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ww = t->getStructElementType(0)->getIntegerBitWidth(); r.k = K_AGG; r.agg = new std::vector<Val>(); if (A[0].k != K_C || A[1].k != K_C) { Z3_ast a = toBV(A[0], ww), b = toBV(A[1], ww); Val v, o; switch (id) { case Intrinsic::uadd_with_overflow: v = BV(Z3_mk_bvadd(Z, a, b), ww); o = BOOL(mkNot(Z3_mk_bvadd_no_overflow(Z, a, b, false))); break; case Intrinsic::usub_with_overflow: v = BV(Z3_mk_bvsub(Z, a, b), ww); o = BOOL(Z3_mk_bvult(Z, a, b)); break; case Intrinsic::umul_with_overflow: v = BV(Z3_mk_bvmul(Z, a, b), ww); o = BOOL(mkNot(Z3_mk_bvmul_no_overflow(Z, a, b, false))); break; default: engineError("signed overflow intrinsic"); } r.agg->push_back(v); r.agg->push_back(o); return true; }
        if (ww == 64) { uint64_t o; int64_t so; bool ov; switch (id) { case Intrinsic::uadd_with_overflow: ov = __builtin_add_overflow(A[0].c, A[1].c, &o); break; case Intrinsic::usub_with_overflow: ov = __builtin_sub_overflow(A[0].c, A[1].c, &o); break; case Intrinsic::umul_with_overflow: ov = __builtin_mul_overflow(A[0].c, A[1].c, &o); break; case Intrinsic::sadd_with_overflow: ov = __builtin_add_overflow((int64_t)A[0].c, (int64_t)A[1].c, &so); o = so; break; case Intrinsic::ssub_with_overflow: ov = __builtin_sub_overflow((int64_t)A[0].c, (int64_t)A[1].c, &so); o = so; break; default: ov = __builtin_mul_overflow((int64_t)A[0].c, (int64_t)A[1].c, &so); o = so; break; } r.agg->push_back(C(o)); r.agg->push_back(C(ov)); return true; }
        engineError("overflow width"); }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, A[0], A[1], w); r = selectVal(c, C(0), intBin(Instruction::Sub, A[0], A[1], w), w, false, t); return true; }
    case Intrinsic::uadd_sat: { Val s = intBin(Instruction::Add, A[0], A[1], w); Val c = icmp(CmpInst::ICMP_ULT, s, A[0], w); r = selectVal(c, C(maskw(w)), s, w, false, t); return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: r = A[0]; return true;
    case Intrinsic::eh_typeid_for: r = C(typeidFor(A[0].c)); return true;
    case Intrinsic::trap: fatalViolation("trap"); case Intrinsic::stacksave: r = C(0); return true; case Intrinsic::stackrestore: return true; case Intrinsic::invariant_start: r = C(0); return true;
    case Intrinsic::objectsize: r = C(~0ull & maskw(w)); return true; case Intrinsic::is_constant: r = C(0); return true;
    case Intrinsic::is_fpclass: { unsigned m = A[1].c; if (A[0].k == K_C) { double d = D(A[0]); bool q = false; if ((m & 3) && std::isnan(d)) q = true; if ((m & 4) && std::isinf(d) && d < 0) q = true; if ((m & 0x200) && std::isinf(d) && d > 0) q = true; if (std::isfinite(d)) { bool neg = std::signbit(d); int c = d == 0 ? (neg ? 0x20 : 0x40) : std::isnormal(d) ? (neg ? 8 : 0x100) : (neg ? 0x10 : 0x80); if (m & c) q = true; } r = C(q); return true; } if (A[0].k == K_R) { if ((m & 0x1f8) == 0) { r = C(0); return true; } if ((m & 0x1f8) == 0x1f8) { r = C(1); return true; } } engineError("is_fpclass"); }
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: if (A[0].k == K_C) { r = CD(id == Intrinsic::round ? round(D(A[0])) : nearbyint(D(A[0]))); return true; } engineError("rint");
    case Intrinsic::exp: if (A[0].k == K_C) { r = CD(exp(D(A[0]))); return true; } engineError("exp"); case Intrinsic::log: if (A[0].k == K_C) { r = CD(log(D(A[0]))); return true; } engineError("log"); case Intrinsic::log10: if (A[0].k == K_C) { r = CD(log10(D(A[0]))); return true; } engineError("log10");
    case Intrinsic::sin: if (A[0].k == K_C) { r = CD(sin(D(A[0]))); return true; } engineError("sin"); case Intrinsic::cos: if (A[0].k == K_C) { r = CD(cos(D(A[0]))); return true; } engineError("cos");
    case Intrinsic::vastart: { // va_list for interpreted variadics is not modelled
        engineError("va_start"); }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: engineError("vector reduce");
    default: return false;
    }
}
// Native call of an external function with concrete arguments.
static bool symOK(const std::string& n) { return n.find("_Rb_tree") != std::string::npos || n.find("_List_node") != std::string::npos || n.find("_M_need_rehash") != std::string::npos || n.find("ostream") != std::string::npos || n.find("SolsE") != std::string::npos || n.find("_M_insert") != std::string::npos || n.find("stream") != std::string::npos || n.find("__dynamic_cast") != std::string::npos; }
// Streams with symbolic contents. Text: a symbolic real is written as a marker; reading the marker gives a real within the rounding
// of the stream's format. Binary: symbolic bytes are kept beside the stream buffer, by position.
struct TxtReal { Z3_ast v, r; double abs, rel; }; static std::vector<TxtReal>* g_txt; static std::map<std::pair<void*, long>, Val>* g_symbytes;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static bool streamHook(Frame& f, IInst& x, uint64_t addr, const std::string& name, std::vector<Val>& A) {
    if (name.find("EPFRSt8ios_baseS0_E") != std::string::npos) { // manipulators that are inline functions of the module
        auto it = g_faddr->find(addrOf(A[1])); if (it == g_faddr->end() || it->second->isDeclaration()) return false; const std::string fn = it->second->getName().str();
        static const std::map<std::string, std::ios_base& (*)(std::ios_base&)> T = {{"_ZSt5fixedRSt8ios_base", std::fixed}, {"_ZSt10scientificRSt8ios_base", std::scientific}, {"_ZSt12defaultfloatRSt8ios_base", std::defaultfloat}, {"_ZSt8hexfloatRSt8ios_base", std::hexfloat}, {"_ZSt3hexRSt8ios_base", std::hex}, {"_ZSt3decRSt8ios_base", std::dec}, {"_ZSt3octRSt8ios_base", std::oct}, {"_ZSt9boolalphaRSt8ios_base", std::boolalpha}, {"_ZSt11noboolalphaRSt8ios_base", std::noboolalpha}, {"_ZSt9showpointRSt8ios_base", std::showpoint}, {"_ZSt11noshowpointRSt8ios_base", std::noshowpoint}, {"_ZSt4leftRSt8ios_base", std::left}, {"_ZSt5rightRSt8ios_base", std::right}, {"_ZSt8internalRSt8ios_base", std::internal}, {"_ZSt7showposRSt8ios_base", std::showpos}, {"_ZSt9noshowposRSt8ios_base", std::noshowpos}, {"_ZSt6skipwsRSt8ios_base", std::skipws}, {"_ZSt8noskipwsRSt8ios_base", std::noskipws}, {"_ZSt9uppercaseRSt8ios_base", std::uppercase}, {"_ZSt11nouppercaseRSt8ios_base", std::nouppercase}};
        auto m = T.find(fn); if (m == T.end()) engineError("stream manipulator %s", fn.c_str()); if (name.rfind("_ZNSo", 0) == 0) *(std::ostream*)addrOf(A[0]) << m->second; else *(std::istream*)addrOf(A[0]) >> m->second; finishCall(f, x, A[0]); return true; }
    if (name.find("SolsE") != std::string::npos || name.rfind("_ZNSo9_M_insertI", 0) == 0) {
        if (A.size() < 2 || A[1].k != K_R) return false; std::ostream* os = (std::ostream*)addrOf(A[0]); if (!g_txt) g_txt = new std::vector<TxtReal>();
        const auto fl = os->flags() & std::ios_base::floatfield; const int p = (int)os->precision(); double ab = 0, rl = 0; if (fl == std::ios_base::fixed) ab = 0.5 * std::pow(10.0, -p); else rl = 0.5 * std::pow(10.0, fl == std::ios_base::scientific ? -p : 1 - std::max(p, 1));
        size_t k = 0; for (; k < g_txt->size(); ++k) if (Z3_is_eq_ast(Z, (*g_txt)[k].v, A[1].a) && (*g_txt)[k].abs == ab && (*g_txt)[k].rel == rl) break;
        if (k == g_txt->size()) g_txt->push_back({keep(A[1].a), nullptr, ab, rl}); char b[40]; snprintf(b, sizeof b, "\x01%zu;", k); g_native++; os->width(0); os->write(b, strlen(b)); g_native--; finishCall(f, x, A[0]); return true;
    }
    if (name == "_ZNSo5writeEPKcl" || name == "_ZNSi4readEPcl") {
        if (A[0].k != K_C || A[1].k != K_C || A[2].k != K_C) return false; if (!g_symbytes) g_symbytes = new std::map<std::pair<void*, long>, Val>(); const bool wr = name[4] == 'o'; uint64_t p = A[1].c, n = A[2].c;
        if (wr) { std::ostream* os = (std::ostream*)A[0].c; void* rb = os->rdbuf(); Obj* o = n ? access(p, n, false) : nullptr; const bool sy = o && o->mask && hasSym(o, p - o->base, n); if (!sy && g_symbytes->empty()) return false;
            g_native++; long pos = (long)os->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::out); g_native--; for (uint64_t i = 0; i < n; i++) { g_symbytes->erase({rb, pos + (long)i}); if (sy && (*o->mask)[p - o->base + i]) { Val v = readBytesBV(o, p - o->base + i, 1); if (v.k != K_C) { keep(v.a); (*g_symbytes)[{rb, pos + (long)i}] = v; *(uint8_t*)(p + i) = 2; } else *(uint8_t*)(p + i) = v.c; } }
            g_native++; os->write((const char*)p, n); g_native--; finishCall(f, x, A[0]); return true; }
        if (g_symbytes->empty()) return false; std::istream* is = (std::istream*)A[0].c; void* rb = is->rdbuf(); Obj* o = n ? access(p, n, true) : nullptr; g_native++; long pos = (long)is->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in); is->read((char*)p, n); long got = is->gcount(); g_native--;
        if (o && o->mask) clearSym(o, p - o->base, got); for (long i = 0; i < got; i++) { auto it = g_symbytes->find({rb, pos + i}); if (it == g_symbytes->end()) continue; if (!o) engineError("symbolic read to foreign memory"); if (!o->mask) { o->mask = new std::vector<uint8_t>(o->size, 0); o->cells = new std::map<uint64_t, Cell>(); } (*o->cells)[p + i - o->base] = {it->second, 1}; (*o->mask)[p + i - o->base] = 1; }
        finishCall(f, x, A[0]); return true;
    }
    if (name == "_ZNSi10_M_extractIfEERSiRT_" || name == "_ZNSi10_M_extractIdEERSiRT_" || name == "_ZNSirsERf" || name == "_ZNSirsERd") {
        if (!g_txt || A[0].k != K_C || A[1].k != K_C) return false; std::istream* is = (std::istream*)A[0].c; g_native++; *is >> std::ws; const int c = is->good() ? is->peek() : 0; size_t k = 0; bool ok = false; if (c == 1) { is->get(); ok = bool(*is >> k) && is->get() == ';'; } g_native--; if (c != 1) return false; if (!ok || k >= g_txt->size()) engineError("broken marker in a stream");
        TxtReal& t = (*g_txt)[k]; if (!t.r) { Z3_ast e = realNum(t.abs); if (t.rel > 0) { Z3_ast z = realNum(0), sg[2] = {t.v, t.v}; Z3_ast m = Z3_mk_ite(Z, Z3_mk_ge(Z, t.v, z), t.v, Z3_mk_unary_minus(Z, t.v)); Z3_ast pr[2] = {m, realNum(t.rel)}; e = Z3_mk_mul(Z, 2, pr); (void)sg; } char nm[64]; snprintf(nm, sizeof nm, "printed!%zu", k); t.r = keep(Z3_mk_const(Z, sym(nm), sReal)); addVar(nm, t.r, 3, -INFINITY, INFINITY); Z3_ast up[2] = {t.v, e}, lo[2] = {t.v, e}; addPC(Z3_mk_le(Z, t.r, Z3_mk_add(Z, 2, up))); addPC(Z3_mk_ge(Z, t.r, Z3_mk_sub(Z, 2, lo))); g_model_ok = false; }
        storeVal(A[1].c, (name.size() == 10 ? name[9] : name[18]) == 'f' ? Type::getFloatTy(x.I->getContext()) : Type::getDoubleTy(x.I->getContext()), RV(t.r)); finishCall(f, x, A[0]); return true;
    }
    return false;
}
static void nativeCall(Frame& f, IInst& x, uint64_t addr, const std::string& name, std::vector<Val>& A, bool& ctl) {
    if (name.find("So") != std::string::npos || name.find("Si") != std::string::npos) if (streamHook(f, x, addr, name, A)) return;
    auto* cb = cast<CallBase>(x.I); FunctionType* ft = cb->getFunctionType(); (void)ft; std::vector<ffi_type*> at; std::vector<void*> av; static thread_local uint64_t store[64]; static std::map<std::string, bool> okc; bool ok; { auto it = okc.find(name); if (it != okc.end()) ok = it->second; else { ok = symOK(name); okc[name] = ok; } }
    if (A.size() > 60) engineError("native args");
    for (size_t i = 0; i < A.size(); i++) {
        Type* t = cb->getArgOperand(i)->getType(); Val v = A[i];
        if (v.k == K_AGG) engineError("native aggregate arg %s", name.c_str());
        if (v.k != K_C && v.k != K_UNDEF) { if (ok || name.find("printf") != std::string::npos) { // value only ends up in formatted text: any representative will do
                if (v.k == K_R) v = mkConcFP(0.0, t->isFloatTy()); else v = C(0); } else engineError("symbolic argument to native %s", name.c_str()); }
        store[i] = v.c; if (t->isIntegerTy() && t->getIntegerBitWidth() < 64 ) store[i] &= maskw(t->getIntegerBitWidth());
        if (t->isPointerTy() && v.c && !ok) { auto* o = findObj(v.c); if (o && o->mask && !o->cells->empty()) engineError("native call %s on symbolic memory", name.c_str()); }
        at.push_back(t->isDoubleTy() ? &ffi_type_double : t->isFloatTy() ? &ffi_type_float : t->isPointerTy() ? &ffi_type_pointer : t->getIntegerBitWidth() <= 8 ? &ffi_type_uint8 : t->getIntegerBitWidth() <= 16 ? &ffi_type_uint16 : t->getIntegerBitWidth() <= 32 ? &ffi_type_uint32 : &ffi_type_uint64); av.push_back(&store[i]);
    }
    Type* rt = x.I->getType(); ffi_type* rft; ffi_type st; ffi_type* els[4] = {nullptr, nullptr, nullptr, nullptr}; auto scal = [](Type* t) { return t->isDoubleTy() ? &ffi_type_double : t->isFloatTy() ? &ffi_type_float : t->isPointerTy() ? &ffi_type_pointer : t->getIntegerBitWidth() <= 8 ? &ffi_type_uint8 : t->getIntegerBitWidth() <= 32 ? &ffi_type_uint32 : &ffi_type_uint64; };
    if (rt->isVoidTy()) rft = &ffi_type_void; else if (auto* s = dyn_cast<StructType>(rt)) { st.size = 0; st.alignment = 0; st.type = FFI_TYPE_STRUCT; if (s->getNumElements() > 3) engineError("native struct ret"); for (unsigned i = 0; i < s->getNumElements(); i++) els[i] = scal(s->getElementType(i)); st.elements = els; rft = &st; } else rft = scal(rt);
    ffi_cif cif; if (ffi_prep_cif(&cif, FFI_DEFAULT_ABI, at.size(), rft, at.data()) != FFI_OK) engineError("ffi"); uint64_t ret[8] = {0};
    if (g_trace) if (getenv("QSX_NATIVE")) fprintf(stderr, "[native] %s\n", name.c_str());
    g_native++;
    try { ffi_call(&cif, FFI_FN(addr), ret, av.data()); g_native--; }
    catch (const std::exception& e) {
        g_native = 0; const std::type_info* ti = abi::__cxa_current_exception_type(); uint64_t m = allocMem(64, "exception"); memcpy((void*)m, (void*)&e, 16); ctl = true; throwExc(m, (uint64_t)ti, 0); return;
    } catch (...) { g_native = 0; engineError("native exception"); }
    Val r; if (rt->isVoidTy()) r = C(0); else if (auto* s = dyn_cast<StructType>(rt)) { r.k = K_AGG; r.agg = new std::vector<Val>(); auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) { Type* et = s->getElementType(i); Val e = C(0); memcpy(&e.c, (char*)ret + sl->getElementOffset(i), DL->getTypeStoreSize(et)); r.agg->push_back(e); } }
    else { r = C(ret[0]); if (rt->isIntegerTy()) r.c &= maskw(rt->getIntegerBitWidth()); if (rt->isFloatTy()) r.c &= 0xffffffffu; }
    finishCall(f, x, r);
}
static void doCall(Frame& f, IInst& x) {
    auto* cb = cast<CallBase>(x.I); std::vector<Val> A; size_t n = x.ops.size() - 1; A.reserve(n); for (size_t i = 0; i < n; i++) A.push_back(ev(f, x.ops[i]));
    Function* F = x.callee;
    if (!F) { if (cb->isInlineAsm()) { // compiler barriers / pause only
            finishCall(f, x, C(0)); return; }
        uint64_t a = addrOf(ev(f, x.ops[n])); auto it = g_faddr->find(a); if (it != g_faddr->end()) F = it->second; else { if (a > 4096 && foreignOk(a, 1)) { bool ctl = false; Dl_info di; std::string nm = dladdr((void*)a, &di) && di.dli_sname ? di.dli_sname : "?"; nativeCall(f, x, a, nm, A, ctl); return; } fatalViolation("call through invalid function pointer"); } }
    int b = x.callee ? x.builtin : builtinId(F->getName().str());
    if (b >= 0) { bool ctl = false; int depth = g_st->size(); (void)depth; Val r = doBuiltin(f, x, b, A, ctl); if (!ctl) { Frame& f2 = g_st->back(); finishCall(f2, x, r); } return; }
    if (F->isIntrinsic()) { Val r = C(0); if (!doIntrinsic(f, x, F->getIntrinsicID(), A, r)) engineError("intrinsic %s", F->getName().str().c_str()); finishCall(f, x, r); return; }
    if (F->isDeclaration()) { std::string nm = F->getName().str(); if (!x.native) x.native = dlsym(RTLD_DEFAULT, nm.c_str()); if (!x.native) engineError("unresolved external %s", demangle(nm).c_str()); bool ctl = false; nativeCall(f, x, (uint64_t)x.native, nm, A, ctl); return; }
    pushFrame(F, A, cb);
}
static Val vecMap(unsigned n, std::function<Val(unsigned)> g) { Val r; r.k = K_AGG; r.agg = new std::vector<Val>(); for (unsigned i = 0; i < n; i++) r.agg->push_back(g(i)); return r; }

static void run() {
    while (!g_st->empty()) {
        Frame& f = g_st->back(); BBInfo& B = f.fn->bbs[f.bb]; IInst& x = B.insts[f.pc++];
        if ((++g_icount & 0xffff) == 0) { if (g_icount > g_maxinstr) engineError("instruction limit"); checkStop(); }
        switch (x.opc) {
        case Instruction::Ret: { Val v = C(0); if (!x.ops.empty()) v = ev(f, x.ops[0]); retVal(v); break; }
        case Instruction::Br: if (x.t2 < 0) jump(f, x.t1); else { const Val& c = ev(f, x.ops[0]); bool t; if (c.k == K_C) t = c.c & 1; else if (c.k == K_UNDEF) t = false; else t = branch(toBool(c)); jump(f, t ? x.t1 : x.t2); } break;
        case Instruction::Switch: { auto* sw = cast<SwitchInst>(x.I); Val c = ev(f, x.ops[0]); int to = -1; if (c.k == K_C || c.k == K_UNDEF) { for (auto& cs : sw->cases()) if ((cs.getCaseValue()->getValue().getRawData()[0] & maskw(x.w)) == (c.c & maskw(x.w))) { to = f.fn->bbid[cs.getCaseSuccessor()]; break; } } else { Z3_ast a = toBV(c, x.w); for (auto& cs : sw->cases()) { if (branch(Z3_mk_eq(Z, a, bvNum(cs.getCaseValue()->getValue().getRawData()[0] & maskw(x.w), x.w)))) { to = f.fn->bbid[cs.getCaseSuccessor()]; break; } } } if (to < 0) to = f.fn->bbid[sw->getDefaultDest()]; jump(f, to); break; }
        case Instruction::Unreachable: fatalViolation("unreachable code executed");
        case Instruction::FNeg: if (x.ty->isVectorTy()) { Val a = ev(f, x.ops[0]); bool f32 = x.ty->getScalarType()->isFloatTy(); f.regs[x.dst] = vecMap(a.agg->size(), [&](unsigned i) { return fpNeg((*a.agg)[i], f32); }); } else f.regs[x.dst] = fpNeg(ev(f, x.ops[0]), x.f32); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            if (x.ty->isVectorTy()) { Val a = ev(f, x.ops[0]), b = ev(f, x.ops[1]); bool f32 = x.ty->getScalarType()->isFloatTy(); unsigned o = x.opc; Val r = vecMap(a.agg->size(), [&](unsigned i) { return fpBin(o, (*a.agg)[i], (*b.agg)[i], f32); }); g_st->back().regs[x.dst] = r; break; }
            Val r = fpBin(x.opc, ev(f, x.ops[0]), ev(f, x.ops[1]), x.f32); f.regs[x.dst] = r; break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            if (x.ty->isVectorTy()) { Val a = ev(f, x.ops[0]), b = ev(f, x.ops[1]); unsigned o = x.opc, w = x.ty->getScalarSizeInBits(); f.regs[x.dst] = vecMap(a.agg->size(), [&](unsigned i) { return intBin(o, (*a.agg)[i], (*b.agg)[i], w); }); break; }
            Val r = intBin(x.opc, ev(f, x.ops[0]), ev(f, x.ops[1]), x.w); f.regs[x.dst] = r; break; }
        case Instruction::ICmp: { auto p = cast<ICmpInst>(x.I)->getPredicate(); Val a = ev(f, x.ops[0]), b = ev(f, x.ops[1]); if (a.k == K_AGG) { unsigned w = x.I->getOperand(0)->getType()->getScalarSizeInBits(); f.regs[x.dst] = vecMap(a.agg->size(), [&](unsigned i) { return icmp(p, (*a.agg)[i], (*b.agg)[i], w); }); break; } f.regs[x.dst] = icmp(p, a, b, x.w); break; }
        case Instruction::FCmp: { auto p = cast<FCmpInst>(x.I)->getPredicate(); Val a = ev(f, x.ops[0]), b = ev(f, x.ops[1]); if (a.k == K_AGG) { bool f32 = x.I->getOperand(0)->getType()->getScalarType()->isFloatTy(); f.regs[x.dst] = vecMap(a.agg->size(), [&](unsigned i) { return fcmp(p, (*a.agg)[i], (*b.agg)[i], f32); }); break; } f.regs[x.dst] = fcmp(p, a, b, x.f32); break; }
        case Instruction::Select: { Val c = ev(f, x.ops[0]), a = ev(f, x.ops[1]), b = ev(f, x.ops[2]); if (c.k == K_AGG) { Type* et = x.ty->getScalarType(); f.regs[x.dst] = vecMap(c.agg->size(), [&](unsigned i) { return selectVal((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], et->getScalarSizeInBits(), et->isFloatingPointTy(), et); }); break; } if (g_forksel && c.k == K_BOOL && !x.isfp && x.w > 1 && infoOf(c.a).real && a.k == K_C && b.k == K_C) c = C(branch(c.a)); Val r = selectVal(c, a, b, x.w, x.isfp, x.ty); f.regs[x.dst] = r; break; }
        case Instruction::Alloca: { auto* al = cast<AllocaInst>(x.I); uint64_t n = DL->getTypeAllocSize(al->getAllocatedType()); Val c = ev(f, x.ops[0]); n *= c.c; uint64_t m = allocMem(n, "stack"); f.allocas.push_back(findObj(m) ? findObj(m) : (*g_objs)[m]); f.regs[x.dst] = C(m); break; }
        case Instruction::Load: { uint64_t a = addrOf(ev(f, x.ops[0])); if (g_race.on) { auto* li = cast<LoadInst>(x.I); if ((g_atomic = li->isAtomic()) && isAcquireOrStronger(li->getOrdering())) g_race.acquire(a); } Val r = loadVal(a, x.ty); g_atomic = false; f.regs[x.dst] = r; break; }
        case Instruction::Store: { uint64_t a = addrOf(ev(f, x.ops[1])); if (g_race.on) { auto* si = cast<StoreInst>(x.I); if ((g_atomic = si->isAtomic()) && isReleaseOrStronger(si->getOrdering())) g_race.release(a); } storeVal(a, x.I->getOperand(0)->getType(), ev(f, x.ops[0])); g_atomic = false; break; }
        case Instruction::GetElementPtr: { Val b = ev(f, x.ops[0]); if (b.k == K_AGG) engineError("vector gep"); bool conc = b.k == K_C; for (auto& s : x.scaled) if (ev(f, x.ops[s.first]).k != K_C) conc = false; if (conc) { uint64_t a = b.c + x.off; for (auto& s : x.scaled) a += (uint64_t)sext64(ev(f, x.ops[s.first]).c, x.I->getOperand(s.first)->getType()->isIntegerTy() ? x.w : 64) * s.second; f.regs[x.dst] = C(a); } else { Val r = b; if (x.off) r = intBin(Instruction::Add, r, C(x.off), 64); for (auto& s : x.scaled) { Val i = ev(f, x.ops[s.first]); if (x.w < 64) { if (i.k == K_C) i = C(sext64(i.c, x.w)); else i = BV(Z3_mk_sign_ext(Z, 64 - x.w, toBV(i, x.w)), 64); } r = intBin(Instruction::Add, r, intBin(Instruction::Mul, i, C(s.second), 64), 64); } f.regs[x.dst] = r; } break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val r = castOp(x, ev(f, x.ops[0])); f.regs[x.dst] = r; break; }
        case Instruction::Freeze: f.regs[x.dst] = ev(f, x.ops[0]); break;
        case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(x.I); Val v = ev(f, x.ops[0]); for (unsigned i : e->indices()) { if (v.k != K_AGG) engineError("extractvalue"); v = (*v.agg)[i]; } f.regs[x.dst] = v; break; }
        case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(x.I); Val v = ev(f, x.ops[0]); if (v.k != K_AGG) engineError("insertvalue"); Val top; top.k = K_AGG; top.agg = new std::vector<Val>(*v.agg); std::vector<Val>* cur = top.agg; auto idx = e->getIndices(); for (size_t i = 0; i < idx.size(); i++) { if (i + 1 == idx.size()) (*cur)[idx[i]] = ev(f, x.ops[1]); else { Val& c = (*cur)[idx[i]]; c.agg = new std::vector<Val>(*c.agg); cur = c.agg; } } f.regs[x.dst] = top; break; }
        case Instruction::ExtractElement: { Val v = ev(f, x.ops[0]); uint64_t i = concretize(ev(f, x.ops[1]), 64); f.regs[x.dst] = (*v.agg)[i]; break; }
        case Instruction::InsertElement: { Val v = ev(f, x.ops[0]); Val r; r.k = K_AGG; r.agg = new std::vector<Val>(*v.agg); (*r.agg)[concretize(ev(f, x.ops[2]), 64)] = ev(f, x.ops[1]); f.regs[x.dst] = r; break; }
        case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(x.I); Val a = ev(f, x.ops[0]), b = ev(f, x.ops[1]); auto mk = sv->getShuffleMask(); int n = a.agg->size(); f.regs[x.dst] = vecMap(mk.size(), [&](unsigned i) { int m = mk[i]; if (m < 0) return C(0); return m < n ? (*a.agg)[m] : (*b.agg)[m - n]; }); break; }
        case Instruction::Call: case Instruction::Invoke: doCall(f, x); break;
        case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(x.I); uint64_t sel = 0; for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { uint64_t t = constVal(lp->getClause(i)).c; if (catches(t, g_cur.ti)) { sel = typeidFor(t); break; } } else { auto* arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool allowed = false; if (arr) for (auto& o : arr->operands()) if (catches(constVal(cast<Constant>(o)).c, g_cur.ti)) allowed = true; if (!allowed) { sel = (uint64_t)-1; break; } } Val v; v.k = K_AGG; v.agg = new std::vector<Val>{C(g_cur.obj), C(sel & 0xffffffffu)}; f.regs[x.dst] = v; break; }
        case Instruction::Resume: { Val v = ev(f, x.ops[0]); uint64_t o = (*v.agg)[0].c; auto it = g_excs->find(o); if (it != g_excs->end()) g_cur = it->second; popFrame(); if (g_st->empty()) fatalViolation("uncaught exception %s", excName(g_cur.ti).c_str()); unwind(); break; }
        case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(x.I); uint64_t a = addrOf(ev(f, x.ops[0])); if (g_race.on) { g_atomic = true; if (isAcquireOrStronger(rm->getOrdering())) g_race.acquire(a); if (isReleaseOrStronger(rm->getOrdering())) g_race.release(a); } Val o = loadVal(a, x.ty), v = ev(f, x.ops[1]), n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = intBin(Instruction::Add, o, v, x.w); break; case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, o, v, x.w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = intBin(Instruction::Or, o, v, x.w); break; case AtomicRMWInst::And: n = intBin(Instruction::And, o, v, x.w); break; case AtomicRMWInst::FAdd: n = fpBin(Instruction::FAdd, o, v, x.f32); break; default: engineError("atomicrmw"); } storeVal(a, x.ty, n); g_atomic = false; f.regs[x.dst] = o; break; }
        case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(x.I); uint64_t a = addrOf(ev(f, x.ops[0])); Type* t = cx->getCompareOperand()->getType(); if (g_race.on) { g_atomic = true; if (isAcquireOrStronger(cx->getMergedOrdering())) g_race.acquire(a); if (isReleaseOrStronger(cx->getMergedOrdering())) g_race.release(a); } Val o = loadVal(a, t); Val e = icmp(CmpInst::ICMP_EQ, o, ev(f, x.ops[1]), typeWidth(t)); bool q = e.k == K_C ? e.c : branch(toBool(e)); if (q) storeVal(a, t, ev(f, x.ops[2])); g_atomic = false; Val r; r.k = K_AGG; r.agg = new std::vector<Val>{o, C(q)}; f.regs[x.dst] = r; break; }
        case Instruction::Fence: break;
        default: engineError("opcode %s", x.I->getOpcodeName());
        }
    }
}

// ------------------------------------------------------------------------------------------------ driver
static void jstr(FILE* f, const std::string& s) { fputc('"', f); for (char c : s) { if (c == '"' || c == '\\') fputc('\\', f); if ((unsigned char)c < 32) { fputc(' ', f); continue; } fputc(c, f); } fputc('"', f); }
// -prep in.bc out.bc : available_externally bodies whose symbol libstdc++ exports become declarations (run natively), the others ordinary definitions
static int prep(const char* in, const char* out, bool threads) {
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx); if (!mod) { err.print("qsx", errs()); return 2; }
    dlopen("libstdc++.so.6", RTLD_NOW | RTLD_GLOBAL); dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL);
    for (auto& F : *mod) if (F.hasAvailableExternallyLinkage()) { if (dlsym(RTLD_DEFAULT, F.getName().str().c_str())) { F.deleteBody(); F.setComdat(nullptr); } else F.setLinkage(GlobalValue::InternalLinkage); }
    for (auto& G : mod->globals()) if (G.hasAvailableExternallyLinkage()) { if (dlsym(RTLD_DEFAULT, G.getName().str().c_str())) { G.setInitializer(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); } else G.setLinkage(GlobalValue::InternalLinkage); }
    if (threads) for (auto& F : *mod) if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeThread);   // no loads or stores the source does not have
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*mod, os); return 0;
}
int main(int argc, char** argv) {
    if (argc == 4 && !strncmp(argv[1], "-prep", 5)) return prep(argv[2], argv[3], !strcmp(argv[1], "-prept"));
    std::string in; std::string entry = "qsx_main"; double budget = 0;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-o") g_out = nx(); else if (a == "-entry") entry = nx(); else if (a == "-budget") budget = atof(nx().c_str()); else if (a == "-j") g_jobs = atoi(nx().c_str()); else if (a == "-i2r") g_i2r = true; else if (a == "-forksel") g_forksel = true; else if (a == "-noiv") g_iv = false; else if (a == "-nouni") g_uni = false; else if (a == "-trace") g_trace = true; else if (a == "-maxviol") g_maxviol = atoi(nx().c_str()); else if (a == "-dump") g_dumpdir = nx(); else if (a == "-msbranch") g_ms_branch = atoi(nx().c_str()); else if (a == "-msassert") g_ms_assert = atoi(nx().c_str()); else if (a == "-rlbranch") g_rl_branch = atoi(nx().c_str()); else if (a == "-rlassert") g_rl_assert = atoi(nx().c_str()); else if (a == "-D") { std::string d = nx(); size_t p = d.find('='); g_args[d.substr(0, p)] = d.substr(p + 1); } else in = a; }
    if (g_maxviol > MAXVIOL) g_maxviol = MAXVIOL;
    S = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)S, 0, sizeof(Shm)); S->tokens = g_jobs - 1;
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx); if (!mod) { err.print("qsx", errs()); return 2; } M = mod.get(); DataLayout dl(M); DL = &dl;
    double t0 = now(); if (budget > 0) g_deadline = t0 + budget;
    pid_t root = fork();
    if (root == 0) {
        if (!g_trace) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
        signal(SIGALRM, onAlarm);
        g_objs = new OMap(); g_pc = new std::vector<Z3_ast>(); g_vars = new std::vector<Var>(); g_varidx = new std::unordered_map<unsigned, int>(); g_numcache = new std::unordered_map<uint64_t, Z3_ast>(); g_info = new std::unordered_map<unsigned, Info*>(); g_fns = new std::unordered_map<const Function*, FnInfo*>(); g_gaddr = new std::unordered_map<const GlobalValue*, uint64_t>(); g_faddr = new std::unordered_map<uint64_t, Function*>(); g_st = new std::vector<Frame>(); g_st->reserve(4096); g_caught = new std::vector<Exc>(); g_excs = new std::map<uint64_t, Exc>(); g_tids = new std::vector<uint64_t>(); g_sqrt = new std::unordered_map<unsigned, Z3_ast>(); g_sqrtdef = new std::unordered_map<unsigned, Z3_ast>(); g_pcdef = new std::unordered_map<unsigned, char>(); g_sqrtpos = new std::unordered_map<unsigned, char>(); g_unis = new std::map<int, Uni>(); g_rf = new std::unordered_map<unsigned, RF>(); g_rffail = new std::unordered_map<unsigned, long>(); g_rpmemo = new std::unordered_map<unsigned, std::pair<Z3_ast, RootPow>>();
        dlopen("libstdc++.so.6", RTLD_NOW | RTLD_GLOBAL); dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL); loadRegions();
        Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr); sReal = Z3_mk_real_sort(Z); sBool = Z3_mk_bool_sort(Z); sF64 = Z3_mk_fpa_sort_double(Z); sF32 = Z3_mk_fpa_sort_single(Z); rmRNE = Z3_mk_fpa_rne(Z);
        g_model = Z3_mk_model(Z); Z3_model_inc_ref(Z, g_model);
        for (auto& F : *M) fnInfo(&F);
        for (auto& g : M->globals()) { if (g.isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, g.getName().str().c_str()); if (!p) { if (g.getName() == "__dso_handle") { (*g_gaddr)[&g] = allocMem(8, "global"); continue; } (*g_gaddr)[&g] = allocMem(64, "extern"); continue; } (*g_gaddr)[&g] = (uint64_t)p; continue; } if (g.getName().starts_with("llvm.")) continue; uint64_t n = DL->getTypeAllocSize(g.getValueType()); (*g_gaddr)[&g] = allocMem(n, "global"); }
        for (auto& g : M->globals()) { if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue; initConst((*g_gaddr)[&g], g.getInitializer()); }
        g_up = true;
        std::vector<std::pair<uint32_t, Function*>> ctors; if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({(uint32_t)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : ctors) { pushFrame(c.second, {}, nullptr); run(); }
        if (g_trace) fprintf(stderr, "[init] %ld instructions\n", g_icount);
        Function* F = M->getFunction(entry); if (!F) engineError("no entry %s", entry.c_str());
        pushFrame(F, {}, nullptr); run(); pathDone(false);
    }
    int st; waitpid(root, &st, 0); if (WIFSIGNALED(st)) { S->errors++; int i = slot(S->nerr, S->err, "root killed by signal"); S->errcnt[i]++; }
    double wall = now() - t0; FILE* f = fopen((g_out + ".json").c_str(), "w"); if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"wall_s\":%.3f,\"paths\":%ld,\"pruned\":%ld,\"errors\":%ld,\"forks\":%ld,\"instructions\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"model_hits\":%ld,\"interval_decided\":%ld,\"interval_asserts\":%ld,\"univariate_decided\":%ld,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"symbolic_fp_ops\":%ld,\"concretizations\":%ld,\"deadline_hit\":%d,\"violations\":%d,\n", wall, S->paths.load(), S->pruned.load(), S->errors.load(), S->forks.load(), S->instrs.load(), S->q_total.load(), S->q_sat.load(), S->q_unsat.load(), S->q_unknown.load(), S->q_cachehit.load(), S->iv_decided.load(), S->iv_assert.load(), S->uni_decided.load(), S->solver_us.load() * 1e-6, S->solver_max_us.load() * 1e-6, S->symfp.load(), S->concretized.load(), S->deadline_hit.load(), S->nviol.load());
    fprintf(f, "\"reach\":{"); for (int i = 0; i < S->nreach; i++) { if (i) fputc(',', f); jstr(f, S->reach[i]); fprintf(f, ":%ld", S->reachcnt[i].load()); }
    fprintf(f, "},\n\"asserts\":{"); for (int i = 0; i < S->nass; i++) { if (i) fputc(',', f); jstr(f, S->ass[i]); fprintf(f, ":{\"concrete\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld}", S->ass_conc[i].load(), S->ass_unsat[i].load(), S->ass_sat[i].load(), S->ass_unk[i].load()); }
    fprintf(f, "},\n\"engine_errors\":{"); for (int i = 0; i < S->nerr; i++) { if (i) fputc(',', f); jstr(f, S->err[i]); fprintf(f, ":%ld", S->errcnt[i].load()); }
    fprintf(f, "},\n\"functions\":["); bool first = true; unsigned id = 0; for (auto& F : *M) { if (id < (1u << 16) && S->fnused[id] && !F.isDeclaration()) { std::string n = demangle(F.getName().str()); if (n.find("queso::") != std::string::npos || n.find("aabb") != std::string::npos || n.find("nnls") != std::string::npos) { if (!first) fputs(",\n", f); first = false; jstr(f, n); } } id++; }
    fprintf(f, "]}\n"); fclose(f); return 0;
}
