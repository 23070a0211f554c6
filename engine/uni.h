// Exact decision of conditions that depend on one real input: terms become (n0 + n1*sqrt(R))/d with rational polynomials in that
// input, signs over the path's interval of the input are found with Bernstein coefficients. Included by qsx.cpp.
#include <boost/multiprecision/cpp_int.hpp>
#include <functional>
#include <set>
#include <map>
typedef boost::multiprecision::number<boost::multiprecision::cpp_rational_backend, boost::multiprecision::et_off> Qn; typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off> Zn; typedef std::vector<Qn> Poly;
static int qs(const Qn& q) { return q.sign(); }
static void ptrim(Poly& p) { while (!p.empty() && p.back().is_zero()) p.pop_back(); }
static Poly padd(const Poly& a, const Poly& b) { Poly r(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += b[i]; ptrim(r); return r; }
static Poly pneg(Poly a) { for (auto& x : a) x = -x; return a; }
static Poly pmul(const Poly& a, const Poly& b) { if (a.empty() || b.empty()) return {}; if (a.size() == 1 && a[0] == 1) return b; if (b.size() == 1 && b[0] == 1) return a; Poly r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) if (!a[i].is_zero()) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; ptrim(r); return r; }
static Poly prem(Poly a, const Poly& b, Poly* quo = nullptr) { if (quo) quo->assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, Qn(0)); while (a.size() >= b.size() && !a.empty()) { Qn f = a.back() / b.back(); size_t s = a.size() - b.size(); if (quo) (*quo)[s] = f; for (size_t i = 0; i + 1 < b.size(); i++) a[s + i] -= f * b[i]; a.pop_back(); ptrim(a); } return a; }
static void pmonic(Poly& p) { if (!p.empty() && p.back() != 1) { Qn f = 1 / p.back(); for (auto& x : p) x *= f; } }
static Poly pgcd(Poly a, Poly b) { while (!b.empty()) { Poly r = prem(a, b); pmonic(r); a = b; b = r; } pmonic(a); return a; }
static Qn pval(const Poly& p, const Qn& x) { Qn r = 0; for (size_t i = p.size(); i-- > 0;) r = r * x + p[i]; return r; }
static size_t qbits(const Qn& q) { return msb(abs(numerator(q)) + 1) + msb(denominator(q)); }
struct RF { bool ok = false; int var = -1; unsigned root = 0; Poly n0, n1, d{Qn(1)}; };
struct Uni { int var; Qn lo, hi; bool lo_open = false, hi_open = false, exact = true; std::vector<Qn> holes; std::vector<Z3_ast> rest; }; // rest: conjuncts only partly taken up
static bool g_uni = true; static std::map<int, Uni>* g_unis; static std::unordered_map<unsigned, RF>* g_rf; static std::unordered_map<unsigned, long>* g_rffail; static long g_univer = 0;
static int uniDecide(Z3_ast c);
static RF rfFail() { return RF(); }
static RF rfConst(const Qn& q) { RF r; r.ok = true; if (!q.is_zero()) r.n0 = {q}; return r; }
static bool rfJoin(const RF& a, const RF& b, RF& r) { if (!a.ok || !b.ok) return false; if (a.var >= 0 && b.var >= 0 && a.var != b.var) return false; if (a.root && b.root && a.root != b.root) return false; r.ok = true; r.var = a.var >= 0 ? a.var : b.var; r.root = a.root ? a.root : b.root; return true; }
static RF rfNorm(RF r) {
    if (r.n0.empty() && r.n1.empty()) { r.d = {Qn(1)}; r.root = 0; return r; } if (r.n1.empty()) r.root = 0;
    if (r.d.size() > 1) { Poly g = r.d; if (!r.n0.empty()) g = pgcd(g, r.n0); if (!r.n1.empty() && g.size() > 1) g = pgcd(g, r.n1); if (g.size() > 1) { Poly q; prem(r.d, g, &q); ptrim(q); r.d = q; if (!r.n0.empty()) { prem(r.n0, g, &q); ptrim(q); r.n0 = q; } if (!r.n1.empty()) { prem(r.n1, g, &q); ptrim(q); r.n1 = q; } } }
    if (r.d.back() != 1) { Qn f = 1 / r.d.back(); for (auto& x : r.d) x *= f; for (auto& x : r.n0) x *= f; for (auto& x : r.n1) x *= f; }
    if (r.n0.size() > 17 || r.n1.size() > 17 || r.d.size() > 17) return rfFail(); for (auto* p : {&r.n0, &r.n1, &r.d}) for (auto& x : *p) if (qbits(x) > 30000) return rfFail(); return r; }
static RF rfAdd(const RF& a, const RF& b) { RF r; if (!rfJoin(a, b, r)) return rfFail(); if (a.d == b.d) { r.n0 = padd(a.n0, b.n0); r.n1 = padd(a.n1, b.n1); r.d = a.d; } else { r.n0 = padd(pmul(a.n0, b.d), pmul(b.n0, a.d)); r.n1 = padd(pmul(a.n1, b.d), pmul(b.n1, a.d)); r.d = pmul(a.d, b.d); } return rfNorm(r); }
static RF rfNeg(RF a) { a.n0 = pneg(a.n0); a.n1 = pneg(a.n1); return a; }
static RF rfConv(Z3_ast a);
static bool rfRadicand(unsigned root, RF& R) { auto it = g_sqrtdef->find(root); if (it == g_sqrtdef->end()) return false; R = rfConv(it->second); return R.ok && !R.root; }
static RF rfMul(const RF& a, const RF& b) { RF r; if (!rfJoin(a, b, r)) return rfFail(); r.n0 = pmul(a.n0, b.n0); r.n1 = padd(pmul(a.n0, b.n1), pmul(a.n1, b.n0)); r.d = pmul(a.d, b.d); if (!a.n1.empty() && !b.n1.empty()) { RF R; if (!rfRadicand(r.root, R) || (R.var >= 0 && r.var >= 0 && R.var != r.var)) return rfFail(); if (R.var >= 0) r.var = R.var; r.n0 = padd(pmul(r.n0, R.d), pmul(pmul(a.n1, b.n1), R.n0)); r.n1 = pmul(r.n1, R.d); r.d = pmul(r.d, R.d); } return rfNorm(r); }
static RF rfInv(const RF& a) { RF r = a; if (!a.ok || (a.n0.empty() && a.n1.empty())) return rfFail(); if (a.n1.empty()) { r.n0 = a.d; r.d = a.n0; return rfNorm(r); } // d/(n0+n1 s) = d (n0 - n1 s)/(n0^2 - n1^2 R)
    RF R; if (!rfRadicand(a.root, R) || (R.var >= 0 && a.var >= 0 && R.var != a.var)) return rfFail(); if (R.var >= 0) r.var = R.var; Poly e = padd(pmul(pmul(a.n0, a.n0), R.d), pneg(pmul(pmul(a.n1, a.n1), R.n0))); if (e.empty()) return rfFail(); Poly dd = pmul(a.d, R.d); r.n0 = pmul(dd, a.n0); r.n1 = pneg(pmul(dd, a.n1)); r.d = e; return rfNorm(r); }
static Qn qnum(Z3_ast a) { int64_t p, q; if (Z3_get_numeral_rational_int64(Z, a, &p, &q)) return Qn(p, q); std::string s = Z3_get_numeral_string(Z, a); size_t k = s.find('/'); if (k == std::string::npos) return Qn(Zn(s)); return Qn(Zn(s.substr(0, k)), Zn(s.substr(k + 1))); }
static RF rfConv0(Z3_ast a) {
    if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) return rfConst(qnum(a)); if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return rfFail();
    Z3_app ap = Z3_to_app(Z, a); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); }; unsigned id = Z3_get_ast_id(Z, a);
    if (k == 0) { if (g_sqrtdef->count(id)) { RF R; if (!rfRadicand(id, R)) return rfFail(); RF r; r.ok = true; r.var = R.var; r.root = id; r.n1 = {Qn(1)}; return r; }
        auto v = g_varidx->find(id); if (v == g_varidx->end() || !g_unis->count(v->second)) return rfFail(); RF r; r.ok = true; r.var = v->second; r.n0 = {Qn(0), Qn(1)}; return r; }
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_ADD: { RF j = rfConv(A(0)); for (unsigned i = 1; i < k && j.ok; i++) j = rfAdd(j, rfConv(A(i))); return j; }
    case Z3_OP_SUB: { RF j = rfConv(A(0)); for (unsigned i = 1; i < k && j.ok; i++) j = rfAdd(j, rfNeg(rfConv(A(i)))); return j; }
    case Z3_OP_UMINUS: return rfNeg(rfConv(A(0)));
    case Z3_OP_MUL: { RF j = rfConv(A(0)); for (unsigned i = 1; i < k && j.ok; i++) j = rfMul(j, rfConv(A(i))); return j; }
    case Z3_OP_DIV: { RF x = rfConv(A(0)); if (!x.ok) return x; RF y = rfConv(A(1)); if (!y.ok) return y; return rfMul(x, rfInv(y)); }
    case Z3_OP_POWER: { int64_t p, q; if (Z3_get_ast_kind(Z, A(1)) == Z3_NUMERAL_AST && Z3_get_numeral_rational_int64(Z, A(1), &p, &q) && q == 1 && p >= 1 && p <= 16) { RF b = rfConv(A(0)), j = b; for (int i = 1; i < p && j.ok; i++) j = rfMul(j, b); return j; } return rfFail(); }
    case Z3_OP_ITE: { int c = uniDecide(A(0)); return c == 1 ? rfConv(A(1)) : c == 0 ? rfConv(A(2)) : rfFail(); }
    default: return rfFail(); } }
static RF rfConv(Z3_ast a) { unsigned id = Z3_get_ast_id(Z, a); auto it = g_rf->find(id); if (it != g_rf->end()) return it->second; auto f = g_rffail->find(id); if (f != g_rffail->end() && f->second == g_univer) return rfFail(); RF r = rfConv0(a); if (r.ok) g_rf->emplace(id, r); else (*g_rffail)[id] = g_univer; return r; }
enum { SN = 1, SZ = 2, SP = 4 }; static int smask(int s) { return s < 0 ? SN : s > 0 ? SP : SZ; } static int sflip(int m) { return (m & SZ) | (m & SN ? SP : 0) | (m & SP ? SN : 0); }
// signs a polynomial takes on an interval (0: not found out)
static int polySigns(const Poly& p, const Qn& lo, bool lopen, const Qn& hi, bool hopen, const std::vector<Qn>* holes) {
    if (p.empty()) return SZ; if (p.size() == 1) return smask(qs(p[0])); if (lo == hi) return smask(qs(pval(p, lo)));
    if (p.size() == 2) { const int a = qs(pval(p, lo)), b = qs(pval(p, hi)); int m = 0; if (a && b && a == b) return smask(a); if (!lopen) m |= smask(a); if (!hopen) m |= smask(b); if (a) m |= smask(a); if (b) m |= smask(b); if (a && b) { Qn r = -p[0] / p[1]; bool hole = false; if (holes) for (auto& h : *holes) hole |= h == r; if (!hole) m |= SZ; } return m; }
    const size_t n = p.size() - 1; Poly t = p; // Taylor shift to lo, scale, then Bernstein coefficients
    for (size_t i = 0; i < n; i++) for (size_t j = n; j-- > i;) t[j] += lo * t[j + 1]; Qn w = hi - lo, f = 1; for (size_t i = 0; i <= n; i++) { t[i] *= f; f *= w; }
    Poly b(n + 1); { std::vector<std::vector<Qn>> bin(n + 1, std::vector<Qn>(n + 1)); for (size_t i = 0; i <= n; i++) { bin[i][0] = 1; for (size_t j = 1; j <= i; j++) bin[i][j] = bin[i - 1][j - 1] + (j < i ? bin[i - 1][j] : Qn(0)); } for (size_t i = 0; i <= n; i++) for (size_t j = 0; j <= i; j++) b[i] += bin[i][j] / bin[n][j] * t[j]; }
    int mask = 0, budget = 400; bool fail = false;
    std::function<void(const Poly&, bool, bool, int)> rec = [&](const Poly& c, bool lo_, bool ho_, int depth) { if (fail || --budget < 0) { fail = true; return; } if (!lo_) mask |= smask(qs(c[0])); if (!ho_) mask |= smask(qs(c[n])); int V = 0, last = 0; for (auto& x : c) { int s = qs(x); if (!s) continue; if (last && s != last) V++; last = s; }
        if (V == 0) { if (last) mask |= smask(last); return; } if (V == 1) { mask = SN | SZ | SP; return; } if (mask == (SN | SZ | SP)) return; if (depth == 0) { fail = true; return; }
        Poly l(n + 1), h = c; for (size_t i = 0; i <= n; i++) { l[i] = h[0]; for (size_t j = 0; j + i < n; j++) h[j] = (h[j] + h[j + 1]) / 2; } rec(l, lo_, false, depth - 1); rec(h, false, ho_, depth - 1); };
    rec(b, lopen, hopen, 40); return fail ? 0 : mask; }
static int rfSigns(const RF& r, const Uni& u, const Qn& lo, bool lopen, const Qn& hi, bool hopen, int depth, int& budget) { // signs of the numerator
    if (r.n1.empty()) return polySigns(r.n0, lo, lopen, hi, hopen, &u.holes); if (--budget < 0) return 0;
    RF R; if (!rfRadicand(r.root, R)) return 0; int sr = polySigns(R.n0, lo, lopen, hi, hopen, 0), sd = polySigns(R.d, lo, lopen, hi, hopen, 0); if ((sd != SP && sd != SN) || !sr) return 0; if (sd == SN) sr = sflip(sr); if (sr & SN) return 0;
    int A = polySigns(r.n0, lo, lopen, hi, hopen, 0), B = polySigns(r.n1, lo, lopen, hi, hopen, 0); if (!A || !B) return 0; if (sr == SZ) return A; if (sr == SP) {
        if (A == SZ) return B; if (B == SZ) return A; if ((A & (SN | SZ)) == 0 && (B & SN) == 0) return SP; if ((A & (SP | SZ)) == 0 && (B & SP) == 0) return SN; if ((B & (SN | SZ)) == 0 && (A & SN) == 0) return SP; if ((B & (SP | SZ)) == 0 && (A & SP) == 0) return SN;
        Poly E = padd(pmul(pmul(r.n0, r.n0), R.d), pneg(pmul(pmul(r.n1, r.n1), R.n0))); int e = polySigns(E, lo, lopen, hi, hopen, 0); if (sd == SN) e = sflip(e); if (e == SP) return A; if (e == SN) return B; if (e && A == SP && B == SN) return e; if (e && A == SN && B == SP) return sflip(e); }
    if (depth == 0 || lo == hi) return 0; Qn m = (lo + hi) / 2; int x = rfSigns(r, u, lo, lopen, m, false, depth - 1, budget); if (!x) return 0; int y = rfSigns(r, u, m, false, hi, hopen, depth - 1, budget); return y ? x | y : 0; }
struct Atom { bool ok = false; RF f; int when = 0; }; // true where the sign of f is in the mask
static Atom uniAtom(Z3_ast c) { Atom t; if (Z3_get_ast_kind(Z, c) != Z3_APP_AST) return t; Z3_app ap = Z3_to_app(Z, c); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); }; Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
    switch (dk) { case Z3_OP_NOT: t = uniAtom(A(0)); t.when = (SN | SZ | SP) & ~t.when; return t; case Z3_OP_LE: t.when = SN | SZ; break; case Z3_OP_LT: t.when = SN; break; case Z3_OP_GE: t.when = SP | SZ; break; case Z3_OP_GT: t.when = SP; break; case Z3_OP_EQ: t.when = SZ; break; default: return t; }
    if (Z3_get_sort_kind(Z, Z3_get_sort(Z, A(0))) != Z3_REAL_SORT) return t; t.f = rfAdd(rfConv(A(0)), rfNeg(rfConv(A(1)))); t.ok = t.f.ok; return t; }
// (poles are not on the path: every division is preceded by the case of a zero divisor)
static int atomSigns(const Atom& t, const Uni& u, const Qn& lo, bool lopen, const Qn& hi, bool hopen) { int d = polySigns(t.f.d, lo, lopen, hi, hopen, 0); if (!d) return 0; d &= ~SZ; if (!d) return 0; int b = 60; int m = rfSigns(t.f, u, lo, lopen, hi, hopen, 10, b); if (d == SP) return m; if (d == SN) return sflip(m); return m == SP || m == SN ? SP | SN : m == SZ ? SZ : 0; }
static int atomTruth(const Atom& t, int m) { if (!m) return -1; if (!(m & ~t.when)) return 1; if (!(m & t.when)) return 0; return 2; }
static int atomAt(const Atom& t, const Uni& u, const Qn& x) { return atomTruth(t, atomSigns(t, u, x, false, x, false)); }
static bool uniUsable(Z3_ast c) { if (!g_uni || g_unis->empty()) return false; auto& I = infoOf(c); if (I.fp || !I.real) return false; int k = -1; for (int v : I.vars) if ((*g_vars)[v].kind == 0) { if (k >= 0 && k != v) return false; k = v; } else if ((*g_vars)[v].kind != 3) return false; return true; }
// 1 true everywhere on the path's interval, 0 nowhere, 2 both occur, -1 not found out
static int uniDecide(Z3_ast c) {
    if (isTrue(c)) return 1; if (isFalse(c)) return 0; if (Z3_get_ast_kind(Z, c) != Z3_APP_AST) return -1; Z3_app ap = Z3_to_app(Z, c); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_NOT: { int x = uniDecide(A(0)); return x == 1 ? 0 : x == 0 ? 1 : x; }
    case Z3_OP_AND: { int r = 1, n2 = 0; for (unsigned i = 0; i < k; i++) { int x = uniDecide(A(i)); if (x == 0) return 0; if (x < 0) r = -1; if (x == 2) n2++; } return r < 0 || n2 > 1 ? -1 : n2 ? 2 : 1; }
    case Z3_OP_OR: { int r = 0, n2 = 0; for (unsigned i = 0; i < k; i++) { int x = uniDecide(A(i)); if (x == 1) return 1; if (x < 0) r = -1; if (x == 2) n2++; } return r < 0 || n2 > 1 ? -1 : n2 ? 2 : 0; }
    case Z3_OP_IFF: case Z3_OP_XOR: case Z3_OP_EQ: if (k == 2 && Z3_get_sort_kind(Z, Z3_get_sort(Z, A(0))) == Z3_BOOL_SORT) { int x = uniDecide(A(0)), y = uniDecide(A(1)); if (x < 0 || y < 0 || (x == 2 && y == 2)) return -1; const bool xr = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_XOR; if (x == 2 || y == 2) return 2; return (x == y) != xr; } break;
    case Z3_OP_ITE: { int x = uniDecide(A(0)); if (x == 1) return uniDecide(A(1)); if (x == 0) return uniDecide(A(2)); int a = uniDecide(A(1)), b = uniDecide(A(2)); return a == b && (a == 0 || a == 1) ? a : -1; }
    default: break; }
    Atom t = uniAtom(c); if (!t.ok) return -1; if (t.f.var < 0) { if (t.f.root) return -1; Uni z; z.var = -1; return atomTruth(t, atomSigns(t, z, Qn(0), false, Qn(0), false)); } Uni& u = (*g_unis)[t.f.var]; int m = atomSigns(t, u, u.lo, u.lo_open, u.hi, u.hi_open), r = atomTruth(t, m);
    if (r != 2 || (u.exact && u.rest.empty())) return r; // both signs occur on the interval; with partly taken up constraints, points have to be shown
    return -1; }
static double qdown(const Qn& q) { double d = q.convert_to<double>(); while (Qn(d) > q) d = std::nextafter(d, -INFINITY); return d; }
static double qup(const Qn& q) { double d = q.convert_to<double>(); while (Qn(d) < q) d = std::nextafter(d, INFINITY); return d; }
static int uniVar(Z3_ast c) { int k = -1; for (int v : infoOf(c).vars) { int w = v; if ((*g_vars)[v].kind == 3) { auto it = g_sqrtdef->find(Z3_get_ast_id(Z, (*g_vars)[v].a)); if (it == g_sqrtdef->end()) return -1; w = uniVar(it->second); } if (w < 0 || (k >= 0 && w != k)) return -1; k = w; } return k >= 0 && g_unis->count(k) ? k : -1; }
static int segTruth(Z3_ast c, Uni& u, const Qn& a, bool ao, const Qn& b, bool bo);
static Z3_ast segFold(Z3_ast c, Uni& u, const Qn& a, bool ao, const Qn& b, bool bo) { // a condition over integers selected by real conditions: the selections that are decided on the segment are put in
    std::vector<Z3_ast> st{c}, from, to; std::set<unsigned> seen; while (!st.empty()) { Z3_ast t = st.back(); st.pop_back(); if (Z3_get_ast_kind(Z, t) != Z3_APP_AST || !seen.insert(Z3_get_ast_id(Z, t)).second || !infoOf(t).real) continue; if (seen.size() > 400) return nullptr; Z3_app ap = Z3_to_app(Z, t); unsigned n = Z3_get_app_num_args(Z, ap);
        if (Z3_get_sort_kind(Z, Z3_get_sort(Z, t)) == Z3_BOOL_SORT && !infoOf(t).bv) { int r = segTruth(t, u, a, ao, b, bo); if (r != 0 && r != 1) return nullptr; from.push_back(t); to.push_back(r ? Z3_mk_true(Z) : Z3_mk_false(Z)); continue; } for (unsigned i = 0; i < n; i++) st.push_back(Z3_get_app_arg(Z, ap, i)); }
    if (from.empty()) return nullptr; return Z3_simplify(Z, Z3_substitute(Z, c, from.size(), from.data(), to.data())); }
static int segTruth(Z3_ast c, Uni& u, const Qn& a, bool ao, const Qn& b, bool bo) { // 1 true throughout, 0 nowhere, 2 both, -1 not found out
    if (isTrue(c)) return 1; if (isFalse(c)) return 0; if (Z3_get_ast_kind(Z, c) != Z3_APP_AST) return -1; Z3_app ap = Z3_to_app(Z, c); unsigned k = Z3_get_app_num_args(Z, ap); auto A = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_NOT: { int x = segTruth(A(0), u, a, ao, b, bo); return x == 1 ? 0 : x == 0 ? 1 : x; }
    case Z3_OP_AND: { int r = 1, n2 = 0; for (unsigned i = 0; i < k; i++) { int x = segTruth(A(i), u, a, ao, b, bo); if (x == 0) return 0; if (x < 0) r = -1; if (x == 2) n2++; } return r < 0 || n2 > 1 ? -1 : n2 ? 2 : 1; }
    case Z3_OP_OR: { int r = 0, n2 = 0; for (unsigned i = 0; i < k; i++) { int x = segTruth(A(i), u, a, ao, b, bo); if (x == 1) return 1; if (x < 0) r = -1; if (x == 2) n2++; } return r < 0 || n2 > 1 ? -1 : n2 ? 2 : 0; }
    case Z3_OP_IFF: case Z3_OP_XOR: case Z3_OP_EQ: if (k == 2 && Z3_get_sort_kind(Z, Z3_get_sort(Z, A(0))) == Z3_BOOL_SORT) { int x = segTruth(A(0), u, a, ao, b, bo), y = segTruth(A(1), u, a, ao, b, bo); if (x < 0 || y < 0 || (x == 2 && y == 2)) return -1; const bool xr = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_XOR; if (x == 2 || y == 2) return 2; return (x == y) != xr; } break;
    case Z3_OP_ITE: { int x = segTruth(A(0), u, a, ao, b, bo); if (x == 1) return segTruth(A(1), u, a, ao, b, bo); if (x == 0) return segTruth(A(2), u, a, ao, b, bo); int p = segTruth(A(1), u, a, ao, b, bo), q = segTruth(A(2), u, a, ao, b, bo); return p == q && (p == 0 || p == 1) ? p : -1; }
    default: break; }
    if (infoOf(c).bv) { Z3_ast r = segFold(c, u, a, ao, b, bo); return r && isTrue(r) ? 1 : r && isFalse(r) ? 0 : -1; }
    Atom t = uniAtom(c); if (t.ok && (t.f.var == u.var || (t.f.var < 0 && !t.f.root))) { int r = atomTruth(t, atomSigns(t, u, a, ao, b, bo)); if (r >= 0) return r; }
    if (!ivUsable(c)) return -1; IvBox x = g_ivb; for (int i = 0; i < x.n; i++) if (x.var[i] == u.var) x.b[i] = {std::max(x.b[i].lo, qdown(a)), std::min(x.b[i].hi, qup(b))}; IvEval e(x); int r = e.bo(c); return r == 0 || r == 1 ? r : -1; }
// signs of one condition's numerator tied to another's by a common factor: the truth of t wherever k holds on the interval
static bool signPoly(const Atom& t, const Qn& a, const Qn& b, Poly& p) { // a polynomial with the sign of t's expression on the open interval
    if (!t.ok) return false; if (t.f.n1.empty()) { p = pmul(t.f.n0, t.f.d); return p.size() >= 2; } RF R; if (!rfRadicand(t.f.root, R)) return false; int A = polySigns(t.f.n0, a, true, b, true, 0), B = polySigns(t.f.n1, a, true, b, true, 0), D = polySigns(R.d, a, true, b, true, 0); if (!((A == SP && B == SN) || (A == SN && B == SP)) || (D != SP && D != SN)) return false;
    p = pmul(padd(pmul(pmul(t.f.n0, t.f.n0), R.d), pneg(pmul(pmul(t.f.n1, t.f.n1), R.n0))), t.f.d); if ((A == SN) != (D == SN)) p = pneg(p); return p.size() >= 2; }
static int segTied(const Atom& t, const Atom& k, const Uni& u, const Qn& a, const Qn& b) {
    Poly P, Q; if (!signPoly(t, a, b, P) || !signPoly(k, a, b, Q)) return -1; Poly g = pgcd(P, Q); if (g.size() < 2) return -1; Poly x, y; prem(P, g, &x); prem(Q, g, &y); ptrim(x); ptrim(y);
    auto def = [&](const Poly& p) { int m = polySigns(p, a, true, b, true, 0); return m == SP ? 1 : m == SN ? -1 : 0; }; int sx = def(x), sy = def(y); if (!sx || !sy) return -1; int gm = sy > 0 ? k.when : sflip(k.when); int gs = polySigns(g, a, true, b, true, 0); gm &= gs ? gs : 7; if (!gm) return 3; int tm = sx > 0 ? gm : sflip(gm); int r = atomTruth(t, tm); return r == 2 ? -1 : r; }
// Splits the interval until both sides of c are shown or excluded: bit 0 the true side occurs, bit 1 the false side occurs, bit 2 the true side is excluded, bit 3 the false side is.
static Qn g_unipt[2]; // points found for the two sides
static int uniBoth(Z3_ast c) {
    int var = isTrue(c) && g_unis->size() == 1 ? g_unis->begin()->first : -1; if (var < 0) { if (!uniUsable(c)) return 0; var = uniVar(c); } if (var < 0) return 0; Uni& u = (*g_unis)[var]; struct Seg { Qn a, b; std::vector<int> open; }; std::multimap<double, Seg> q; const double t0 = now(); Atom ct = uniAtom(c); std::vector<Atom> ra; for (auto r : u.rest) ra.push_back(uniAtom(r)); int got = 0; bool mt = false, mf = false; // segments are open intervals or points
    { std::vector<int> all; for (size_t i = 0; i < u.rest.size(); i++) all.push_back(i); if (u.lo != u.hi) q.emplace(0.0, Seg{u.lo, u.hi, all}); if (!u.lo_open) q.emplace(0.0, Seg{u.lo, u.lo, all}); if (!u.hi_open && u.lo != u.hi) q.emplace(0.0, Seg{u.hi, u.hi, all}); }
    for (int it = 0; it < 900 && !q.empty(); it++) { if (now() - t0 > 0.4) break; Seg s = q.begin()->second; double key = q.begin()->first; q.erase(q.begin()); const bool pt = s.a == s.b; int r = segTruth(c, u, s.a, !pt, s.b, !pt); if (r == 1 && (got & 1)) continue; if (r == 0 && (got & 2)) continue; if (pt) { bool h = false; for (auto& x : u.holes) h |= x == s.a; if (h) continue; }
        std::vector<int> open; bool out = false; for (int k : s.open) { int x = segTruth(u.rest[k], u, s.a, !pt, s.b, !pt); if (x == 0) { out = true; break; } if (x != 1) open.push_back(k); } if (out) continue;
        if (open.empty() && u.exact) { if (r == 1) { got |= 1; g_unipt[1] = (s.a + s.b) / 2; } if (r == 0) { got |= 2; g_unipt[0] = (s.a + s.b) / 2; } if (r == 2) got |= 3; if (got == 3) return got; if (r >= 0) continue; }
        int tr = r; if (open.size() > 0 && key >= 6 && !pt) { bool gone = false; for (int k : open) { int z = segTied(ct, ra[k], u, s.a, s.b); if (z == 3) { gone = true; break; } if (z == 1 || z == 0) tr = z; for (int m : open) if (m != k && segTied(ra[m], ra[k], u, s.a, s.b) == 0) { gone = true; break; } if (gone) break; } if (gone || (tr == 1 && (got & 1)) || (tr == 0 && (got & 2))) continue; }
        if (key > 60 || pt) { if (getenv("QSX_UNIDBG")) { fprintf(stderr, "[left] key=%g a=%.17g w=%g r=%d tr=%d got=%d open:", key, s.a.convert_to<double>(), Qn(s.b - s.a).convert_to<double>(), r, tr, got); for (int k : open) fprintf(stderr, " %d(ok%d root%u r%d tied%d)", k, ra[k].ok, ra[k].f.root, segTruth(u.rest[k], u, s.a, !pt, s.b, !pt), segTied(ct, ra[k], u, s.a, s.b)); fprintf(stderr, "\n"); } if (tr != 0) mt = true; if (tr != 1) mf = true; continue; } Qn m = (s.a + s.b) / 2; q.emplace(key + 1, Seg{m, m, open}); q.emplace(key + 1, Seg{s.a, m, open}); q.emplace(key + 1, Seg{m, s.b, open}); }
    if (q.empty()) { if (!mt && !(got & 1)) got |= 4; if (!mf && !(got & 2)) got |= 8; } return got; }
static void uniAbsorb1(Uni& u, Z3_ast c, const Atom& t) {
    int r = segTruth(c, u, u.lo, u.lo_open, u.hi, u.hi_open); if (r == 1) return; if (u.lo == u.hi) { u.rest.push_back(c); return; }
    if (t.ok && t.f.n1.empty() && t.f.n0.size() == 2 && t.f.d.size() >= 1) { int d = polySigns(t.f.d, u.lo, u.lo_open, u.hi, u.hi_open, 0); int when = d == SN ? sflip(t.when) : t.when; Qn x = -t.f.n0[0] / t.f.n0[1]; const bool rising = qs(t.f.n0[1]) > 0; const int L = rising ? SN : SP, H = rising ? SP : SN; // truth left of x, at x, right of x
        const bool l = when & L, z = when & SZ, h = when & H; g_univer++;
        const int dd = d; if (dd != SP && dd != SN) { u.rest.push_back(c); return; } if (l && !h) { if (x < u.hi || (x == u.hi && !z)) { u.hi_open = x == u.hi ? (u.hi_open || !z) : !z; u.hi = x; } return; } if (h && !l) { if (x > u.lo || (x == u.lo && !z)) { u.lo_open = x == u.lo ? (u.lo_open || !z) : !z; u.lo = x; } return; }
        if (!l && !h && z) { u.lo = u.hi = x; u.lo_open = u.hi_open = false; return; } if (l && h && !z) { if (x == u.lo) u.lo_open = true; else if (x == u.hi) u.hi_open = true; else u.holes.push_back(x); return; } }
    // shrink from both ends where the constraint is false throughout
    for (int side = 0; side < 2; side++) { Qn w = u.hi - u.lo, f(1, 2); for (int it = 0; it < 60 && f * w > Qn(1, Zn(1) << 70); it++) { Qn cut = f * w; if (side) cut = u.hi - cut; else cut = u.lo + cut; if (cut <= u.lo || cut >= u.hi) { f /= 2; continue; } int q = side ? segTruth(c, u, cut, false, u.hi, u.hi_open) : segTruth(c, u, u.lo, u.lo_open, cut, false); if (q == 0) { if (side) { u.hi = cut; u.hi_open = true; } else { u.lo = cut; u.lo_open = true; } w = u.hi - u.lo; g_univer++; } else f /= 2; } }
    u.rest.push_back(c); }
static void uniSync() { for (int i = 0; i < g_ivb.n; i++) { auto it = g_unis->find(g_ivb.var[i]); if (it == g_unis->end()) continue; double l = qdown(it->second.lo), h = qup(it->second.hi); bool ch = false; if (l > g_ivb.b[i].lo) { g_ivb.b[i].lo = l; ch = true; } if (h < g_ivb.b[i].hi) { g_ivb.b[i].hi = h; ch = true; } if (ch) g_ivcur.reset(); } }
static void uniAbsorb(Z3_ast c) {
    if (!g_uni || g_unis->empty() || g_pcdef->count(Z3_get_ast_id(Z, c))) return; if (Z3_get_ast_kind(Z, c) == Z3_APP_AST) { Z3_app ap = Z3_to_app(Z, c); Z3_decl_kind dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)); 
        if (dk == Z3_OP_AND) { for (unsigned i = 0; i < Z3_get_app_num_args(Z, ap); i++) uniAbsorb(Z3_get_app_arg(Z, ap, i)); return; }
        if (dk == Z3_OP_NOT) { Z3_ast o = Z3_get_app_arg(Z, ap, 0); if (Z3_get_ast_kind(Z, o) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, o))) == Z3_OP_OR) { Z3_app op = Z3_to_app(Z, o); for (unsigned i = 0; i < Z3_get_app_num_args(Z, op); i++) uniAbsorb(Z3_simplify(Z, mkNot(Z3_get_app_arg(Z, op, i)))); return; } } }
    if (uniUsable(c)) { if (uniDecide(c) == 1) return; int v = uniVar(c); if (v >= 0) { Atom t = uniAtom(c); if (t.ok && t.f.var != v) t.ok = false; uniAbsorb1((*g_unis)[v], c, t); uniSync(); return; } }
    for (int v : infoOf(c).vars) { auto it = g_unis->find(v); if (it != g_unis->end()) { if (getenv("QSX_UNIDBG") && it->second.exact) fprintf(stderr, "[inexact] %s\n", Z3_ast_to_string(Z, c)); it->second.exact = false; } else if ((*g_vars)[v].kind == 3) { for (auto& kv : *g_unis) kv.second.exact = false; } } }
