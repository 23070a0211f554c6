// Moment fitting: constant terms by the divergence theorem, non-negative least squares, point elimination, fictitious points.
#include "common.h"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/quadrature/trimmed_element.hpp"
#include "queso/solvers/nnls.h"
using El = TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>; using VecD = std::vector<double>;
struct Q : QuadratureTrimmedElement<El> { using QuadratureTrimmedElement<El>::ComputeConstantTerms; using QuadratureTrimmedElement<El>::MomentFitting; using QuadratureTrimmedElement<El>::PointElimination; using QuadratureTrimmedElement<El>::AssembleFictitiousIPs; };
static El element(const ElementBounds& b) { ClippedTriangleMesh m{}; return El(1, b, TrimmedDomain(std::move(m), b.global.lower, b.global.upper, nullptr, 0)); }
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r = r * x; return r; }
static double P(int n, double t) { double p = 1, q = t; if (n == 0) return p; for (int k = 1; k < n; ++k) { double r = ((2 * k + 1) * t * q - k * p) / (k + 1); p = q; q = r; } return q; }
static double Pint(int n, double t) { return n == 0 ? t : (P(n + 1, t) - P(n - 1, t)) / (2 * n + 1); }   // antiderivative in t
static const double GX[4][4] = {{0.5}, {0.21132486540518713, 0.7886751345948129}, {0.11270166537925830, 0.5, 0.8872983346207417}, {0.06943184420297371, 0.33000947820757187, 0.6699905217924281, 0.9305681557970263}};
static const double GW[4][4] = {{1}, {0.5, 0.5}, {0.2777777777777778, 0.4444444444444444, 0.2777777777777778}, {0.17392742256872693, 0.32607257743127307, 0.32607257743127307, 0.17392742256872693}};
static int rank3(const Vector3i& o, int i, int j, int k) { return (i * (o[1] + 1) + j) * (o[2] + 1) + k; }
// box [l,u] inside the cell, described by its boundary points only
static void constant_box() {
    const Vector3i o{qsx_arg("ox", 1), qsx_arg("oy", 1), qsx_arg("oz", 1)}; const int mask = qsx_arg("mask", 7), ng = 4;
    const PointType A{-1, 2, 0.5}, B{1, 2.5, 3.5}; ElementBounds eb{{A, B}, {{0, 0, 0}, {1, 2, 0.25}}}; El el = element(eb);
    PointType l = add(A, {0.25, 0.0, 0.5}), u = sub(B, {0.5, 0.125, 0}), L = sub(B, A);
    for (int i = 0; i < 3; ++i) if (mask >> i & 1) { const double t = qsx_real("t", 0, 1); u[i] = l[i] + t * (B[i] - l[i]); }
    std::vector<BoundaryIntegrationPoint> ips;
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) { const int e = (d + 1) % 3, f = (d + 2) % 3; PointType n{0, 0, 0}; n[d] = s ? 1 : -1;
        for (int a = 0; a < ng; ++a) for (int b = 0; b < ng; ++b) { PointType p; p[d] = s ? u[d] : l[d]; p[e] = l[e] + (u[e] - l[e]) * GX[ng - 1][a]; p[f] = l[f] + (u[f] - l[f]) * GX[ng - 1][b];
            ips.push_back(BoundaryIntegrationPoint(p, GW[ng - 1][a] * GW[ng - 1][b] * (u[e] - l[e]) * (u[f] - l[f]), n)); } }
    VecD c; Q::ComputeConstantTerms(c, ips, el, o);
    qsx_assert(c.size() == (o[0] + 1) * (o[1] + 1) * (o[2] + 1), "one moment per tensor basis function");
    auto loc = [&](int d, double x) { return 2 * (x - A[d]) / L[d] - 1; };
    for (int i = 0; i <= (int)o[0]; ++i) for (int j = 0; j <= (int)o[1]; ++j) for (int k = 0; k <= (int)o[2]; ++k) {
        const double ex = L[0] / 2 * (Pint(i, loc(0, u[0])) - Pint(i, loc(0, l[0]))) * (L[1] / 2 * (Pint(j, loc(1, u[1])) - Pint(j, loc(1, l[1])))) * (L[2] / 2 * (Pint(k, loc(2, u[2])) - Pint(k, loc(2, l[2]))));
        qsx_assert(near(c[rank3(o, i, j, k)], ex, 1e-9), "moments of a box from its boundary points equal the exact volume integrals"); }
    qsx_reach("constant");
}
// any set of volume points with any weights: moments are the weighted basis values (linear in the weights)
static void constant_points() {
    const Vector3i o{qsx_choice("o", 3), qsx_choice("o", 3), qsx_choice("o", 3)}; const PointType a{0.5, -1, 2}, b{1.5, 1, 2.25}; ElementBounds eb{{{0, 0, 0}, {10, 20, 5}}, {a, b}}; El el = element(eb);
    static const double X[4][3] = {{0.1, 0.9, 0.3}, {0, 0.5, 1}, {0.25, 0.25, 0.75}, {1, 0.125, 0.6}};
    auto pts = MakeUnique<El::IntegrationPointVectorType>(); double w[4]; for (int q = 0; q < 4; ++q) { w[q] = qsx_real("w", -2, 2); pts->push_back(IntegrationPoint({a[0] + (b[0] - a[0]) * X[q][0], a[1] + (b[1] - a[1]) * X[q][1], a[2] + (b[2] - a[2]) * X[q][2]}, w[q])); }
    VecD c; Q::ComputeConstantTerms(c, pts, el, o); qsx_assert(c.size() == (o[0] + 1) * (o[1] + 1) * (o[2] + 1), "one moment per tensor basis function"); bool ok = true;
    for (int i = 0; i <= (int)o[0]; ++i) for (int j = 0; j <= (int)o[1]; ++j) for (int k = 0; k <= (int)o[2]; ++k) { double e = 0; for (int q = 0; q < 4; ++q) e = e + w[q] * (P(i, 2 * X[q][0] - 1) * P(j, 2 * X[q][1] - 1) * P(k, 2 * X[q][2] - 1)); ok = ok & near(c[rank3(o, i, j, k)], e, 1e-10); }
    qsx_assert(ok, "moments of a point set are the weighted basis values"); qsx_reach("points");
}
// ---- non-negative least squares: optimality for every right-hand side
static void kkt(const VecD& A, int m, int n, const VecD& b, const VecD& x, double rn, double sc, double n2 = 1) {
    bool pos = true; for (int j = 0; j < n; ++j) pos = pos & (x[j] >= 0); qsx_assert(pos, "all coefficients are non-negative");
    VecD r(m); for (int i = 0; i < m; ++i) { double s = b[i]; for (int j = 0; j < n; ++j) s = s - A[j * m + i] * x[j]; r[i] = s; }
    bool opt = true; for (int j = 0; j < n; ++j) { double w = 0; for (int i = 0; i < m; ++i) w = w + A[j * m + i] * r[i]; opt = opt & (w <= 1e-6 * sc) & ((x[j] <= 1e-6 * sc) | near(w, 0, 1e-6 * sc)); }
    qsx_assert(opt, "the solution is the least-squares optimum (no coefficient can improve it)");
    double s = 0; for (int i = 0; i < m; ++i) s = s + r[i] * r[i]; if (qsx_arg("norm", 1)) { qsx_assert(near(rn * rn * n2, s, 1e-6 * sc), "the returned value is the residual norm (relative for moment fitting)"); qsx_assert(rn >= 0, "the returned residual norm is non-negative"); }
}
static void nnls() {
    static const int M[7] = {2, 2, 3, 3, 3, 2, 4}, N[7] = {1, 3, 2, 3, 4, 2, 3};
    static const VecD AS[7] = {{1, 2}, {1, 0, 0, 1, 1, 1}, {1, 2, -1, 0, 1, 3}, {1, 0, 0, 1, 1, 0, 1, 1, 1}, {1, -1, 0, 0, 1, -1, 1, 1, 1, -1, 0, 1}, {1, 1, 2, 2}, {1, 1, 1, 1, -1, -0.5, 0.5, 1, 1, 0.25, 0.25, 1}};
    const int k = qsx_arg("system", 0), m = M[k], n = N[k]; VecD A = AS[k], A0 = A, b(m), b0, x(n, -7.0); for (auto& v : b) v = qsx_real("b", -5, 5); b0 = b;
    const double rn = NNLS::solve(A, b, x); qsx_assert((int)x.size() == n, "one coefficient per column"); kkt(A0, m, n, b0, x, rn, 1); qsx_reach("nnls");
}
// one free matrix entry as well
static void nnls_a() {
    VecD A{1, 0.5, -0.25, 1}; const int e = qsx_choice("entry", 4); A[e] = qsx_real("a", -2, 2); const double det = A[0] * A[3] - A[1] * A[2]; qsx_assume((det >= 0.05) | (det <= -0.05)); VecD A0 = A, b{qsx_choice("b", 3) - 1.0, 2.0}, b0 = b, x(2);
    const double rn = NNLS::solve(A, b, x); kkt(A0, 2, 2, b0, x, rn, 1); qsx_reach("nnls");
}
static El::IntegrationPointVectorType points(int set) {
    static const std::vector<std::array<double, 3>> S[6] = {
        {{0.2, 0.5, 0.5}, {0.8, 0.5, 0.5}, {0.5, 0.5, 0.5}}, {{0.1, 0.1, 0.1}, {0.9, 0.1, 0.1}},
        {{0.211, 0.211, 0.211}, {0.789, 0.211, 0.211}, {0.211, 0.789, 0.211}, {0.789, 0.789, 0.211}, {0.211, 0.211, 0.789}, {0.789, 0.211, 0.789}, {0.211, 0.789, 0.789}, {0.789, 0.789, 0.789}, {0.5, 0.5, 0.5}, {0.3, 0.6, 0.4}, {0.7, 0.1, 0.2}, {0.9, 0.9, 0.3}},
        {{0.3, 0.3, 0.3}, {0.6, 0.3, 0.2}, {0.4, 0.8, 0.5}, {0.5, 0.5, 0.9}, {0.1, 0.2, 0.6}},      // fewer points than moments
        {{0.5, 0.5, 0.5}, {0.5, 0.5, 0.5}, {0.25, 0.25, 0.25}, {0.75, 0.75, 0.75}},
        {{0.05, 0.5, 0.5}, {0.25, 0.5, 0.5}, {0.45, 0.5, 0.5}, {0.65, 0.5, 0.5}, {0.85, 0.5, 0.5}, {0.95, 0.5, 0.5}}};
    El::IntegrationPointVectorType v; v.reserve(S[set].size()); for (auto& p : S[set]) v.push_back(IntegrationPoint({p[0], 2 * p[1], 0.5 * p[2]}, 0.0)); return v;
}
static double relres(const VecD& ct, const El::IntegrationPointVectorType& ips, const Vector3i& o, double J) {      // ||A w J - b|| / ||b||
    double r2 = 0, b2 = 0; for (int i = 0; i <= (int)o[0]; ++i) for (int j = 0; j <= (int)o[1]; ++j) for (int k = 0; k <= (int)o[2]; ++k) { double s = -ct[rank3(o, i, j, k)]; b2 = b2 + s * s; for (auto& p : ips) s = s + p.Weight() * J * (P(i, 2 * p[0] - 1) * P(j, p[1] - 1) * P(k, 4 * p[2] - 1)); r2 = r2 + s * s; }
    return b2 > 0 ? r2 / b2 : 0;   // squared
}
static ElementBounds unit() { return ElementBounds{{{0, 0, 0}, {2, 3, 4}}, {{0, 0, 0}, {1, 2, 0.5}}}; }
static void fitting() {
    const Vector3i o{qsx_arg("ox", 1), 0, 0}; El el = element(unit()); const double J = 24; auto ips = points(qsx_arg("set", 0)); const auto p0 = ips; const int m = (o[0] + 1);
    VecD ct(m); for (auto& v : ct) v = qsx_real("ct", -1, 1); qsx_assume((ct[0] >= 0.01) | (ct[0] <= -0.01));
    const VecD c0 = ct; const double rr = Q::MomentFitting(ct, ips, el, o);
    bool same = ips.size() == p0.size(); for (size_t i = 0; i < p0.size(); ++i) same = same & near3(ips[i].Point(), p0[i].Point(), 0); qsx_assert(same, "fitting keeps the points"); bool k = true; for (int i = 0; i < m; ++i) k = k & (ct[i] == c0[i]); qsx_assert(k, "fitting keeps the constant terms");
    VecD A, x; for (auto& p : ips) { for (int i = 0; i < m; ++i) A.push_back(P(i, 2 * p[0] - 1)); x.push_back(p.Weight() * J); }
    double b2 = 0; for (auto v : ct) b2 = b2 + v * v; kkt(A, m, ips.size(), ct, x, rr, 10, b2); qsx_reach("fitting");
}
// every targeted residual: the reduced rule is a subset, non-negative, and as good as reported
static void elimination() {
    const Vector3i o{qsx_arg("ox", 1), qsx_arg("oy", 1), qsx_arg("oz", 1)}; El el = element(unit()); const double J = 24; auto ips = points(qsx_arg("set", 2)); const auto p0 = ips;
    // constant terms of a sub-box (exact), optionally perturbed so that they cannot be matched
    const int body = qsx_choice("body", 4); static const double BX[4][2] = {{-1, 1}, {-1, 0.3}, {-0.6, 0.6}, {0.2, 0.9}}; VecD ct; const PointType G{2, 3, 4};
    for (int i = 0; i <= (int)o[0]; ++i) for (int j = 0; j <= (int)o[1]; ++j) for (int k = 0; k <= (int)o[2]; ++k) ct.push_back(G[0] * G[1] * G[2] / 8 * (Pint(i, BX[body][1]) - Pint(i, BX[body][0])) * (Pint(j, 1) - Pint(j, -1)) * (Pint(k, 1) - Pint(k, -1)));
    const double s = qsx_arg("scale", 0) ? qsx_real("scale", 0.5, 2) : 1.0; for (auto& v : ct) v = v * s;
    const double target = qsx_real("target", 0, 1);
    const double res = Q::PointElimination(ct, ips, el, o, target); const auto& r = std::as_const(el).GetIntegrationPoints();
    bool pos = true, sub_ = true; for (auto& p : r) { pos = pos & (p.Weight() >= 0); bool f = false; for (auto& q : p0) f = f | near3(p.Point(), q.Point(), 0); sub_ = sub_ & f; }
    qsx_assert(pos, "weights are non-negative"); qsx_assert(sub_, "the remaining points are some of the initial points");
    qsx_assert(r.size() <= p0.size(), "points are only removed"); 
    if (p0.size() >= ct.size()) qsx_assert(r.size() <= ct.size() || res > target, "no more points than moments remain");
    if (target > 0 && r.size() > 0) { qsx_assert(near(relres(ct, r, o, J), res * res, 1e-8), "the reported residual is the residual of the returned rule"); qsx_reach("rule"); }
    // if the rule restricted to as many points as moments meets the target, so must the result
    { El e2 = element(unit()); auto i2 = p0; const double first = Q::MomentFitting(ct, i2, e2, o); if (p0.size() <= ct.size()) qsx_assert((first >= target - 1e-9) | (res <= target), "an achievable target is met"); }
    qsx_reach("elimination");
}
// alpha: points outside the active domain (here: a cell cut by a plane) get alpha times the Gauss weight
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: constant_box(); break; case 1: constant_points(); break; case 2: nnls(); break; case 3: nnls_a(); break; case 4: fitting(); break; case 5: elimination(); break; } }
