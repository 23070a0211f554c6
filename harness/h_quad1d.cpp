// Legendre polynomials, 1D Gauss and generalised Gauss rules, tensor-product rules of a single cell.
#include "common.h"
#include "queso/utilities/polynomial_utilities.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/quadrature/single_element.hpp"
#include "queso/containers/untrimmed_element.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
using El = UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>;
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r = r * x; return r; }
// coefficients of P_n by Bonnet's recurrence: (n+1) P_{n+1} = (2n+1) t P_n - n P_{n-1}
static std::vector<double> legendre(int n) {
    std::vector<double> p{1}, q{0, 1}; if (n == 0) return p;
    for (int k = 1; k < n; ++k) { std::vector<double> r(k + 2, 0.0); for (int i = 0; i <= k; ++i) r[i + 1] += (2 * k + 1) * q[i]; for (int i = 0; i < k; ++i) r[i] -= k * p[i]; for (auto& v : r) v /= (k + 1); p = q; q = r; }
    return q;
}
static double horner(const std::vector<double>& c, double t) { double r = 0; for (size_t i = c.size(); i-- > 0;) r = r * t + c[i]; return r; }
// values: f_x(x) is P_n of the cell-local coordinate; f_x_int is an antiderivative of it
static void poly() {
    const int n = qsx_choice("order", 9); static const double AB[4][2] = {{-1, 1}, {0, 1}, {2, 2.5}, {-3, 1}}; const int k = qsx_choice("interval", 4);
    const double a = AB[k][0], b = AB[k][1], L = b - a;
    const double t = qsx_real("t", -1, 1), x = a + (t + 1) * 0.5 * L;     // any point of [a,b]
    qsx_assert(near(Polynomial::f_x(x, n, a, b), horner(legendre(n), t), 1e-10), "the n-th basis function is the Legendre polynomial of the interval");
    // integral from a to x of P_n: L/2 * (P_{n+1}(t) - P_{n-1}(t)) / (2n+1)
    const double I = n == 0 ? 0.5 * L * (t + 1) : 0.5 * L * (horner(legendre(n + 1), t) - horner(legendre(n - 1), t)) / (2 * n + 1);
    qsx_assert(near(Polynomial::f_x_int(x, n, a, b) - Polynomial::f_x_int(a, n, a, b), I, 1e-10 * (1 + L)), "the integrated basis function is an antiderivative of the n-th basis function");
    qsx_reach("poly");
}
// same on an arbitrary interval (polynomial identities in interval position, length and point), low orders
static void poly_free() {
    const int n = qsx_choice("order", qsx_arg("nmax", 3) + 1); const double a = qsx_real("a", -10, 10), L = qsx_real("L", 0.1, 10), t = qsx_real("t", -1, 1);
    const double b = a + L, x = a + (t + 1) * 0.5 * L;
    qsx_assert(near(Polynomial::f_x(x, n, a, b), horner(legendre(n), t), 1e-8), "the n-th basis function is the Legendre polynomial of the interval (any interval)");
    qsx_reach("poly");
}
static void poly_scale() {      // f_x only depends on the local coordinate; f_x_int scales with the length
    const int n = qsx_choice("order", 9); static const double TT[5] = {-1, -0.5, 0, 0.75, 1}; const double t = TT[qsx_choice("t", 5)];
    const double a = qsx_real("a", -10, 10), L = qsx_real("L", 0.1, 10), b = a + L, x = a + (t + 1) * 0.5 * L;
    const double I = n == 0 ? 0.5 * L * (t + 1) : 0.5 * L * (horner(legendre(n + 1), t) - horner(legendre(n - 1), t)) / (2 * n + 1);
    qsx_assert(near(Polynomial::f_x(x, n, a, b), horner(legendre(n), t), 1e-8), "basis functions only depend on the position relative to the interval");
    qsx_assert(near(Polynomial::f_x_int(x, n, a, b) - Polynomial::f_x_int(a, n, a, b), I, 1e-8), "the integrated basis function scales with the interval length");
    qsx_reach("poly_scale");
}
static void gauss() {
    static const IntegrationMethodType M[3] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2};
    const int m = qsx_choice("method", 3); const int p = m + qsx_choice("degree", 9 - m);
    const auto& r = IntegrationPointFactory1D::GetGauss(p, M[m]);
    const int n = p + 1 - m; qsx_assert((int)r.size() == n, "the rule for degree p has p+1 (full), p, p-1 (reduced) points");
    bool ok = true, in = true; for (auto& q : r) { ok = ok & (q[1] > 0); in = in & (q[0] > 0) & (q[0] < 1); }
    qsx_assert(ok, "weights are positive"); qsx_assert(in, "points lie inside (0,1)");
    bool sym = true; for (int i = 0; i < n; ++i) sym = sym & near(r[i][0] + r[n - 1 - i][0], 1, 1e-12) & near(r[i][1], r[n - 1 - i][1], 1e-12); qsx_assert(sym, "the rule is symmetric");
    std::vector<double> c(2 * n); for (auto& v : c) v = qsx_real("c", -1, 1);
    double q = 0, e = 0; for (auto& g : r) { double f = 0; for (int k = 0; k < 2 * n; ++k) f = f + ipow(g[0], k) * c[k]; q = q + g[1] * f; } for (int k = 0; k < 2 * n; ++k) e = e + c[k] / (k + 1);
    qsx_assert(near(q, e, 1e-10), "an n-point rule integrates every polynomial of degree 2n-1 exactly"); qsx_reach("gauss");
}
static const IntegrationMethodType GM[3] = {IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};
static void ggq() {
    const int m = qsx_arg("method", 0), p = qsx_arg("p", 2); const int e = qsx_arg("emin", 1) + qsx_choice("e", qsx_arg("ecount", 20));
    const auto pr = IntegrationPointFactory1D::GetGGQ(p, e, GM[m]); const auto& r = *pr;
    const int deg = 2 * p - m, cont = p - 2, dim = deg + 1 + (e - 1) * (deg - cont);
    qsx_assert((int)r.size() == (dim + 1) / 2, "the rule has half as many points as the spline space has dimensions");
    bool ok = true, in = true, inc = true; double last = -1; for (auto& q : r) { ok = ok & (q[1] > 0); in = in & (q[0] >= 0) & (q[0] <= 1); inc = inc & (q[0] > last); last = q[0]; }
    qsx_assert(ok, "weights are positive"); qsx_assert(in, "points lie in [0,1]"); qsx_assert(inc, "points are listed in increasing order");
    // arbitrary spline of degree deg, continuity cont over e equal knot spans: polynomial + truncated powers
    double q = 0, x = 0;
    for (int k = 0; k <= deg; ++k) { const double c = qsx_real("c", -1, 1); double s = 0; for (auto& g : r) s += g[1] * ipow(g[0], k); q = q + s * c; x = x + c / (k + 1); }
    for (int j = 1; j < e; ++j) for (int i = cont + 1; i <= deg; ++i) {
        const double c = qsx_real("d", -1, 1), t = double(j) / e; double s = 0; for (auto& g : r) if (g[0] > t) s += g[1] * ipow((g[0] - t) * e, i);
        q = q + s * c; x = x + c * (ipow((1 - t) * e, i + 1) / (i + 1) / e);
    }
    // sum of 1-norms bounds the scale of the quantities compared
    double S = 1; for (int j = 1; j < e; ++j) for (int i = cont + 1; i <= deg; ++i) S += ipow((1 - double(j) / e) * e, i + 1) / (i + 1) / e;
    qsx_assert(near(q, x, 1e-10 * S), "the rule integrates every spline of its space exactly"); qsx_reach("ggq");
}
// the same space with a local basis: e+1 knots, integral restricted to each pair of spans through differences of truncated powers
static void ggq_local() {
    const int m = qsx_arg("method", 0), p = qsx_arg("p", 2); const int e = qsx_arg("emin", 1) + qsx_choice("e", qsx_arg("ecount", 20));
    const auto pr = IntegrationPointFactory1D::GetGGQ(p, e, GM[m]); const auto& r = *pr; const int deg = 2 * p - m, cont = p - 2;
    bool ok = true, in = true, inc = true, sym = true; double last = -1; for (auto& q : r) { ok = ok & (q[1] > 0); in = in & (q[0] >= 0) & (q[0] <= 1); inc = inc & (q[0] > last); last = q[0]; }
    for (size_t i = 0; i < r.size(); ++i) sym = sym & near(r[i][0] + r[r.size() - 1 - i][0], 1, 1e-10) & near(r[i][1], r[r.size() - 1 - i][1], 1e-10);
    qsx_assert((int)r.size() == (deg + 1 + (e - 1) * (deg - cont) + 1) / 2, "the rule has half as many points as the spline space has dimensions");
    qsx_assert(ok, "weights are positive"); qsx_assert(in, "points lie in [0,1]"); qsx_assert(inc, "points are listed in increasing order"); qsx_assert(sym, "the rule is symmetric");
    // open knot vector with interior multiplicity deg-cont; every B-spline weighted with an arbitrary coefficient
    std::vector<double> K(deg + 1, 0.0); for (int j = 1; j < e; ++j) for (int i = 0; i < deg - cont; ++i) K.push_back(j); for (int i = 0; i <= deg; ++i) K.push_back(e);
    const int nb = (int)K.size() - deg - 1; std::vector<double> Q(nb, 0.0);
    for (auto& g : r) {
        const double x = std::min(g[0] * e, e - 1e-13); std::vector<double> B(K.size() - 1, 0.0);
        int s = 0; for (int i = 0; i + 1 < (int)K.size(); ++i) if (K[i] <= x && x < K[i + 1]) { s = i; break; }
        B[s] = 1; for (int d = 1; d <= deg; ++d) for (int i = std::max(0, s - d); i <= s; ++i) { double v = 0; if (K[i + d] > K[i]) v += (x - K[i]) / (K[i + d] - K[i]) * B[i]; if (K[i + d + 1] > K[i + 1]) v += (K[i + d + 1] - x) / (K[i + d + 1] - K[i + 1]) * B[i + 1]; B[i] = v; }
        for (int i = std::max(0, s - deg); i <= s && i < nb; ++i) Q[i] += g[1] * e * B[i];
    }
    double err = 0; for (int i = 0; i < nb; ++i) { const double c = qsx_real("c", -1, 1); err = err + c * (Q[i] - (K[i + deg + 1] - K[i]) / (deg + 1)); }
    qsx_assert(near(err, 0, 1e-9), "the rule integrates every spline of its space exactly"); qsx_reach("ggq");
}
static void tensor() {
    static const IntegrationMethodType M[3] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2};
    const int m = qsx_choice("method", 3); Vector3i o; for (int i = 0; i < 3; ++i) o[i] = std::max(1, m) + qsx_choice("order", qsx_arg("omax", 3) - (m > 1));
    PointType l = real3("lower", -10, 10), L = real3("extent", 0.01, 10), u = add(l, L);
    El el(1, ElementBounds{{{-1, -1, -1}, {1, 1, 1}}, {l, u}});
    QuadratureSingleElement<El>::AssembleIPs(el, o, M[m]);
    const auto& ips = std::as_const(el).GetIntegrationPoints(); int n[3]; for (int i = 0; i < 3; ++i) n[i] = o[i] + 1 - m;
    qsx_assert((int)ips.size() == n[0] * n[1] * n[2], "one point per combination of the three 1D rules");
    double V = L[0] * L[1] * L[2], s = 0; bool in = true, pos = true;
    for (auto& p : ips) { s = s + p.Weight(); pos = pos & (p.Weight() > 0); for (int i = 0; i < 3; ++i) in = in & (p[i] > l[i]) & (p[i] < u[i]); }
    qsx_assert(near(s, V, 1e-9), "the weights add up to the cell volume"); qsx_assert(pos, "weights are positive"); qsx_assert(in, "points lie inside the cell");
    // first and highest mixed moments in the cell's local coordinates
    const int d = qsx_choice("dir", 3), k = 2 * n[d] - 1; double q = 0, q2 = 0;
    const int e = (d + 1) % 3;
    for (auto& p : ips) { const double xi = (p[d] - l[d]) / L[d], et = (p[e] - l[e]) / L[e]; q = q + p.Weight() / V * ipow(xi, k); q2 = q2 + p.Weight() / V * xi * et; }
    qsx_assert(near(q, 1.0 / (k + 1), 1e-8), "the highest exact power per direction is integrated exactly");
    qsx_assert(near(q2, 0.25, 1e-8), "mixed moments are integrated exactly"); qsx_reach("tensor");
}
// same with a free position along one axis (linear reasoning), arbitrary trilinear-times-high-power integrand
static void tensor_lin() {
    static const IntegrationMethodType M[3] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2};
    const int m = qsx_choice("method", 3); Vector3i o; for (int i = 0; i < 3; ++i) o[i] = std::max(1, m) + qsx_choice("order", qsx_arg("omax", 3) - (m > 1));
    const PointType l{-1.5, 0.25, 3}, L{0.5, 2, 0.125}, u = add(l, L); El el(7, ElementBounds{{{-1, -1, -1}, {1, 1, 1}}, {l, u}});
    const double keep = qsx_real("old", 0, 1); el.GetIntegrationPoints().push_back(IntegrationPoint({0, 0, 0}, keep));   // leftovers from earlier must go
    QuadratureSingleElement<El>::AssembleIPs(el, o, M[m]);
    int n[3]; for (int i = 0; i < 3; ++i) n[i] = 2 * (o[i] + 1 - m); double q = 0, x = 0;
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k) {
        const double c = qsx_real("c", -1, 1); double s = 0;
        for (auto& p : std::as_const(el).GetIntegrationPoints()) s = s + p.Weight() * ipow((p[0] - l[0]) / L[0], i) * ipow((p[1] - l[1]) / L[1], j) * ipow((p[2] - l[2]) / L[2], k);
        q = q + c * s; x = x + c * L[0] * L[1] * L[2] / ((i + 1) * (j + 1) * (k + 1));
    }
    qsx_assert(near(q, x, 1e-9), "the rule integrates every polynomial of degree 2n-1 per direction over the cell exactly"); qsx_reach("tensor_lin");
}
extern "C" void qsx_main() {
    switch (qsx_arg("mode", 0)) { case 0: poly(); break; case 1: poly_free(); break; case 2: poly_scale(); break; case 3: gauss(); break; case 4: ggq(); break; case 5: ggq_local(); break; case 6: tensor(); break; case 7: tensor_lin(); }
}
