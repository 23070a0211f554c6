// Affine cell maps between global and parametric space: points, volume weights, boundary weights and normals.
#include "common.h"
#include "queso/containers/element_core.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/utilities/mapping_utilities.hpp"
static ElementBounds bounds() {
    ElementBounds b; const double E0 = 1e-2, E1 = 100;
    b.global.lower = real3("glo", -100, 100); b.parametric.lower = real3("plo", -100, 100);
    for (int i = 0; i < 3; ++i) { b.global.upper[i] = b.global.lower[i] + qsx_real("gext", E0, E1); b.parametric.upper[i] = b.parametric.lower[i] + qsx_real("pext", E0, E1); }
    return b;
}
static PointType ext(const BoundingBoxType& b) { return sub(b.upper, b.lower); }
static void points() {
    auto b = bounds(); const PointType x = real3("x", -200, 200); const double T = 1e-7;
    const PointType u = mapping::ToParametric(x, b), y = mapping::ToGlobal(u, b);
    const PointType ge = ext(b.global), pe = ext(b.parametric);
    for (int i = 0; i < 3; ++i) {
        qsx_assert(near((u[i] - b.parametric.lower[i]) * ge[i], (x[i] - b.global.lower[i]) * pe[i], 1e-6), "ToParametric keeps the relative position in the cell");
        qsx_assert(near(y[i], x[i], T), "ToGlobal(ToParametric(x)) = x");
    }
    const PointType z = mapping::ToParametric(mapping::ToGlobal(x, b), b);
    for (int i = 0; i < 3; ++i) qsx_assert(near(z[i], x[i], T), "ToParametric(ToGlobal(u)) = u");
    qsx_assert(near3(mapping::ToParametric(b.global.lower, b), b.parametric.lower, T) & near3(mapping::ToParametric(b.global.upper, b), b.parametric.upper, 1e-6), "the cell's corners map to the parametric corners");
    qsx_assert(near3(mapping::ToGlobal(b.parametric.lower, b), b.global.lower, T) & near3(mapping::ToGlobal(b.parametric.upper, b), b.global.upper, 1e-6), "the parametric corners map to the cell's corners");
    qsx_reach("points");
}
static void weights() {
    auto b = bounds(); const PointType ge = ext(b.global), pe = ext(b.parametric); const double J = mapping::DetJ(b);
    qsx_assert((J * (pe[0] * pe[1] * pe[2]) - ge[0] * ge[1] * ge[2] <= 1e-6) & (J * (pe[0] * pe[1] * pe[2]) - ge[0] * ge[1] * ge[2] >= -1e-6), "DetJ is the volume ratio global / parametric");
    const double w = qsx_real("w", 0, 10); const PointType p{b.parametric.lower[0], b.parametric.lower[1], b.parametric.lower[2]};
    const IntegrationPoint g = mapping::ToGlobal(IntegrationPoint(p, w), b);
    qsx_assert(near(g.Weight(), w * J, 1e-6), "volume weights scale with DetJ to global space");
    qsx_assert(near3(g.Point(), b.global.lower, 1e-7), "the point of an integration point is mapped like a point (ToGlobal)");
    const IntegrationPoint q = mapping::ToParametric(IntegrationPoint(b.global.lower, w), b);
    qsx_assert(near(q.Weight() * J, w, 1e-6), "volume weights scale with 1/DetJ to parametric space");
    qsx_assert(near3(q.Point(), b.parametric.lower, 1e-7), "the point of an integration point is mapped like a point (ToParametric)");
    qsx_reach("weights");
}
// boundary points: weight * normal is the area vector; it transforms with the cofactors of the map
static void boundary() {
    const bool toparam = qsx_choice("to_parametric", 2); const int axis = qsx_choice("normal", 4);
    ElementBounds b; b.global.lower = {1, 2, 3}; b.parametric.lower = {-1, 0, 5};
    for (int i = 0; i < 3; ++i) { b.global.upper[i] = b.global.lower[i] + qsx_real("gext", 0.05, 50); b.parametric.upper[i] = b.parametric.lower[i] + (qsx_arg("unitparam", 1) ? 1.0 : qsx_real("pext", 0.05, 50)); }
    Vector3d n{0, 0, 0};
    if (axis < 3) n[axis] = qsx_choice("sign", 2) ? 1.0 : -1.0; else { n = real3("n", -1, 1); qsx_assume(dot3(n, n) == 1.0); }
    const double w = qsx_real("w", 0, 10); const PointType ge = ext(b.global), pe = ext(b.parametric);
    const PointType x = toparam ? b.global.lower : b.parametric.lower;
    PointType s; for (int i = 0; i < 3; ++i) s[i] = toparam ? pe[i] / ge[i] : ge[i] / pe[i];
    const PointType cof{s[1] * s[2], s[0] * s[2], s[0] * s[1]};
    const BoundaryIntegrationPoint in(x, w, n);
    const BoundaryIntegrationPoint out = toparam ? mapping::ToParametric(in, b) : mapping::ToGlobal(in, b);
    const Vector3d m = out.Normal(); const double v = out.Weight();
    for (int i = 0; i < 3; ++i) qsx_assert(near(v * m[i], w * n[i] * cof[i], 1e-6), "area vectors (weight * normal) transform with the cofactors of the map");
    qsx_assert(near(dot3(m, m), 1.0, 1e-7), "mapped normals have unit length");
    qsx_assert(v >= 0.0, "mapped boundary weights keep their sign");
    qsx_assert(near3(out.Point(), toparam ? b.parametric.lower : b.global.lower, 1e-7), "boundary points are mapped like points");
    if (axis < 3) { qsx_reach("axis"); const BoundaryIntegrationPoint bk = toparam ? mapping::ToGlobal(out, b) : mapping::ToParametric(out, b); qsx_assert(near(bk.Weight(), w, 1e-6) & near3(bk.Normal(), n, 1e-7) & near3(bk.Point(), x, 1e-7), "mapping forth and back restores point, weight and normal"); }
    else qsx_reach("general");
}
// very small and very large cells
static void boundary_scale() {
    static const double M[6] = {2e-6, 1e-4, 1e-2, 1, 1e3, 1e6}; const bool toparam = qsx_choice("to_parametric", 2); const double mag = M[qsx_choice("magnitude", 6)];
    ElementBounds b; b.global.lower = {1, 2, 3}; b.parametric.lower = {-1, 0, 5}; const PointType pe{1, 1.5, 0.75}; PointType ge;
    b.global.lower = {0, 0, 0}; b.parametric.lower = {0, 0, 0};
    for (int i = 0; i < 3; ++i) { ge[i] = mag * qsx_real("ext", 0.5, 2); (toparam ? b.parametric : b.global).upper[i] = ge[i]; (toparam ? b.global : b.parametric).upper[i] = pe[i]; }
    static const double N[4][3] = {{1, 0, 0}, {0, -0.6, 0.8}, {2.0 / 3, -1.0 / 3, 2.0 / 3}, {0, 0, 1}}; const auto& t = N[qsx_choice("normal", 4)]; const Vector3d n{t[0], t[1], t[2]};
    const double w = qsx_real("w", 0.1, 10); const BoundaryIntegrationPoint in(PointType{0, 0, 0}, w, n), out = toparam ? mapping::ToParametric(in, b) : mapping::ToGlobal(in, b);
    const PointType s{ge[0] / pe[0], ge[1] / pe[1], ge[2] / pe[2]}, cof{s[1] * s[2], s[0] * s[2], s[0] * s[1]}; const Vector3d m = out.Normal(); const double v = out.Weight();
    qsx_assert(near(dot3(m, m), 1.0, 1e-7), "mapped normals have unit length");
    bool ok = true; for (int i = 0; i < 3; ++i) ok = ok & near(v * m[i], w * n[i] * cof[i], 1e-6 * mag * mag); qsx_assert(ok, "area vectors (weight * normal) transform with the cofactors of the map"); qsx_reach("scale");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: points(); break; case 1: weights(); break; case 2: boundary(); break; case 3: boundary_scale(); break; } }
