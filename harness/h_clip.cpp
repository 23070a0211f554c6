// Clipping of a triangle by an axis-aligned cell, and the triangulation of the clipped polygon.
#include "common.h"
#include "queso/embedding/clipper.h"
#include "queso/embedding/polygon.h"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/clipped_triangle_mesh.hpp"
static const double TRI[][9] = {
    {0.1, 0.2, 0.3, 0.9, 0.3, 0.4, 0.4, 0.8, 0.6},      // smaller than the cell
    {0, 0, 0.1, 3, 0.1, 0.3, 0.2, 3, 0.7},              // larger than the cell in x and y
    {0, 0, 0, 1, 0, 0, 0, 1, 0},                        // parallel to a face, on the lattice
    {0, 0, 0, 0, 1, 0, 0, 0, 1},                        // vertical, x constant
    {0, 0, 0, 2, 0, 2, 0, 2, 2},                        // oblique, edges with constant coordinates
    {0, 0, 0, 4, 4, -0.5, -4, 4, 5},                    // cuts all faces
    {0, 0, 0, 3, 0.001, 0, 3, 0.002, 0.001},            // sliver
    {0, 0, 0, 3, 3, 0, 0, 3, 3}};
static Vector3d unit_normal(PointType a, PointType b, PointType c) { const PointType n = cross3(sub(b, a), sub(c, a)); const double l = std::sqrt(dot3(n, n)); return {n[0] / l, n[1] / l, n[2] / l}; }
static const double OFF[] = {-0.25, 0.0, -1.375, 0.4375, 1.0 / 3.0 - 1.0, -2.0, -3.1, 0.8125};
using Poly = Clipper::PolygonType;
static bool on_edge(const PointType& a, const PointType& b, const PointType& v) { return near3(cross3(sub(b, a), sub(v, a)), {0, 0, 0}, 1e-8); }
// The polygon is compared with the set {triangle} n {cell}: it lies in both convex sets, and each of its edges
// lies on the boundary of one of them. All conditions are linear when the triangle's shape is fixed.
static void check_polygon(const Poly& p, const PointType* t, const PointType& n, const PointType& lo, const PointType& up) {
    const IndexType N = p.NumVertices();
    qsx_assert(N >= 3 && N <= 9, "the clipped polygon has 3 to 9 vertices");
    bool in = true, flag = true, tri = true, bound = true, adj = true;
    for (IndexType i = 0; i < N; ++i) {
        const auto& v = p.GetVertex(i); const auto& w = p.GetVertex((i + 1) % N);
        const bool shortedge = near3(v.first, w.first, 1e-6); bool b = shortedge;
        for (int d = 0; d < 3; ++d) {
            in = in & between(v.first[d], lo[d], up[d], 1e-9);
            for (int s = 0; s < 2; ++s) {
                const double c = s ? up[d] : lo[d];
                if (v.second[2 * d + s]) flag = flag & near(v.first[d], c, 1e-9);
                b = b | (near(v.first[d], c, 1e-9) & near(w.first[d], c, 1e-9));
                if (!(v.second[2 * d + s] && w.second[2 * d + s])) adj = adj & (shortedge | !((v.first[d] == c) & (w.first[d] == c)));
            }
        }
        for (int e = 0; e < 3; ++e) {
            const PointType &a = t[e], &c = t[(e + 1) % 3];
            b = b | (on_edge(a, c, v.first) & on_edge(a, c, w.first));
            if (qsx_arg("intri", 1)) tri = tri & (dot3(n, cross3(sub(c, a), sub(v.first, a))) >= -1e-7);
        }
        bound = bound & b;
    }
    qsx_assert(in, "every vertex of the clipped polygon lies in the cell");
    qsx_assert(flag, "a vertex marked as lying on a face of the cell lies on that face");
    qsx_assert(adj, "an edge of the clipped polygon that lies in a face of the cell is marked");
    if (qsx_arg("intri", 1)) qsx_assert(tri, "every vertex of the clipped polygon lies in the triangle");
    qsx_assert(bound, "every edge of the clipped polygon lies on an edge of the triangle or in a face of the cell");
}
static void meshing(const Poly& p, const PointType& n, const PointType& lo, const PointType& up) {
    ClippedTriangleMesh mesh; mesh.AddVertex({7, 7, 7}); mesh.AddVertex({8, 7, 7}); mesh.AddVertex({7, 8, 7}); mesh.AddTriangle({0, 1, 2}, {0, 0, 1});
    p.AddToTriangleMesh(mesh);
    const IndexType N = p.NumVertices(), nt = mesh.NumOfTriangles() - 1;
    qsx_assert(nt == (N < 3 ? 0 : N == 3 ? 1 : N), "a polygon with n > 3 vertices becomes n triangles, a triangle stays one");
    if (N < 3) return;
    PointType A{0, 0, 0}, B{0, 0, 0}; bool orient = true, nrm = true;
    for (IndexType i = 0; i < N; ++i) A = add(A, cross3(p.GetVertex(i).first, p.GetVertex((i + 1) % N).first));
    for (IndexType i = 1; i <= nt; ++i) {
        const auto t = mesh.Triangle<WithNormals>(i); const PointType a{t.P1[0], t.P1[1], t.P1[2]}, b{t.P2[0], t.P2[1], t.P2[2]}, c{t.P3[0], t.P3[1], t.P3[2]};
        const PointType v = cross3(sub(b, a), sub(c, a)); B = add(B, v); orient = orient & (dot3(v, n) >= -1e-7);
        nrm = nrm & (t.Normal[0] == n[0]) & (t.Normal[1] == n[1]) & (t.Normal[2] == n[2]);
    }
    qsx_assert(near3(A, B, 1e-6), "the triangles of a polygon cover exactly its area");
    qsx_assert(orient, "the triangles of a polygon keep its orientation");
    qsx_assert(nrm, "the triangles of a polygon carry the triangle's normal");
    const SignedAxis ax[6] = {SignedAxis::neg_x, SignedAxis::pos_x, SignedAxis::neg_y, SignedAxis::pos_y, SignedAxis::neg_z, SignedAxis::pos_z};
    bool on = true, cnt = true;
    for (int k = 0; k < 6; ++k) {
        IndexType want = 0, got = 0;
        for (IndexType i = 0; i < N; ++i) want += p.GetVertex(i).second[k] && p.GetVertex((i + 1) % N).second[k];
        for (const auto& e : mesh.Edges(ax[k])) { ++got; const double c = k % 2 ? up[k / 2] : lo[k / 2]; on = on & near(e.mP1[k / 2], c, 1e-9) & near(e.mP2[k / 2], c, 1e-9) & (e.mNormal[0] == n[0]) & (e.mNormal[1] == n[1]) & (e.mNormal[2] == n[2]); }
        cnt = cnt & (want == got);
    }
    qsx_assert(on, "edges recorded for a face lie in that face and carry the triangle's normal");
    qsx_assert(cnt, "every edge of the polygon in a face is recorded once");
}
// catalogue triangle, any translation; the cell is fixed or has any extents
static void placed() {
    const IndexType k = qsx_arg("tri", 0); const bool flip = qsx_arg("flip", 0); const IndexType mask = qsx_arg("mask", 7);
    PointType t[3], s{0, 0, 0}; for (int d = 0; d < 3; ++d) s[d] = (mask >> d & 1) ? qsx_real("shift", -4, 4) : OFF[qsx_choice("offset", qsx_arg("noff", 5))];
    for (int i = 0; i < 3; ++i) for (int d = 0; d < 3; ++d) t[flip ? 2 - i : i][d] = TRI[k][3 * i + d] + s[d];
    PointType a{TRI[k][0], TRI[k][1], TRI[k][2]}, b{TRI[k][3], TRI[k][4], TRI[k][5]}, c{TRI[k][6], TRI[k][7], TRI[k][8]};
    const Vector3d n = flip ? unit_normal(c, b, a) : unit_normal(a, b, c);
    const PointType lo{0, 0, 0}, up{1, 1, 1};
    const double l1 = qsx_real("lambda", 0, 1), l2 = qsx_real("lambda", 0, 1); qsx_assume(l1 + l2 <= 1);
    PointType q; for (int d = 0; d < 3; ++d) q[d] = (TRI[k][d] + s[d]) + l1 * (TRI[k][3 + d] - TRI[k][d]) + l2 * (TRI[k][6 + d] - TRI[k][d]);
    bool in = true; for (int d = 0; d < 3; ++d) in = in & between(q[d], lo[d], up[d], -1e-6);
    qsx_assume(in);                                      // the triangle meets the interior of the cell
    auto p = Clipper::ClipTriangle(TriangleProxy<WithNormals>{t[0], t[1], t[2], n}, lo, up);
    qsx_assert(p != nullptr, "a triangle that meets the interior of the cell is not discarded");
    check_polygon(*p, t, n, lo, up);
    if (qsx_arg("mesh", 0)) meshing(*p, n, lo, up);
    if (p->NumVertices() == 3) qsx_reach("triangle"); if (p->NumVertices() > 3) qsx_reach("polygon");
}
// every triangle over a plane domain: x and y of the three vertices free
static void planar() {
    PointType t[3]; const double z[3] = {0.2, 0.5, 0.7};
    const IndexType fx = qsx_arg("free", 3), ax = qsx_arg("axis", 0), ay = (ax + 1) % 3, az = (ax + 2) % 3;
    const double F[3][2] = {{-0.5, 0.4}, {0.3, 1.6}, {1.4, 0.2}};
    for (IndexType i = 0; i < 3; ++i) { t[i][ax] = i < fx ? qsx_real("x", -3, 3) : F[i][0]; t[i][ay] = i < fx ? qsx_real("y", -3, 3) : F[i][1]; t[i][az] = z[i]; }
    const double l1 = qsx_real("lambda", 0, 1), l2 = qsx_real("lambda", 0, 1); qsx_assume(l1 + l2 <= 1);
    PointType q = add(t[0], add(scl(l1, sub(t[1], t[0])), scl(l2, sub(t[2], t[0])))); const PointType lo{0, 0, 0}, up{1, 1, 1};
    bool in = true; for (int d = 0; d < 3; ++d) in = in & between(q[d], lo[d], up[d], -1e-6);
    qsx_assume(in);
    PointType n{0, 0, 0}; n[az] = 1;                       // orientation in the plane: counter-clockwise triangles
    const double A = (t[1][ax] - t[0][ax]) * (t[2][ay] - t[0][ay]) - (t[1][ay] - t[0][ay]) * (t[2][ax] - t[0][ax]);
    qsx_assume(A >= 1e-2);
    auto p = Clipper::ClipTriangle(TriangleProxy<WithNormals>{t[0], t[1], t[2], n}, lo, up);
    qsx_assert(p != nullptr, "a triangle that meets the interior of the cell is not discarded");
    check_polygon(*p, t, n, lo, up); qsx_reach("planar");
}
// polygons with any flags: triangulation
static void fan() {
    const IndexType N = qsx_choice("vertices", 10); if (N == 0) return;
    const Vector3d n{0, 0, 1}; Poly p(n); const PointType lo{-1, -1, -1}, up{1, 1, 1};
    for (IndexType i = 0; i < N; ++i) { PointType v; for (int d = 0; d < 3; ++d) v[d] = qsx_real("v", -1, 1); p.AddVertex(v); }
    const IndexType f = qsx_choice("plane", 7);
    if (f < 6) { const IndexType first = qsx_choice("flagged", N), second = (first + 1) % N;
        if (N >= 2) { p.SetIndexOnPlane(first, f); p.SetIndexOnPlane(second, f); } }
    ClippedTriangleMesh mesh; p.AddToTriangleMesh(mesh); qsx_reach("fan");
    const IndexType nt = mesh.NumOfTriangles();
    qsx_assert(nt == (N < 3 ? 0 : N == 3 ? 1 : N), "a polygon with n > 3 vertices becomes n triangles, a triangle stays one"); if (N < 3) return;
    PointType A{0, 0, 0}, B{0, 0, 0};
    for (IndexType i = 0; i < N; ++i) A = add(A, cross3(p.GetVertex(i).first, p.GetVertex((i + 1) % N).first));
    for (IndexType i = 0; i < nt; ++i) { const auto t = mesh.Triangle<WithNormals>(i); const PointType a{t.P1[0], t.P1[1], t.P1[2]}, b{t.P2[0], t.P2[1], t.P2[2]}, c{t.P3[0], t.P3[1], t.P3[2]}; B = add(B, cross3(sub(b, a), sub(c, a))); }
    qsx_assert(near3(A, B, 1e-6), "the triangles of a polygon cover exactly its area");
    const SignedAxis ax[6] = {SignedAxis::neg_x, SignedAxis::pos_x, SignedAxis::neg_y, SignedAxis::pos_y, SignedAxis::neg_z, SignedAxis::pos_z};
    for (IndexType k = 0; k < 6; ++k) { IndexType got = 0; for (const auto& e : mesh.Edges(ax[k])) { (void)e; ++got; } qsx_assert(got == (k == f ? (N == 2 ? 2 : 1) : 0), "every edge of the polygon in a face is recorded once"); }
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: placed(); break; case 1: planar(); break; case 2: fan(); break; } }
