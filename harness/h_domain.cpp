// Clipped and closed boundary meshes of cut cells.
#include "common.h"
#include "voxel.h"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/trimmed_domain.h"
#include "queso/utilities/mesh_utilities.h"
static PointType pt(const auto& p) { return {p[0], p[1], p[2]}; }
struct Sums { PointType area{0, 0, 0}; double vol = 0; IndexType n = 0; bool in = true, orient = true; };
static Sums sums(const TriangleMesh& m, const PointType& lo, const PointType& up, double tol) {
    Sums s; for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i); const PointType a = pt(t.P1), b = pt(t.P2), c = pt(t.P3), v = cross3(sub(b, a), sub(c, a));
        s.area = add(s.area, v); s.vol = s.vol + dot3(a, v) / 6.0; ++s.n; s.orient = s.orient & (dot3(v, pt(t.Normal)) >= -1e-9);
        for (const auto& p : {a, b, c}) for (int d = 0; d < 3; ++d) s.in = s.in & between(p[d], lo[d], up[d], tol); }
    return s;
}
// the cell [lo,up] is split at a free position along each chosen axis; parts must add up to the body
static void split() {
    const IndexType kind = qsx_arg("mesh", 0), ax = qsx_arg("axis", 2); TriangleMesh mesh; make_mesh(mesh, kind, {0, 0, 0}, {1, 1, 1}); BRepOperator op(mesh, true);
    const PointType LO = kind == 6 ? PointType{-1.15, -1.2, -1.25} : PointType{-0.15, -0.2, -0.25}, UP{1.4, 1.3, 1.35}; const bool aligned = qsx_arg("aligned", 0); static const double F[7][3] = {{-9}, {-9}, {0.25, 0.75, -9}, {-9}, {0.375, 0.625, 0.75}, {0.5, -9}, {-9}}; double c; if (aligned) c = F[kind][qsx_choice("face", kind == 2 ? 2 : kind == 4 ? 3 : 1)]; else { c = qsx_real("cut", 0.01 * qsx_arg("lo", 1), 0.01 * qsx_arg("hi", 99)); for (double f : F[kind]) if (f > 0) qsx_assume((c - f >= 1e-9) | (f - c >= 1e-9)); } const bool closed = qsx_arg("closed", 1);
    
    double vol = 0; PointType A{0, 0, 0}; IndexType parts = 0;
    for (int side = 0; side < 2; ++side) {
        PointType lo = LO, up = UP; if (side) lo[ax] = c; else up[ax] = c;
        // second split at a fixed plane, so that cells meet along edges
        for (int h = 0; h < (int)qsx_arg("halves", 1); ++h) {
            PointType l = lo, u = up; const IndexType ay = (ax + 1) % 3, az = (ax + 2) % 3; static const double Y[3] = {0.4, 0.55, 0.7}, Z[3] = {0.45, 0.3, 0.65}; const double y = Y[qsx_arg("at", 0)], z = Z[qsx_arg("at", 0)]; if (qsx_arg("halves", 1) >= 2) { if (h & 1) l[ay] = y; else u[ay] = y; } if (qsx_arg("halves", 1) == 4) { if (h & 2) l[az] = z; else u[az] = z; }
            auto clipped = op.ClipTriangleMesh(l, u); if (clipped.NumOfTriangles() == 0) continue; ++parts;
            { const auto uni = op.ClipTriangleMeshUnique(l, u); const Sums s = sums(uni.Mesh(), l, u, 1e-9); A = add(A, s.area); qsx_assert(s.in, "the clipped surface stays in the cell"); qsx_assert(s.orient, "clipped triangles keep the orientation of the surface"); }
            if (!closed) continue;
            TrimmedDomain dom(std::move(clipped), l, u, &op, 0, qsx_arg("switch", 0));
            TriangleMesh m; dom.GetBoundaryMesh().VisitEachTriangle<WithNormals>([&](const auto& t) { const IndexType k = m.NumOfVertices(); m.AddVertex(pt(t.P1)); m.AddVertex(pt(t.P2)); m.AddVertex(pt(t.P3)); m.AddTriangle({k, k + 1, k + 2}, pt(t.Normal)); });
            const Sums s = sums(m, l, u, 1e-9); vol = vol + s.vol;
            qsx_assert(s.in, "the closed boundary mesh stays in the cell"); qsx_assert(near3(s.area, {0, 0, 0}, 1e-7), "the boundary mesh of a cut cell is closed"); qsx_assert(s.orient, "triangles of the boundary mesh are oriented along their normals");
        }
    }
    qsx_assert(near3(A, {0, 0, 0}, 1e-7), "the clipped parts of a closed surface add up to the closed surface");
    if (closed) { qsx_reach("volume"); qsx_assert(near(vol, mesh_volume(kind), 1e-7), "the cut cells' volumes add up to the volume of the body"); }
    if (parts > 1) qsx_reach("parts");
}

// a cell cut by a body: point and box queries against the exact body
static const PointType CLO{-0.15, -0.2, -0.25}, CUP{0.65, 0.7, 0.6};
static ElementBounds MakeBounds(const PointType& a, const PointType& b) { return {MakeBox(a, b), MakeBox(a, b)}; }
static void point_query() {
    const IndexType kind = qsx_arg("mesh", 1), ax = qsx_arg("axis", 0); TriangleMesh mesh; make_mesh(mesh, kind, {0, 0, 0}, {1, 1, 1}); BRepOperator op(mesh, true); TrimmedDomain dom(op.ClipTriangleMesh(CLO, CUP), CLO, CUP, &op, 0);
    static const double P[4][3] = {{0.31, 0.27, 0.22}, {0.53, 0.11, 0.47}, {0.07, 0.61, 0.09}, {-0.05, 0.33, 0.41}}; const uint64_t k = qsx_arg("point", 9) < 4 ? qsx_arg("point", 9) : qsx_choice("point", 4); PointType x{P[k][0], P[k][1], P[k][2]}; x[ax] = qsx_real("x", CLO[ax] + 1e-3, CUP[ax] - 1e-3);
    bool in, out; mesh_inside(kind, x, 1e-6, in, out); const bool r = dom.IsInside(x); qsx_assert(!in | r, "a point of the body is inside the cut cell's domain"); qsx_assert(!out | !r, "a point off the body is outside the cut cell's domain"); qsx_reach(r ? "inside" : "outside");
}
static Voxels steps(IndexType body) { Voxels v = voxels(body); for (int d = 0; d < 3; ++d) for (int i = 0; i <= v.n[d]; ++i) v.x[d].push_back(0.375 * i + 0.0625 * d); return v; }
static void box_query() {
    const IndexType ax = qsx_arg("axis", 0); Voxels v = steps(qsx_arg("body", 0)); TriangleMesh mesh; v.mesh(mesh, 2); BRepOperator op(mesh, true); const bool whole = qsx_arg("whole", 0); const PointType lo = whole ? PointType{-0.5, -0.5, -0.5} : CLO, up = whole ? PointType{1.5, 1.5, 1.5} : CUP; TrimmedDomain dom(op.ClipTriangleMesh(lo, up), lo, up, &op, 0);
    static const double S[3][3] = {{0.1, 0.1, 0.1}, {0.3, 0.2, 0.25}, {0.05, 0.4, 0.1}}; const uint64_t k = qsx_choice("size", 3), q = qsx_choice("place", 4); static const double P[4][3] = {{0.01, 0.12, 0.13}, {-0.11, 0.2, 0.3}, {0.3, 0.02, 0.06}, {0.2, -0.15, 0.22}}; PointType a{P[q][0], P[q][1], P[q][2]}; a[ax] = qsx_real("x", lo[ax] + 1e-3, up[ax] - S[k][ax] - 1e-3); const PointType b{a[0] + S[k][0], a[1] + S[k][1], a[2] + S[k][2]};
    const bool must = v.cuts(a, b, 1e-9), can = v.cuts(a, b, -1e-9), in = v.inside({0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1]), 0.5 * (a[2] + b[2])}); const IntersectionState r = qsx_arg("global", 0) ? op.GetIntersectionState(a, b) : dom.GetIntersectionState(a, b, MakeBounds(lo, up));
    qsx_assert(r == IntersectionState::trimmed ? can : !must, "a box in a cut cell is trimmed exactly when the surface passes through it"); if (r != IntersectionState::trimmed) qsx_assert(must | (in == (r == IntersectionState::inside)), "an untrimmed box in a cut cell is inside exactly when it lies in the body"); qsx_reach(r == IntersectionState::trimmed ? "trimmed" : r == IntersectionState::inside ? "inside" : "outside");
}
// what the element builder asks for: nothing below the volume ratio, otherwise a closed mesh with the exact volume and bounds
static void builder_query() {
    const IndexType ax = qsx_arg("axis", 0); Voxels v = steps(qsx_arg("body", 0)); TriangleMesh mesh; v.mesh(mesh, 2); BRepOperator op(mesh, true); PointType lo = CLO, up = CUP; (qsx_arg("lower", 0) ? lo : up)[ax] = qsx_real("cut", 0.08, 0.7); const double c = (qsx_arg("lower", 0) ? lo : up)[ax]; for (double x : v.x[ax]) qsx_assume((c - x >= 1e-9) | (x - c >= 1e-9)); qsx_assume(up[ax] - lo[ax] >= 0.05);
    static const double R[4] = {0.0, 0.02, 0.2, 0.45}; const double ratio = R[qsx_choice("ratio", 4)]; const IndexType mintri = qsx_arg("refine", 0) ? 20 : 0; const double V = v.volume_in(lo, up), cell = (up[0] - lo[0]) * (up[1] - lo[1]) * (up[2] - lo[2]);
    auto p = op.pGetTrimmedDomain(lo, up, ratio, mintri); qsx_assert(p ? V > ratio * cell - 1e-9 : V < ratio * cell + 1e-9, "a cut cell is dropped exactly when its volume ratio is below the limit"); if (!p) { qsx_reach("dropped"); return; }
    TriangleMesh m; p->GetBoundaryMesh().VisitEachTriangle<WithNormals>([&](const auto& t) { const IndexType k = m.NumOfVertices(); m.AddVertex(pt(t.P1)); m.AddVertex(pt(t.P2)); m.AddVertex(pt(t.P3)); m.AddTriangle({k, k + 1, k + 2}, pt(t.Normal)); }); const Sums s = sums(m, lo, up, 1e-9);
    qsx_assert(near(s.vol, V, 1e-7), "the boundary mesh encloses the body's part of the cell"); qsx_assert(near3(s.area, {0, 0, 0}, 1e-7), "the boundary mesh of a cut cell is closed"); qsx_assert(s.n >= mintri, "the boundary mesh has the requested number of triangles");
    const auto bb = p->GetBounds<CoordinateSpace::global>(MakeBounds(lo, up)); bool tight = true; for (int d = 0; d < 3; ++d) { double a = 1e9, b = -1e9; for (IndexType i = 0; i < m.NumOfVertices(); ++i) { a = std::min(a, (double)m.Vertex(i)[d]); b = std::max(b, (double)m.Vertex(i)[d]); } tight = tight & near(a, bb.lower[d], 1e-12) & near(b, bb.upper[d], 1e-12); } qsx_assert(tight, "the bounds of a cut cell's domain are those of its boundary mesh"); qsx_reach("kept");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: split(); break; case 1: point_query(); break; case 2: box_query(); break; case 3: builder_query(); break; } }
