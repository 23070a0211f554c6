// Intersection tests: triangle-box, box-box, ray-box, ray-triangle, AABB tree and point-in-mesh queries.
#include "common.h"
#include "queso/embedding/aabb_primitive.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "queso/embedding/aabb_tree.h"
#include "queso/embedding/geometry_query.h"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "meshes.h"
static const double TRI[][9] = {
    {0.1, 0.2, 0.3, 0.9, 0.3, 0.4, 0.4, 0.8, 0.6}, {0, 0, 0.1, 3, 0.1, 0.3, 0.2, 3, 0.7}, {0, 0, 0, 1, 0, 0, 0, 1, 0},
    {0, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 0, 2, 0, 2, 0, 2, 2}, {0, 0, 0, 4, 4, -0.5, -4, 4, 5}, {0, 0, 0, 3, 0.001, 0, 3, 0.002, 0.001}, {0, 0, 0, 3, 3, 0, 0, 3, 3},
    {0, 0, 0, 5, 0, 0, 5, 5, 5}, {0, 0, 0, 0.2, 0.1, -6, 0.5, 0.3, 6}};
static PointType V(const double* p) { return {p[0], p[1], p[2]}; }
// The box meets triangle + s iff s lies in the convex polytope  box (+) -triangle; its facets are found by brute force.
static bool in_minkowski(const PointType* P, const PointType& s, double slack) {
    bool r = true;
    for (int i = 0; i < 24; ++i) for (int j = i + 1; j < 24; ++j) for (int k = j + 1; k < 24; ++k) {
        PointType n = cross3(sub(P[j], P[i]), sub(P[k], P[i])); double l = std::sqrt(dot3(n, n)); if (l < 1e-9) continue;
        n = scl(1.0 / l, n); int pos = 0, neg = 0;
        for (int m = 0; m < 24; ++m) { const double v = dot3(n, sub(P[m], P[i])); pos += v > 1e-9; neg += v < -1e-9; }
        if (pos && neg) continue;
        const double sg = pos ? 1.0 : -1.0; r = r & (sg * dot3(n, sub(s, P[i])) >= -slack);
    }
    return r;
}
static void sat() {
    const double* T = TRI[qsx_arg("tri", 0)]; const PointType lo{-0.5, 0.25, 1.0}, ext = qsx_arg("cube", 1) ? PointType{1, 1, 1} : PointType{0.125, 2.0, 0.75};
    const PointType up = add(lo, ext); const PointType s = real3("shift", -12, 12); const double tol = 0.0;
    PointType P[24]; for (int i = 0; i < 8; ++i) for (int j = 0; j < 3; ++j) P[3 * i + j] = sub({i & 1 ? up[0] : lo[0], i & 2 ? up[1] : lo[1], i & 4 ? up[2] : lo[2]}, V(T + 3 * j));
    const PointType a = add(V(T), s), b = add(V(T + 3), s), c = add(V(T + 6), s);
    const bool in = in_minkowski(P, s, -1e-6), out = !in_minkowski(P, s, 1e-6);
    const AABB_primitive box(lo, up); const bool r = box.intersect(a, b, c, tol);
    qsx_assert(!in | r, "a triangle that meets the box is reported"); qsx_assert(!out | !r, "a triangle away from the box is not reported");
    if (qsx_arg("order", 0)) { qsx_assert(box.intersect(b, c, a, tol) == r && box.intersect(c, b, a, tol) == r, "the result does not depend on the order of the vertices"); }
    if (r) qsx_reach("hit"); else qsx_reach("miss");
}
// tolerance: touching triangles are not reported
static void sat_tol() {
    const double* T = TRI[qsx_arg("tri", 0)]; const PointType lo{-0.5, 0.25, 1.0}, up{0.5, 1.25, 2.0}; const double tol = qsx_real("tolerance", 1e-6, 0.25);
    const IndexType d = qsx_choice("direction", 3), side = qsx_choice("side", 2); PointType s{0, 0, 0};
    for (IndexType k = 0; k < 3; ++k) if (k != d) s[k] = qsx_real("shift", -4, 4);
    double mn = 1e9, mx = -1e9; for (int j = 0; j < 3; ++j) { mn = std::min(mn, T[3 * j + d]); mx = std::max(mx, T[3 * j + d]); }
    const double depth = qsx_real("depth", -1, 1);               // how far the triangle's extremal vertex enters the box
    s[d] = side ? up[d] - depth - mn : lo[d] + depth - mx;
    const AABB_primitive box(lo, up); const bool r = box.intersect(add(V(T), s), add(V(T + 3), s), add(V(T + 6), s), tol);
    qsx_assert(!(depth < tol - 1e-9) | !r, "a triangle that enters the box by less than the tolerance is not reported"); if (r) qsx_reach("hit"); else qsx_reach("miss");
}
// one vertex anywhere: no intersection is missed
static void sat_free() {
    const double* T = TRI[qsx_arg("tri", 0)]; const IndexType w = qsx_arg("vertex", 0); const PointType lo{0, 0, 0}, up{1, 1, 1}; PointType t[3];
    for (IndexType i = 0; i < 3; ++i) { t[i] = V(T + 3 * i); for (int d = 0; d < 3; ++d) if (i == w) t[i][d] = (qsx_arg("dims", 7) >> d & 1) ? qsx_real("v", -3, 3) : 0.4; else t[i][d] -= 0.7; }
    const double l1 = qsx_real("lambda", 0, 1), l2 = qsx_real("lambda", 0, 1); qsx_assume(l1 + l2 <= 1);
    PointType q = add(t[0], add(scl(l1, sub(t[1], t[0])), scl(l2, sub(t[2], t[0])))); bool in = true; for (int d = 0; d < 3; ++d) in = in & between(q[d], lo[d], up[d], -1e-6);
    qsx_assume(in); qsx_assert(AABB_primitive(lo, up).intersect(t[0], t[1], t[2], 0.0), "a triangle that meets the box is reported"); qsx_reach("hit");
}
static void boxbox() {
    PointType a = real3("a", -5, 5), b = real3("b", -5, 5), A = a, B = b; for (int d = 0; d < 3; ++d) { A[d] = a[d] + qsx_real("e", 0.01, 5); B[d] = b[d] + qsx_real("f", 0.01, 5); }
    bool o = true; for (int d = 0; d < 3; ++d) o = o & (a[d] <= B[d]) & (b[d] <= A[d]);
    const bool r = AABB_primitive(a, A).intersect(AABB_primitive(b, B)); qsx_assert(r == o, "two boxes intersect iff their intervals overlap in all directions"); qsx_reach(r ? "hit" : "miss");
}
// ray-box: every hit is found; a reported hit is one
static void raybox() {
    const bool positive = qsx_arg("positive", 1); const PointType lo{-1, 0.5, 2}, up{0.25, 3, 2.5}; const PointType o = real3("o", -6, 6); PointType d;
    for (int k = 0; k < 3; ++k) { d[k] = qsx_real("d", 0.05, 1); if (!positive && (qsx_arg("signs", 0) >> k & 1)) d[k] = -d[k]; }
    const Ray_AABB_primitive ray(o, d); const AABB_primitive box(lo, up); const bool r = positive ? ray.intersect_positive_ray(box) : ray.intersect_general(box);
    // slab test without division: entry_i = near_i/|d_i|, exit_i = far_i/|d_i|
    double nr[3], fr[3], ad[3]; for (int k = 0; k < 3; ++k) { const bool neg = !positive && (qsx_arg("signs", 0) >> k & 1); ad[k] = neg ? -d[k] : d[k]; nr[k] = neg ? o[k] - up[k] : lo[k] - o[k]; fr[k] = neg ? o[k] - lo[k] : up[k] - o[k]; }
    bool hit = true, miss = false; for (int i = 0; i < 3; ++i) { hit = hit & (fr[i] >= 1e-6); miss = miss | (fr[i] < -1e-6); for (int j = 0; j < 3; ++j) if (i != j) { hit = hit & (fr[i] * ad[j] - nr[j] * ad[i] >= 1e-6); miss = miss | (fr[i] * ad[j] - nr[j] * ad[i] < -1e-6); } }
    qsx_assert(!hit | r, "a ray that hits the box is reported"); qsx_assert(!miss | !r, "a ray that misses the box is not reported"); qsx_reach(r ? "hit" : "miss");
    qsx_assert(ray.intersect(box) == r, "the general and the positive test agree with intersect()");
}
// ray-triangle: parameters of the hit and facing
static void raytri() {
    const double* T = TRI[qsx_arg("tri", 0)]; const bool flip = qsx_arg("flip", 0); const double DIR[][3] = {{0.5, 0.6, 0.62}, {0, 0, 1}, {-0.3, 0.9, 0.2}, {0.7, -0.7, -0.1}, {-1, 0, 0}, {0.577, 0.578, 0.576}};
    PointType a = V(T), b = V(T + (flip ? 6 : 3)), c = V(T + (flip ? 3 : 6)), d; const bool freed = qsx_arg("freedir", 0);
    if (freed) { for (int k = 0; k < 3; ++k) d[k] = qsx_real("d", 0.05, 1); } else d = V(DIR[qsx_arg("dir", 0)]);
    PointType o; if (freed) o = {-1.3, 0.1, -2.2}; else o = real3("o", -8, 8);
    const Ray_AABB_primitive ray(o, d); double t = -7, u = -7, v = -7; bool back = false, par = false; const bool r = ray.intersect(a, b, c, t, u, v, back, par);
    const PointType e1 = sub(b, a), e2 = sub(c, a), n = cross3(e1, e2); const double nd = dot3(n, d);
    if (par) { qsx_reach("parallel"); qsx_assert(near(nd, 0, 1e-9), "only rays parallel to the triangle are reported as parallel"); return; }
    qsx_assert(!near(nd, 0, 1e-14), "a parallel ray is reported as parallel");
    qsx_assert(back == (nd > 0), "back facing iff the ray leaves through the triangle's outer side");
    if (r) {
        const PointType x = add(o, scl(t, d)), y = add(a, add(scl(u, e1), scl(v, e2)));
        qsx_assert(near3(x, y, 1e-6), "ray parameter and triangle coordinates describe the same point");
        qsx_assert((t >= -1e-9) & (u >= -1e-9) & (v >= -1e-9) & (u + v <= 1 + 1e-9), "a hit lies on the ray and in the triangle"); qsx_reach("hit");
    } else qsx_reach("miss");
    // the true hit: o + s d in the plane; s = n.(a-o)/n.d; inside when the three edge functions have the sign of n.d
    const double s = dot3(n, sub(a, o)) * (nd > 0 ? 1.0 : -1.0); const double and_ = nd > 0 ? nd : -nd;
    const PointType w = add(scl(and_, o), scl(s, d)); bool in = s >= 1e-6; const PointType q[3] = {a, b, c};
    for (int i = 0; i < 3; ++i) in = in & (dot3(n, cross3(sub(q[(i + 1) % 3], q[i]), sub(w, scl(and_, q[i])))) >= 1e-6);
    qsx_assert(!in | r, "a ray through the triangle is reported");
}
// tree queries return exactly the triangles whose bounding boxes overlap the query box
static void tree() {
    const IndexType m = qsx_arg("mesh", 0); TriangleMesh mesh; make_mesh(mesh, m, {0, 0, 0}, {1, 1, 1});
    AABB_tree t{TriangleMeshView(mesh)}; const PointType a = real3("a", -3, 4); PointType b = a; for (int d = 0; d < 3; ++d) b[d] = a[d] + ((qsx_arg("ext", 7) >> d & 1) ? qsx_real("e", 0.01, 6) : 0.3);
    auto ids = t.Query(AABB_primitive(a, b)); const IndexType N = mesh.NumOfTriangles(); std::vector<int> seen(N, 0);
    bool range = true; for (auto i : ids) { if (i >= N) { range = false; continue; } ++seen[i]; } qsx_assert(range, "queries return ids of triangles");
    bool all = true, once = true;
    for (IndexType i = 0; i < N; ++i) {
        const auto tr = mesh.Triangle<WithoutNormals>(i); bool o = true;
        for (int d = 0; d < 3; ++d) { const double lo = std::min(tr.P1[d], std::min(tr.P2[d], tr.P3[d])), up = std::max(tr.P1[d], std::max(tr.P2[d], tr.P3[d])); o = o & (lo <= b[d]) & (a[d] <= up); }
        if (!seen[i]) all = all & !o; else once = once & (seen[i] == 1) & o;
    }
    qsx_assert(all, "no triangle whose bounding box overlaps the query box is missed"); qsx_assert(once, "every returned triangle overlaps the query box and is returned once"); qsx_reach("query");
    bool in = true; for (int d = 0; d < 3; ++d) { double lo = 1e9, up = -1e9; for (const auto& v : mesh.Vertices()) { lo = std::min(lo, v[d]); up = std::max(up, v[d]); } in = in & (a[d] >= lo) & (a[d] <= up); }
    qsx_assert(t.IsWithinBoundingBox(a) == in, "IsWithinBoundingBox is the mesh's bounding box");
}
// trees of boxes with any positions
static void tree_free() {
    const IndexType N = qsx_arg("n", 3); TriangleMesh mesh; std::vector<PointType> p;
    for (IndexType i = 0; i < N; ++i) { PointType s{0.3 * i, -0.2 * i, 0.1}; const IndexType f = qsx_arg("dims", 1); for (int d = 0; d < 3; ++d) if (f >> d & 1) s[d] = qsx_real("s", -4, 4); p.push_back(s);
        mesh.AddVertex({s[0], s[1], s[2]}); mesh.AddVertex({s[0] + 1, s[1] + 0.25, s[2]}); mesh.AddVertex({s[0], s[1] + 0.5, s[2] + 0.75}); mesh.AddTriangle({3 * i, 3 * i + 1, 3 * i + 2}, {0, 0, 1}); }
    AABB_tree t{TriangleMeshView(mesh)}; const PointType a{qsx_real("q", -4, 4), -3, -3}, b{a[0] + 0.5, 3, 3}; auto ids = t.Query(AABB_primitive(a, b));
    std::vector<int> seen(N, 0); for (auto i : ids) if (i < N) ++seen[i]; bool ok = true;
    for (IndexType i = 0; i < N; ++i) { const bool o = (p[i][0] <= b[0]) & (a[0] <= p[i][0] + 1); ok = ok & (seen[i] ? ((seen[i] == 1) & o) : !o); }
    qsx_assert(ok, "queries return exactly the overlapping triangles, for any placement of the triangles"); qsx_reach("query");
}
// GeometryQuery on a mesh: box queries
static void query() {
    const IndexType m = qsx_arg("mesh", 0); TriangleMesh mesh; make_mesh(mesh, m, {0, 0, 0}, {1, 1, 1}); GeometryQuery g(mesh, true);
    const PointType a = real3("a", -2.5, 3), b = add(a, {0.75, 0.5, 1.0}); const double tol = 1e-8;
    auto ids = g.GetIntersectedTriangleIds(a, b, tol); const bool hit = g.DoIntersect(a, b, tol); const IndexType N = mesh.NumOfTriangles(); std::vector<int> seen(N, 0); for (auto i : ids) if (i < N) ++seen[i];
    IndexType n = 0; for (IndexType i = 0; i < N; ++i) { const auto t = mesh.Triangle<WithoutNormals>(i); const bool r = AABB_primitive(a, b).intersect(t.P1, t.P2, t.P3, tol); n += r; qsx_assert(seen[i] == (r ? 1 : 0), "exactly the triangles that meet the box are returned, each once"); }
    qsx_assert((hit ? 1 : 0) == (n > 0 ? 1 : 0), "DoIntersect iff some triangle meets the box"); qsx_reach(hit ? "hit" : "miss");
}
// point in mesh along any ray
static void inside() {
    const IndexType m = qsx_arg("mesh", 0); TriangleMesh mesh; make_mesh(mesh, m, {0, 0, 0}, {1, 1, 1}); const bool closed = qsx_arg("closed", 1); GeometryQuery g(mesh, closed);
    const double DIR[][3] = {{0.5, 0.6, 0.62}, {0.9, 0.3, 0.31}, {0.31, 0.35, 0.88}, {-0.4, 0.5, -0.77}, {0.577, 0.577, 0.577}, {0.25 / 1.0383279828647594, 0.125 / 1.0383279828647594, 1 / 1.0383279828647594}}; const double PT[][3] = {{0.3, 0.4, 0.2}, {-0.5, -0.3, 0.4}, {0.9, 0.1, 0.85}, {0.5, 0.5, -2}};
    PointType x, d; const IndexType what = qsx_arg("free", 1);
    x = what & 1 ? real3("x", -1.5, 2.5) : V(PT[qsx_arg("point", 0)]); if (what & 2) { for (int k = 0; k < 3; ++k) d[k] = qsx_real("d", 0.25, 1); } else d = V(DIR[qsx_arg("dir", 0)]);
    const auto r = g.IsInside(Ray_AABB_primitive(x, d)); bool in, out; mesh_inside(m, x, 1e-6, in, out);
    if (r.second) { qsx_reach(r.first ? "inside" : "outside"); qsx_assert(!in | r.first, "a point inside the body is inside, whatever the ray"); qsx_assert(!out | !r.first, "a point outside the body is outside, whatever the ray"); }
    else qsx_reach("undecided");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: sat(); break; case 1: sat_tol(); break; case 2: sat_free(); break; case 3: boxbox(); break; case 4: raybox(); break; case 5: raytri(); break; case 6: tree(); break; case 7: tree_free(); break; case 8: query(); break; case 9: inside(); break; } }
