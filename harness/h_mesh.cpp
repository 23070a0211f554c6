// Triangle meshes: utilities, triangle quadrature, containers and views.
#include "common.h"
#include <map>
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "queso/containers/clipped_triangle_mesh.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/utilities/triangle_utilities.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "meshes.h"
extern "C" void qsx_set_threads(int);
namespace MU = MeshUtilities; namespace TU = TriangleUtilities;
static PointType pt(PointView v) { return {v[0], v[1], v[2]}; }
static bool closed_conforming(const TriangleMesh& m) { std::map<std::pair<IndexType, IndexType>, int> e; bool ok = true; const auto v = m.Vertices();
    for (const auto& t : m.TriangleIndices()) for (int i = 0; i < 3; ++i) e[{t[i], t[(i + 1) % 3]}]++;
    for (auto& [k, c] : e) { auto it = e.find({k.second, k.first}); ok = ok && c == 1 && it != e.end() && it->second == 1; } return ok; }
// any cuboid
static void makebox() {
    const PointType lo = real3("lower", -50, 50); PointType e, up; for (int d = 0; d < 3; ++d) { e[d] = qsx_real("extent", 0.01, 50); up[d] = lo[d] + e[d]; }
    const TriangleMesh m = MU::MakeMeshBox(lo, up); m.Check(); qsx_assert((m.NumOfTriangles() == 12) & (m.NumOfVertices() == 8), "a cuboid has 12 triangles and 8 vertices"); qsx_assert(closed_conforming(m), "the cuboid is closed: each edge is used once in each direction");
    double face[6] = {0, 0, 0, 0, 0, 0}; bool ok = true;
    for (IndexType i = 0; i < 12; ++i) { const auto t = m.Triangle(i); const PointType c = cross3(sub(pt(t.P2), pt(t.P1)), sub(pt(t.P3), pt(t.P1))); const PointType n = pt(t.Normal); int d = -1; for (int k = 0; k < 3; ++k) if (n[k] == 1.0 || n[k] == -1.0) d = k;
        if (d < 0) { ok = false; continue; } const bool upper = n[d] > 0; for (auto& p : {pt(t.P1), pt(t.P2), pt(t.P3)}) ok = ok & (p[d] == (upper ? up[d] : lo[d]));
        ok = ok & (c[(d + 1) % 3] == 0.0) & (c[(d + 2) % 3] == 0.0) & (c[d] * n[d] > 0) & (n[(d + 1) % 3] == 0.0) & (n[(d + 2) % 3] == 0.0); face[2 * d + upper] += 0.5 * c[d] * n[d]; }
    qsx_assert(ok, "every triangle lies in a face and its stored normal points outwards and matches its orientation");
    for (int k = 0; k < 6; ++k) qsx_assert(near(face[k], e[(k / 2 + 1) % 3] * e[(k / 2 + 2) % 3], 1e-8), "each face is covered exactly");
    const auto bb = MU::BoundingBox(m.View()); qsx_assert(near3(bb.first, lo, 0) & near3(bb.second, up, 0), "bounding box of the cuboid"); qsx_reach("box");
}
static void box_measures() { // one extent free at a time keeps the square roots simple
    const PointType lo{-0.75, 0.5, 2}; PointType e{0.75, 1.25, 0.5}; const IndexType d = qsx_choice("direction", 3); e[d] = qsx_real("extent", 0.01, 20); PointType up = add(lo, e);
    const TriangleMesh m = MU::MakeMeshBox(lo, up); const double V = e[0] * e[1] * e[2], A = 2 * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]); qsx_set_threads(1 + qsx_choice("threads", 4));
    qsx_assert(near(MU::Area(m.View()), A, 1e-8) & near(MU::AreaOMP(m.View()), A, 1e-8), "surface area of the cuboid"); qsx_assert(near(MU::Volume(m.View()), V, 1e-8) & near(MU::VolumeOMP(m.View()), V, 1e-8), "volume of the cuboid");
    for (int k = 0; k < 3; ++k) qsx_assert(near(MU::Volume(m.View(), k), V, 1e-8), "directional volume of the cuboid"); qsx_assert(MU::EstimateQuality(m.View()) < 1e-8, "a closed body has a quality measure of zero"); qsx_reach("measures");
}
// closed bodies anywhere: measures do not depend on position
static void measures() {
    const IndexType k = qsx_arg("mesh", 0); const PointType s = real3("shift", -20, 20); TriangleMesh base, m; make_mesh(base, k, {0, 0, 0}, {1, 1, 1}); const auto vs = base.Vertices();
    for (const auto& v : vs) m.AddVertex(add(v, s)); const auto ti = base.TriangleIndices(); const auto nn = base.Normals(); for (IndexType i = 0; i < ti.size(); ++i) m.AddTriangle(ti[i], nn[i]);
    double A = 0; for (IndexType i = 0; i < ti.size(); ++i) A += 0.5 * std::sqrt(dot3(cross3(sub(vs[ti[i][1]], vs[ti[i][0]]), sub(vs[ti[i][2]], vs[ti[i][0]])), cross3(sub(vs[ti[i][1]], vs[ti[i][0]]), sub(vs[ti[i][2]], vs[ti[i][0]]))));
    const double V = mesh_volume(k); const auto view = m.View(); qsx_set_threads(1 + qsx_choice("threads", 9));
    qsx_assert(near(MU::Area(view), A, 1e-7), "area of a body anywhere"); qsx_assert(near(MU::AreaOMP(view), A, 1e-7), "parallel area, any number of threads");
    qsx_assert(near(MU::Volume(view), V, 1e-6), "volume of a body anywhere"); qsx_assert(near(MU::VolumeOMP(view), V, 1e-6), "parallel volume, any number of threads");
    for (int d = 0; d < 3; ++d) qsx_assert(near(MU::Volume(view, d), V, 1e-6), "directional volume of a body anywhere"); bool threw = false; try { MU::Volume(view, 3); } catch (std::exception&) { threw = true; } qsx_assert(threw, "a direction beyond 2 is rejected");
    qsx_assert(MU::EstimateQuality(view) < 1e-5, "a closed body has a quality measure of zero"); qsx_reach("measures");
}
// a body with a hole (one triangle missing) is not taken for closed
static void open_quality() {
    const IndexType k = qsx_arg("mesh", 1); TriangleMesh m; make_mesh(m, k, {0, 0, 0}, {1, 1, 1}); const IndexType i = qsx_choice("missing", m.NumOfTriangles()); m.RemoveTriangle(i);
    qsx_assert(MU::EstimateQuality(m.View()) > 1e-10, "a body with a missing triangle is not taken for closed"); qsx_reach("open"); }
// bounding box and aspect ratios of two triangles with one symbolic coordinate each
static void bbox() {
    const IndexType d = qsx_choice("direction", 3); PointType P[6] = {{0.1, 0.2, 0.3}, {1.1, -0.3, 0.7}, {0.4, 0.9, -0.6}, {-0.3, 0.5, 0.2}, {2.0, 1.5, 1.2}, {0.7, -0.9, 0.1}}; TriangleMesh m;
    double x[6]; for (int i = 0; i < 6; ++i) { x[i] = i < (int)qsx_arg("n", 4) ? qsx_real("x", -5, 5) : P[i][d]; P[i][d] = x[i]; m.AddVertex(P[i]); } m.AddTriangle({0, 1, 2}, {0, 0, 1}); m.AddTriangle({3, 5, 4}, {0, 0, 1});
    const auto bb = MU::BoundingBox(m.View()); bool low = true, upp = true, lo_hit = false, up_hit = false; for (double v : x) { low = low & (bb.first[d] <= v); upp = upp & (bb.second[d] >= v); lo_hit = lo_hit | (bb.first[d] == v); up_hit = up_hit | (bb.second[d] == v); }
    qsx_assert(low & lo_hit, "lower bound is the smallest coordinate"); qsx_assert(upp & up_hit, "upper bound is the largest coordinate");
    for (int k = 0; k < 3; ++k) if (k != (int)d) { double a = 1e9, b = -1e9; for (auto& p : P) { a = std::min(a, p[k]); b = std::max(b, p[k]); } qsx_assert((bb.first[k] == a) & (bb.second[k] == b), "bounds of the other directions"); } qsx_reach("bbox");
}
// refinement keeps the surface
static void refine() {
    const IndexType k = qsx_arg("mesh", 1); PointType sc{1, 1, 1}; const IndexType f = qsx_arg("stretch", 0); if (f) { static const PointType S[5] = {{2, 1, 0.5}, {1, 3, 1}, {0.3, 0.3, 5}, {4e-6, 4e-6, 4e-6}, {3e5, 2e5, 4e5}}; sc = S[(f - 1) % 5]; }
    TriangleMesh m; make_mesh(m, k, {0, 0, 0}, sc); const IndexType n0 = m.NumOfTriangles(), want = 1 + qsx_choice("wanted", qsx_arg("max", 60)); const double A = MU::Area(m.View()), V = MU::Volume(m.View()); const auto bb = MU::BoundingBox(m.View());
    TriangleMesh r = m; MU::Refine(r, want); r.Check(); qsx_assert(r.NumOfTriangles() >= want && r.NumOfTriangles() >= n0, "at least the requested number of triangles"); if (want <= n0) qsx_assert(r.NumOfTriangles() == n0 && r.NumOfVertices() == m.NumOfVertices(), "a mesh that is fine enough is left alone");
    bool ok = true; PointType N{0, 0, 0};
    for (IndexType i = 0; i < r.NumOfTriangles(); ++i) { const auto t = r.Triangle(i); const PointType c = cross3(sub(pt(t.P2), pt(t.P1)), sub(pt(t.P3), pt(t.P1))), n = pt(t.Normal); const double l = std::sqrt(dot3(c, c)); ok = ok && l > 1e-9 * A / r.NumOfTriangles() && dot3(c, n) > (1 - 1e-9) * l && near(dot3(n, n), 1, 1e-9); N = add(N, c); }
    qsx_assert(ok, "refined triangles keep orientation and normal"); qsx_assert(near3(N, {0, 0, 0}, 1e-9 * A), "the refined surface is closed"); qsx_assert(near(MU::Area(r.View()), A, 1e-9 * A) && near(MU::Volume(r.View()), V, 1e-9 * V), "refinement keeps area and volume");
    for (int d = 0; d < 3; ++d) qsx_assert(near(MU::Volume(r.View(), d), V, 1e-9 * V), "refinement keeps the directional volumes"); const auto b2 = MU::BoundingBox(r.View()); qsx_assert(near3(bb.first, b2.first, 1e-12 * (sc[0] + sc[1] + sc[2])) && near3(bb.second, b2.second, 1e-12 * (sc[0] + sc[1] + sc[2])), "refinement keeps the bounding box"); qsx_reach("refine");
}
static void refine_free() { // a box with a free extent
    PointType up{1, 0.8, 0.9}; const IndexType d = qsx_choice("direction", 3); up[d] = qsx_real("extent", 0.2, 4); TriangleMesh r = MU::MakeMeshBox({0, 0, 0}, up); const IndexType want = 13 + qsx_choice("wanted", 3) * 11; MU::Refine(r, want); r.Check();
    qsx_assert(r.NumOfTriangles() >= want, "at least the requested number of triangles"); PointType N{0, 0, 0}; double a = 0; bool ok = true;
    for (IndexType i = 0; i < r.NumOfTriangles(); ++i) { const auto t = r.Triangle(i); const PointType c = cross3(sub(pt(t.P2), pt(t.P1)), sub(pt(t.P3), pt(t.P1))), n = pt(t.Normal); const double s = dot3(c, n); a += 0.5 * s; ok = ok & (s > 0); N = add(N, c); }
    qsx_assert(ok, "refined triangles keep orientation and normal"); qsx_assert(near3(N, {0, 0, 0}, 1e-9), "the refined surface is closed"); qsx_assert(near(a, 2 * (up[0] * up[1] + up[1] * up[2] + up[0] * up[2]), 1e-8), "refinement keeps the area"); qsx_reach("refine");
}
// append
static void append() {
    TriangleMesh a, b; const IndexType ka = qsx_choice("first", 4), kb = qsx_choice("second", 4); auto mk = [](TriangleMesh& m, IndexType k) { const IndexType nv = k == 0 ? 0 : k + 2; for (IndexType i = 0; i < nv; ++i) m.AddVertex({qsx_real("v", -1, 1), qsx_real("v", -1, 1), double(i)}); for (IndexType t = 0; t + 2 < nv; ++t) m.AddTriangle({t, t + 1, t + 2}, {qsx_real("n", -1, 1), 0.0, double(k)}); };
    mk(a, ka); mk(b, kb); TriangleMesh r = a; MU::Append(r, b); qsx_assert((r.NumOfTriangles() == a.NumOfTriangles() + b.NumOfTriangles()) & (r.NumOfVertices() == a.NumOfVertices() + b.NumOfVertices()), "append adds all triangles and vertices"); r.Check(); bool ok = true;
    for (IndexType i = 0; i < r.NumOfTriangles(); ++i) { const bool first = i < a.NumOfTriangles(); const auto t = r.Triangle(i), q = first ? a.Triangle(i) : b.Triangle(i - a.NumOfTriangles()); ok = ok & near3(pt(t.P1), pt(q.P1), 0) & near3(pt(t.P2), pt(q.P2), 0) & near3(pt(t.P3), pt(q.P3), 0) & near3(pt(t.Normal), pt(q.Normal), 0); }
    qsx_assert(ok, "appended triangles keep their coordinates and normals, the old ones stay in place"); qsx_reach("append");
}
// area, normal, centre, aspect ratio
static const double TR[][9] = {{0, 0, 0, 1, 0, 0, 0, 1, 0}, {0, 0, 0, 3, 0, 4, 0, 2, 0}, {1, 1, 1, 4, 2, 1, 1, 5, 3}, {0, 0, 0, 10, 0.1, 0, 5, 0.2, 0.05}, {0, 0, 0, 0, 0.001, 0, 0, 0, 0.002}, {-3, 2, 1, 1, 1, 1, 2, -4, 5}};
static void triangle() {
    const double* T = TR[qsx_arg("tri", 0)]; PointType p[3] = {{T[0], T[1], T[2]}, {T[3], T[4], T[5]}, {T[6], T[7], T[8]}}; const PointType s = real3("shift", -10, 10); for (auto& q : p) q = add(q, s);
    const int rot = qsx_choice("first vertex", 3), flip = qsx_choice("orientation", 2); PointType a = p[rot], b = p[(rot + 1) % 3], c = p[(rot + 2) % 3]; if (flip) std::swap(b, c);
    const PointType cr = cross3(sub(p[1], p[0]), sub(p[2], p[0])); double l; { PointType e{T[3] - T[0], T[4] - T[1], T[5] - T[2]}, f{T[6] - T[0], T[7] - T[1], T[8] - T[2]}, g = cross3(e, f); l = std::sqrt(dot3(g, g)); const PointType gn = scl((flip ? -1 : 1) / l, g);
        TriangleProxy<WithoutNormals> t{a, b, c}; qsx_assert(near(TU::Area(t), 0.5 * l, 1e-9), "area of a triangle"); const Vector3d n = TU::Normal(t); qsx_assert(near3({n[0], n[1], n[2]}, gn, 1e-6), "the normal is the unit normal of the orientation, whichever vertex comes first");
        const Vector3d ce = TU::Center(t); qsx_assert(near3(ce, scl(1.0 / 3.0, add(a, add(b, c))), 1e-9), "centre of a triangle");
        double L[3]; for (int i = 0; i < 3; ++i) { PointType d{T[3 * ((i + 1) % 3)] - T[3 * i], T[3 * ((i + 1) % 3) + 1] - T[3 * i + 1], T[3 * ((i + 1) % 3) + 2] - T[3 * i + 2]}; L[i] = std::sqrt(dot3(d, d)); }
        const double ar = std::max(L[0], std::max(L[1], L[2])) * (L[0] + L[1] + L[2]) / (4 * std::sqrt(3.0) * 0.5 * l); const double got = TU::AspectRatio(t); qsx_assert(near(got, ar, 1e-6 * ar), "aspect ratio: longest edge times perimeter over area, one for an equilateral triangle"); }
    qsx_reach("triangle");
}
static void triangle_free() { // one vertex anywhere in a plane through the others
    const double x = qsx_real("x", -5, 5), y = qsx_real("y", 0.05, 5); PointType a{0, 0, 0}, b{1, 0, 0}, c{x, y, 0}; const int plane = qsx_choice("plane", 3), sg = qsx_choice("side", 2); if (sg) c[1] = -y; auto turn = [&](PointType q) { return plane == 0 ? q : plane == 1 ? PointType{q[2], q[0], q[1]} : PointType{q[1], q[2], q[0]}; };
    a = turn(a); b = turn(b); c = turn(c); TriangleProxy<WithoutNormals> t{a, b, c}; qsx_assert(near(TU::Area(t), 0.5 * y, 1e-8), "area of any triangle over a fixed edge"); const Vector3d n = TU::Normal(t); const PointType e = turn({0, 0, sg ? -1.0 : 1.0}); qsx_assert(near3(n, e, 1e-7), "normal of any triangle over a fixed edge"); qsx_reach("triangle");
}
// quadrature on triangles
static void tri_rule() {
    const int method = qsx_choice("method", 5), deg[5] = {1, 2, 4, 6, 6}, cnt[5] = {1, 3, 6, 12, 12}; const double* T = TR[qsx_choice("tri", 6)]; PointType p[3] = {{T[0], T[1], T[2]}, {T[3], T[4], T[5]}, {T[6], T[7], T[8]}};
    TriangleProxy<WithoutNormals> t{p[0], p[1], p[2]}; const auto ips = TU::GetIPsGlobal<BoundaryIntegrationPoint>(t, method); qsx_assert(ips.size() == (IndexType)cnt[method], "number of points of the rule");
    const PointType e1 = sub(p[1], p[0]), e2 = sub(p[2], p[0]), g = cross3(e1, e2); const double l2 = dot3(g, g), l = std::sqrt(l2); double W = 0; bool in = true, nrm = true; double q = 0, x = 0; std::vector<std::array<double, 3>> rs;
    for (const auto& ip : ips) { const PointType d = sub({ip[0], ip[1], ip[2]}, p[0]); const double r = dot3(cross3(d, e2), g) / l2, s = dot3(cross3(e1, d), g) / l2; in = in && r > 0 && s > 0 && r + s < 1 && ip.Weight() > 0; nrm = nrm && near3(pt(ip.Normal()), scl(1 / l, g), 1e-12); W += ip.Weight(); rs.push_back({r, s, ip.Weight()}); const PointType back = add(p[0], add(scl(r, e1), scl(s, e2))); in = in && near3(back, {ip[0], ip[1], ip[2]}, 1e-12); }
    qsx_assert(in, "points lie inside the triangle with positive weights"); qsx_assert(nrm, "points carry the normal of the triangle"); qsx_assert(near(W, 0.5 * l, 1e-12 * std::max(1.0, l)), "weights add up to the area");
    auto fact = [](int n) { double r = 1; while (n > 1) r *= n--; return r; };
    for (int i = 0; i <= deg[method]; ++i) for (int j = 0; i + j <= deg[method]; ++j) { const double c = qsx_real("c", -1, 1); double a = 0; for (auto& v : rs) a += v[2] * std::pow(v[0], i) * std::pow(v[1], j); q += c * a; x += c * l * fact(i) * fact(j) / fact(i + j + 2); }
    qsx_assert(near(q, x, 1e-10 * std::max(1.0, l)), "every polynomial of the rule's degree is integrated exactly over any of the triangles"); qsx_reach("rule");
}
// containers: histories of add/remove against a reference list
static void history() {
    TriangleMesh m; IndexType cnt = 0; double R = 0; auto key = [&](const Vector3i& t, double n) { return n * (1 + 10.0 * t[0] + 100.0 * t[1] + 1000.0 * t[2]) + t[0] + 16.0 * t[1] + 256.0 * t[2]; }; const IndexType L = qsx_arg("steps", 5); IndexType nv = 0; for (int i = 0; i < 3; ++i) { m.AddVertex({double(i), 0, 1}); ++nv; }
    for (IndexType s = 0; s < L; ++s) switch (qsx_choice("op", 3)) {
        case 0: { const double x = qsx_real("v", -1, 1); const IndexType id = m.AddVertex({x, double(nv), 0}); qsx_assert(id == nv, "a new vertex gets the next index"); qsx_assert(m.Vertex(id)[0] == x, "a vertex keeps its coordinates"); ++nv; break; }
        case 1: { const double n = qsx_real("n", -1, 1); const Vector3i t{s % nv, (s + 1) % nv, nv - 1}; m.AddTriangle(t, {n, 0, 0}); R += key(t, n); ++cnt; break; }
        case 2: { if (!cnt) break; const IndexType k = qsx_choice("remove", cnt); R -= key(m.TriangleIndices()[k], m.Normal(k)[0]); m.RemoveTriangle(k); --cnt; break; } }
    qsx_assert((m.NumOfTriangles() == cnt) & (m.NumOfVertices() == nv), "counts after any history"); m.Check(); bool ok = true;
    double S = 0; for (IndexType i = 0; i < m.NumOfTriangles(); ++i) S += key(m.TriangleIndices()[i], m.Normal(i)[0]);
    qsx_assert(near(S, R, 1e-9), "exactly the remaining triangles are stored, each with its normal"); 
    const auto view = m.View(); IndexType c = 0; view.VisitEachTriangle<WithNormals>([&](const auto& t) { const auto& i = m.TriangleIndices()[c]; ok = ok & near3(pt(t.P1), m.Vertex(i[0]), 0) & near3(pt(t.P2), m.Vertex(i[1]), 0) & near3(pt(t.P3), m.Vertex(i[2]), 0) & near3(pt(t.Normal), m.Normal(c), 0); ++c; });
    qsx_assert(ok & (c == cnt), "a view visits each triangle once in order with its vertices and normal"); m.Clear(); qsx_assert(m.NumOfTriangles() == 0 && m.NumOfVertices() == 0, "clear empties the mesh"); qsx_reach("history");
}
struct Foreign { std::vector<std::array<double, 9>> t; };
struct FN { IndexType operator()(const Foreign& f) const { return f.t.size(); } }; struct FT { TriangleProxy<WithoutNormals> operator()(const Foreign& f, IndexType i) const { const auto& a = f.t[i]; return {std::span<const double, 3>(a.data(), 3), std::span<const double, 3>(a.data() + 3, 3), std::span<const double, 3>(a.data() + 6, 3)}; } };
// native and foreign views of the same triangles behave the same, for every index list and every early stop
static void views() {
    TriangleMesh m; Foreign f; const IndexType N = 4; for (IndexType i = 0; i < N; ++i) { const double z = qsx_real("z", -1, 1); const PointType a{double(i), 0, z}, b{i + 1.0, 0, z}, c{double(i), 2, z}; m.AddVertex(a); m.AddVertex(b); m.AddVertex(c); m.AddTriangle({3 * i, 3 * i + 1, 3 * i + 2}, {0, 0, 1}); f.t.push_back({a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]}); }
    TriangleMeshView A(m), B(f, FN{}, FT{}); qsx_assert(A.NumOfTriangles() == N && B.NumOfTriangles() == N, "views report the number of triangles");
    std::vector<IndexType> ids; const IndexType len = qsx_choice("length", 4); for (IndexType i = 0; i < len; ++i) ids.push_back(qsx_choice("index", N)); const IndexType stop = qsx_choice("stop", 5); bool ok = true;
    auto walk = [&](const TriangleMeshView& v, bool all) { IndexType k = 0; auto body = [&](const auto& t) { const IndexType i = all ? k : ids[k]; ok = ok & near3(pt(t.P1), m.Vertex(3 * i), 0) & near3(pt(t.P2), m.Vertex(3 * i + 1), 0) & near3(pt(t.P3), m.Vertex(3 * i + 2), 0) & near3(pt(t.Normal), {0, 0, 1}, 1e-9); ++k; return k == stop ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop; };
        if (all) v.VisitEachTriangle<WithNormals>(body); else v.VisitEachTriangle<WithNormals>(ids, body); return k; };
    const IndexType e1 = stop && stop < N ? stop : N, e2 = stop && stop < len ? stop : len; qsx_assert(walk(A, true) == e1 && walk(B, true) == e1, "visiting all triangles, stopping where asked"); qsx_assert(walk(A, false) == e2 && walk(B, false) == e2, "visiting selected triangles, stopping where asked"); qsx_assert(ok, "each visited triangle has the vertices and normal of its index");
    IndexType c = 0; for (const auto& t : B.Triangles<WithNormals>(ids)) { ok = ok & near3(pt(t.P1), m.Vertex(3 * ids[c]), 0) & near3(pt(t.Normal), {0, 0, 1}, 1e-9); ++c; } for (const auto& t : A.Triangles<WithoutNormals>()) { (void)t; ++c; } for (IndexType i = 0; i < N; ++i) ok = ok & near3(pt(B.Triangle(i).P3), m.Vertex(3 * i + 2), 0) & near3(pt(A.Triangle(i).Normal), {0, 0, 1}, 0);
    qsx_assert(ok & (c == len + N), "ranges over a view give the selected triangles"); double s = 0; A.Visit<WithNormals>(ids, [&](auto&& r) { for (const auto& t : r) s += t.P1[0]; }); double w = 0; for (auto i : ids) w += i; qsx_assert(s == w, "Visit hands over the selected triangles"); qsx_reach("views");
}
// consistency check
static void check() {
    TriangleMesh m; const IndexType nv = qsx_choice("vertices", 4); for (IndexType i = 0; i < nv; ++i) m.AddVertex({0, 0, double(i)}); const IndexType nt = qsx_choice("triangles", 3); bool bad = false;
    for (IndexType t = 0; t < nt; ++t) { Vector3i v{qsx_int("v", 0, 5), qsx_int("v", 0, 5), qsx_int("v", 0, 5)}; bad = bad | (v[0] >= nv) | (v[1] >= nv) | (v[2] >= nv); m.AddTriangle(v, {0, 0, 1}); }
    bool threw = false; try { m.Check(); } catch (std::exception&) { threw = true; } qsx_assert(threw == bad, "Check reports exactly the meshes whose triangles name missing vertices"); qsx_reach(threw ? "bad" : "good");
}
// edges on clipping planes
static void edges() {
    ClippedTriangleMesh m; for (IndexType i = 0; i < 4; ++i) m.AddVertex({qsx_real("v", -1, 1), double(i), 0}); m.AddTriangle({0, 1, 2}, {0, 0, 1}); m.AddTriangle({1, 3, 2}, {1, 0, 0}); struct E { IndexType p, a, b, n; }; std::vector<E> ref;
    for (IndexType s = 0; s < qsx_arg("steps", 3); ++s) { E e{qsx_choice("plane", 6), qsx_choice("from", 4), 0, qsx_choice("normal", 2)}; e.b = (e.a + 1 + s) % 4; ref.push_back(e); m.AddEdgeOnPlane(static_cast<SignedAxis>(e.p), e.a, e.b, e.n); } bool ok = true;
    for (IndexType p = 0; p < 6; ++p) { std::vector<E> q; for (auto& e : ref) if (e.p == p) q.push_back(e); const auto ax = static_cast<SignedAxis>(p); ok = ok && m.NumberOfEdges(ax) == q.size(); IndexType k = 0; for (const auto& e : m.Edges(ax)) { if (k >= q.size()) { ok = false; break; } ok = ok & near3(pt(e.mP1), m.Vertices()[q[k].a], 0) & near3(pt(e.mP2), m.Vertices()[q[k].b], 0) & near3(pt(e.mNormal), m.Normal(q[k].n), 0); ++k; } ok = ok && k == q.size(); }
    qsx_assert(ok, "each plane holds exactly its edges, with end points and normal"); qsx_reach("edges");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: makebox(); break; case 1: box_measures(); break; case 2: measures(); break; case 3: open_quality(); break; case 4: bbox(); break; case 5: refine(); break; case 6: refine_free(); break; case 7: append(); break; case 8: triangle(); break; case 9: triangle_free(); break; case 10: tri_rule(); break; case 11: history(); break; case 12: views(); break; case 13: check(); break; case 14: edges(); break; } }
