// Files: STL written and read again, VTK files decoded by an independent reader, the binary buffer, damaged files, dictionaries.
#include "common.h"
#include "meshes.h"
#include <fstream>
#include <sstream>
#include <cstring>
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "queso/io/io_utilities.h"
#include "queso/utilities/mesh_utilities.h"
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>; using F = Grid::ElementFilter; using ENC = IO::EncodingType;
static PointType pt(const auto& p) { return {p[0], p[1], p[2]}; }
static PointType corner(const TriangleMesh& m, IndexType t, int k) { const auto x = m.Triangle<WithoutNormals>(t); return k == 0 ? pt(x.P1) : k == 1 ? pt(x.P2) : pt(x.P3); }
static Vector3i ids(const TriangleMesh& m, IndexType t) { return m.TriangleIndices()[t]; }
static bool rel3(const PointType& a, const PointType& b, double r, double abs) { bool ok = true; for (int d = 0; d < 3; ++d) ok = ok & between(a[d], b[d], b[d], abs + r * (b[d] < 0 ? -b[d] : b[d])); return ok; }
static void body(TriangleMesh& m) { // mesh with free position along some axes
    const IndexType k = qsx_arg("mesh", 0); const double lo = qsx_arg("far", 0) ? 1000 : -4, up = qsx_arg("far", 0) ? 1100 : 4; PointType s{0.5, -0.25, 1}; for (int d = 0; d < 3; ++d) if (qsx_arg("axes", 1) >> d & 1) s[d] = qsx_real("shift", lo, up); make_mesh(m, k, s, {1, 0.5, 0.25}); }
static std::string enc_name(ENC e) { return e == ENC::binary ? "BINARY" : "ASCII"; }
// reads numbers of a VTK file
struct Vtk { std::ifstream f; bool bin; bool ok = true; explicit Vtk(const char* n, ENC e) : f(n, std::ios::in | std::ios::binary), bin(e == ENC::binary) { ok = bool(f); }
    std::string line() { std::string s; std::getline(f, s); return s; }
    void expect(const std::string& s) { const std::string g = line(); ok = ok & (g == s); }
    template <class T> T big() { T v; char b[sizeof(T)]; f.read(b, sizeof(T)); ok = ok & bool(f); char r[sizeof(T)]; for (IndexType i = 0; i < sizeof(T); ++i) std::memcpy(r + i, b + sizeof(T) - 1 - i, 1); std::memcpy(&v, r, sizeof(T)); return v; }
    double real() { if (bin) return big<double>(); double d = 0; f >> d; ok = ok & bool(f); return d; }
    uint64_t num() { if (bin) return big<uint32_t>(); uint64_t d = 0; f >> d; ok = ok & bool(f); return d; }
    void endl() { if (!bin) { ok = ok & (f.get() == '\n'); } }
    bool end() { return f.peek() == std::char_traits<char>::eof(); }
    void head(ENC e) { expect("# vtk DataFile Version 4.1"); expect("vtk output"); expect(enc_name(e)); expect("DATASET UNSTRUCTURED_GRID"); } };
static ENC any_enc() { const IndexType e = qsx_arg("enc", 2); if (e < 2) return e ? ENC::binary : ENC::ascii; return qsx_choice("binary", 2) ? ENC::binary : ENC::ascii; }
static void stl_roundtrip() {
    TriangleMesh m, r; body(m); const ENC e = any_enc(); const IndexType skip = qsx_arg("skip", 0);
    if (skip) { TriangleMesh c; for (IndexType i = 0; i < m.NumOfVertices(); ++i) c.AddVertex(m.Vertex(i)); for (IndexType i = skip; i < m.NumOfTriangles(); ++i) c.AddTriangle(ids(m, i), m.Normal(i)); m = std::move(c); }
    IO::WriteMeshToSTL(m, "mesh.stl", e); r.AddVertex({9, 9, 9}); IO::ReadMeshFromSTL(r, "mesh.stl");
    const double rl = e == ENC::binary ? 1e-7 : 2e-7, ab = e == ENC::binary ? 1e-10 : 1e-6; bool pos = true, nrm = true, idx = true;
    qsx_assert(r.NumOfTriangles() == m.NumOfTriangles(), "an STL file holds every triangle of the mesh"); if (r.NumOfTriangles() != m.NumOfTriangles()) return;
    for (IndexType t = 0; t < m.NumOfTriangles(); ++t) { PointType p[3]; for (int k = 0; k < 3; ++k) { p[k] = corner(r, t, k); pos = pos & rel3(p[k], corner(m, t, k), rl, ab); } const double tn = 1e-3; nrm = nrm & near3(pt(r.Triangle<WithNormals>(t).Normal), pt(m.Triangle<WithNormals>(t).Normal), tn); for (auto v : ids(r, t)) idx = idx & (v < r.NumOfVertices()); }
    qsx_assert(pos, "triangles read back have the written corners, in order"); qsx_assert(nrm, "triangles read back have the right normals"); qsx_assert(idx, "triangles read back use stored vertices");
    if (qsx_arg("merge", 1) && e == ENC::binary) { std::vector<char> used(m.NumOfVertices(), 0); IndexType n = 0; for (IndexType t = 0; t < m.NumOfTriangles(); ++t) for (auto v : ids(m, t)) if (!used[v]) { used[v] = 1; ++n; } qsx_assert(r.NumOfVertices() == n, "shared vertices are stored once"); }
    qsx_reach(e == ENC::binary ? "binary" : "ascii");
}
// a two-triangle binary file from another program: arbitrary header, normals and attributes; cut at any length
static void put(std::ofstream& f, const void* p, IndexType n) { f.write((const char*)p, (long)n); }
static void stl_foreign() {
    const IndexType cut = qsx_arg("cut", 0); float x[2][12]; { const float b[3][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0.5f}}; for (int t = 0; t < 2; ++t) for (int i = 0; i < 12; ++i) x[t][i] = i < 3 ? (float)qsx_real("normal", -1, 1) : b[(i - 3) / 3][(i - 3) % 3] + (t ? 2.f : 0.f); }
    if (!cut) x[1][3] = (float)qsx_real("x", 2.125, 2.5); const uint64_t head = qsx_choice("header", cut ? 1 : 4); char h[80] = {}; const char* H[] = {"Binary STL", "solid made by a tool", "", "COLOR=facet outer loop"}; std::strcpy(h, H[head]); const uint64_t at = cut ? 0 : qsx_choice("attr", 3); const uint16_t A[] = {0, 65535, 2570};
    std::string name = "foreign.stl"; const IndexType total = 84 + 100; const IndexType len = cut ? cut - 1 + qsx_choice("length", qsx_arg("range", 1)) : total; IndexType w = 0;
    { std::ofstream f(name, std::ios::out | std::ios::binary); auto out = [&](const void* p, IndexType n) { if (w + n <= len) put(f, p, n); else if (w < len) put(f, p, len - w); w += n; };
      out(h, 80); const uint32_t n = 2; out(&n, 4); for (int t = 0; t < 2; ++t) { for (int i = 0; i < 12; ++i) out(&x[t][i], 4); out(&A[at], 2); } }
    TriangleMesh m; bool threw = false; try { IO::ReadMeshFromSTL(m, name); } catch (std::exception&) { threw = true; }
    if (len < total) { qsx_assert(threw, "a shortened binary file is refused"); qsx_reach("short"); return; }
    qsx_assert(!threw, "a complete binary file is read"); if (threw) return; qsx_assert(m.NumOfTriangles() == 2, "every triangle is read");
    bool pos = true, nrm = true; for (int t = 0; t < 2; ++t) { PointType p[3]; for (int k = 0; k < 3; ++k) { p[k] = {x[t][3 + 3 * k], x[t][4 + 3 * k], x[t][5 + 3 * k]}; pos = pos & rel3(corner(m, t, k), p[k], 0, 1e-10); } const PointType c = cross3(sub(p[1], p[0]), sub(p[2], p[0])), g = pt(m.Triangle<WithNormals>(t).Normal); nrm = nrm & near3(cross3(c, g), {0, 0, 0}, 1e-5) & (dot3(c, g) > 0) & near(dot3(g, g), 1, 1e-6); }
    qsx_assert(pos, "corners of a foreign file are kept"); qsx_assert(nrm, "normals come from the corners, not from the file"); qsx_reach("foreign");
}
// text files of other programs: layout varies, numbers are free
static void stl_text() {
    const IndexType n = 1 + qsx_choice("triangles", 2); const uint64_t ind = qsx_choice("indent", 3), sci = qsx_choice("format", 3), defect = qsx_arg("defect", 0) ? 1 + qsx_choice("defect", 5) : 0; const std::string in = ind == 0 ? "" : ind == 1 ? "  " : "\t";
    std::vector<PointType> P; for (IndexType t = 0; t < n; ++t) { P.push_back({2.0 * t, 0, 0}); P.push_back({qsx_real("x", 0.5, 1) + 2.0 * t, 0, 0}); P.push_back({2.0 * t, qsx_real("y", 0.5, 1), 0.25}); }
    { std::ofstream f("text.stl"); if (sci == 0) f << std::fixed << std::setprecision(9); else if (sci == 1) f << std::scientific << std::setprecision(9); else f << std::setprecision(10);
      f << (ind == 1 ? "solid a part\n" : "solid\n"); for (IndexType t = 0; t < n; ++t) { f << in << "facet normal 0 0 1\n" << in << in; if (!(defect == 1 && t == n - 1)) f << "outer loop\n"; for (int k = 0; k < 3; ++k) { if (defect == 2 && t == n - 1 && k == 2) break; const auto& p = P[3 * t + k]; f << in << in << "vertex " << p[0] << ' ' << p[1] << (ind ? "  " : " ") << p[2] << '\n'; } if (defect == 2 && t == n - 1) break; if (defect == 5 && t == n - 1) break; if (!(defect == 3 && t == n - 1)) f << in << "endloop\n"; if (!(defect == 4 && t == n - 1)) f << in << "endfacet\n"; } if (defect != 2 && defect != 5) f << "endsolid\n"; }
    TriangleMesh m; bool threw = false; try { IO::ReadMeshFromSTL(m, "text.stl"); } catch (std::exception&) { threw = true; }
    if (defect) { qsx_assert(threw, "a malformed text file is refused"); qsx_reach("malformed"); return; }
    qsx_assert(!threw && m.NumOfTriangles() == n, "every facet of a text file is read"); if (threw || m.NumOfTriangles() != n) return;
    bool pos = true; for (IndexType t = 0; t < n; ++t) for (int k = 0; k < 3; ++k) pos = pos & rel3(corner(m, t, k), P[3 * t + k], 1e-6, 1e-6); qsx_assert(pos, "corners of a text file are kept"); qsx_reach("text");
}
static void vtk_mesh() {
    TriangleMesh m; body(m); const ENC e = any_enc(); IO::WriteMeshToVTK(m, "mesh.vtk", e); const IndexType n = m.NumOfTriangles(); Vtk v("mesh.vtk", e); v.head(e); v.expect("POINTS " + std::to_string(3 * n) + " double"); bool pos = true, idx = true;
    for (IndexType t = 0; t < n; ++t) for (int k = 0; k < 3; ++k) { PointType p; for (auto& x : p) x = v.real(); v.endl(); pos = pos & rel3(p, corner(m, t, k), 1e-14, 1e-14); }
    v.expect("CELLS " + std::to_string(n) + " " + std::to_string(4 * n)); for (IndexType t = 0; t < n; ++t) { idx = idx & (v.num() == 3); for (int k = 0; k < 3; ++k) idx = idx & (v.num() == 3 * t + k); v.endl(); }
    v.expect("CELL_TYPES " + std::to_string(n)); for (IndexType t = 0; t < n; ++t) { idx = idx & (v.num() == 5); v.endl(); }
    qsx_assert(v.ok & v.end(), "the VTK file of a mesh is well formed"); qsx_assert(pos, "the VTK file of a mesh holds every corner"); qsx_assert(idx, "the VTK file of a mesh connects the corners of each triangle"); qsx_reach(e == ENC::binary ? "binary" : "ascii");
}
struct UB { static constexpr F Builds = F::untrimmed; std::optional<Grid::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { return Grid::UntrimmedElementType(id, b); } };
struct TB { static constexpr F Builds = F::trimmed; std::optional<Grid::TrimmedElementType> Build(IndexType id, const ElementBounds& b) { ClippedTriangleMesh m{}; return Grid::TrimmedElementType(id, b, TrimmedDomain(std::move(m), PointType{0, 0, 0}, PointType{1, 1, 1}, nullptr, 0)); } };
static void vtk_grid() {
    const double a = qsx_real("low", -5, 5), w = qsx_real("width", 0.5, 3); auto s = make_settings(GridType::b_spline_grid, {a, 0, -1}, {a + w, 2, 3}, {0, 0, 0}, {1, 1, 1}, {3, 2, 1}); GridIndexer gi(*s); Grid g(*s); UB ub; TB tb; const ENC e = any_enc(); std::vector<std::vector<IntegrationPoint>> pts(6); std::vector<int> kind(6, 0);
    for (IndexType i = 0; i < 6; ++i) { const ElementBounds b{gi.GetBoundingBoxXYZFromIndex(i), gi.GetBoundingBoxUVWFromIndex(i)}; kind[i] = i < 3 ? qsx_choice("kind", 3) : (int)(i % 3); if (kind[i] == 1) g.MakeElement(ub, i + 1, b); else if (kind[i] == 2) g.MakeElement(tb, i + 1, b); const IndexType np = kind[i] ? (i + 1) % 3 : 0; for (IndexType k = 0; k < np; ++k) { PointType p = b.parametric.lower; p[0] += 0.1 * (k + 1); p[1] += 0.02 * (i + 1); pts[i].push_back({p, qsx_real("weight", 0, 2)}); } }
    for (auto& x : g.GetElements<F::untrimmed>()) x.GetIntegrationPoints() = pts[x.GetId() - 1]; for (auto& x : g.GetElements<F::trimmed>()) x.GetIntegrationPoints() = pts[x.GetId() - 1]; g.LockElements();
    std::vector<IndexType> ids; for (auto v : g.GetElementViews()) ids.push_back(v.GetId() - 1); const IndexType n = ids.size(); bool pos = true, idx = true; const double T = 1e-13;
    IO::WriteElementsToVTK(g, "elements.vtk", e); { Vtk v("elements.vtk", e); v.head(e); v.expect("POINTS " + std::to_string(8 * n) + " double"); static const int C[8] = {0, 1, 3, 2, 4, 5, 7, 6};
        for (IndexType i : ids) { const auto b = gi.GetBoundingBoxXYZFromIndex(i); for (int k = 0; k < 8; ++k) { PointType p; for (auto& x : p) x = v.real(); v.endl(); PointType q; for (int d = 0; d < 3; ++d) q[d] = C[k] >> d & 1 ? b.upper[d] : b.lower[d]; pos = pos & rel3(p, q, T, T); } }
        v.expect("CELLS " + std::to_string(n) + " " + std::to_string(9 * n)); for (IndexType i = 0; i < n; ++i) { idx = idx & (v.num() == 8); for (IndexType k = 0; k < 8; ++k) idx = idx & (v.num() == 8 * i + k); v.endl(); } v.expect("CELL_TYPES " + std::to_string(n)); for (IndexType i = 0; i < n; ++i) { idx = idx & (v.num() == 12); v.endl(); }
        qsx_assert(v.ok & v.end(), "the VTK file of the elements is well formed"); qsx_assert(pos, "the VTK file of the elements holds the corners of every active cell as a hexahedron"); qsx_assert(idx, "the VTK file of the elements connects the corners of each cell"); }
    IndexType np = 0; for (IndexType i : ids) np += pts[i].size(); pos = idx = true; bool wt = true;
    IO::WritePointsToVTK(g, "points.vtk", e); { Vtk v("points.vtk", e); v.head(e); v.expect("POINTS " + std::to_string(np) + " double"); const PointType B[2] = {{a, 0, -1}, {a + w, 2, 3}};
        for (IndexType i : ids) for (auto& q : pts[i]) { PointType p; for (auto& x : p) x = v.real(); v.endl(); PointType r; for (int d = 0; d < 3; ++d) r[d] = B[0][d] + (B[1][d] - B[0][d]) * q[d]; pos = pos & rel3(p, r, T, T); }
        v.expect("CELLS " + std::to_string(np) + " " + std::to_string(2 * np)); for (IndexType i = 0; i < np; ++i) { idx = idx & (v.num() == 1); idx = idx & (v.num() == i); v.endl(); } v.expect("CELL_TYPES " + std::to_string(np)); for (IndexType i = 0; i < np; ++i) { idx = idx & (v.num() == 1); v.endl(); }
        v.expect("POINT_DATA " + std::to_string(np)); v.expect("SCALARS Weights double 1"); v.expect("LOOKUP_TABLE default"); const double vol = w * 8; for (IndexType i : ids) for (auto& q : pts[i]) { const double x = v.real(); v.endl(); wt = wt & near(x, q.Weight() * vol, 1e-12); }
        qsx_assert(v.ok & v.end(), "the VTK file of the points is well formed"); qsx_assert(pos, "the VTK file of the points holds every point in global space"); qsx_assert(idx, "the VTK file of the points has one vertex cell per point"); qsx_assert(wt, "the VTK file of the points holds every weight in global space"); }
    qsx_reach(e == ENC::binary ? "binary" : "ascii");
}
// the buffered writer: any buffer size, any sequence of values
static void buffer() {
    const IndexType size = 1 + qsx_choice("buffer", qsx_arg("bmax", 12)), steps = qsx_arg("steps", 4); const bool big = qsx_choice("big", 2); std::vector<uint8_t> want;
    auto bytes = [&](const void* p, IndexType n, bool swap) { const uint8_t* q = (const uint8_t*)p; for (IndexType i = 0; i < n; ++i) want.push_back(q[swap ? n - 1 - i : i]); };
    { std::ofstream f("buffer.bin", std::ios::out | std::ios::binary); { BinaryBufferWriter w(f, big ? BinaryBufferWriter::EndianType::big : BinaryBufferWriter::EndianType::little, size);
      for (IndexType i = 0; i < steps; ++i) switch (qsx_choice("what", 6)) {
        case 0: { const uint8_t v = (uint8_t)(17 + i); w.WriteValue(v); bytes(&v, 1, big); break; } case 1: { const uint16_t v = (uint16_t)(0x0102 + i); w.WriteValue(v); bytes(&v, 2, big); break; }
        case 2: { const uint32_t v = 0x01020304u + (uint32_t)i; w.WriteValue(v); bytes(&v, 4, big); break; } case 3: { const uint64_t v = 0x0102030405060708ull + i; w.WriteValue(v); bytes(&v, 8, big); break; }
        case 4: { const char r[] = "some raw text of 29 characters"; w.WriteRaw(r, 11 + i); bytes(r, 11 + i, false); break; } default: { const uint16_t r[3] = {1, 515, (uint16_t)(i + 7)}; w.WriteArray(r); for (auto v : r) bytes(&v, 2, big); break; } } } }
    std::ifstream f("buffer.bin", std::ios::in | std::ios::binary); bool ok = bool(f); for (auto b : want) ok = ok & (f.get() == (int)b); qsx_assert(ok & (f.peek() == std::char_traits<char>::eof()), "the buffered writer writes every byte once, in order"); qsx_reach("buffer");
}
static void condition_stl() {
    using El = Grid::ElementViewType; using Cond = Condition<El>; auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"), ci = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionInfo"); cs->SetValue(ConditionSettings::condition_id, IndexType(3)); Cond c(*cs, *ci); const ENC e = any_enc(); const IndexType ns = qsx_choice("segments", 4); std::vector<PointType> P;
    for (IndexType k = 0; k < ns; ++k) { ClippedTriangleMesh m{}; const IndexType nt = qsx_choice("triangles", 3); auto& t = m; for (IndexType i = 0; i < nt; ++i) { const double x = 8.0 * P.size() + qsx_real("x", -2, 2); const PointType a{x, 0, (double)k}, b{x + 1, 0, (double)k}, d{x, 1, (double)k + 0.5 * i}; TriangleMesh* tm = &t.Mesh(); const IndexType o = tm->NumOfVertices(); tm->AddVertex(a); tm->AddVertex(b); tm->AddVertex(d); add_tri(*tm, o, o + 1, o + 2); P.push_back(a); P.push_back(b); P.push_back(d); } c.AddSegment(Cond::ConditionSegmentType(k, std::move(m))); }
    IO::WriteConditionToSTL(c, "condition.stl", e); TriangleMesh r; IO::ReadMeshFromSTL(r, "condition.stl"); qsx_assert(r.NumOfTriangles() == P.size() / 3, "the file of a condition holds every triangle of every segment"); if (r.NumOfTriangles() != P.size() / 3) return; bool pos = true; for (IndexType t = 0; t < r.NumOfTriangles(); ++t) for (int k = 0; k < 3; ++k) pos = pos & rel3(corner(r, t, k), P[3 * t + k], 2e-7, e == ENC::binary ? 1e-10 : 1e-6); qsx_assert(pos, "the triangles of a condition's file are those of its segments"); qsx_reach(e == ENC::binary ? "binary" : "ascii");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: stl_roundtrip(); break; case 1: stl_foreign(); break; case 2: stl_text(); break; case 3: vtk_mesh(); break; case 4: vtk_grid(); break; case 5: buffer(); break; case 6: condition_stl(); break; } }
