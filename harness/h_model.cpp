// The whole model: volume, conditions and model info against exact bodies.
#include "voxel.h"
#include <fstream>
#include <sstream>
#include <cstring>
#include "queso/embedded_model.h"
#include "queso/io/io_utilities.h"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
extern "C" void omp_set_num_threads(int);
using Model = EmbeddedModel; using Grid = Model::BackgroundGridType; using F = Grid::ElementFilter;
static double g_ratio = 0, g_alpha; static const double RES = 1e-10;
static Unique<SettingsT> settings(const PointType& up, const Vector3i& n) {
    const IndexType p = qsx_arg("order", 1); const bool fe = qsx_arg("fe", 0); auto s = make_settings(fe ? GridType::hexahedral_fe_grid : GridType::b_spline_grid, {0, 0, 0}, up, fe ? PointType{-1, -1, -1} : PointType{0, 0, 0}, fe ? PointType{1, 1, 1} : PointType{1, 2, 1}, n, {p, p, p}); auto& g = (*s)[MainSettings::general_settings];
    g.SetValue(GeneralSettings::input_filename, std::string("body.stl")); g.SetValue(GeneralSettings::output_directory_name, std::string(".")); g.SetValue(GeneralSettings::echo_level, IndexType(0)); g.SetValue(GeneralSettings::write_output_to_file, qsx_arg("mode", 0) == 2);
    auto& t = (*s)[MainSettings::trimmed_quadrature_rule_settings]; t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, IndexType(qsx_arg("mintri", 0))); t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, RES);
    if (g_ratio == 0) g_ratio = qsx_arg("ratio", 1) ? qsx_real("ratio", 1e-9, 0.999) : 1e-3; t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, g_ratio); if (qsx_arg("alpha", 0)) { g_alpha = qsx_real("alpha", 1e-6, 1); t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, g_alpha); } else g_alpha = 0;
    static const IntegrationMethod M[] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2, IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2}; (*s)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, M[qsx_arg("method", 0)]); return s; }
static Voxels body(const PointType& up) { // fixed places of a body, in eighths
    Voxels v = voxels(qsx_arg("body", 0)); const uint64_t ax = qsx_choice("axis", 3), at = qsx_choice("place", qsx_arg("places", 4)); const double w = 0.25 * qsx_arg("width4", 5); for (int d = 0; d < 3; ++d) for (int i = 0; i <= v.n[d]; ++i) v.x[d].push_back((d == (int)ax ? 0.125 * at : 0.375) + w * i); return v; }
static Vector3i shape() { return {qsx_arg("nx", 2), qsx_arg("ny", 2), qsx_arg("nz", 1)}; }
static PointType cell(const Vector3i& n, IndexType i) { return {(double)(i % n[0]), (double)(i / n[0] % n[1]), (double)(i / n[0] / n[1])}; }
static std::vector<int> check_volume(Model& m, const Voxels& v, const Vector3i& n, double tol) {
    auto& info = m.GetModelInfo(); const IndexType N = n[0] * n[1] * n[2], p = qsx_arg("order", 1); const bool ggq = qsx_arg("method", 0) >= 3; std::vector<int> kind(N, 0); std::vector<double> sum(N, 0.0); IndexType q[3] = {0, 0, 0}, c[3] = {0, 0, 0}; bool once = true, in = true; 
    auto take = [&](auto& e, int k) { const IndexType i = e.GetId() - 1; once = once & (i < N); if (i >= N) return; once = once & (kind[i] == 0); kind[i] = k; double s = 0; for (auto& x : e.GetIntegrationPoints()) { s += x.Weight(); ++q[k]; } sum[i] = s * e.DetJ(); };
    for (auto& e : m.GetElements<F::untrimmed>()) take(e, 1); for (auto& e : m.GetElements<F::trimmed>()) take(e, 2); qsx_assert(once, "every cell is represented at most once");
    const auto& r_g = IntegrationPointFactory1D::GetGauss(p, IntegrationMethod::gauss);
    for (auto& e : m.GetElements<F::trimmed>()) { const IndexType i = e.GetId() - 1; const PointType a = cell(n, i); double out = 0; bool ok = true;
        if (qsx_arg("alpha", 0)) { // the fictitious part of a cut cell
            for (auto& x : r_g) for (auto& y : r_g) for (auto& z : r_g) if (!v.inside(add(a, {x[0], y[0], z[0]}))) out += x[1] * y[1] * z[1]; sum[i] -= g_alpha * out; ok = ok & (sum[i] >= -1e-9); qsx_reach("fictitious"); }
        else for (const auto& x : e.template GetIntegrationPoints<CoordinateSpace::global>()) { ok = ok & v.inside({x[0], x[1], x[2]}) & (x.Weight() > 0); }
        for (const auto& x : e.template GetIntegrationPoints<CoordinateSpace::global>()) for (int d = 0; d < 3; ++d) ok = ok & between(x[d], a[d], a[d] + 1, 1e-9); in = in & ok; }
    qsx_assert(in, "points of cut cells lie in the body's part of the cell and have positive weights");
    bool act = true, vol = true; for (IndexType i = 0; i < N; ++i) { const PointType a = cell(n, i), b = add(a, {1, 1, 1}); const double part = v.volume_in(a, b); const bool cut = v.cuts(a, b, 0); ++c[kind[i]]; act = act & (kind[i] == 0 ? part <= g_ratio + 1e-9 : kind[i] == 1 ? !cut & (part >= 1 - 1e-9) : cut & (part >= g_ratio - 1e-9)); vol = vol & (kind[i] == 0 || (ggq && kind[i] == 1) || near(sum[i], part, tol)); }
    qsx_assert(act, "a cell is active, and cut or full, exactly as the body fills it"); qsx_assert(vol, "the points of a cell represent the body's volume in it");
    auto& bg = info[MainInfo::background_grid_info]; bg.CheckRequired(); qsx_assert((bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_active_elements) == c[1] + c[2]) & (bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_trimmed_elements) == c[2]) & (bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_full_elements) == c[1]) & (bg.GetRequiredValue<IndexType>(BackgroundGridInfo::num_inactive_elements) == c[0]), "the model info counts the cells");
    auto& qi = info[MainInfo::quadrature_info]; qi.CheckRequired(); const double V = v.volume(); double T = 0; for (auto& e : m.GetElements<F::untrimmed>()) for (auto& x : e.GetIntegrationPoints()) T += x.Weight() * e.DetJ(); for (auto& e : m.GetElements<F::trimmed>()) for (auto& x : e.GetIntegrationPoints()) T += x.Weight() * e.DetJ();
    qsx_assert((qi.GetRequiredValue<IndexType>(QuadratureInfo::tot_num_points) == q[1] + q[2]) & near(qi.GetRequiredValue<double>(QuadratureInfo::represented_volume), T, 1e-9) & near(qi.GetRequiredValue<double>(QuadratureInfo::percentage_of_geometry_volume), 100 * T / V, 1e-7), "the model info sums up points and volume");
    qsx_assert(near(qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_full_element) * c[1], q[1], 1e-9) & near(qi.GetRequiredValue<double>(QuadratureInfo::num_of_points_per_trimmed_element) * c[2], q[2], 1e-9), "the model info averages points per cell");
    auto& gi = info[MainInfo::embedded_geometry_info]; gi.CheckRequired(); qsx_assert(near(gi.GetRequiredValue<double>(EmbeddedGeometryInfo::volume), V, 1e-9) & gi.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed), "the model info describes the geometry"); qsx_reach("volume"); if (c[2]) qsx_reach("cut"); if (c[1]) qsx_reach("full"); if (c[0]) qsx_reach("empty"); return kind; }
static void volume() { const Vector3i n = shape(); const PointType up{(double)n[0], (double)n[1], (double)n[2]}; const Voxels v = body(up); TriangleMesh mesh; v.mesh(mesh, 2); omp_set_num_threads((int)qsx_arg("threads", 1)); auto m = Model::Create(settings(up, n)); m.CreateVolume(mesh.View()); check_volume(m, v, n, 1e-8); }
// condition surfaces: 0 rectangle z=const, 1 rectangle x=const, 2 slanted triangle, 3 box, 4 two separate triangles, 5 octahedron
static std::vector<std::array<PointType, 3>> surface(IndexType kind) {
    std::vector<std::array<PointType, 3>> T; auto quad = [&](PointType a, PointType b, PointType c, PointType d) { T.push_back({a, b, c}); T.push_back({a, c, d}); };
    switch (kind) { case 0: quad({0.1, 0.2, 0.5}, {1.3, 0.2, 0.5}, {1.3, 0.9, 0.5}, {0.1, 0.9, 0.5}); break; case 1: quad({0.25, 0.1, 0.1}, {0.25, 1.1, 0.1}, {0.25, 1.1, 0.8}, {0.25, 0.1, 0.8}); break; case 2: T.push_back({PointType{1.125, 0.25, 1.375}, {1.125, 1.25, 0.375}, {0.125, 0.75, 1.375}}); break;
        case 3: { const PointType a{0.1, 0.2, 0.1}, b{0.9, 1.3, 0.7}; auto P = [&](int i) { return PointType{i & 1 ? b[0] : a[0], i & 2 ? b[1] : a[1], i & 4 ? b[2] : a[2]}; }; quad(P(0), P(2), P(3), P(1)); quad(P(4), P(5), P(7), P(6)); quad(P(0), P(1), P(5), P(4)); quad(P(2), P(6), P(7), P(3)); quad(P(0), P(4), P(6), P(2)); quad(P(1), P(3), P(7), P(5)); break; }
        case 4: T.push_back({PointType{0.1, 0.1, 0.3}, {0.6, 0.1, 0.3}, {0.1, 0.6, 0.3}}); T.push_back({PointType{1.2, 1.1, 0.1}, {1.2, 1.6, 0.1}, {1.2, 1.1, 0.9}}); break; default: break; } return T; }
static PointType pt(const auto& p) { return {p[0], p[1], p[2]}; }
static double area2(const PointType& a, const PointType& b, const PointType& c, const PointType& unit) { return dot3(cross3(sub(b, a), sub(c, a)), unit); }
static void condition() {
    const Vector3i n = shape(); const IndexType N = n[0] * n[1] * n[2]; const PointType up{(double)n[0], (double)n[1], (double)n[2]}; const Voxels v = body(up); TriangleMesh mesh; v.mesh(mesh, 2); omp_set_num_threads((int)qsx_arg("threads", 1)); auto m = Model::Create(settings(up, n)); m.CreateVolume(mesh.View());
    std::vector<int> kind(N, 0); for (auto& e : m.GetElements<F::untrimmed>()) kind[e.GetId() - 1] = 1; for (auto& e : m.GetElements<F::trimmed>()) kind[e.GetId() - 1] = 2;
    const auto S = surface(qsx_arg("surface", 0)); PointType t{0.0625, 0.0625, 0.0625}; const IndexType ax = qsx_arg("along", 0); t[ax] = qsx_real("shift", 0.001 * qsx_arg("lo", 0), 0.001 * qsx_arg("hi", 1000)); if (qsx_arg("neg", 0)) t[ax] = t[ax] - 1.0;
    for (auto& T : S) for (auto& p : T) for (int i = 0; i <= (int)n[ax]; ++i) qsx_assume((p[ax] + t[ax] - i >= 1e-9) | (i - p[ax] - t[ax] >= 1e-9)); // not in the tolerance of a grid plane
    TriangleMesh sm; double whole = 0; std::vector<PointType> unit; for (auto& T : S) { const PointType nr = cross3(sub(T[1], T[0]), sub(T[2], T[0])); const double l = std::sqrt(dot3(nr, nr)); unit.push_back(scl(1 / l, nr)); whole += l / 2; const IndexType k = sm.NumOfVertices(); for (auto& p : T) sm.AddVertex(add(p, t)); sm.AddTriangle({k, k + 1, k + 2}, unit.back()); }
    auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); cs->SetValue(ConditionSettings::condition_id, IndexType(7)); cs->SetValue(ConditionSettings::input_filename, std::string("c.stl")); cs->CheckRequired();
    m.CreateCondition(sm.View(), *cs); auto& C = m.GetConditions(); qsx_assert(C.size() == 1, "one condition per call"); auto& c = *C.begin();
    double sum = 0, active = 0; bool in = true, keep = true; std::vector<int> used(N, 0); PointType vec{0, 0, 0}, ref{0, 0, 0};
    for (auto& seg : c.GetSegments()) { const auto& sm2 = seg.GetTriangleMesh(); double a = 0; const auto& el = seg.GetParentElement(); qsx_assert(seg.IsInActiveElement() == el.has_value(), "a segment knows whether it is active"); std::vector<char> fits(N, 1); qsx_assert(sm2.NumOfTriangles() > 0, "segments are not empty");
        std::vector<bool> ok(N, true); for (IndexType i = 0; i < sm2.NumOfTriangles(); ++i) { const auto T = sm2.Triangle<WithNormals>(i); const PointType P[3] = {pt(T.P1), pt(T.P2), pt(T.P3)}; const PointType w = cross3(sub(P[1], P[0]), sub(P[2], P[0])); const PointType nn = pt(T.Normal); bool known = false; for (auto& u : unit) known = known | near3(nn, u, 1e-9); keep = keep & known & (dot3(w, nn) >= -1e-9); a = a + dot3(w, nn) / 2; vec = add(vec, w); (void)fits; }
        sum = sum + a; bool found = false; for (IndexType i = 0; i < N; ++i) { if (el.has_value() ? i != el->GetId() - 1 : kind[i] != 0) continue; const PointType lo = cell(n, i); bool b = true; for (IndexType k = 0; k < sm2.NumOfVertices(); ++k) { const auto q = sm2.Vertex(k); for (int d = 0; d < 3; ++d) b = b & between(q[d], lo[d], lo[d] + 1, 1e-9); } found = found | b; }
        in = in & found; if (el.has_value()) { const IndexType i = el->GetId() - 1; qsx_assert(i < N && kind[i] == (el->IsTrimmed() ? 2 : 1) && !used[i], "a segment belongs to one active cell of the model"); used[i] = 1; active = active + a; qsx_reach("active"); } else qsx_reach("inactive"); }
    qsx_assert(in, "every segment lies in its cell, and in an inactive one if it has no parent"); qsx_assert(keep, "segments keep the orientation of the surface");
    // exact area inside the grid and inside each active cell, for surfaces parallel to the axes
    double exact = 0, exact_active = 0; const bool rect = qsx_arg("surface", 0) <= 1 || qsx_arg("surface", 0) == 3;
    if (rect) { for (IndexType q = 0; q < S.size(); q += 2) { PointType a = S[q][0], b = S[q][0]; for (int k = 0; k < 2; ++k) for (auto& p : S[q + k]) for (int d = 0; d < 3; ++d) { a[d] = std::min(a[d], p[d]); b[d] = std::max(b[d], p[d]); } a = add(a, t); b = add(b, t);
            for (IndexType i = 0; i < N; ++i) { const PointType lo = cell(n, i); double x = 1; for (int d = 0; d < 3; ++d) { const double l = std::max(a[d], lo[d]), h = std::min(b[d], lo[d] + 1); if (std::fabs(unit[q][d]) > 0.5) { if (!(l <= h)) x = 0; } else x = x * std::max(h - l, 0.0); } exact = exact + x; if (kind[i]) exact_active = exact_active + x; } }
        qsx_assert(near(sum, exact, 1e-8), "the segments cover the surface within the grid once"); qsx_assert(near(active, exact_active, 1e-8), "the active segments cover the surface within active cells once"); }
    else if (qsx_arg("inside", 0)) qsx_assert(near(sum, whole, 1e-8), "the segments cover the surface within the grid once");
    const auto& ci = c.GetInfo(); ci.CheckRequired(); qsx_assert((ci.GetRequiredValue<IndexType>(ConditionInfo::condition_id) == 7) & near(ci.GetRequiredValue<double>(ConditionInfo::surf_area), whole, 1e-9) & (qsx_arg("surface", 0) == 2 || near(ci.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain) * whole, 100 * active, 1e-6)), "the condition info reports the area and its active share"); qsx_assert(m.GetModelInfo().GetList(MainInfo::conditions_infos_list).size() == 1 && &ci == m.GetModelInfo().GetList(MainInfo::conditions_infos_list).back().get(), "the condition info belongs to the model info"); qsx_reach("condition"); }
// everything from files: the same model as from meshes in memory, and all files are written
static std::string slurp(const char* name) { std::ifstream f(name, std::ios::in | std::ios::binary); if (!f.is_open()) return ""; std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool same_points(const auto& a, const auto& b) { auto p = a.GetIntegrationPoints(), q = b.GetIntegrationPoints(); bool r = p.size() == q.size(); for (IndexType i = 0; r && i < p.size(); ++i) { for (int d = 0; d < 3; ++d) r = r & near(p[i][d], q[i][d], 1e-9); r = r & near(p[i].Weight(), q[i].Weight(), 1e-9); } return r; }
template <F K> static bool same(Model& a, Model& b) { auto x = a.GetElements<K>(), y = b.GetElements<K>(); bool r = x.size() == y.size(); for (IndexType i = 0; r && i < x.size(); ++i) r = r & (x[i].GetId() == y[i].GetId()) & same_points(x[i], y[i]); return r; }
static void files() {
    const Vector3i n = shape(); const PointType up{(double)n[0], (double)n[1], (double)n[2]}; const Voxels v = body(up); TriangleMesh mesh; v.mesh(mesh, 2); IO::WriteMeshToSTL(mesh.View(), "body.stl", IO::EncodingType::binary);
    auto st = settings(up, n); auto ref = settings(up, n); const IndexType nc = qsx_choice("conditions", 3); std::vector<TriangleMesh> cm(2); std::vector<Unique<SettingsT>> keep; IndexType tris = 0;
    for (IndexType c = 0; c < nc; ++c) { const std::string name = "cond" + std::to_string(c) + ".stl"; for (auto& T : surface(c ? 2 : 0)) { const IndexType k = cm[c].NumOfVertices(); for (auto& p : T) cm[c].AddVertex(add(p, {0.0625, 0.0625, 0.0625})); cm[c].AddTriangle({k, k + 1, k + 2}, {0, 0, 1}); } IO::WriteMeshToSTL(cm[c].View(), name, IO::EncodingType::binary);
        auto make = [&] { auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); cs->SetValue(ConditionSettings::condition_id, IndexType(5 - c)); cs->SetValue(ConditionSettings::input_filename, name); return cs; }; st->GetList(MainSettings::conditions_settings_list).push_back(make()); keep.push_back(make()); keep.back()->CheckRequired(); }
    (void)tris; auto a = Model::Create(std::move(st)); a.CreateAllFromSettings(); auto b = Model::Create(std::move(ref)); b.CreateVolume(mesh.View()); for (IndexType c = 0; c < nc; ++c) b.CreateCondition(cm[c].View(), *keep[c]);
    qsx_assert(same<F::untrimmed>(a, b) & same<F::trimmed>(a, b), "the model made from files is the model made from the meshes"); auto &ca = a.GetConditions(), &cb = b.GetConditions(); bool ok = ca.size() == nc && cb.size() == nc; auto y = cb.begin(); IndexType c = 0; if (ok) for (auto& x : ca) { x.GetInfo().CheckRequired(); y->GetInfo().CheckRequired(); ok = ok & (x.NumberOfSegments() == y->NumberOfSegments()) & (x.GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id) == 5 - c) & (x.GetInfo().GetRequiredValue<IndexType>(ConditionInfo::condition_id) == 5 - c) & near(x.GetInfo().GetRequiredValue<double>(ConditionInfo::surf_area), y->GetInfo().GetRequiredValue<double>(ConditionInfo::surf_area), 1e-6) & near(x.GetInfo().GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain), y->GetInfo().GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain), 1e-4); ++y; ++c; } qsx_assert(ok, "every condition of the settings is created, in order, from its file");
    IndexType el = 0, pts = 0; for (auto& e : a.GetElements<F::untrimmed>()) { ++el; pts += e.GetIntegrationPoints().size(); } for (auto& e : a.GetElements<F::trimmed>()) { ++el; pts += e.GetIntegrationPoints().size(); }
    const std::string f = slurp("./elements.vtk"), g = slurp("./integration_points.vtk"), j = slurp("./model_info.json"); qsx_assert(f.find("POINTS " + std::to_string(8 * el) + " ") != std::string::npos && g.find("POINTS " + std::to_string(pts) + " ") != std::string::npos, "cells and integration points are written"); qsx_assert(j.size() > 2 && j[0] == '{' && j.find("\"num_active_elements\" : " + std::to_string(el)) != std::string::npos && j.find("\"tot_num_points\" : " + std::to_string(pts)) != std::string::npos, "the model info is written");
    c = 0; for (auto& x : ca) { uint32_t k = 0; for (auto& s : x.GetSegments()) k += s.GetTriangleMesh().NumOfTriangles(); const std::string t = slurp(("./condition_id_" + std::to_string(5 - c++) + ".stl").c_str()); uint32_t w = 0; if (t.size() >= 84) std::memcpy(&w, t.data() + 80, 4); qsx_assert(t.size() == 84 + 50 * k && w == k, "every condition is written under its id"); } qsx_reach("files"); }
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: volume(); break; case 1: condition(); break; case 2: files(); break; } }
