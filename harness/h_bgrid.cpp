// Background-grid container (lookup, views, traversal) and generalised-Gauss assembly over blocks of full cells.
#include "common.h"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/quadrature/multiple_elements.hpp"
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>; using F = Grid::ElementFilter; using Dir = GridIndexer::Direction;
static const Dir DIRS[6] = {Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward};
struct UB { static constexpr F Builds = F::untrimmed; bool give = true; std::optional<Grid::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { if (!give) return std::nullopt; return Grid::UntrimmedElementType(id, b); } };
struct TB { static constexpr F Builds = F::trimmed; std::optional<Grid::TrimmedElementType> Build(IndexType id, const ElementBounds& b) { ClippedTriangleMesh m{}; return Grid::TrimmedElementType(id, b, TrimmedDomain(std::move(m), PointType{0, 0, 0}, PointType{1, 1, 1}, nullptr, 0)); } };
static const Vector3i SH[11] = {{2, 2, 1}, {3, 2, 1}, {2, 2, 2}, {4, 1, 1}, {1, 3, 2}, {4, 2, 1}, {3, 3, 1}, {2, 3, 2}, {12, 1, 1}, {1, 24, 1}, {1, 2, 7}};
static Vector3i shape() { return SH[qsx_arg("shape", 0)]; }
static void container() {
    const Vector3i n = shape(); const IndexType N = n[0] * n[1] * n[2];
    auto s = make_settings(GridType::b_spline_grid, {0, 0, 0}, {1, 2, 3}, {0, 0, 0}, {1, 1, 1}, n); GridIndexer gi(*s); Grid g(*s);
    std::vector<int> kind(N + 2, 0); UB ub; TB tb; std::vector<IndexType> order; const uint64_t ord = qsx_choice("order", 3);
    for (IndexType i = 1; i <= N; ++i) order.push_back(ord == 0 ? i : ord == 1 ? N + 1 - i : (i * 2 <= N ? i * 2 : (i - N / 2) * 2 - 1));
    if (ord != 1) g.ReserveElements(N, N);
    IndexType nu = 0, nt = 0; std::vector<double> mark(N + 2, 0.0);
    for (IndexType id : order) {
        kind[id] = qsx_choice("kind", 3); ElementBounds b{gi.GetBoundingBoxXYZFromIndex(id - 1), gi.GetBoundingBoxUVWFromIndex(id - 1)}; mark[id] = qsx_real("mark", -5, -1); b.global.lower[2] = 2 * mark[id];
        if (kind[id] == 1) { qsx_assert(g.MakeElement(ub, id, b), "adding a full element succeeds"); nu++; } else if (kind[id] == 2) { qsx_assert(g.MakeElement(tb, id, b), "adding a trimmed element succeeds"); nt++; }
        else { ub.give = false; qsx_assert(!g.MakeElement(ub, id, b), "an empty build adds nothing"); ub.give = true; }
    }
    // no id twice
    for (IndexType again = 1; again <= N; ++again) if (kind[again]) { bool threw = false; try { const ElementBounds b{gi.GetBoundingBoxXYZFromIndex(again - 1), gi.GetBoundingBoxUVWFromIndex(again - 1)}; g.MakeElement(ub, again, b); } catch (...) { threw = true; } qsx_assert(threw, "an id cannot be added twice"); qsx_reach("twice"); }
    g.LockElements();
    qsx_assert((g.NumberOfUntrimmedElements() == nu) & (g.NumberOfTrimmedElements() == nt) & (g.NumberOfActiveElements() == nu + nt), "element counts");
    IndexType cu = 0, ct = 0, ca = 0; uint64_t mu = 0, mt = 0, ma = 0; bool ok = true;
    for (auto v : g.GetElementViews<F::untrimmed>()) { cu++; mu |= 1ull << v.GetId(); ok = ok & (kind[v.GetId()] == 1) & !v.IsTrimmed(); }
    for (auto v : g.GetElementViews<F::trimmed>()) { ct++; mt |= 1ull << v.GetId(); ok = ok & (kind[v.GetId()] == 2) & v.IsTrimmed(); }
    for (auto v : g.GetElementViews()) { ca++; ma |= 1ull << v.GetId(); ok = ok & (v.IsTrimmed() == (kind[v.GetId()] == 2)); }
    for (auto& e : g.GetElements<F::untrimmed>()) ok = ok & (kind[e.GetId()] == 1); for (auto& e : g.GetElements<F::trimmed>()) ok = ok & (kind[e.GetId()] == 2);
    qsx_assert(ok & (cu == nu) & (ct == nt) & (ca == nu + nt) & (ma == (mu | mt)) & ((IndexType)__builtin_popcountll(ma) == ca), "iterating visits each element once, with the right kind");
    // lookup of any id, stored or not
    const IndexType q = qsx_choice("query", N + 2);
    auto a = g.GetElementView(q), u = g.GetElementView<F::untrimmed>(q), t = g.GetElementView<F::trimmed>(q); auto* pu = g.pGetElement<F::untrimmed>(q); auto* pt = g.pGetElement<F::trimmed>(q);
    const int k = q <= N ? kind[q] : 0;
    qsx_assert((a.has_value() == (k != 0)) & (u.has_value() == (k == 1)) & (t.has_value() == (k == 2)) & ((pu != nullptr) == (k == 1)) & ((pt != nullptr) == (k == 2)), "an id is found exactly when it was stored, by the filters of its kind");
    if (k) { auto b = gi.GetBoundingBoxXYZFromIndex(q - 1); b.lower[2] = 2 * mark[q]; qsx_assert((a->GetId() == q) & near3(a->GetCellBounds<CoordinateSpace::global>().lower, b.lower, 0) & near3(a->GetCellBounds<CoordinateSpace::global>().upper, b.upper, 0), "the element found has the id and the box it was stored with");
        if (k == 1) qsx_assert(pu->GetId() == q, "pointer lookup returns the element"); else qsx_assert(pt->GetId() == q, "pointer lookup returns the element"); }
    // one step from any cell
    if (q >= 1 && q <= N) for (int d = 0; d < 6; ++d) { auto r = gi.GetNextIndex(q - 1, DIRS[d]); const IndexType nx = r.first + 1; const bool last = r.second != GridIndexer::IndexInfo::middle;
        auto va = g.GetNextElementView(q, DIRS[d]); auto vu = g.GetNextElement<F::untrimmed>(q, DIRS[d]); auto vt = g.GetNextElement<F::trimmed>(q, DIRS[d]); auto vv = g.GetNextElementView<F::untrimmed>(q, DIRS[d]);
        qsx_assert((va.next_id == nx) & (vu.next_id == nx) & (vt.next_id == nx) & (vv.next_id == nx), "a step leads to the neighbouring cell of the grid");
        qsx_assert((va.element.has_value() == (kind[nx] != 0)) & ((vu.p_element != nullptr) == (kind[nx] == 1)) & ((vt.p_element != nullptr) == (kind[nx] == 2)) & (vv.element.has_value() == (kind[nx] == 1)), "a step returns the neighbour iff it is stored and passes the filter");
        qsx_assert((va.is_end == (last | (kind[nx] == 0))) & (vu.is_end == (last | (kind[nx] != 1))) & (vt.is_end == (last | (kind[nx] != 2))), "the end flag is set at row ends and where no element follows");
        qsx_assert(g.IsEnd(q, DIRS[d]) == last, "IsEnd depends on the grid only"); qsx_reach("step"); }
}
// any arrangement of full cells: the assembled points integrate every spline of the target space exactly over their union
static void ggq() {
    const Vector3i n = shape(); const IndexType N = n[0] * n[1] * n[2]; const int m = qsx_arg("method", 0), p = qsx_arg("p", 2); static const IntegrationMethodType GM[3] = {IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};
    const PointType L{0.7, 0.3, 2.3}; PointType lo{0, -0.1, 0.2}, hi{lo[0] + L[0] * n[0], lo[1] + L[1] * n[1], lo[2] + L[2] * n[2]};
    auto s = make_settings(GridType::b_spline_grid, {0, 0, 0}, {1, 1, 1}, lo, hi, n, {(IndexType)p, (IndexType)p, (IndexType)p}); GridIndexer gi(*s); Grid g(*s); UB ub; TB tb;
    std::vector<char> full(N + 1, 0); IndexType cnt = 0;
    const bool rev = qsx_choice("reverse", 2);
    for (IndexType k = 1; k <= N; ++k) { const IndexType id = rev ? N + 1 - k : k; full[id] = qsx_arg("all", 0) ? 1 : qsx_choice("full", 2); cnt += full[id]; const ElementBounds b{gi.GetBoundingBoxXYZFromIndex(id - 1), gi.GetBoundingBoxUVWFromIndex(id - 1)}; if (full[id]) g.MakeElement(ub, id, b); else if (qsx_arg("trimmed", 0)) g.MakeElement(tb, id, b); }
    g.LockElements(); qsx_assume(cnt > 0);
    QuadratureMultipleElements<Grid::UntrimmedElementType>::AssembleIPs(g, {(IndexType)p, (IndexType)p, (IndexType)p}, GM[m]);
    bool in = true, pos = true; double W = 0;
    for (auto& e : g.GetElements<F::untrimmed>()) { const auto& b = e.GetCellBounds<CoordinateSpace::parametric>(); for (auto& q : e.GetIntegrationPoints<CoordinateSpace::parametric>()) { W += q.Weight(); pos = pos & (q.Weight() > 0); for (int i = 0; i < 3; ++i) in = in & between(q[i], b.lower[i], b.upper[i], 1e-8); } }
    qsx_assert(in, "each point is stored in the cell that contains it"); qsx_assert(pos, "weights are positive"); qsx_assert(near(W, cnt * L[0] * L[1] * L[2], 1e-9 * N), "the weights add up to the volume of the full cells");
    // splines of one direction with arbitrary coefficients
    const int d = qsx_choice("dir", 3), deg = 2 * p - m, cont = p - 2; double q = 0, x = 0;
    auto add = [&](auto f, auto F) { const double c = qsx_real("c", -1, 1); double a = 0, b = 0; for (auto& e : g.GetElements<F::untrimmed>()) { for (auto& t : e.GetIntegrationPoints<CoordinateSpace::parametric>()) a += t.Weight() * f((t[d] - lo[d]) / L[d]); const double i0 = std::round((e.GetCellBounds<CoordinateSpace::parametric>().lower[d] - lo[d]) / L[d]); b += L[0] * L[1] * L[2] * (F(i0 + 1) - F(i0)); } q = q + c * a; x = x + c * b; };
    auto pw = [](double v, int k) { double r = 1; while (k-- > 0) r *= v; return r; };
    const double S = n[d]; for (int k = 0; k <= deg; ++k) add([&](double v) { return pw(v / S, k); }, [&](double v) { return S * pw(v / S, k + 1) / (k + 1); });
    for (int j = 1; j < (int)n[d]; ++j) for (int i = cont + 1; i <= deg; ++i) add([&](double v) { return v > j ? pw((v - j) / S, i) : 0.0; }, [&](double v) { return v > j ? S * pw((v - j) / S, i + 1) / (i + 1) : 0.0; });
    qsx_assert(near(q, x, 1e-8), "every spline of the target space is integrated exactly over the full cells"); qsx_reach("ggq");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: container(); break; case 1: ggq(); break; } }
