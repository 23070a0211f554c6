// Grid indexing: bijection, stepping (6 directions, sub-partitions), end flags, cell boxes.
#include "common.h"
using Dir = GridIndexer::Direction; using Info = GridIndexer::IndexInfo;
static const Dir DIRS[6] = {Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward};
// order in which a walk in the given axis visits the cells of a partition: fastest, middle, slowest axis
static const int ORD[3][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}};

static Vector3i dims() {
    Vector3i n; uint64_t nmax = qsx_arg("nmax", 4);
    for (int i = 0; i < 3; ++i) n[i] = 1 + qsx_choice("n", nmax);
    if (qsx_arg("big", 0)) { static const Vector3i B[4] = {{16, 7, 3}, {1, 64, 5}, {2, 1, 100}, {129, 1, 1}}; n = B[qsx_choice("dims", 4)]; }
    return n;
}
static bool inrange(const Vector3i& m, const Vector3i& lo, const Vector3i& hi) { bool ok = true; for (int i = 0; i < 3; ++i) ok = ok & (m[i] >= lo[i]) & (m[i] <= hi[i]); return ok; }

static void bijection() {
    const Vector3i n = dims(); const uint64_t N = n[0] * n[1] * n[2];
    auto s = make_settings(GridType::b_spline_grid, {0, 0, 0}, {1, 1, 1}, {0, 0, 0}, {1, 1, 1}, n); GridIndexer g(*s);
    qsx_assert(g.NumberOfElements() == N, "NumberOfElements is the product of the grid dimensions");
    const uint64_t idx = qsx_int("index", 0, N - 1);
    const Vector3i m = g.GetMatrixIndicesFromVectorIndex(idx);
    qsx_assert((m[0] < n[0]) & (m[1] < n[1]) & (m[2] < n[2]), "matrix indices are in range");
    qsx_assert(g.GetVectorIndexFromMatrixIndices(m[0], m[1], m[2]) == idx, "index -> (i,j,k) -> index");
    qsx_assert(g.GetVectorIndexFromMatrixIndices(m) == idx, "index -> (i,j,k) -> index (vector overload)");
    const uint64_t i = qsx_int("i", 0, n[0] - 1), j = qsx_int("j", 0, n[1] - 1), k = qsx_int("k", 0, n[2] - 1);
    const uint64_t v = g.GetVectorIndexFromMatrixIndices(i, j, k);
    qsx_assert(v < N, "linear index is in range");
    const Vector3i b = g.GetMatrixIndicesFromVectorIndex(v);
    qsx_assert((b[0] == i) & (b[1] == j) & (b[2] == k), "(i,j,k) -> index -> (i,j,k)");
    qsx_reach("bijection");
}
// one step from an arbitrary cell of an arbitrary partition
static void step() {
    const Vector3i n = dims(); const uint64_t N = n[0] * n[1] * n[2];
    auto s = make_settings(GridType::b_spline_grid, {0, 0, 0}, {1, 1, 1}, {0, 0, 0}, {1, 1, 1}, n); GridIndexer g(*s);
    const bool part = qsx_choice("with_partition", 2);
    PartitionBoxType P{{0, 0, 0}, {n[0] - 1, n[1] - 1, n[2] - 1}};
    if (part) for (int i = 0; i < 3; ++i) { P.first[i] = qsx_int("lo", 0, n[i] - 1); P.second[i] = qsx_int("hi", 0, n[i] - 1); qsx_assume(P.first[i] <= P.second[i]); }
    Vector3i m; for (int i = 0; i < 3; ++i) { m[i] = qsx_int("m", 0, n[i] - 1); qsx_assume((m[i] >= P.first[i]) & (m[i] <= P.second[i])); }
    const uint64_t idx = g.GetVectorIndexFromMatrixIndices(m);
    const uint64_t d = qsx_choice("direction", 6); const Dir D = DIRS[d]; const int ax = d / 2; const bool fwd = d % 2 == 0;
    auto r = part ? g.GetNextIndex(idx, D, P) : g.GetNextIndex(idx, D);
    const bool end = part ? g.IsEnd(idx, D, P) : g.IsEnd(idx, D);
    const uint64_t nx = r.first; const Info info = r.second;
    qsx_assert(end == (m[ax] == (fwd ? P.second[ax] : P.first[ax])), "IsEnd holds exactly on the partition's last layer in that direction");
    qsx_assert(end == (info != Info::middle), "GetNextIndex reports an end exactly where IsEnd does");
    qsx_assert(nx < N, "next index is in range");
    const Vector3i q = g.GetMatrixIndicesFromVectorIndex(nx);
    qsx_assert(inrange(q, P.first, P.second), "next cell stays in the partition");
    if (info == Info::middle) {
        qsx_reach("middle"); bool ok = q[ax] == (fwd ? m[ax] + 1 : m[ax] - 1); for (int i = 0; i < 3; ++i) if (i != ax) ok = ok & (q[i] == m[i]);
        qsx_assert(ok, "a middle step goes to the face neighbour in that direction");
        auto back = part ? g.GetNextIndex(nx, GridIndexer::ReverseDirection(D), P) : g.GetNextIndex(nx, GridIndexer::ReverseDirection(D));
        qsx_assert((back.first == idx) & (back.second == Info::middle), "a middle step is undone by the reverse direction");
    } else if (info == Info::global_end) {
        qsx_reach("global_end"); bool last = true; for (int i = 0; i < 3; ++i) last = last & (m[i] == (fwd ? P.second[i] : P.first[i]));
        qsx_assert(last & (nx == idx), "global_end only at the partition's last corner, and the index stays");
    } else {
        qsx_reach("local_end"); bool corner = true; for (int i = 0; i < 3; ++i) corner = corner & (m[i] == (fwd ? P.second[i] : P.first[i]));
        qsx_assert(!corner, "the last corner reports global_end");
        auto back = part ? g.GetNextIndex(nx, GridIndexer::ReverseDirection(D), P) : g.GetNextIndex(nx, GridIndexer::ReverseDirection(D));
        qsx_assert((back.first == idx) & (back.second == Info::local_end), "a wrapping step is undone by the reverse direction");
    }
    // ranking of the walk: position in the axis' nested order; every step but the last advances it by exactly one
    uint64_t e[3]; for (int i = 0; i < 3; ++i) e[i] = P.second[i] - P.first[i] + 1;
    auto rank = [&](const Vector3i& c) { uint64_t o[3]; for (int i = 0; i < 3; ++i) { const int a = ORD[ax][i]; o[i] = fwd ? c[a] - P.first[a] : P.second[a] - c[a]; } const uint64_t w = e[ORD[ax][0]], h = e[ORD[ax][1]]; return o[0] + w * (o[1] + h * o[2]); };
    if (!part) { const uint64_t r0 = rank(m), r1 = rank(q); qsx_assert((info == Info::global_end) | (r1 == r0 + 1), "successive steps visit every cell once (rank grows by one)"); }
}
static void directions() {
    uint64_t d = qsx_choice("direction", 6); Dir R = GridIndexer::ReverseDirection(DIRS[d]);
    qsx_assert((uint64_t)R / 2 == d / 2 && R != DIRS[d], "ReverseDirection flips the sign of the same axis");
    qsx_assert(GridIndexer::ReverseDirection(R) == DIRS[d], "ReverseDirection is an involution");
    qsx_assert(GridIndexer::GetDirections()[d] == DIRS[d], "GetDirections lists each direction once, in enum order");
}
static void boxes() {
    const Vector3i n = dims(); const bool fe = qsx_choice("fe_grid", 2);
    PointType lx = real3("lx", -100, 100), ux, lu = real3("lu", -100, 100), uu;
    for (int i = 0; i < 3; ++i) { ux[i] = lx[i] + qsx_real("ex", 0.001, 100); uu[i] = lu[i] + qsx_real("eu", 0.001, 100); }
    auto s = make_settings(fe ? GridType::hexahedral_fe_grid : GridType::b_spline_grid, lx, ux, lu, uu, n); GridIndexer g(*s);
    const uint64_t i = qsx_choice("i", n[0]), j = qsx_choice("j", n[1]), k = qsx_choice("k", n[2]); const Vector3i m{i, j, k};
    const uint64_t v = g.GetVectorIndexFromMatrixIndices(m); const double T = 1e-9;
    auto same = [&](const BoundingBoxType& a, const BoundingBoxType& b) { return near3(a.lower, b.lower, T) & near3(a.upper, b.upper, T); };
    auto B = g.GetBoundingBoxXYZFromIndex(v), U = g.GetBoundingBoxUVWFromIndex(v);
    qsx_assert(same(B, g.GetBoundingBoxXYZFromIndex(i, j, k)) & same(B, g.GetBoundingBoxXYZFromIndex(m)), "xyz box overloads agree");
    qsx_assert(same(U, g.GetBoundingBoxUVWFromIndex(i, j, k)) & same(U, g.GetBoundingBoxUVWFromIndex(m)), "uvw box overloads agree");
    auto cell = [&](const BoundingBoxType& X, const PointType& lo, const PointType& hi, const char* l1) {
        bool ok = true; for (int a = 0; a < 3; ++a) { const double h = (hi[a] - lo[a]) / (double)n[a]; ok = ok & near(X.lower[a], lo[a] + h * (double)m[a], T) & near(X.upper[a], lo[a] + h * (double)(m[a] + 1), T) & (X.upper[a] > X.lower[a]); }
        qsx_assert(ok, l1);
    };
    cell(B, lx, ux, "xyz box of cell (i,j,k) is the (i,j,k)-th of the equal subdivisions");
    if (fe) { qsx_reach("fe"); qsx_assert(same(U, MakeBox(lu, uu)), "hexahedral_fe_grid: every cell's parametric box is the whole uvw box"); }
    else { qsx_reach("bspline"); cell(U, lu, uu, "b_spline_grid: uvw box of cell (i,j,k) is the (i,j,k)-th of the equal subdivisions"); }
    // neighbours share their face, and the outer faces are the grid's bounds
    for (int a = 0; a < 3; ++a) {
        if (m[a] + 1 < n[a]) { Vector3i q = m; q[a] += 1; auto Q = g.GetBoundingBoxXYZFromIndex(q); qsx_assert(near(Q.lower[a], B.upper[a], T), "adjacent cells share their face"); qsx_reach("adjacent"); }
        else qsx_assert(near(B.upper[a], ux[a], T), "the last cell ends at the grid's upper bound");
        if (m[a] == 0) qsx_assert(near(B.lower[a], lx[a], T), "the first cell starts at the grid's lower bound");
    }
}
extern "C" void qsx_main() {
    switch (qsx_arg("mode", 0)) { case 0: bijection(); break; case 1: step(); break; case 2: boxes(); break; case 3: directions(); break; }
}
