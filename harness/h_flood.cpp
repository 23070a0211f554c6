// Classification of all grid cells by flood fill against the exact position of every cell relative to the body.
#include "voxel.h"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/flood_fill.h"
extern "C" void omp_set_num_threads(int);
static void classify() {
    const IndexType body = qsx_arg("body", 0), axis = qsx_arg("axis", 0), aligned = qsx_arg("aligned", 0); const Vector3i N{qsx_arg("nx", 3), qsx_arg("ny", 3), qsx_arg("nz", 3)}; Voxels v = voxels(body);
    // cells are unit cubes times a scale, from the origin
    const double h = qsx_arg("scale", 0) == 0 ? 1.0 : qsx_arg("scale", 0) == 1 ? 1e-3 : 250.0; const double w = 0.25 * qsx_arg("width4", 5), off = 0.125 * qsx_arg("off8", 3) - qsx_arg("minus", 0); const IndexType lo8 = qsx_arg("lo8", 0), hi8 = qsx_arg("hi8", 8); const bool exact = qsx_choice("exact", 2); const double t = exact ? 0.125 * (lo8 + qsx_choice("step", hi8 - lo8 + 1)) : qsx_real("shift", 0.125 * lo8, 0.125 * hi8);
    for (int d = 0; d < 3; ++d) for (int i = 0; i <= v.n[d]; ++i) { double c = off + w * i; if (aligned >> d & 1) c = std::floor(c + 0.5); if (d == (int)axis) { if (qsx_arg("free", 0) == 0) c = t + w * i; else c = i == (int)qsx_arg("free", 0) ? t : c; } v.x[d].push_back(h * c); }
    for (int d = 0; d < 3; ++d) for (int i = 0; i < v.n[d]; ++i) qsx_assume(v.x[d][i + 1] - v.x[d][i] >= 0.05 * h);
    if (!exact) for (double x : v.x[axis]) for (IndexType k = 0; k <= N[axis]; ++k) qsx_assume((x - h * k >= 1e-9 * h) | (h * k - x >= 1e-9 * h)); // or exactly on a grid plane
    TriangleMesh m; v.mesh(m, qsx_arg("diag", 2)); auto s = make_settings(GridType::b_spline_grid, {0, 0, 0}, {h * N[0], h * N[1], h * N[2]}, {0, 0, 0}, {1, 1, 1}, N);
    omp_set_num_threads((int)(qsx_arg("threads", 0) ? qsx_arg("threads", 0) : 1 + qsx_choice("threads", qsx_arg("maxthreads", 4))));
    const double tol = h < 1 ? 1e-10 : 1e-9 * h; BRepOperator op(m); auto st = op.pGetElementClassifications(*s); qsx_assert(st->size() == N[0] * N[1] * N[2], "every cell has a state"); GridIndexer g(*s);
    for (IndexType i = 0; i < st->size(); ++i) { const auto b = g.GetBoundingBoxXYZFromIndex(i); const IntersectionState q = (*st)[i]; const bool must = v.cuts(b.lower, b.upper, tol), can = v.cuts(b.lower, b.upper, -tol), in = v.inside({0.5 * (b.lower[0] + b.upper[0]), 0.5 * (b.lower[1] + b.upper[1]), 0.5 * (b.lower[2] + b.upper[2])});
        qsx_assert(q == IntersectionState::trimmed ? can : !must, "a cell is cut exactly when the surface passes through it"); if (q != IntersectionState::trimmed) qsx_assert(must | (in == (q == IntersectionState::inside)), "an uncut cell is inside exactly when it lies in the body"); 
        qsx_reach(q == IntersectionState::trimmed ? "trimmed" : q == IntersectionState::inside ? "inside" : "outside"); }
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: classify(); break; } }
