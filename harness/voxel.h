// Bodies made of axis-aligned voxels between free coordinate lines: any topology (steps, holes, cavities, several parts), exact membership by comparisons.
#pragma once
#include "meshes.h"
struct Voxels { int n[3]; std::vector<char> full; std::vector<double> x[3];
    bool at(int i, int j, int k) const { return i >= 0 && j >= 0 && k >= 0 && i < n[0] && j < n[1] && k < n[2] && full[i + n[0] * (j + n[1] * k)]; }
    struct Face { int d, c[3]; bool up; };
    std::vector<Face> faces() const { std::vector<Face> F; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) if (at(i, j, k)) for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) { int c[3] = {i, j, k}; c[d] += s ? 1 : -1; if (!at(c[0], c[1], c[2])) F.push_back({d, {i, j, k}, s == 1}); } return F; }
    void rect(const Face& f, PointType& lo, PointType& up) const { for (int d = 0; d < 3; ++d) { lo[d] = x[d][f.c[d]]; up[d] = x[d][f.c[d] + 1]; } if (f.up) lo[f.d] = up[f.d]; else up[f.d] = lo[f.d]; }
    void mesh(TriangleMesh& m, int diag = 0) const { // vertices shared between faces
        std::vector<IndexType> id((n[0] + 1) * (n[1] + 1) * (n[2] + 1), IndexType(-1)); int q = 0;
        for (auto& f : faces()) { IndexType v[4]; const int e = (f.d + 1) % 3, g = (f.d + 2) % 3; for (int a = 0; a < 4; ++a) { int c[3] = {f.c[0], f.c[1], f.c[2]}; c[f.d] += f.up; c[e] += a == 1 || a == 2; c[g] += a >= 2; IndexType& i = id[c[0] + (n[0] + 1) * (c[1] + (n[1] + 1) * c[2])]; if (i == IndexType(-1)) i = m.AddVertex({x[0][c[0]], x[1][c[1]], x[2][c[2]]}); v[a] = i; }
            PointType nrm{0, 0, 0}; nrm[f.d] = f.up ? 1 : -1; const int r = diag == 2 ? q++ % 2 : diag; IndexType w[4]; for (int a = 0; a < 4; ++a) w[a] = v[(a + r) % 4]; if (!f.up) std::swap(w[1], w[3]); m.AddTriangle({w[0], w[1], w[2]}, nrm); m.AddTriangle({w[0], w[2], w[3]}, nrm); } }
    double volume() const { double s = 0; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) if (at(i, j, k)) s += (x[0][i + 1] - x[0][i]) * (x[1][j + 1] - x[1][j]) * (x[2][k + 1] - x[2][k]); return s; }
    double volume_in(const PointType& a, const PointType& b) const { double s = 0; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) if (at(i, j, k)) { const int c[3] = {i, j, k}; double p = 1; for (int d = 0; d < 3; ++d) { const double l = std::max(a[d], x[d][c[d]]), u = std::min(b[d], x[d][c[d] + 1]); p *= std::max(u - l, 0.0); } s += p; } return s; }
    bool inside(const PointType& p) const { bool in = false; for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) if (at(i, j, k)) in = in | ((p[0] >= x[0][i]) & (p[0] < x[0][i + 1]) & (p[1] >= x[1][j]) & (p[1] < x[1][j + 1]) & (p[2] >= x[2][k]) & (p[2] < x[2][k + 1])); return in; } // half-open: right away from the surface
    // does the surface meet the open box [a,b] shrunk by tol (grown if negative)?
    bool cuts(const PointType& a, const PointType& b, double tol) const { bool r = false; for (auto& f : faces()) { PointType lo, up; rect(f, lo, up); bool t = true; for (int d = 0; d < 3; ++d) t = t & (lo[d] < b[d] - tol) & (up[d] > a[d] + tol); r = r | t; } return r; } };
// 0 box, 1 L, 2 box with a cavity, 3 U, 4 two boxes, 5 ring, 6 plate with a pin, 7 staircase, 8 comb
static inline Voxels voxels(IndexType kind) {
    static const struct { int n[3]; const char* s; } B[] = {{{1, 1, 1}, "#"}, {{2, 2, 1}, "###."}, {{3, 3, 3}, "#############.#############"}, {{3, 2, 1}, "####.#"}, {{3, 1, 1}, "#.#"}, {{3, 3, 1}, "####.####"}, {{3, 3, 2}, "#########....#...."}, {{3, 3, 1}, "#####.#.."}, {{5, 2, 1}, "######.#.#"}};
    Voxels v; if (kind >= 1000) { for (int d = 0; d < 3; ++d) v.n[d] = 3; for (int i = 0; i < 27; ++i) v.full.push_back((kind - 1000) >> i & 1); return v; } // any 3x3x3 pattern
    for (int d = 0; d < 3; ++d) v.n[d] = B[kind].n[d]; for (const char* c = B[kind].s; *c; ++c) v.full.push_back(*c == '#'); return v; }
