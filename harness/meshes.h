// Small closed bodies with outward orientation; mesh_inside() describes the same bodies by inequalities.
#pragma once
#include "common.h"
#include "queso/containers/triangle_mesh.hpp"
static inline void add_tri(TriangleMesh& m, IndexType a, IndexType b, IndexType c) {
    const auto v = m.Vertices(); const PointType p{v[a][0], v[a][1], v[a][2]}, q{v[b][0], v[b][1], v[b][2]}, r{v[c][0], v[c][1], v[c][2]};
    PointType n = cross3(sub(q, p), sub(r, p)); const double l = std::sqrt(dot3(n, n)); m.AddTriangle({a, b, c}, {n[0] / l, n[1] / l, n[2] / l});
}
static inline void add_quad(TriangleMesh& m, IndexType a, IndexType b, IndexType c, IndexType d) { add_tri(m, a, b, c); add_tri(m, a, c, d); }
static inline void add_box(TriangleMesh& m, PointType lo, PointType up, bool outward = true) {
    const IndexType o = m.NumOfVertices(); for (int i = 0; i < 8; ++i) m.AddVertex({i & 1 ? up[0] : lo[0], i & 2 ? up[1] : lo[1], i & 4 ? up[2] : lo[2]});
    const IndexType Q[6][4] = {{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}};
    for (auto& q : Q) if (outward) add_quad(m, o + q[0], o + q[1], o + q[2], o + q[3]); else add_quad(m, o + q[3], o + q[2], o + q[1], o + q[0]);
}
static inline void add_prism(TriangleMesh& m, PointType a, PointType b, PointType c, PointType h) { // (a,b,c) seen clockwise along h
    const IndexType o = m.NumOfVertices(); for (auto p : {a, b, c}) m.AddVertex(p); for (auto p : {a, b, c}) m.AddVertex(add(p, h));
    add_tri(m, o, o + 2, o + 1); add_tri(m, o + 3, o + 4, o + 5); add_quad(m, o, o + 1, o + 4, o + 3); add_quad(m, o + 1, o + 2, o + 5, o + 4); add_quad(m, o + 2, o, o + 3, o + 5);
}
// 0 tetrahedron, 1 box, 2 box with a cubic hole, 3 slanted prism, 4 two separate boxes, 5 L-shaped body, 6 octahedron
static inline void make_mesh(TriangleMesh& m, IndexType kind, PointType s, PointType k) {
    auto P = [&](double x, double y, double z) { return PointType{s[0] + k[0] * x, s[1] + k[1] * y, s[2] + k[2] * z}; };
    switch (kind) {
    case 0: m.AddVertex(P(0, 0, 0)); m.AddVertex(P(1, 0, 0)); m.AddVertex(P(0, 1, 0)); m.AddVertex(P(0, 0, 1)); add_tri(m, 0, 2, 1); add_tri(m, 0, 1, 3); add_tri(m, 0, 3, 2); add_tri(m, 1, 2, 3); break;
    case 1: add_box(m, P(0, 0, 0), P(1, 1, 1)); break;
    case 2: add_box(m, P(0, 0, 0), P(1, 1, 1)); add_box(m, P(0.25, 0.25, 0.25), P(0.75, 0.75, 0.75), false); break;
    case 3: add_prism(m, P(0, 0, 0), P(1, 0, 0), P(0.25, 1, 0), sub(P(0.25, 0.125, 1), P(0, 0, 0))); break;
    case 4: add_box(m, P(0, 0, 0), P(0.375, 1, 1)); add_box(m, P(0.625, 0, 0), P(1, 1, 0.75)); break;
    case 5: { const double X[6][2] = {{0, 0}, {1, 0}, {1, 0.5}, {0.5, 0.5}, {0.5, 1}, {0, 1}}; for (int z = 0; z < 2; ++z) for (auto& x : X) m.AddVertex(P(x[0], x[1], z));
        for (IndexType i = 0; i < 6; ++i) add_quad(m, i, (i + 1) % 6, 6 + (i + 1) % 6, 6 + i);
        const IndexType T[4][3] = {{0, 1, 3}, {1, 2, 3}, {0, 3, 5}, {3, 4, 5}}; for (auto& t : T) { add_tri(m, t[0], t[2], t[1]); add_tri(m, 6 + t[0], 6 + t[1], 6 + t[2]); } break; }
    case 6: { m.AddVertex(P(1, 0, 0)); m.AddVertex(P(-1, 0, 0)); m.AddVertex(P(0, 1, 0)); m.AddVertex(P(0, -1, 0)); m.AddVertex(P(0, 0, 1)); m.AddVertex(P(0, 0, -1));
        for (IndexType i = 0; i < 8; ++i) { const IndexType a = i & 1, b = 2 + (i >> 1 & 1), c = 4 + (i >> 2 & 1); if ((a + b + c) % 2 == 0) add_tri(m, a, b, c); else add_tri(m, b, a, c); } break; }
    }
}
static inline void inbox(PointType x, PointType lo, PointType up, double tol, bool& in, bool& out) { in = true; out = false; for (int d = 0; d < 3; ++d) { in = in & between(x[d], lo[d], up[d], -tol); out = out | !between(x[d], lo[d], up[d], tol); } }
static inline void mesh_inside(IndexType kind, PointType x, double tol, bool& in, bool& out) {
    bool a, b, c, d;
    switch (kind) {
    case 0: in = (x[0] >= tol) & (x[1] >= tol) & (x[2] >= tol) & (x[0] + x[1] + x[2] <= 1 - tol); out = (x[0] <= -tol) | (x[1] <= -tol) | (x[2] <= -tol) | (x[0] + x[1] + x[2] >= 1 + tol); break;
    case 1: inbox(x, {0, 0, 0}, {1, 1, 1}, tol, in, out); break;
    case 2: inbox(x, {0, 0, 0}, {1, 1, 1}, tol, a, b); inbox(x, {0.25, 0.25, 0.25}, {0.75, 0.75, 0.75}, tol, c, d); in = a & d; out = b | c; break;
    case 3: { const PointType y{x[0] - 0.25 * x[2], x[1] - 0.125 * x[2], x[2]}; // sheared back to a right prism
        const double e0 = y[1], e1 = (1 - y[0]) * 1.0 - y[1] * 0.75, e2 = y[0] * 1.0 - y[1] * 0.25;
        in = (e0 >= tol) & (e1 >= tol) & (e2 >= tol) & (y[2] >= tol) & (y[2] <= 1 - tol); out = (e0 <= -tol) | (e1 <= -tol) | (e2 <= -tol) | (y[2] <= -tol) | (y[2] >= 1 + tol); break; }
    case 4: inbox(x, {0, 0, 0}, {0.375, 1, 1}, tol, a, b); inbox(x, {0.625, 0, 0}, {1, 1, 0.75}, tol, c, d); in = a | c; out = b & d; break;
    case 5: inbox(x, {0, 0, 0}, {1, 1, 1}, tol, a, b); inbox(x, {0.5, 0.5, -1}, {2, 2, 2}, tol, c, d); in = a & d; out = b | c; break;
    default: { double s = 0; for (int i = 0; i < 3; ++i) s += std::abs(x[i]); in = s <= 1 - tol; out = s >= 1 + tol; break; }
    }
}
static inline double mesh_volume(IndexType kind) { const double v[] = {1.0 / 6.0, 1, 1 - 0.125, 0.5, 0.375 + 0.375 * 0.75, 0.75, 4.0 / 3.0}; return v[kind]; }
static inline double mesh_area(IndexType kind) { const double r3 = std::sqrt(3.0); const double v[] = {1.5 + r3 / 2, 6, 6 + 1.5, 0, 2 * (0.375 * 2 + 1) + 2 * (0.375 + 0.28125 + 0.75), 2 * 0.75 + 4, 4 * r3}; return v[kind]; }
