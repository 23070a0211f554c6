#pragma once
#include "qsx.h"
#include <string>
#include <vector>
#include <cmath>
#include <memory>
#include "queso/includes/define.hpp"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/containers/grid_indexer.hpp"
#include "queso/utilities/math_utilities.hpp"
using namespace queso;
// branch-free comparisons (bitwise & keeps one assertion per path)
static inline bool near(double a, double b, double tol) { return (a - b <= tol) & (b - a <= tol); }
static inline bool near3(const PointType& a, const PointType& b, double tol) { return near(a[0], b[0], tol) & near(a[1], b[1], tol) & near(a[2], b[2], tol); }
static inline bool between(double x, double lo, double hi, double tol) { return (x >= lo - tol) & (x <= hi + tol); }
static inline PointType sub(const PointType& a, const PointType& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static inline PointType add(const PointType& a, const PointType& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static inline PointType scl(double s, const PointType& a) { return {s * a[0], s * a[1], s * a[2]}; }
static inline double dot3(const PointType& a, const PointType& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline PointType cross3(const PointType& a, const PointType& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static inline PointType real3(const char* n, double lo, double hi) { PointType p; p[0] = qsx_real(n, lo, hi); p[1] = qsx_real(n, lo, hi); p[2] = qsx_real(n, lo, hi); return p; }
using SettingsT = Dictionary<key::MainValuesTypeTag>;
static inline Unique<SettingsT> make_settings(GridType type, PointType lx, PointType ux, PointType lu, PointType uu, Vector3i n, Vector3i p = {2, 2, 2}) {
    auto s = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    auto& g = (*s)[MainSettings::background_grid_settings];
    g.SetValue(BackgroundGridSettings::grid_type, type);
    g.SetValue(BackgroundGridSettings::lower_bound_xyz, lx);
    g.SetValue(BackgroundGridSettings::upper_bound_xyz, ux);
    g.SetValue(BackgroundGridSettings::lower_bound_uvw, lu);
    g.SetValue(BackgroundGridSettings::upper_bound_uvw, uu);
    g.SetValue(BackgroundGridSettings::polynomial_order, p);
    g.SetValue(BackgroundGridSettings::number_of_elements, n);
    g.CheckRequired();
    return s;
}
