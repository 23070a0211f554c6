// Dictionaries (settings, model info): typed keys, access by name, required values, defaults, validity of settings, printing.
#include "common.h"
#include <sstream>
#include <map>
#include "queso/utilities/check_dictionary_utilities.hpp"
using D = SettingsT; using SA = DictionaryStringAccess<D>; using F = DictionaryFactory<key::MainValuesTypeTag>;
enum T { POINT, VEC, BOOL, DBL, IDX, STR, METHOD, GRID, INT, UINT };
struct Val { bool set = false; PointType p{}; Vector3i v{}; bool b = false; double d = 0; IndexType i = 0; std::string s; int e = 0; };
struct Slot { D* d; const char* name; T t; bool req; Val val; };
using Slots = std::vector<Slot>;
static void add_slots(Slots& S, D& d, std::initializer_list<Slot> l) { for (auto s : l) { s.d = &d; S.push_back(s); } }
static D& subd(D& d, const char* n) { return SA::GetSubDictionary(d, n); }
static Unique<D> make(IndexType which, Slots& S) {
    static const char* N[] = {"Settings", "ConditionSettings", "ModelInfo", "ConditionInfo"}; auto p = F::Create(N[which]); D& d = *p;
    if (which == 0) {
        add_slots(S, subd(d, "general_settings"), {{0, "input_filename", STR, true}, {0, "output_directory_name", STR, true}, {0, "echo_level", IDX, true}, {0, "write_output_to_file", BOOL, true}});
        add_slots(S, subd(d, "background_grid_settings"), {{0, "grid_type", GRID, true}, {0, "lower_bound_xyz", POINT, true}, {0, "upper_bound_xyz", POINT, true}, {0, "lower_bound_uvw", POINT, true}, {0, "upper_bound_uvw", POINT, true}, {0, "polynomial_order", VEC, true}, {0, "number_of_elements", VEC, true}});
        add_slots(S, subd(d, "trimmed_quadrature_rule_settings"), {{0, "moment_fitting_residual", DBL, true}, {0, "min_element_volume_ratio", DBL, true}, {0, "min_num_boundary_triangles", IDX, true}, {0, "neglect_elements_if_stl_is_flawed", BOOL, true}, {0, "activate_fictitious_domain_with_alpha", DBL, false}});
        add_slots(S, subd(d, "non_trimmed_quadrature_rule_settings"), {{0, "integration_method", METHOD, true}});
        auto def = [&](const char* n) -> Val& { for (auto& s : S) if (std::string(s.name) == n) { s.val.set = true; return s.val; } return S[0].val; };
        def("output_directory_name").s = "queso_output"; def("echo_level").i = 1; def("write_output_to_file").b = true; def("moment_fitting_residual").d = 1e-10; def("min_element_volume_ratio").d = 1e-3; def("min_num_boundary_triangles").i = 100; def("neglect_elements_if_stl_is_flawed").b = true; def("integration_method").e = (int)IntegrationMethod::gauss;
    } else if (which == 1) add_slots(S, d, {{0, "condition_id", IDX, true}, {0, "condition_type", STR, false}, {0, "input_filename", STR, true}, {0, "modulus", DBL, false}, {0, "direction", POINT, false}, {0, "value", POINT, false}, {0, "penalty_factor", DBL, false}});
    else if (which == 2) {
        add_slots(S, subd(d, "embedded_geometry_info"), {{0, "is_closed", BOOL, true}, {0, "volume", DBL, true}});
        add_slots(S, subd(d, "quadrature_info"), {{0, "represented_volume", DBL, true}, {0, "percentage_of_geometry_volume", DBL, true}, {0, "tot_num_points", IDX, true}, {0, "num_of_points_per_full_element", DBL, true}, {0, "num_of_points_per_trimmed_element", DBL, true}});
        add_slots(S, subd(d, "background_grid_info"), {{0, "num_active_elements", IDX, true}, {0, "num_trimmed_elements", IDX, true}, {0, "num_full_elements", IDX, true}, {0, "num_inactive_elements", IDX, true}});
        D& e = subd(d, "elapsed_time_info"); const IndexType n = S.size(); add_slots(S, e, {{0, "total", DBL, true}});
        add_slots(S, subd(e, "volume_time_info"), {{0, "total", DBL, true}, {0, "classification_of_elements", DBL, true}, {0, "computation_of_intersections", DBL, true}, {0, "solution_of_moment_fitting_eqs", DBL, true}, {0, "construction_of_ggq_rules", DBL, true}});
        add_slots(S, subd(e, "conditions_time_info"), {{0, "total", DBL, true}}); add_slots(S, subd(e, "write_files_time_info"), {{0, "total", DBL, true}});
        for (IndexType i = n; i < S.size(); ++i) S[i].val.set = true;
    } else add_slots(S, d, {{0, "condition_id", IDX, true}, {0, "surf_area", DBL, true}, {0, "perc_surf_area_in_active_domain", DBL, true}});
    return p;
}
static bool same(const Slot& s) { // the stored state of this slot is the expected one
    if (!SA::Has(*s.d, s.name) || SA::IsSet(*s.d, s.name) != s.val.set) return false;
    if (!s.val.set) { bool threw = false; try { SA::GetValue<double>(*s.d, s.name); } catch (std::exception&) { threw = true; } return threw; }
    switch (s.t) {
        case POINT: return near3(SA::GetValue<PointType>(*s.d, s.name), s.val.p, 0);
        case VEC: { const auto& v = SA::GetValue<Vector3i>(*s.d, s.name); return (v[0] == s.val.v[0]) & (v[1] == s.val.v[1]) & (v[2] == s.val.v[2]); }
        case BOOL: return SA::GetValue<bool>(*s.d, s.name) == s.val.b;
        case DBL: return SA::GetValue<double>(*s.d, s.name) == s.val.d;
        case IDX: return SA::GetValue<IndexType>(*s.d, s.name) == s.val.i;
        case STR: return SA::GetValue<std::string>(*s.d, s.name) == s.val.s;
        case METHOD: return (int)SA::GetValue<IntegrationMethodType>(*s.d, s.name) == s.val.e;
        default: return (int)SA::GetValue<GridTypeType>(*s.d, s.name) == s.val.e; }
}
static bool all_same(const Slots& S) { bool ok = true; for (auto& s : S) ok = ok & same(s); return ok; }
// gives a value of type g to slot s by name; s.val is what must be stored afterwards; returns whether it had to be accepted
static void give(Slot& s, T g) {
    Val n; n.set = true; bool accept = false, threw = false; const std::string name = s.name; D& d = *s.d;
    auto put = [&](const auto& v) { try { SA::SetValue(d, name, v); } catch (std::exception&) { threw = true; } };
    switch (g) {
        case POINT: n.p = real3("p", -9, 9); accept = s.t == POINT; put(n.p); break;
        case VEC: for (auto& x : n.v) x = qsx_int("v", 0, 1000); for (int k = 0; k < 3; ++k) n.p[k] = (double)n.v[k]; accept = s.t == VEC || s.t == POINT; put(n.v); break;
        case BOOL: n.b = qsx_int("b", 0, 1) == 1; accept = s.t == BOOL; put(n.b); break;
        case DBL: n.d = qsx_real("d", -9, 9); accept = s.t == DBL; put(n.d); break;
        case IDX: n.i = qsx_int("i", 0, 1u << 20); n.d = (double)n.i; accept = s.t == IDX || s.t == DBL; put(n.i); break;
        case UINT: { const unsigned u = (unsigned)qsx_int("u", 0, 1u << 20); n.i = u; n.d = (double)u; accept = s.t == IDX || s.t == DBL; put(u); break; }
        case INT: { const int v = (int)qsx_int("n", 0, 2000) - 1000; n.i = (IndexType)v; n.d = (double)v; accept = s.t == DBL || (s.t == IDX && v >= 0); put(v); break; }
        case STR: n.s = qsx_choice("string", 2) ? "a name" : ""; accept = s.t == STR; put(n.s); break;
        case METHOD: n.e = (int)qsx_choice("method", 6); accept = s.t == METHOD; put(static_cast<IntegrationMethodType>(n.e)); break;
        case GRID: n.e = (int)qsx_choice("grid", 3); accept = s.t == GRID; put(static_cast<GridTypeType>(n.e)); break; }
    qsx_assert(threw == !accept, "a value is accepted exactly when its type fits the key (integers also fit real numbers, negative ones do not fit indices)"); if (accept) s.val = n; qsx_reach(accept ? "accepted" : "rejected");
}
static void by_name() {
    Slots S; auto p = make(qsx_arg("dict", 0), S); qsx_assert(all_same(S), "a new dictionary holds its defaults and nothing else");
    give(S[qsx_choice("key", S.size())], (T)qsx_choice("type", 10)); qsx_assert(all_same(S), "storing a value changes that value only");
    if (qsx_arg("again", 0)) { Slot& s = S[qsx_choice("key2", S.size())]; give(s, s.t); qsx_assert(all_same(S), "storing a second value changes that value only"); }
}
static void names() { // unknown names
    Slots S; auto p = make(qsx_arg("dict", 0), S); const IndexType k = qsx_choice("key", S.size()), how = qsx_choice("how", 5); std::string n = S[k].name; switch (how) { case 0: n += "x"; break; case 1: n.pop_back(); break; case 2: n[0] = 'Z'; break; case 3: n = ""; break; default: n = " " + n; }
    qsx_assert(!SA::Has(*S[k].d, n), "unknown names are not found"); int c = 0; try { SA::IsSet(*S[k].d, n); } catch (std::exception&) { ++c; } try { SA::SetValue(*S[k].d, n, 1.0); } catch (std::exception&) { ++c; } try { SA::GetValue<double>(*S[k].d, n); } catch (std::exception&) { ++c; }
    try { SA::GetSubDictionary(*S[k].d, n); } catch (std::exception&) { ++c; } try { SA::GetList(*S[k].d, n); } catch (std::exception&) { ++c; } qsx_assert(c == 5, "access by an unknown name is refused"); qsx_assert(all_same(S), "a refused access changes nothing"); qsx_reach("names");
}
// typed keys: the same data as by name
static void plain(Slot& s); static constexpr IndexType NONE = 1000;
template<class K, class V> static void typed(Slots& S, const K& key, const V& v, D& d, IndexType& at, IndexType which, auto&& fill) {
    Slot& s = S[at++]; if (at - 1 == which) { d.SetValue(key, v); s.val = Val(); s.val.set = true; fill(s.val); }
    bool ok = d.IsSet(key) == s.val.set; if (which != NONE) { qsx_assert(ok, "a typed key and its name agree on whether a value is set"); return; }
    if constexpr (K::msIsRequired) { if (s.val.set) { auto& r = d.template GetRequiredValue<typename K::KeyToWhat>(key); ok = ok & (&r == &SA::GetValue<typename K::KeyToWhat>(*s.d, s.name)); } }
    else { auto o = d.template TryGetValue<typename K::KeyToWhat>(key); ok = ok & (o.has_value() == s.val.set); if (s.val.set) ok = ok & (&o->get() == &SA::GetValue<typename K::KeyToWhat>(*s.d, s.name)); }
    qsx_assert(ok, "typed keys and names access the same value");
}
static void by_key() {
    const IndexType dict = qsx_arg("dict", 0); Slots S; auto p = make(dict, S); D& d = *p; IndexType at = 0; const IndexType which = qsx_choice("key", S.size()); const PointType P = real3("p", -9, 9); const Vector3i V{qsx_int("v", 0, 99), qsx_int("v", 0, 99), qsx_int("v", 0, 99)}; const double x = qsx_real("d", -9, 9); const IndexType n = qsx_int("n", 0, 99); const bool b = n > 50; const std::string s = "text";
    auto fp = [&](Val& v) { v.p = P; }; auto fv = [&](Val& v) { v.v = V; }; auto fd = [&](Val& v) { v.d = x; }; auto fi = [&](Val& v) { v.i = n; }; auto fb = [&](Val& v) { v.b = b; }; auto fs = [&](Val& v) { v.s = s; }; const auto M = static_cast<IntegrationMethodType>(4); auto fm = [&](Val& v) { v.e = 4; }; const auto G = static_cast<GridTypeType>(1); auto fg = [&](Val& v) { v.e = 1; };
    auto all = [&](IndexType w) { at = 0;
    if (dict == 0) { D& g = d[MainSettings::general_settings]; typed(S, GeneralSettings::input_filename, s, g, at, w, fs); typed(S, GeneralSettings::output_directory_name, s, g, at, w, fs); typed(S, GeneralSettings::echo_level, n, g, at, w, fi); typed(S, GeneralSettings::write_output_to_file, b, g, at, w, fb);
        D& q = d[MainSettings::background_grid_settings]; typed(S, BackgroundGridSettings::grid_type, G, q, at, w, fg); typed(S, BackgroundGridSettings::lower_bound_xyz, P, q, at, w, fp); typed(S, BackgroundGridSettings::upper_bound_xyz, P, q, at, w, fp); typed(S, BackgroundGridSettings::lower_bound_uvw, P, q, at, w, fp); typed(S, BackgroundGridSettings::upper_bound_uvw, P, q, at, w, fp); typed(S, BackgroundGridSettings::polynomial_order, V, q, at, w, fv); typed(S, BackgroundGridSettings::number_of_elements, V, q, at, w, fv);
        D& t = d[MainSettings::trimmed_quadrature_rule_settings]; typed(S, TrimmedQuadratureRuleSettings::moment_fitting_residual, x, t, at, w, fd); typed(S, TrimmedQuadratureRuleSettings::min_element_volume_ratio, x, t, at, w, fd); typed(S, TrimmedQuadratureRuleSettings::min_num_boundary_triangles, n, t, at, w, fi); typed(S, TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, b, t, at, w, fb); typed(S, TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, x, t, at, w, fd);
        typed(S, NonTrimmedQuadratureRuleSettings::integration_method, M, d[MainSettings::non_trimmed_quadrature_rule_settings], at, w, fm);
    } else if (dict == 1) { typed(S, ConditionSettings::condition_id, n, d, at, w, fi); typed(S, ConditionSettings::condition_type, s, d, at, w, fs); typed(S, ConditionSettings::input_filename, s, d, at, w, fs); typed(S, ConditionSettings::modulus, x, d, at, w, fd); typed(S, ConditionSettings::direction, P, d, at, w, fp); typed(S, ConditionSettings::value, P, d, at, w, fp); typed(S, ConditionSettings::penalty_factor, x, d, at, w, fd);
    } else if (dict == 2) { D& e = d[MainInfo::embedded_geometry_info]; typed(S, EmbeddedGeometryInfo::is_closed, b, e, at, w, fb); typed(S, EmbeddedGeometryInfo::volume, x, e, at, w, fd);
        D& q = d[MainInfo::quadrature_info]; typed(S, QuadratureInfo::represented_volume, x, q, at, w, fd); typed(S, QuadratureInfo::percentage_of_geometry_volume, x, q, at, w, fd); typed(S, QuadratureInfo::tot_num_points, n, q, at, w, fi); typed(S, QuadratureInfo::num_of_points_per_full_element, x, q, at, w, fd); typed(S, QuadratureInfo::num_of_points_per_trimmed_element, x, q, at, w, fd);
        D& g = d[MainInfo::background_grid_info]; typed(S, BackgroundGridInfo::num_active_elements, n, g, at, w, fi); typed(S, BackgroundGridInfo::num_trimmed_elements, n, g, at, w, fi); typed(S, BackgroundGridInfo::num_full_elements, n, g, at, w, fi); typed(S, BackgroundGridInfo::num_inactive_elements, n, g, at, w, fi);
        D& l = d[MainInfo::elapsed_time_info]; typed(S, ElapsedTimeInfo::total, x, l, at, w, fd); D& v = l[ElapsedTimeInfo::volume_time_info]; typed(S, VolumeTimeInfo::total, x, v, at, w, fd); typed(S, VolumeTimeInfo::classification_of_elements, x, v, at, w, fd); typed(S, VolumeTimeInfo::computation_of_intersections, x, v, at, w, fd); typed(S, VolumeTimeInfo::solution_of_moment_fitting_eqs, x, v, at, w, fd); typed(S, VolumeTimeInfo::construction_of_ggq_rules, x, v, at, w, fd);
        typed(S, ConditionsTimeInfo::total, x, l[ElapsedTimeInfo::conditions_time_info], at, w, fd); typed(S, WriteFilesTimeInfo::total, x, l[ElapsedTimeInfo::write_files_time_info], at, w, fd);
    } else { typed(S, ConditionInfo::condition_id, n, d, at, w, fi); typed(S, ConditionInfo::surf_area, x, d, at, w, fd); typed(S, ConditionInfo::perc_surf_area_in_active_domain, x, d, at, w, fd); } };
    all(which); qsx_assert(all_same(S), "storing through a typed key changes that value only"); for (IndexType i = 0; i < S.size(); ++i) if (i != which && S[i].req) plain(S[i]); p->CheckRequired(); all(NONE); qsx_assert(all_same(S), "reading changes nothing"); qsx_reach("typed");
}
static void plain(Slot& s) { s.val.set = true; switch (s.t) { case POINT: s.val.p = {1, 2.5, -3}; SA::SetValue(*s.d, s.name, s.val.p); break; case VEC: s.val.v = {2, 3, 4}; SA::SetValue(*s.d, s.name, s.val.v); break; case BOOL: s.val.b = false; SA::SetValue(*s.d, s.name, false); break; case DBL: s.val.d = 0.125; SA::SetValue(*s.d, s.name, 0.125); break;
    case IDX: s.val.i = 7; SA::SetValue(*s.d, s.name, s.val.i); break; case STR: s.val.s = "some text"; SA::SetValue(*s.d, s.name, s.val.s); break; case METHOD: s.val.e = 2; SA::SetValue(*s.d, s.name, IntegrationMethod::gauss_reduced_2); break; default: s.val.e = 0; SA::SetValue(*s.d, s.name, static_cast<GridTypeType>(0)); } }
// required values: up to two values missing anywhere, also in list entries
static void required() {
    const IndexType dict = qsx_arg("dict", 0); Slots S; auto p = make(dict, S); const IndexType entries = dict == 0 || dict == 2 ? qsx_choice("entries", 3) : 0; for (IndexType e = 0; e < entries; ++e) { Slots L; auto q = make(dict == 0 ? 1 : 3, L); SA::GetList(*p, dict == 0 ? "conditions_settings_list" : "conditions_infos_list").push_back(std::move(q)); for (auto& s : L) S.push_back(s); }
    IndexType a = qsx_choice("missing", S.size() + 1), b = qsx_choice("missing too", 4); b = b == 3 ? S.size() : (a + 1 + 5 * b) % (S.size() + 1); bool lack = false;
    for (IndexType i = 0; i < S.size(); ++i) if ((i != a && i != b)) plain(S[i]); else lack = lack || (S[i].req && !S[i].val.set);
    const bool hole = entries && qsx_choice("hole", 2); if (hole) SA::GetList(*p, dict == 0 ? "conditions_settings_list" : "conditions_infos_list").emplace_back(nullptr);
    bool threw = false; try { p->CheckRequired(); } catch (std::exception&) { threw = true; } qsx_assert(threw == (lack || hole), "the check of required values fails exactly when one is missing"); qsx_assert(all_same(S), "the check changes nothing"); qsx_reach(lack ? "missing" : "complete");
}
static void check_settings() {
    Slots S; auto p = make(0, S); for (auto& s : S) plain(s); D& g = (*p)[MainSettings::background_grid_settings]; Vector3i o{qsx_int("order", 0, 1000), qsx_int("order", 0, 1000), qsx_int("order", 0, 1000)}; const IndexType m = qsx_choice("method", 6), t = qsx_choice("grid", 3); g.SetValue(BackgroundGridSettings::polynomial_order, o); g.SetValue(BackgroundGridSettings::grid_type, static_cast<GridTypeType>(t));
    (*p)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, static_cast<IntegrationMethodType>(m)); (*p)[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, IndexType(0));
    const bool ge1 = (o[0] >= 1) & (o[1] >= 1) & (o[2] >= 1), ge2 = (o[0] >= 2) & (o[1] >= 2) & (o[2] >= 2), le4 = (o[0] <= 4) & (o[1] <= 4) & (o[2] <= 4); const bool ggq = m >= 3, bspline = static_cast<GridTypeType>(t) == GridType::b_spline_grid;
    const bool good = ge1 & ((m != (IndexType)IntegrationMethod::gauss_reduced_2) | ge2) & (!ggq | (ge2 & le4 & bspline)); bool threw = false; try { CheckDictionaryUtilities::CheckSettings(*p); } catch (std::exception&) { threw = true; } qsx_assert(threw == !good, "settings are accepted exactly when order, method and grid type fit"); qsx_reach(threw ? "bad" : "good");
}
// printing: a JSON text with exactly the stored values
struct J { const std::string& s; IndexType i = 0; bool ok = true; std::map<std::string, std::string> leaf; int lists = 0, entries = 0;
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; } bool is(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    std::string str() { std::string r; if (!is('"')) { ok = false; return r; } while (i < s.size() && s[i] != '"') r += s[i++]; ++i; return r; }
    void value(const std::string& path) { ws(); if (!ok || i >= s.size()) { ok = false; return; }
        if (s[i] == '{') { ++i; if (is('}')) return; do { auto k = str(); if (!is(':')) { ok = false; return; } value(path + "/" + k); } while (ok && is(',')); if (!is('}')) ok = false; }
        else if (s[i] == '[') { ++i; ws(); if (is(']')) { ++lists; return; } if (s[i] == '{') { ++lists; int n = 0; do { value(path + "#" + std::to_string(n++)); ++entries; } while (ok && is(',')); } else { std::string r; do { ws(); IndexType b = i; while (i < s.size() && s[i] != ',' && s[i] != ']') ++i; r += (r.empty() ? "" : " ") + s.substr(b, i - b); } while (is(',')); put(path, r); } if (!is(']')) ok = false; }
        else if (s[i] == '"') put(path, "\"" + str() + "\""); else { IndexType b = i; while (i < s.size() && s[i] != ',' && s[i] != '\n' && s[i] != '}') ++i; put(path, s.substr(b, i - b)); } }
    void put(const std::string& p, const std::string& v) { if (leaf.count(p)) ok = false; leaf[p] = v; } };
static void print() {
    const IndexType dict = qsx_arg("dict", 0); Slots S; auto p = make(dict, S); const IndexType entries = dict == 0 || dict == 2 ? qsx_choice("entries", 3) : 0; std::vector<IndexType> own; own.push_back(S.size()); for (IndexType e = 0; e < entries; ++e) { Slots L; auto q = make(dict == 0 ? 1 : 3, L); SA::GetList(*p, dict == 0 ? "conditions_settings_list" : "conditions_infos_list").push_back(std::move(q)); for (auto& s : L) S.push_back(s); own.push_back(S.size()); }
    const IndexType skip = qsx_choice("skip", S.size() + 1), half = qsx_choice("half", 2); for (IndexType i = 0; i < S.size(); ++i) if (i != skip && (!half || i % 2)) plain(S[i]);
    std::ostringstream o; o << *p; const std::string text = o.str(); J j{text}; j.value(""); j.ws(); qsx_assert(j.ok && j.i == text.size(), "the printed dictionary is well-formed"); bool ok = j.leaf.size() == S.size(); const bool lists = dict == 0 || dict == 2; qsx_assert(j.entries == (int)entries && j.lists == (int)lists, "every list entry is printed");
    for (auto& s : S) { std::string want = "\"Not Set.\""; if (s.val.set) { std::ostringstream w; switch (s.t) { case POINT: w << s.val.p[0] << " " << s.val.p[1] << " " << s.val.p[2]; break; case VEC: w << s.val.v[0] << " " << s.val.v[1] << " " << s.val.v[2]; break; case BOOL: w << (s.val.b ? "true" : "false"); break; case DBL: w << s.val.d; break; case IDX: w << s.val.i; break; case STR: w << "\"" << s.val.s << "\""; break; case METHOD: w << "\"" << static_cast<IntegrationMethodType>(s.val.e) << "\""; break; default: w << "\"" << static_cast<GridTypeType>(s.val.e) << "\""; } want = w.str(); }
        int hits = 0; for (auto& [k, v] : j.leaf) if (k.size() > std::string(s.name).size() && k.compare(k.size() - std::string(s.name).size() - 1, std::string::npos, "/" + std::string(s.name)) == 0 && v == want) ++hits; ok = ok && hits > 0; }
    qsx_assert(ok, "every stored value is printed under its name"); qsx_reach("printed");
}
extern "C" void qsx_main() { switch (qsx_arg("mode", 0)) { case 0: by_name(); break; case 1: names(); break; case 2: by_key(); break; case 3: required(); break; case 4: check_settings(); break; case 5: print(); break; } }
