// Physical content of the written files: which material and which section each element gets.
#pragma once
#include "h_view.h"
#include <cmath>
namespace view {
static inline bool near(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol; }
// relative comparison, for values obtained by a division or a product
static inline bool close(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1. + std::fabs(b)); }
struct Elas { bool found = false; double E = 0, nu = 0, rho = 0, ge = 0, G = 0; };
static inline int propCard(View &v, int pid, vector<string> &out) { int n = 0; for (auto &c : v.nas->all) if (c[0].size() > 1 && c[0][0] == 'P' && c[0] != "PARAM" && c[0].compare(0, 5, "PLOAD") && fld(c, 1) == std::to_string(pid)) { out = c; n++; } return n; }
// factor keywords of a Code_Aster command that apply to an element, in order (the last one wins)
static inline bool covers(View &v, const out::Val *f, int eid, const map<int, string> * = nullptr) {
    for (auto &g : f->strings("GROUP_MA")) if (v.cellGroups[g].count(eid)) return true;
    for (auto &g : f->strings("MAILLE")) if (g.size() > 1 && g[0] == 'M' && v.cellOfPos[atoi(g.c_str() + 1)] == eid) return true;
    const out::Val *t = f->get("TOUT"); return t && t->text == "OUI";
}
static inline double zeroIfAbsent(const vector<string> &c, size_t i) { return fld(c, i).empty() ? 0. : realOf(fld(c, i)); }
static inline const string *ascKey(const vector<string> &row, const string &key) { for (size_t i = 2; i + 1 < row.size(); i += 2) if (row[i] == key) return &row[i + 1]; return nullptr; }
static inline double ascVal(const vector<string> &row, const char *key) { auto *s = ascKey(row, key); return s ? out::num(*s) : 0.; }
static inline const vector<string> *ascMat(View &v, int eid) { auto i = v.cells.find(eid); return i == v.cells.end() ? nullptr : v.asc->row("MATERIALS", std::to_string(i->second.prop)); }
// the elastic material that an element of the written model has
static inline Elas elas(View &v, int eid) {
    Elas r; auto ci = v.cells.find(eid); if (ci == v.cells.end()) return r;
    if (v.t == SYSTUS) { auto *row = ascMat(v, eid); if (!row) return r; r.found = true; r.rho = ascVal(*row, "4"); r.E = ascVal(*row, "5"); r.nu = ascVal(*row, "6"); r.ge = ascVal(*row, "35"); return r; }
    if (v.t == ASTER) {
        string mat; for (auto *c : v.comm->of("AFFE_MATERIAU")) for (auto *f : c->args.factors("AFFE")) if (covers(v, f, eid)) { auto *m = f->get("MATER"); if (m) mat = m->text; }
        auto *c = v.comm->named(mat); if (mat.empty() || !c) return r; auto fs = c->args.factors("ELAS"); if (fs.size() != 1) return r;
        r.found = true; r.E = out::real(fs[0]->get("E")); r.nu = out::real(fs[0]->get("NU")); r.rho = out::realOr(fs[0]->get("RHO"), 0); r.ge = out::realOr(fs[0]->get("AMOR_HYST"), 0); return r;
    }
    string mid; if (v.t == NAS_COSMIC && ci->second.kw == "CTETRA") mid = std::to_string(ci->second.prop);
    else { vector<string> p; if (propCard(v, ci->second.prop, p) != 1) return r; mid = fld(p, 2); }
    int n = 0; for (auto &m : v.nas->of("MAT1")) if (fld(m, 1) == mid) { n++; r.found = true; r.E = realOf(fld(m, 2)); r.G = realOf(fld(m, 3)); r.nu = realOf(fld(m, 4)); r.rho = zeroIfAbsent(m, 5); r.ge = zeroIfAbsent(m, 8); }
    vs_assert(n <= 1, "one MAT1 per material id"); return r;
}
}
