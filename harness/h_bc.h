// Boundary conditions of the written model, per analysis (SUBCASE id): what each degree of freedom is imposed to.
#pragma once
#include "h_phys.h"
namespace view {
typedef pair<int, int> ND; // node id, dof 0..5
struct Lin { map<ND, double> coef; double rhs = 0; };
struct Bc { map<ND, vector<double>> imposed; map<ND, vector<double>> blocked; vector<string> charges; };
static inline vector<string> words(const string &l) { vector<string> r; std::istringstream i(l); string w; while (i >> w) r.push_back(w); return r; }
// case control of a Nastran file: request (LOAD, SPC, MPC, METHOD...) -> set of the given subcase (0 = before any SUBCASE)
static inline map<string, string> caseOf(const string &text, int subcase) {
    map<string, string> r; std::istringstream in(text); string l; int cur = 0; bool seen = false, cc = false;
    while (std::getline(in, l)) {
        if (l.compare(0, 4, "CEND") == 0) { cc = true; continue; } if (l.compare(0, 10, "BEGIN BULK") == 0) break; if (!cc || l[0] == '$') continue;
        if (l.compare(0, 7, "SUBCASE") == 0) { cur = atoi(l.substr(8).c_str()); seen = seen || cur == subcase; continue; }
        size_t e = l.find('='); if (e == string::npos || l.compare(0, 4, "SET ") == 0) continue; if (cur != subcase && cur != 0) continue;
        string k = Cards::trim(l.substr(0, e)), val = Cards::trim(l.substr(e + 1)); if (cur == subcase) vs_assert(!r.count(k) || k == "DISP", "one request of each kind in a subcase"); r[k] = val;
    }
    vs_assert(seen, "every analysis has a subcase"); return r;
}
static inline vector<int> sets(View &v, const string &add, const string &sid) { // a combination card stands for its members
    vector<int> r; if (sid.empty()) return r; for (auto &c : v.nas->of(add)) if (fld(c, 1) == sid) for (size_t i = 2; i < c.size(); i++) if (!c[i].empty()) r.push_back((int)intOf(c[i])); if (r.empty()) r.push_back(atoi(sid.c_str())); return r;
}
static inline vector<int> nodeList(const vector<string> &c, size_t from) {
    vector<int> r; for (size_t i = from; i < c.size(); i++) { if (c[i].empty()) continue; if (c[i] == "THRU") { int last = (int)intOf(c[++i]); for (int k = r.back() + 1; k <= last; k++) r.push_back(k); } else r.push_back((int)intOf(c[i])); } return r;
}
static inline vector<int> dofList(const string &code) { vector<int> r; for (char c : code) { vs_assert(c >= '1' && c <= '6', "written component code has digits 1 to 6"); r.push_back(c - '1'); } return r; }
static const char *asterDof[] = {"DX", "DY", "DZ", "DRX", "DRY", "DRZ"};
static inline vector<int> asterNodes(View &v, const out::Val *f) {
    vector<int> r; for (auto &n : f->strings("NOEUD")) { vs_assert(n.size() > 1 && n[0] == 'N' && v.nodeOfPos.count(atoi(n.c_str() + 1)), "NOEUD names an existing node"); r.push_back(v.nodeOfPos[atoi(n.c_str() + 1)]); }
    for (auto &g : f->strings("GROUP_NO")) { vs_assert(v.nodeGroups.count(g), "GROUP_NO names an existing group"); for (int n : v.nodeGroups[g]) r.push_back(n); } return r;
}
// the charges of the k-th analysis (0-based) in the command file
static inline vector<const out::Cmd *> chargesOf(View &v, int k) {
    vector<const out::Cmd *> res, r; for (auto &c : v.comm->cmds) if ((c.op == "MECA_STATIQUE" || c.op == "STAT_NON_LINE" || c.op == "DYNA_LINE" || c.op == "DYNA_VIBRA") && c.name.compare(0, 4, "RESU") == 0) res.push_back(&c);
    vs_assert(k < (int)res.size(), "every analysis is in the command file");
    for (auto *f : res[k]->args.factors("EXCIT")) { auto *c = f->get("CHARGE"); vs_assert(c && v.comm->named(c->text), "CHARGE is defined"); r.push_back(v.comm->named(c->text)); } return r;
}
// Systus: the file and the load number of an analysis (single analysis: any name)
static inline out::Asc *ascOf(View &v, int analysis, int total, string &load) {
    string name = "Analysis_" + std::to_string(analysis), key = name + "_"; for (auto &a : v.ascs) for (auto &r : (*a)["LOADS"]) if (total == 1 || r[1] == name || r[1].compare(0, key.size(), key) == 0) { load = r[0]; return a.get(); } return nullptr;
}
static inline vector<double> sumVectors(out::Asc &a, const string &list, const string &load, size_t from = 6) { // sum of the vectors of one load in a list
    vector<double> s(6, 0.); if (list == "0") return s; auto *l = a.row("LISTS", list); vs_assert(l, "list exists");
    for (size_t i = 1; i + 1 < l->size(); i += 2) if ((*l)[i] == load) { auto *vec = a.row("VECTORS", (*l)[i + 1]); vs_assert(vec, "vector exists"); for (size_t j = 0; j < 6 && from + 1 + j < vec->size(); j++) { double x = out::num((*vec)[from + 1 + j]); s[j] = s[j] == 0 ? x : s[j] + x; } }
    return s;
}
static inline Bc bc(View &v, int analysis, int index, int total) {
    Bc r;
    if (v.t == SYSTUS) {
        string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case");
        for (auto &n : (*a)["NODES"]) { int mask = (int)intOf(n[1]); int id = (int)intOf(n[0]); auto s = sumVectors(*a, n[5], load); for (int d = 0; d < 6; d++) if (mask >> d & 1) r.imposed[{id, d}].push_back(s[d]); else vs_assert(s[d] == 0, "imposed value on a free component"); }
        return r;
    }
    if (v.t == ASTER) {
        set<string> seen;
        for (auto *c : chargesOf(v, index)) { r.charges.push_back(c->name); vs_assert(seen.insert(c->name).second, "charge used once"); for (auto *f : c->args.factors("DDL_IMPO")) for (int n : asterNodes(v, f)) for (int d = 0; d < 6; d++) if (f->get(asterDof[d])) r.imposed[{n, d}].push_back(out::real(f->get(asterDof[d]))); }
        for (auto &i : r.imposed) vs_assert(i.second.size() == 1, "a component is imposed once");
        return r;
    }
    auto cc = caseOf(v.text, analysis); map<ND, vector<double>> over; string ps; for (auto &c : v.nas->of("GRDSET")) ps = fld(c, 8);
    for (auto &c : v.nas->of("GRID")) for (int d : dofList(fld(c, 7).empty() ? ps : fld(c, 7))) r.imposed[{(int)intOf(fld(c, 1)), d}].push_back(0);
    for (int s : sets(v, "SPCADD", cc["SPC"])) {
        for (auto &c : v.nas->of("SPC1")) if (fld(c, 1) == std::to_string(s)) for (int n : nodeList(c, 3)) for (int d : dofList(fld(c, 2))) r.imposed[{n, d}].push_back(0);
        for (auto &c : v.nas->of("SPC")) if (fld(c, 1) == std::to_string(s)) for (size_t i = 2; i < c.size(); i += 3) for (int d : dofList(fld(c, i + 1))) r.imposed[{(int)intOf(fld(c, i)), d}].push_back(zeroIfAbsent(c, i + 2));
    }
    for (auto &c : v.nas->of("SPCD")) if (fld(c, 1) == cc["LOAD"]) for (size_t i = 2; i < c.size(); i += 3) for (int d : dofList(fld(c, i + 1))) over[{(int)intOf(fld(c, i)), d}].push_back(zeroIfAbsent(c, i + 2));
    for (auto &o : over) { vs_assert(r.imposed.count(o.first), "SPCD applies to a constrained component"); r.imposed[o.first] = o.second; }
    return r;
}
// the imposed components are exactly those expected, with the expected values
static inline void sameBc(Fmt t, const Bc &b, const map<ND, double> &want) {
    for (auto &w : want) { auto i = b.imposed.find(w.first); CHECK(t, i != b.imposed.end(), "a constrained component is imposed"); if (i != b.imposed.end()) for (double x : i->second) CHECK(t, close(x, w.second), "value of the imposed component"); }
    for (auto &i : b.imposed) CHECK(t, want.count(i.first), "no other component is imposed");
}
}
