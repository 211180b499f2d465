// Linear relations between degrees of freedom read back from the output: MPC, rigid bodies, RBE3.
#pragma once
#include "h_bc.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
struct Rbe3Out { int master; set<int> dofs; map<int, std::pair<set<int>, double>> slaves; };
struct Rel { vector<Lin> lin; vector<set<int>> rigid; vector<Rbe3Out> rbe3; };
static map<int, std::array<double, 3>> pos; // positions of the nodes of the deck
static set<int> ofCode(const string &c) { set<int> r; for (int d : dofList(c)) r.insert(d); return r; }
static set<int> dofsOfInt(int m) { set<int> r; for (int i = 0; i < 6; i++) if (m >> i & 1) r.insert(i); return r; }
// rigid body relation of a dependent component: u_s = u_m + theta_m x (s - m)
static Lin rigidRow(int m, int s, int d) {
    Lin l; l.coef[{s, d}] = 1; l.coef[{m, d}] = -1; if (d >= 3) return l;
    auto &a = pos[m], &b = pos[s]; int j = (d + 1) % 3, k = (d + 2) % 3; double rj = b[j] - a[j], rk = b[k] - a[k];
    if (rk != 0) l.coef[{m, 3 + j}] = -rk; if (rj != 0) l.coef[{m, 3 + k}] = rj; return l;
}
static Rel relations(View &v, int analysis, int index, int total) {
    Rel r;
    if (v.t == SYSTUS) {
        string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case"); set<int> real; for (auto &p : pos) real.insert(p.first); map<string, set<int>> bar; map<string, Rbe3Out> r3;
        for (auto &e : (*a)["ELEMENTS"]) {
            if (e[1].size() < 4) continue; string t = e[1].substr(e[1].size() - 4, 2); if (t != "19") continue;
            auto *m = a->row("MATERIALS", e[2]); vs_assert(m, "material of a relation exists"); vector<int> nodes; for (size_t i = 5; i < e.size(); i++) nodes.push_back((int)intOf(e[i]));
            int level = (int)ascVal(*m, "197"), shape = (int)ascVal(*m, "61");
            if (shape == 19) { vs_assert(nodes.size() > 2 && !real.count(nodes.back()), "a Lagrange node is added"); nodes.pop_back(); }
            if (level == 0) {
                auto *t = a->row("TABLES", ascKey(*m, "26") ? *ascKey(*m, "26") : string("-")); vs_assert(t, "table of the coefficients exists"); size_t k = 2, n = nodes.size() * 6; vs_assert((t->size() - 2) % n == 0, "the table has a row of coefficients per relation");
                while (k < t->size()) { Lin l; for (int nd : nodes) for (int d = 0; d < 6; d++) { double x = out::num((*t)[k++]); if (x != 0) l.coef[{nd, d}] = x; } r.lin.push_back(l); }
            } else if (level == 1) r.rigid.push_back({nodes.begin(), nodes.end()});
            else if (level == 3) {
                vs_assert(nodes.size() == 2, "RBE3 element joins two nodes"); auto &o = r3[std::to_string(nodes[0])]; o.master = nodes[0]; set<int> md; static const char *key[] = {"31", "32", "33", "34", "35", "36"}; (void)key;
                o.slaves[nodes[1]] = {dofsOfInt((int)ascVal(*m, "184")), ascVal(*m, "56")};
                for (int d = 0; d < 3; d++) if (ascVal(*m, std::to_string(31 + d).c_str()) == 1) md.insert(d); for (int d = 0; d < 3; d++) if (ascVal(*m, std::to_string(14 + d).c_str()) == 1) md.insert(3 + d);
                vs_assert(o.dofs.empty() || o.dofs == md, "one set of averaged components"); o.dofs = md;
            }
        }
        for (auto &o : r3) r.rbe3.push_back(o.second); return r;
    }
    if (v.t == ASTER) {
        auto nm = [&](const string &n) { vs_assert(n[0] == 'N' && v.nodeOfPos.count(atoi(n.c_str() + 1)), "NOEUD names an existing node"); return v.nodeOfPos[atoi(n.c_str() + 1)]; };
        auto dm = [&](const string &s) { for (int i = 0; i < 6; i++) if (s == asterDof[i]) return i; vs_assert(false, "DDL is a component"); return 0; };
        for (auto *c : chargesOf(v, index)) {
            for (auto *f : c->args.factors("LIAISON_DDL")) {
                auto n = f->strings("NOEUD"), d = f->strings("DDL"); auto k = out::reals(f->get("COEF_MULT")); vs_assert(n.size() == d.size() && n.size() == k.size(), "as many nodes, components and coefficients");
                Lin l; l.rhs = out::real(f->get("COEF_IMPO")); for (size_t i = 0; i < n.size(); i++) { ND x{nm(n[i]), dm(d[i])}; vs_assert(!l.coef.count(x), "one term per component"); l.coef[x] = k[i]; } r.lin.push_back(l);
            }
            for (auto *f : c->args.factors("LIAISON_SOLIDE")) { set<int> s; for (int n : asterNodes(v, f)) s.insert(n); r.rigid.push_back(s); }
            for (auto *f : c->args.factors("LIAISON_RBE3")) {
                Rbe3Out o; o.master = nm(f->get("NOEUD_MAIT")->text); for (auto &s : f->strings("DDL_MAIT")) o.dofs.insert(dm(s));
                auto n = f->strings("NOEUD_ESCL"), d = f->strings("DDL_ESCL"); auto k = out::reals(f->get("COEF_ESCL")); vs_assert(n.size() == d.size() && n.size() == k.size(), "as many nodes, components and coefficients");
                for (size_t i = 0; i < n.size(); i++) { set<int> ds; std::istringstream in(d[i]); string w; while (std::getline(in, w, '-')) ds.insert(dm(w)); o.slaves[nm(n[i])] = {ds, k[i]}; } r.rbe3.push_back(o);
            }
        }
        return r;
    }
    auto cc = caseOf(v.text, analysis); set<string> eids; auto eid = [&](const string &s) { vs_assert(intOf(s) > 0 && eids.insert(s).second, "rigid elements have an id of their own"); };
    for (int s : sets(v, "MPCADD", cc["MPC"])) for (auto &c : v.nas->of("MPC")) if (fld(c, 1) == std::to_string(s)) {
        Lin l; for (size_t i = 2; i < c.size();) { if (i % 8 == 0) { vs_assert(fld(c, i).empty() && fld(c, i + 1).empty(), "fields 9 and 2 of a MPC continuation are blank"); i += 2; if (i >= c.size()) break; } ND x{(int)intOf(c[i]), dofList(fld(c, i + 1)).at(0)}; vs_assert(!l.coef.count(x), "one term per component"); l.coef[x] = realOf(fld(c, i + 2)); i += 3; } r.lin.push_back(l);
    }
    for (auto &c : v.nas->of("RBE2")) { eid(fld(c, 1)); int m = (int)intOf(fld(c, 2)); if (fld(c, 3) == "123456") { set<int> s{m}; for (int n : nodeList(c, 4)) s.insert(n); r.rigid.push_back(s); } else for (int n : nodeList(c, 4)) for (int d : dofList(fld(c, 3))) r.lin.push_back(rigidRow(m, n, d)); }
    for (auto &c : v.nas->of("RBAR")) { eid(fld(c, 1)); int m = (int)intOf(fld(c, 2)), n = (int)intOf(fld(c, 3)); vs_assert(fld(c, 4) == "123456" && fld(c, 5).empty(), "RBAR with GA independent"); string cm = fld(c, 7); if (cm.empty() || cm == "123456") r.rigid.push_back({m, n}); else for (int d : dofList(cm)) r.lin.push_back(rigidRow(m, n, d)); }
    for (auto &c : v.nas->of("RBE3")) {
        eid(fld(c, 1)); Rbe3Out o; o.master = (int)intOf(fld(c, 3)); o.dofs = ofCode(fld(c, 4)); double w = 0; set<int> ds; size_t i = 5;
        while (i < c.size()) { if (c[i].find_first_not_of("0123456789") != string::npos) { w = realOf(c[i]); ds = ofCode(fld(c, i + 1)); i += 2; } else { vs_assert(!o.slaves.count((int)intOf(c[i])), "one weight per node"); o.slaves[(int)intOf(c[i++])] = {ds, w}; } } r.rbe3.push_back(o);
    }
    return r;
}
