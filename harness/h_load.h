// Loads of the written model, per analysis.
#pragma once
#include "h_bc.h"
namespace view {
typedef array<double, 6> V6;
static inline void addTo(double &a, double b) { if (!(b == 0)) a = a == 0 ? b : a + b; }
// the load sets of a Nastran request with their factors
static inline vector<pair<int, double>> loadSetsOf(View &v, const string &sid) {
    vector<pair<int, double>> r; if (sid.empty()) return r;
    for (auto &c : v.nas->of("LOAD")) if (fld(c, 1) == sid) for (size_t i = 3; i + 1 < c.size(); i += 2) r.push_back({(int)intOf(c[i + 1]), realOf(fld(c, 2)) * realOf(c[i])});
    if (r.empty()) r.push_back({atoi(sid.c_str()), 1.}); return r;
}
// total force and moment on each node, in the basic system
static inline map<int, V6> nodal(View &v, int analysis, int index, int total) {
    map<int, V6> r; auto at = [&](int n) -> V6 & { auto i = r.find(n); if (i == r.end()) i = r.insert({n, V6{{0, 0, 0, 0, 0, 0}}}).first; return i->second; };
    if (v.t == SYSTUS) {
        string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case");
        for (auto &n : (*a)["NODES"]) { if (n[4] == "0") continue; auto s = sumVectors(*a, n[4], load); auto &x = at((int)intOf(n[0])); for (int d = 0; d < 6; d++) addTo(x[d], s[d]); }
        return r;
    }
    if (v.t == ASTER) {
        static const char *names[] = {"FX", "FY", "FZ", "MX", "MY", "MZ"};
        set<string> seen;
        for (auto *c : chargesOf(v, index)) { vs_assert(seen.insert(c->name).second, "charge used once"); set<int> in; for (auto *f : c->args.factors("FORCE_NODALE")) for (int n : asterNodes(v, f)) { vs_assert(in.insert(n).second, "a node is loaded once in a FORCE_NODALE"); auto &x = at(n); for (int d = 0; d < 6; d++) if (f->get(names[d])) addTo(x[d], out::real(f->get(names[d]))); } }
        return r;
    }
    auto cc = caseOf(v.text, analysis);
    for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &c : v.nas->all) if ((c[0] == "FORCE" || c[0] == "MOMENT") && fld(c, 1) == std::to_string(ls.first)) {
        vs_assert(fld(c, 3).empty() || fld(c, 3) == "0", "a written force is in the basic system"); double s = realOf(fld(c, 4)); if (ls.second != 1) s = s * ls.second;
        auto &x = at((int)intOf(fld(c, 2))); for (int d = 0; d < 3; d++) { double y = zeroIfAbsent(c, 5 + d); addTo(x[d + (c[0] == "MOMENT" ? 3 : 0)], s == 1 ? y : s * y); }
    }
    for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &c : v.nas->all) if (c[0] == "PLOAD" && fld(c, 1) == std::to_string(ls.first)) { // triangle or parallelogram
        vector<int> n; for (int i = 3; i < 7; i++) if (!fld(c, i).empty()) n.push_back((int)intOf(c[i])); vs_assert(n.size() == 3 || n.size() == 4, "PLOAD has 3 or 4 grid points"); for (int i : n) vs_assert(v.coords.count(i), "PLOAD grid point exists");
        V3 a = v.coords[n[0]], b = v.coords[n[1]], d = v.coords[n.back()], x; double p = realOf(fld(c, 2)); if (ls.second != 1) p = p * ls.second; double u[3], w[3]; for (int j = 0; j < 3; j++) { u[j] = b[j] - a[j]; w[j] = d[j] - a[j]; } x = {u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]};
        for (int i : n) { auto &t = at(i); for (int j = 0; j < 3; j++) if (!(x[j] == 0)) addTo(t[j], p * x[j] / (n.size() == 3 ? 6 : 4)); } }
    return r;
}
static inline void sameNodal(Fmt t, map<int, V6> got, const map<int, V6> &want) {
    for (auto &w : want) for (int d = 0; d < 6; d++) { bool has = got.count(w.first); CHECK(t, close(has ? got[w.first][d] : 0., w.second[d]), d < 3 ? "force on a node" : "moment on a node"); }
    for (auto &g : got) if (!want.count(g.first)) for (int d = 0; d < 6; d++) CHECK(t, close(g.second[d], 0.), "no load on another node");
}
}
namespace view {
// pressures and surface forces: force per unit of area on a face (a set of nodes), in the basic system
struct Face { set<int> nodes; V3 t{{0, 0, 0}}; int eid = 0; };
static inline V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static inline V3 crossOf(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static inline V3 unit(const V3 &a) { double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); return {a[0] / n, a[1] / n, a[2] / n}; }
static inline V3 normalOf(const vector<V3> &p) { return unit(p.size() == 4 ? crossOf(sub(p[2], p[0]), sub(p[3], p[1])) : crossOf(sub(p[1], p[0]), sub(p[2], p[0]))); }
static inline size_t corners(int kind) { return kind == 203 || kind == 206 ? 3 : kind == 204 || kind == 208 ? 4 : kind == 304 || kind == 310 ? 4 : kind == 306 || kind == 315 ? 6 : kind == 308 || kind == 320 ? 8 : kind == 305 || kind == 313 ? 5 : 2; }
static inline V3 cellNormal(View &v, const CellV &c) { vector<V3> p; for (size_t i = 0; i < corners(c.kind); i++) p.push_back(v.coords[c.nodes[i]]); return normalOf(p); }
// faces of the solids by their corners (indices from 0), with the corners in an outward order
static inline vector<vector<int>> facesOf(int kind) {
    switch (corners(kind)) { case 4: return {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}; case 6: return {{0, 2, 1}, {3, 4, 5}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}}; case 8: return {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}}; } return {};
}
static inline vector<int> edgeNodes(int kind, const vector<int> &f) { // mid-side nodes of a face of a quadratic solid
    static const map<int, map<pair<int, int>, int>> m = {
        {310, {{{0, 1}, 4}, {{1, 2}, 5}, {{0, 2}, 6}, {{0, 3}, 7}, {{1, 3}, 8}, {{2, 3}, 9}}},
        {315, {{{0, 1}, 6}, {{1, 2}, 7}, {{0, 2}, 8}, {{0, 3}, 9}, {{1, 4}, 10}, {{2, 5}, 11}, {{3, 4}, 12}, {{4, 5}, 13}, {{3, 5}, 14}}},
        {320, {{{0, 1}, 8}, {{1, 2}, 9}, {{2, 3}, 10}, {{0, 3}, 11}, {{0, 4}, 12}, {{1, 5}, 13}, {{2, 6}, 14}, {{3, 7}, 15}, {{4, 5}, 16}, {{5, 6}, 17}, {{6, 7}, 18}, {{4, 7}, 19}}}};
    vector<int> r; auto k = m.find(kind); if (k == m.end()) return r; for (size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; r.push_back(k->second.at({std::min(a, b), std::max(a, b)})); } return r;
}
static inline V3 times(double p, const V3 &n, double s = 1) { V3 r; for (int j = 0; j < 3; j++) r[j] = n[j] == 0 ? 0. : p * (s * n[j]); return r; }
static inline vector<Face> pressures(View &v, int analysis, int index, int total) {
    vector<Face> r; auto whole = [&](const CellV &c) { Face f; f.eid = c.id; f.nodes.insert(c.nodes.begin(), c.nodes.end()); return f; };
    if (v.t == SYSTUS) {
        string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case");
        for (auto &e : (*a)["ELEMENTS"]) { if (e[3] == "0") continue; auto *l = a->row("LISTS", e[3]); vs_assert(l, "list exists"); const CellV &c = v.cells[(int)intOf(e[0])];
            for (size_t i = 1; i + 1 < l->size(); i += 2) if ((*l)[i] == load) { auto *x = a->row("VECTORS", (*l)[i + 1]); vs_assert(x && x->size() >= 10 && (*x)[1] == "1", "load vector of an element"); Face f = whole(c); f.t = (*x)[3] == "1" ? times(out::num((*x)[9]), cellNormal(v, c)) : V3{{out::num((*x)[7]), out::num((*x)[8]), out::num((*x)[9])}}; r.push_back(f); } }
        return r;
    }
    if (v.t == ASTER) {
        for (auto *c : chargesOf(v, index)) for (const char *kw : {"PRES_REP", "FORCE_COQUE", "FORCE_FACE"}) { set<int> in; for (auto *f : c->args.factors(kw)) for (auto &cell : v.cells) if (covers(v, f, cell.first)) {
            vs_assert(in.insert(cell.first).second, "a cell is loaded once by a keyword"); Face x = whole(cell.second); bool solid = false; for (auto *m : v.comm->of("AFFE_MODELE")) for (auto *g : m->args.factors("AFFE")) if (covers(v, g, cell.first)) for (auto &n : g->strings("MODELISATION")) solid = solid || n.substr(0, 2) == "3D";
            if (kw[6] == 'C') vs_assert(!solid, "FORCE_COQUE loads shells"); if (kw[6] == 'F') vs_assert(solid, "FORCE_FACE loads faces of solids"); if (f->get("PRES")) x.t = times(out::real(f->get("PRES")), cellNormal(v, cell.second), -1); else { x.t = {out::realOr(f->get("FX"), 0), out::realOr(f->get("FY"), 0), out::realOr(f->get("FZ"), 0)}; } r.push_back(x); } }
        return r;
    }
    auto cc = caseOf(v.text, analysis);
    for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &c : v.nas->all) if (fld(c, 1) == std::to_string(ls.first)) {
        vs_assert(ls.second == 1 || (c[0] != "PLOAD2" && c[0] != "PLOAD4"), "not in a combination");
        if (c[0] == "PLOAD2") for (int e : nodeList(c, 3)) { vs_assert(v.cells.count(e), "loaded element exists"); Face f = whole(v.cells[e]); f.t = times(realOf(fld(c, 2)), cellNormal(v, v.cells[e])); r.push_back(f); }
        if (c[0] == "PLOAD4") {
            int e = (int)intOf(fld(c, 2)), last = fld(c, 7) == "THRU" ? (int)intOf(fld(c, 8)) : e; double p = realOf(fld(c, 3)); for (int i = 4; i < 7; i++) vs_assert(fld(c, i).empty(), "uniform pressure");
            for (; e <= last; e++) { vs_assert(v.cells.count(e), "loaded element exists"); const CellV &cell = v.cells[e]; Face f = whole(cell); V3 n; size_t nc = corners(cell.kind);
                if (cell.kind < 300) n = cellNormal(v, cell); else {
                    vs_assert(!fld(c, 7).empty(), "a face of a solid is given by grid points"); int g1 = (int)intOf(fld(c, 7)), g3 = fld(c, 8).empty() ? 0 : (int)intOf(fld(c, 8)); int found = 0;
                    for (auto &face : facesOf(cell.kind)) { bool h1 = false, h3 = false; for (int i : face) { h1 = h1 || cell.nodes[i] == g1; h3 = h3 || cell.nodes[i] == g3; } if (!h1 || (nc == 4 ? !g3 || h3 : face.size() == 4 ? !g3 || !h3 : g3 != 0)) continue; found++; f.nodes.clear(); vector<V3> p; for (int i : face) { f.nodes.insert(cell.nodes[i]); p.push_back(v.coords[cell.nodes[i]]); } for (int i : edgeNodes(cell.kind, face)) f.nodes.insert(cell.nodes[i]); n = times(1, normalOf(p), -1); }
                    vs_assert(found == 1, "one face has the given grid points"); }
                vs_assert(fld(c, 9).empty() || fld(c, 9) == "0", "direction in the basic system"); V3 dir{{zeroIfAbsent(c, 10), zeroIfAbsent(c, 11), zeroIfAbsent(c, 12)}}; bool has = !fld(c, 10).empty() || !fld(c, 11).empty() || !fld(c, 12).empty();
                if (has) for (int j = 0; j < 3; j++) f.t[j] = p * dir[j]; else f.t = times(p, n);
                r.push_back(f); }
        }
    }
    return r;
}
static inline vector<pair<int, V6>> lineForces(View &v, int analysis, int index, int total) { // Systus: vectors of the 1D elements
    vector<pair<int, V6>> r; string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case");
    for (auto &e : (*a)["ELEMENTS"]) { if (e[3] == "0") continue; auto *l = a->row("LISTS", e[3]); vs_assert(l, "list exists");
        for (size_t i = 1; i + 1 < l->size(); i += 2) if ((*l)[i] == load) { auto *x = a->row("VECTORS", (*l)[i + 1]); vs_assert(x && x->size() >= 10 && (*x)[1] == "1" && (*x)[3] == "0", "load vector of an element"); V6 w; for (int j = 0; j < 6; j++) w[j] = 7 + j < (int)x->size() ? out::num((*x)[7 + j]) : 0; r.push_back({(int)intOf(e[0]), w}); } }
    return r;
}
static inline void samePressures(Fmt t, const vector<Face> &got, const vector<Face> &want) {
    for (auto &w : want) { int n = 0; V3 s{{0, 0, 0}}; for (auto &g : got) if (g.nodes == w.nodes) { n++; for (int j = 0; j < 3; j++) addTo(s[j], g.t[j]); } CHECK(t, n > 0, "a loaded face is loaded in the output"); if (n) for (int j = 0; j < 3; j++) CHECK(t, close(s[j], w.t[j]), "force per area on a face"); }
    for (auto &g : got) { bool ok = false; for (auto &w : want) ok = ok || w.nodes == g.nodes; CHECK(t, ok, "no other face is loaded"); }
}
}
