// Pressures on shells and on faces of solids, line loads, pressures given by grid points.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
static map<int, V3> pos;
static void grid(Deck &d, int id, V3 p) { pos[id] = p; auto c = d.card("GRID"); c(id)(); for (int j = 0; j < 3; j++) c(p[j]); }
static V3 mid(const V3 &a, const V3 &b) { return {(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2}; }
static Face face(const vector<int> &nodes) { Face f; f.nodes.insert(nodes.begin(), nodes.end()); return f; }
// one property of each kind
VS_HARNESS(press_shells) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int el = vs_choose("element", 4), card = vs_choose("card", 4), lst = vs_choose("list", 3), other = vs_choose("other", 3), cases = 1 + vs_choose("subcases", 2); bool flip = vs_choose("numbering", 2), order = vs_choose("order", 2);
    static const char *kw[] = {"CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8"}; int nc = el % 2 ? 4 : 3; bool neg = vs_choose("negative", 2); double p = card == 3 ? (neg ? -2.5 : 2.5) : vs_dyadic("p", neg ? -80000 : 1, neg ? -1 : 80000, 3), q = vs_dyadic("q", 1, 80000, 3), n[3] = {0, 0, 0}; pos.clear(); vector<vector<int>> cells;
    for (int e = 0; e < 3; e++) { // three plates in three planes
        vector<int> ids; vector<V3> c; for (int i = 0; i < nc; i++) { double a = i == 1 || i == 2 ? 2 : 0, b = i >= 2 ? 2 : 0; if (nc == 3 && i == 2) a = 0; V3 x; x[e] = 3. + e; x[(e + 1) % 3] = a + 10 * e; x[(e + 2) % 3] = b; c.push_back(x); }
        if (flip) std::reverse(c.begin(), c.end());
        for (int i = 0; i < nc; i++) { grid(d, 100 * e + 10 + i, c[i]); ids.push_back(100 * e + 10 + i); } if (el >= 2) for (int i = 0; i < nc; i++) { grid(d, 100 * e + 30 + i, mid(c[i], c[(i + 1) % nc])); ids.push_back(100 * e + 30 + i); }
        auto k = d.card(kw[el]); k(e + 4)(4); for (int i : ids) k(i); cells.push_back(ids);
    }
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10); string m = d.bulk; d.bulk.clear();
    set<int> on = lst == 0 ? set<int>{1} : lst == 1 ? set<int>{0, 2} : set<int>{0, 1, 2};
    if (card == 0) { auto c = d.card("PLOAD2"); c(5)(p); if (lst == 0) c(5); if (lst == 1) c(4)(6); if (lst == 2) c(4)("THRU")(6); }
    else for (int k = 0; k < 3; k++) if (on.count(k)) { if (lst == 2 && k) break; auto c = d.card("PLOAD4"); c(5)(k + 4)(p)()()(); if (lst == 2) c("THRU")(6); else if (card > 1) c()();
        if (card > 1) { V3 N{{0, card == 2 ? 0. : 3., -4}}; c(0); for (int j = 0; j < 3; j++) { c(N[j]); n[j] = N[j] / (card == 2 ? 4. : 5.); } } }
    if (other) { d.card("PLOAD2")(6)(q)(5); if (other == 2) d.card("LOAD")(8)(1.)(1.)(5)(2.)(6); }
    d.bulk = order ? d.bulk + m : m + d.bulk;
    bool both = other == 2 && !on.count(1); if (other == 2 && !both) return; // two pressures on one element are not covered
    static const int ids[] = {2, 3}; int loadOf[] = {both ? 8 : 5, other ? 6 : 5};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += "LOAD=" + std::to_string(loadOf[k]) + "\nSPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        vector<Face> want; auto nrm = [&](int e) { vector<V3> c; for (int i = 0; i < nc; i++) c.push_back(pos[cells[e][i]]); return normalOf(c); };
        if (loadOf[k] != 6) for (int e : on) { Face f = face(cells[e]); f.t = card > 1 ? times(p, {n[0], n[1], n[2]}) : times(p, nrm(e)); want.push_back(f); }
        if (loadOf[k] != 5) { Face f = face(cells[1]); f.t = times(loadOf[k] == 8 ? 2 * q : q, nrm(1)); want.push_back(f); }
        auto got = pressures(v, cases > 1 ? ids[k] : 1, k, cases); samePressures(t, got, want);
    }
    vs_reach(tname[t]);
}
VS_HARNESS(press_solids) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int el = vs_choose("element", 6), which = vs_choose("face", el / 2 == 0 ? 4 : el / 2 == 1 ? 5 : 6), start = vs_choose("first corner", 4), dir = vs_choose("direction", 4); bool twice = vs_choose("second face", 2);
    static const char *kw[] = {"CTETRA", "CPENTA", "CHEXA"}; static const int kinds[] = {304, 310, 306, 315, 308, 320}; int kind = kinds[el], nc = (int)corners(kind); pos.clear();
    static const V3 T[] = {{{0, 0, 0}}, {{2, 0, 0}}, {{0, 2, 0}}, {{0, 0, 2}}}, W[] = {{{0, 0, 0}}, {{2, 0, 0}}, {{0, 2, 0}}, {{0, 0, 2}}, {{2, 0, 2}}, {{0, 2, 2}}}, X[] = {{{0, 0, 0}}, {{2, 0, 0}}, {{2, 2, 0}}, {{0, 2, 0}}, {{0, 0, 2}}, {{2, 0, 2}}, {{2, 2, 2}}, {{0, 2, 2}}};
    const V3 *at = nc == 4 ? T : nc == 6 ? W : X; vector<int> ids; for (int i = 0; i < nc; i++) { ids.push_back(20 + i * 7 % 11); grid(d, ids[i], at[i]); }
    if (el % 2) { vector<int> m(kind % 100 - nc); for (auto &f : facesOf(kind)) { auto e = edgeNodes(kind, f); for (size_t i = 0; i < f.size(); i++) m[e[i] - nc] = 1 + 100 * (f[i] < f[(i + 1) % f.size()] ? f[i] : f[(i + 1) % f.size()]) + (f[i] < f[(i + 1) % f.size()] ? f[(i + 1) % f.size()] : f[i]); }
        for (int &x : m) { int a = (x - 1) / 100, b = (x - 1) % 100; int id = 200 + (int)(&x - &m[0]); grid(d, id, mid(at[a], at[b])); ids.push_back(id); } }
    { auto c = d.card(kw[el / 2]); c(3)(4); for (int i : ids) c(i); }
    d.card("PSOLID")(4)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123")(ids[0]);
    double p = dir == 3 ? 2.5 : vs_dyadic("p", 1, 80000, 3), q = vs_dyadic("q", 800001, 900000, 3); vector<Face> want; if (start >= (int)facesOf(kind)[which].size()) return;
    auto load = [&](int f, double x, bool vec) {
        auto fc = facesOf(kind)[f]; int g1 = fc[start % fc.size()], g3 = fc.size() == 4 ? fc[(start + 2) % 4] : -1; if (nc == 4) for (int i = 0; i < 4; i++) if (std::find(fc.begin(), fc.end(), i) == fc.end()) g3 = i;
        auto c = d.card("PLOAD4"); c(5)(3)(x)()()()(ids[g1]); if (g3 >= 0) c(ids[g3]); else c(); V3 N{{0, 0, 0}}; if (vec) { N = dir == 1 ? V3{{0, 1, 0}} : dir == 2 ? V3{{0, 0, -4}} : V3{{0, 3, -4}}; c(0); for (int j = 0; j < 3; j++) c(N[j]); if (dir == 2) N[2] = -1; if (dir == 3) N = {0, 0.6, -0.8}; }
        Face w; vector<V3> cs; for (int i : fc) { w.nodes.insert(ids[i]); cs.push_back(at[i]); } for (int i : edgeNodes(kind, fc)) w.nodes.insert(ids[i]); w.t = vec ? times(x, N) : times(x, normalOf(cs), -1); want.push_back(w);
    };
    load(which, p, dir > 0); if (twice) load((which + 1) % facesOf(kind).size(), q, false);
    d.caseControl = "LOAD=5\nSPC=2\n"; View v; translate(d, t, v); samePressures(t, pressures(v, 1, 0, 1), want); vs_reach(tname[t]);
}
// PLOAD: pressure on a triangle or parallelogram of grid points
VS_HARNESS(press_points) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int n = 3 + vs_choose("corners", 2), axis = vs_choose("axis", 3), start = vs_choose("first corner", n), skew = vs_choose("skew", 2), more = vs_choose("more", 4), kind = vs_choose("combination", 2); bool flip = vs_choose("numbering", 2), order = more == 0 && vs_choose("order", 2), neg = more == 0 && vs_choose("negative", 2); if (more && (skew || axis)) return; pos.clear();
    double p = vs_dyadic("p", neg ? -80000 : 1, neg ? -1 : 80000, 3), L = vs_choose("length", 2) ? 3. : 0.5, s = kind ? 2.5 : 1.; vector<int> ids; vector<V3> c; V3 N{{0, 0, 0}}; N[axis] = flip ? -1 : 1;
    for (int i = 0; i < n; i++) { V3 x; x[axis] = 3; x[(axis + 1) % 3] = (i == 1 || (i == 2 && n == 4) ? 2 : 0) + (skew && i >= 2 ? 1 : 0) - 7; x[(axis + 2) % 3] = i >= 2 ? L : 0.; c.push_back(x); }
    if (flip) std::reverse(c.begin(), c.end()); for (int i = 0; i < n; i++) { ids.push_back(i * 7 % 11 + 20); grid(d, ids[i], c[i]); }
    static const V3 B[] = {{{0, 0, 0}}, {{1, 0, 0}}, {{1, 1, 0}}, {{0, 1, 0}}}; for (int i = 0; i < 4; i++) grid(d, i + 1, B[i]); d.card("CQUAD4")(5)(4)(1)(2)(3)(4); for (int i = 0; i < n; i++) { auto k = d.card("CTRIA3"); k(i + 6)(4)(1)(2)(ids[i]); }
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(1); string m = d.bulk; d.bulk.clear();
    { auto k = d.card("PLOAD"); k(5)(p); for (int i = 0; i < n; i++) k(ids[(start + i) % n]); } double q = vs_dyadic("q", 8000001, 9000000, 3), f = n == 3 ? 6 : 4; map<int, V6> want;
    for (int i : ids) { V6 w; w.fill(0); w[axis] = s * ((N[axis] * (2 * L / f)) * p); want[i] = w; }
    if (more == 1) { d.card("FORCE")(5)(ids[0])()(1.)(q)(0.)(0.); addTo(want[ids[0]][0], s * q); }
    if (more == 2) { d.card("PLOAD")(5)(q)(1)(2)(3)(4); for (int i = 1; i < 5; i++) { V6 w; w.fill(0); w[2] = s * (q / 4); want[i] = w; } }
    if (more == 3) { d.card("PLOAD")(6)(q)(1)(2)(3)(4); }
    if (kind) d.card("LOAD")(8)(2.5)(1.)(5);
    d.bulk = order ? d.bulk + m : m + d.bulk; d.caseControl = kind ? "LOAD=8\nSPC=2\n" : "LOAD=5\nSPC=2\n"; View v; translate(d, t, v); sameNodal(t, nodal(v, 1, 0, 1), want); vs_reach(tname[t]);
}
// PLOAD1: loads along bars. Per bar: component, scale, positions, values
struct Line1 { int eid; string type, scale; double x1, p1, x2, p2; };
VS_HARNESS(press_lines) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); if (t == ASTER) return; int el = vs_choose("element", 2), type = vs_choose("type", 6), span = vs_choose("span", t == SYSTUS ? 1 : 3), scale = t == SYSTUS ? 0 : vs_choose("scale", 2), shape = t == SYSTUS ? 0 : vs_choose("shape", 3), comb = vs_choose("combination", 3), two = vs_choose("two bars", 2); bool order = vs_choose("order", 2);
    static const char *types[] = {"FX", "FY", "FZ", "MX", "MY", "MZ"}, *names[] = {"CBAR", "CBEAM"}; double p = vs_dyadic("p", 1, 80000, 3), q = vs_dyadic("q", 800001, 900000, 3), p2 = shape == 0 ? p : vs_dyadic("p2", -80000, -1, 3), x1 = span == 1 ? 0.25 : 0., x2 = span == 0 ? 1. : 0.75; pos.clear();
    for (int i = 0; i < 4; i++) grid(d, 10 * i + 10, V3{{double(i), double(i == 2), 0.}}); for (int e = 0; e < 3; e++) d.card(names[el])(e + 1)(4)(10 * e + 10)(10 * e + 20)(0.)(0.)(1.);
    d.card(el ? "PBEAM" : "PBAR")(4)(9)(2.)(3.)(4.)(5.); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10); string m = d.bulk; d.bulk.clear(); double a1 = shape == 2 ? 0. : p;
    vector<Line1> L5, L6; auto line = [&](int sid, Line1 l) { d.card("PLOAD1")(sid)(l.eid)(l.type)(l.scale)(l.x1)(l.p1)(l.x2)(l.p2); (sid == 5 ? L5 : L6).push_back(l); };
    line(5, {2, types[type], scale ? "LE" : "FR", x1, a1, x2, p2}); if (two) line(5, {1, types[(type + 1) % 6], "FR", 0., q, 1., q});
    if (comb) { line(6, {3, "FY", "FR", 0., q, 1., q}); d.card("LOAD")(8)(1.)(2.5)(5)(1.)(6); }
    d.bulk = order ? d.bulk + m : m + d.bulk; int cases = comb == 2 ? 2 : 1; static const int loads[] = {8, 5}; for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(k + 2) + "\n"; d.caseControl += "LOAD=" + std::to_string(comb ? loads[k] : 5) + "\nSPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        vector<Line1> want = L5; if (comb && k == 0) { for (auto &l : want) { l.p1 = l.p1 == 0 ? 0. : 2.5 * l.p1; l.p2 = 2.5 * l.p2; } for (auto &l : L6) want.push_back(l); }
        if (t == SYSTUS) {
            set<int> seen; for (auto &f : lineForces(v, cases > 1 ? k + 2 : 1, k, cases)) { bool ok = false; for (auto &l : want) if (l.eid == f.first) { ok = true; V6 w; w.fill(0); for (int j = 0; j < 6; j++) if (l.type == types[j]) w[j] = l.p1; for (int j = 0; j < 6; j++) CHECK(t, close(f.second[j], w[j]), "force per length of a bar"); } CHECK(t, ok && seen.insert(f.first).second, "only the loaded bars are loaded, once"); } CHECK(t, seen.size() == want.size(), "every loaded bar is loaded"); continue;
        }
        auto cc = caseOf(v.text, cases > 1 ? k + 2 : 1); vector<bool> used(want.size()); size_t n = 0;
        for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &c : v.nas->all) if (c[0] == "PLOAD1" && fld(c, 1) == std::to_string(ls.first)) { n++; bool ok = false;
            for (size_t i = 0; i < want.size(); i++) if (!used[i] && intOf(fld(c, 2)) == want[i].eid && fld(c, 3) == want[i].type) { auto &l = want[i]; used[i] = ok = true; CHECK(t, fld(c, 4) == l.scale, "scale of a bar load"); CHECK(t, close(realOf(fld(c, 5)), l.x1) && close(realOf(fld(c, 7)), l.x2), "positions of a bar load"); CHECK(t, close(ls.second == 1 ? zeroIfAbsent(c, 6) : ls.second * zeroIfAbsent(c, 6), l.p1), "first value of a bar load"); CHECK(t, close(ls.second == 1 ? zeroIfAbsent(c, 8) : ls.second * zeroIfAbsent(c, 8), l.p2), "second value of a bar load"); break; }
            CHECK(t, ok, "no other bar load"); }
        CHECK(t, n == want.size(), "every bar load is written");
    }
    vs_reach(tname[t]);
}
