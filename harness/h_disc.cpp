// Springs and point masses.
#include "h_phys.h"
using namespace view; using std::vector; using std::string; using std::map;
static void mesh(Deck &d) {
    for (int i = 0; i < 8; i++) { auto c = d.card("GRID"); c(10 + i)()(double(i % 3) + (i > 5 ? 4. : 0.))(double(i / 3))(0.5 * (i > 3)); }
    d.card("CQUAD4")(1)(4)(10)(11)(14)(13); d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10)(11);
}
typedef map<std::pair<std::pair<int, int>, std::pair<int, int>>, double> Mat; // (node, component), (node, component) -> value
static void addM(Mat &m, int n, int i, int p, int j, double x) { auto k = std::make_pair(std::make_pair(n, i), std::make_pair(p, j)); if (k.second < k.first) std::swap(k.first, k.second); auto it = m.find(k); if (it == m.end()) m[k] = x; else it->second = it->second + x; }
static void spring(Mat &m, int n, int i, int p, int j, double k) { addM(m, n, i, n, i, k); addM(m, p, j, p, j, k); addM(m, n, i, p, j, -k); }
static void sameM(Fmt t, const Mat &a, const Mat &b, const char *label) {
    for (auto &x : a) { auto i = b.find(x.first); CHECK(t, close(x.second, i == b.end() ? 0. : i->second), label); } for (auto &x : b) if (!a.count(x.first)) CHECK(t, close(0., x.second), label);
}
// stiffness (or damping, 'A') of the elements written between two nodes
static Mat written(View &v, char what, int eid, const map<int, CellV> &cells) {
    Mat m; const vector<int> &n = cells.at(eid).nodes; if (n.size() != 2) return m;
    if (v.t < ASTER) for (auto &c : v.nas->all) {
        if (what == 'K' && c[0] == "CELAS2" && fld(c, 1) == std::to_string(eid)) { int i = (int)intOf(fld(c, 4)), j = (int)intOf(fld(c, 6)); vs_assert(i >= 1 && i <= 6 && j >= 1 && j <= 6, "components of a spring"); spring(m, (int)intOf(fld(c, 3)), i - 1, (int)intOf(fld(c, 5)), j - 1, realOf(fld(c, 2))); }
        if (c[0] == "CBUSH" && fld(c, 1) == std::to_string(eid)) { int found = 0; for (auto &p : v.nas->of("PBUSH")) if (fld(p, 1) == fld(c, 2)) { found++; for (size_t i = 2; i < p.size(); i++) { if (p[i].empty()) continue; vs_assert(i % 8 == 2, "a PBUSH flag is in field 3"); if (p[i][0] == what || (what == 'A' && p[i] == "B")) for (size_t j = 0; j < 6; j++) { double k = fld(p, i + 1 + j).empty() ? 0. : realOf(fld(p, i + 1 + j)); spring(m, n[0], (int)j, n[1], (int)j, k); } i += 6; } } vs_assert(found == 1, "a CBUSH has one PBUSH"); }
    }
    if (v.t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); for (auto *f : c[0]->args.factors("DISCRET")) if (covers(v, f, eid)) {
        auto *ca = f->get("CARA"), *va = f->get("VALE"); string s = ca ? ca->text : ""; vs_assert(va && s.size() > 4, "DISCRET has CARA and VALE"); if (s[0] != what) continue; bool rot = s.compare(1, 4, "_TR_") == 0, diag = s.find("_D_") != string::npos; vs_assert(s.back() == 'L', "a discrete element with two nodes"); size_t nc = rot ? 6 : 3, want = diag ? nc : nc * (2 * nc + 1); vs_assert(va->items.size() == want, "number of values of a DISCRET"); vs_assert(!f->get("SYME"), "symmetric matrix");
        string mod; for (auto *a : v.comm->of("AFFE_MODELE")) for (auto *g : a->args.factors("AFFE")) if (covers(v, g, eid)) for (auto &x : g->strings("MODELISATION")) mod = x; vs_assert(mod == (rot ? "DIS_TR" : "DIS_T"), "model of a discrete element");
        if (diag) for (size_t i = 0; i < nc; i++) spring(m, n[0], (int)i, n[1], (int)i, out::real(&va->items[i])); else { size_t k = 0; for (size_t j = 0; j < 2 * nc; j++) for (size_t i = 0; i <= j; i++) addM(m, n[i / nc], int(i % nc), n[j / nc], int(j % nc), out::real(&va->items[k++])); } } }
    if (v.t == SYSTUS && what == 'K') { auto *row = ascMat(v, eid); vs_assert(row, "material of the element"); string kw = v.cells[eid].kw; static const char *keys[] = {"31", "32", "33", "14", "15", "16"};
        if (kw == "1602") for (int j = 0; j < 6; j++) spring(m, n[0], j, n[1], j, ascVal(*row, keys[j])); else { vs_assert(kw == "1902", "type of a spring"); auto *tab = ascKey(*row, "26"); auto *t = tab ? v.asc->row("TABLES", *tab) : nullptr; vs_assert(t, "table of the spring"); for (size_t i = 2; i + 1 < t->size(); i += 2) { const string &s = (*t)[i]; vs_assert(s.size() == 4, "key of a table"); addM(m, n[s[0] - '1'], s[2] - '1', n[s[1] - '1'], s[3] - '1', out::num((*t)[i + 1])); } } }
    return m;
}
VS_HARNESS(scalar_springs) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 3), i = vs_choose("component", 6), j = vs_choose("other component", 6), other = vs_choose("second spring", 4); bool order = vs_choose("order", 2); if (kind == 1 && j != i) return; // grounded springs
    mesh(d); string m0 = d.bulk; d.bulk.clear(); double k[3]; for (int e = 0; e < 3; e++) k[e] = vs_dyadic(vs_name("k", e).c_str(), 1 + 10000 * e, 8000 + 10000 * e, 3);
    struct S { int eid, n, i, p, j; double k; }; vector<S> s = {{21, 12, i, 16, j, k[0]}}; int i2 = other == 0 ? i : other == 1 ? (i + 1) % 6 : other == 2 ? (i + 3) % 6 : i, j2 = other == 3 ? (j + 1) % 6 : other == 0 ? j : i2; s.push_back({22, 15, i2, 17, j2, kind == 2 ? k[0] : k[1]}); s.push_back({5, 12, 2, 14, 2, k[2]});
    if (kind == 1) { s[0].p = s[1].p = 0; s[0].j = i; s[1].j = i2; }
    for (auto &x : s) { bool elas1 = kind == 2 && x.eid != 5; auto c = d.card(elas1 ? "CELAS1" : "CELAS2"); c(x.eid); if (elas1) c(30); else c(x.k); c(x.n)(x.i + 1); if (x.p) c(x.p)(x.j + 1); } if (kind == 2) d.card("PELAS")(30)(k[0]);
    d.bulk = order ? d.bulk + m0 : m0 + d.bulk; d.caseControl = "SPC=2\n"; View v; translate(d, t, v); auto cells = v.cells; vector<int> ground;
    if (t < ASTER) for (auto &c : v.nas->of("CELAS2")) { CellV e; e.id = (int)intOf(fld(c, 1)); vs_assert(!cells.count(e.id), "one element per spring"); e.nodes = {(int)intOf(fld(c, 3)), (int)intOf(fld(c, 5))}; cells[e.id] = e; }
    CHECK(t, cells.size() == 4, "each spring is one element");
    for (auto &x : s) { CHECK(t, cells.count(x.eid), "the spring keeps its id"); auto &n = cells[x.eid].nodes; CHECK(t, n.size() == 2 && (n[0] == x.n || n[1] == x.n), "nodes of the spring"); int p = n[0] == x.n ? n[1] : n[0]; if (x.p) CHECK(t, p == x.p, "nodes of the spring"); else { CHECK(t, (p < 10 || p > 17) && v.coords.count(p), "a grounded spring has a point of its own"); ground.push_back(p); }
        Mat want; spring(want, x.n, x.i, p, x.j, x.k); sameM(t, written(v, 'K', x.eid, cells), want, "stiffness of a spring"); }
    vs_reach(tname[t]);
}
VS_HARNESS(bushes) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int given = vs_choose("given", 8), cont = vs_choose("damping", 3), side = vs_choose("orientation", 3), shared = vs_choose("property", 2); bool order = vs_choose("order", 2);
    mesh(d); string m0 = d.bulk; d.bulk.clear(); double k[2][6], b[2][6]; for (int e = 0; e < 2; e++) for (int j = 0; j < 6; j++) { bool on = given < 6 ? j == given : given == 6 ? true : j != 2 && j != 4; k[e][j] = on ? vs_dyadic(vs_name("k", e, j).c_str(), 1 + 1000 * j, 1000 + 1000 * j, 3) : 0; b[e][j] = cont && (cont == 2 || j % 2 == e) ? vs_dyadic(vs_name("b", e, j).c_str(), 1 + 1000 * j, 1000 + 1000 * j, 3) : 0; }
    static const int el[] = {27, 3}, nodes[2][2] = {{12, 16}, {17, 15}}; for (int e = 0; e < 2; e++) { auto c = d.card("CBUSH"); c(el[e])(shared ? 31 : 31 - e)(nodes[e][0])(nodes[e][1]); if (side == 1) c(0.)(0.)(1.); if (side == 2) c()()()(0); }
    for (int e = 0; e < (shared ? 1 : 2); e++) { auto c = d.card("PBUSH"); c(31 - e)("K"); for (int j = 0; j < 6; j++) if (k[e][j] > 0) c(k[e][j]); else c(); if (cont) { c()("B"); for (int j = 0; j < 6; j++) if (b[e][j] > 0) c(b[e][j]); else c(); } }
    d.bulk = order ? d.bulk + m0 : m0 + d.bulk; d.caseControl = "SPC=2\n"; View v; translate(d, t, v); CHECK(t, v.cells.size() == 3, "each bush is one element");
    for (int e = 0; e < 2; e++) { CHECK(t, v.cells.count(el[e]) && v.cells[el[e]].nodes == vector<int>({nodes[e][0], nodes[e][1]}), "nodes of a bush"); int q = shared ? 0 : e; Mat want, damp; for (int j = 0; j < 6; j++) { spring(want, nodes[e][0], j, nodes[e][1], j, k[q][j]); spring(damp, nodes[e][0], j, nodes[e][1], j, b[q][j]); } sameM(t, written(v, 'K', el[e], v.cells), want, "stiffness of a bush"); if (t != SYSTUS) sameM(t, written(v, 'A', el[e], v.cells), damp, "damping of a bush"); }
    vs_reach(tname[t]);
}
VS_HARNESS(point_masses) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int what[2] = {vs_choose("first", 5), vs_choose("second", 5)}; int wt = vs_choose("WTMASS", 3); bool order = vs_choose("order", 2), same = vs_choose("same node", 2); double w = wt == 0 ? 1 : wt == 1 ? 0.25 : 3.5;
    if (t == SYSTUS && (what[0] % 2 || what[1] % 2 || what[0] == 4 || what[1] == 4)) return; // 0 mass, 1 offset, 2 moments, 3 offset and inertia, 4 inertia
    mesh(d); string m0 = d.bulk; d.bulk.clear(); static const int el[] = {41, 7}; int node[2] = {14, same ? 14 : 16}; double m[2], x[2][3], I[2][6];
    for (int e = 0; e < 2; e++) { int q = what[e]; m[e] = vs_dyadic(vs_name("m", e).c_str(), 1, 900, 3); for (int j = 0; j < 3; j++) x[e][j] = q == 1 || q == 3 ? vs_dyadic(vs_name("x", e, j).c_str(), 1, 900, 3) : 0; for (int j = 0; j < 6; j++) I[e][j] = q > 2 || (q == 2 && (j == 0 || j == 2 || j == 5)) ? vs_dyadic(vs_name("I", e, j).c_str(), 1000 * (j + 1), 1000 * (j + 1) + 900, 3) : 0;
        auto c = d.card("CONM2"); c(el[e])(node[e]); if (order) c(0); else c(); c(m[e]); if (q) { for (int j = 0; j < 3; j++) if (x[e][j] != 0) c(x[e][j]); else c(); if (q > 1) { c(); for (int j = 0; j < 6; j++) if (I[e][j] != 0) c(I[e][j]); else c(); } } } // I11 I21 I22 I31 I32 I33
    if (wt) d.card("PARAM")("WTMASS")(w); d.bulk = order ? d.bulk + m0 : m0 + d.bulk; d.caseControl = "SPC=2\n"; View v; translate(d, t, v);
    for (int e = 0; e < 2; e++) { double gm = 0, gx[3] = {0, 0, 0}, gI[6] = {0, 0, 0, 0, 0, 0}; int n = 0;
        if (t < ASTER) for (auto &c : v.nas->of("CONM2")) if (fld(c, 1) == std::to_string(el[e])) { n++; CHECK(t, intOf(fld(c, 2)) == node[e] && (fld(c, 3).empty() || fld(c, 3) == "0"), "node of a point mass"); gm = realOf(fld(c, 4)); for (int j = 0; j < 3; j++) gx[j] = zeroIfAbsent(c, 5 + j); for (int j = 0; j < 6; j++) gI[j] = zeroIfAbsent(c, 9 + j); }
        if (t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); for (auto *f : c.at(0)->args.factors("DISCRET")) if (covers(v, f, el[e])) { n++; auto &ce = v.cells[el[e]]; CHECK(t, ce.nodes == vector<int>(1, node[e]), "node of a point mass"); auto *va = f->get("VALE"); string s = f->get("CARA")->text; bool tr = s == "M_TR_D_N"; vs_assert(tr || s == "M_T_D_N", "a point mass"); vs_assert(!tr || va->items.size() == 10, "ten values of a point mass"); gm = va->list ? out::real(&va->items[0]) : out::real(va); if (tr) { static const int at[] = {1, 4, 2, 6, 5, 3}; for (int j = 0; j < 6; j++) { gI[j] = out::real(&va->items[at[j]]); if (j == 1 || j == 3 || j == 4) gI[j] = -gI[j]; } for (int j = 0; j < 3; j++) gx[j] = out::real(&va->items[7 + j]); }
            string mod; for (auto *a : v.comm->of("AFFE_MODELE")) for (auto *g : a->args.factors("AFFE")) if (covers(v, g, el[e])) for (auto &y : g->strings("MODELISATION")) mod = y; vs_assert(mod == (tr ? "DIS_TR" : "DIS_T"), "model of a point mass"); } }
        if (t == SYSTUS) { auto &rows = (*v.asc)["MASSES"]; vs_assert(rows.size() == 2, "a line for each mass"); for (auto &r : rows) { vs_assert(r.size() >= 6 && r[0] == "VALUES", "line of a mass"); size_t nv = (size_t)intOf(r[1]); vs_assert(r.size() == nv + 3 && (nv == 3 || nv == 6), "line of a mass"); if (intOf(r[nv + 2]) != node[e] || (same && &r != &rows[e])) continue; n++; gm = out::num(r[2]); vs_assert(r[3] == r[2] && r[4] == r[2], "the mass is the same in all directions"); if (nv == 6) { gI[0] = out::num(r[5]); gI[2] = out::num(r[6]); gI[5] = out::num(r[7]); } } }
        CHECK(t, n == 1, "a point mass is written once"); CHECK(t, close(gm, w * m[e]), "mass of a point mass"); for (int j = 0; j < 3; j++) CHECK(t, close(gx[j], x[e][j]), "offset of a point mass"); for (int j = 0; j < 6; j++) CHECK(t, close(gI[j], w * I[e][j]), "inertia of a point mass"); }
    vs_reach(tname[t]);
}
