// Constraints in the displacement frame (GRID CD) of the grid points.
#include "h_mpc_rel.h"
typedef std::array<double, 3> V3;
static V3 nrm(V3 a) { double l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); for (auto &x : a) x /= l; return a; }
static V3 cross(const V3 &a, const V3 &b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static const V3 Z[5] = {{{0, 0, 4}}, {{3, 4, 0}}, {{-1, 2, 2}}, {{0, 0, -0.25}}, {{1, 1, 1}}}, X[5] = {{{2, 0, 3}}, {{0, 0, 2}}, {{5, 1, 0}}, {{-1, -1, 7}}, {{1, -2, 3}}};
static void axesOf(int s, V3 *e) { e[2] = nrm(Z[s]); e[1] = nrm(cross(Z[s], X[s])); e[0] = cross(e[1], e[2]); }
static void cord(Deck &d, const char *kw, int id, int rid, const V3 &o, int s) { auto c = d.card(kw); c(id); if (rid) c(rid); else c(); for (int g = 0; g < 3; g++) for (int j = 0; j < 3; j++) c(o[j] + (g == 1 ? Z[s][j] : g == 2 ? X[s][j] : 0.)); }
// the frame of the nodes: kind 0 CORD2R, 1 CORD2C, 2 and 3 the same in a CORD2R; u = its axes at a point
struct Frame { int kind; V3 o, e[3]; };
static Frame makeFrame(Deck &d, int kind, int shape) {
    Frame f; f.kind = kind; V3 o{{2.5, -1.5, 0.75}}, po{{1.5, 2., -3.}}, q[3], pe[3]; axesOf(shape, q); f.o = o; for (int k = 0; k < 3; k++) f.e[k] = q[k];
    if (kind > 1) { int s = (shape + 1) % 5; axesOf(s, pe); cord(d, "CORD2R", 9, 0, po, s); f.o = po; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) f.o[j] += o[i] * pe[i][j]; for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) { f.e[k][j] = 0; for (int i = 0; i < 3; i++) f.e[k][j] += q[k][i] * pe[i][j]; } }
    cord(d, kind & 1 ? "CORD2C" : "CORD2R", 12, kind > 1 ? 9 : 0, o, shape); return f;
}
static void axesAt(const Frame &f, const V3 &x, V3 *u) {
    for (int k = 0; k < 3; k++) u[k] = f.e[k]; if (!(f.kind & 1)) return; V3 r; double h = 0; for (int j = 0; j < 3; j++) h += (x[j] - f.o[j]) * f.e[2][j]; for (int j = 0; j < 3; j++) r[j] = x[j] - f.o[j] - h * f.e[2][j]; u[0] = nrm(r); u[1] = cross(f.e[2], u[0]);
}
static void meshCd(Deck &d, const set<int> &local, bool grdset, const char *ps = nullptr, int psNode = 0) {
    if (grdset) { auto c = d.card("GRDSET"); c()()()()()(12); }
    for (auto &p : pos) { auto c = d.card("GRID"); c(p.first)()(p.second[0])(p.second[1])(p.second[2]); if (grdset) { if (!local.count(p.first)) c(0); else if (ps && p.first == psNode) c(); } else if (local.count(p.first)) c(12); else if (ps && p.first == psNode) c(); if (ps && p.first == psNode) c(ps); }
    for (int e = 0; e < 2; e++) d.card("CQUAD4")(e + 1)(4)(10 + 20 * e)(20 + 20 * e)(40 + 20 * e)(30 + 20 * e);
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("FORCE")(5)(10)(0)(1.)(1.)(2.)(3.);
}
static int nearly(double a, double b) { return int(a - b < 1e-3) & int(b - a < 1e-3); }
// a relation of the output, reduced to its non-zero terms, is the wanted one up to its sign; the right hand side may be symbolic
static int sameLin(const Lin &g, const Lin &w) {
    int any = 0; for (int s = 1; s >= -1; s -= 2) { int ok = 1; for (auto &x : w.coef) { auto i = g.coef.find(x.first); ok &= nearly(i == g.coef.end() ? 0 : i->second, s * x.second); } for (auto &x : g.coef) if (!w.coef.count(x.first)) ok &= nearly(x.second, 0); any |= ok & int(g.rhs == s * w.rhs); } return any;
}
static bool sameShape(const Lin &g, const Lin &w) { Lin a = g, b = w; a.rhs = b.rhs = 0; return sameLin(a, b); }
static void matchAll(Fmt t, const vector<Lin> &got, const vector<Lin> &want) {
    for (auto &w : want) { int n = 0; const Lin *m = nullptr; for (auto &g : got) if (sameShape(g, w)) { n++; m = &g; } CHECK(t, n == 1, "the relation of each constrained component is written once, along the axes of the grid point"); if (n == 1) CHECK(t, sameLin(*m, w), "value of the constrained component"); }
    CHECK(t, got.size() == want.size(), "no other relation is written");
}
// Systus: the frame of a node
static void checkFrame(View &v, int analysis, int total, int node, const V3 *u) {
    string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case"); auto *n = a->row("NODES", std::to_string(node)); vs_assert(n, "node is written");
    if (!u) { CHECK(v.t, (*n)[3] == "0", "a grid point without CD has no frame"); return; }
    auto *w = a->row("VECTORS", (*n)[3]); CHECK(v.t, w != nullptr, "the grid point has the frame of its CD"); if (!w) return; size_t k = w->size(); double p = out::num((*w)[k - 3]), q = out::num((*w)[k - 2]), r = out::num((*w)[k - 1]);
    double cp = std::cos(p), sp = std::sin(p), cq = std::cos(q), sq = std::sin(q), cr = std::cos(r), sr = std::sin(r);
    double R[3][3] = {{cp * cq, cp * sq * sr - sp * cr, cp * sq * cr + sp * sr}, {sp * cq, sp * sq * sr + cp * cr, sp * sq * cr - cp * sr}, {-sq, cq * sr, cq * cr}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(v.t, nearly(R[j][i], u[i][j]), "the frame of the grid point has the axes of its CD");
}
VS_HARNESS(frame_constraints) {
    pos.clear(); for (int i = 0; i < 6; i++) pos[10 * (i + 1)] = {double(i % 2), double(i / 2), 0.};
    Deck d; Fmt t = vs_choose("target", 2) ? SYSTUS : ASTER; int kind = vs_choose("frame", 4), shape = vs_choose("shape", 5), how = vs_choose("card", 5), comps = vs_choose("components", 5), cases = 1 + vs_choose("subcases", 2); bool grdset = vs_choose("GRDSET", 2), order = vs_choose("order", 2);
    static const char *codes[] = {"1", "23", "46", "123456", "135"}; string code = codes[comps]; double a = how == 2 || how == 3 ? vs_dyadic("a", 8, 8000, 3) : 0, b = how == 3 ? vs_dyadic("b", 8001, 16000, 3) : 0;
    Frame f = makeFrame(d, kind, shape); string sys = d.bulk; d.bulk.clear(); set<int> local{30, 60, 50}; map<int, map<ND, double>> want; // by analysis, in the frame of the node
    meshCd(d, local, grdset, how == 4 ? code.c_str() : nullptr, 30);
    auto add = [&](int k, int n, const string &c, double x) { for (char q : c) want[k][{n, q - '1'}] = x; };
    if (how == 0) { d.card("SPC1")(2)(code)(30)(60); add(0, 30, code, 0); add(0, 60, code, 0); }
    if (how == 1) { d.card("SPC1")(3)(code)(60); d.card("SPC1")(4)("3")(20); d.card("SPCADD")(2)(3)(4); add(0, 60, code, 0); add(0, 20, "3", 0); }
    if (how == 2) { d.card("SPC")(2)(30)(code)(a); add(0, 30, code, a); }
    if (how == 3) { d.card("SPC")(2)(30)(code)(a)(60)("24")(b); add(0, 30, code, a); add(0, 60, "24", b); }
    if (how == 4) { d.card("SPC1")(2)("12")(40); add(0, 40, "12", 0); add(0, 30, code, 0); add(1, 30, code, 0); }
    d.card("SPC1")(8)("345")(60)(20); add(1, 60, "345", 0); add(1, 20, "345", 0);
    d.bulk = order ? d.bulk + sys : sys + d.bulk; d.caseControl = cases == 1 ? "LOAD=5\nSPC=2\n" : "LOAD=5\nSUBCASE 1\nSPC=2\nSUBCASE 3\nSPC=8\n";
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        int id = k ? 3 : 1; auto got = bc(v, id, k, cases);
        if (t == SYSTUS) { sameBc(t, got, want[k]); for (auto &p : pos) { V3 u[3]; axesAt(f, p.second, u); checkFrame(v, id, cases, p.first, local.count(p.first) ? u : nullptr); } continue; }
        auto rel = relations(v, id, k, cases); map<ND, double> basic; vector<Lin> lin;
        for (auto &w : want[k]) if (!local.count(w.first.first)) basic[w.first] = w.second; else { V3 u[3]; axesAt(f, pos[w.first.first], u); Lin l; l.rhs = w.second; int c = w.first.second; for (int j = 0; j < 3; j++) if (!nearly(u[c % 3][j], 0)) l.coef[{w.first.first, c / 3 * 3 + j}] = u[c % 3][j]; lin.push_back(l); }
        sameBc(t, got, basic); matchAll(t, rel.lin, lin); CHECK(t, rel.rigid.empty() && rel.rbe3.empty(), "no other relation is written");
    }
    vs_reach(tname[t]);
}
// the terms of a MPC on such grid points are components in their frame
VS_HARNESS(frame_relations) {
    pos.clear(); for (int i = 0; i < 6; i++) pos[10 * (i + 1)] = {double(i % 2), double(i / 2), 0.};
    Deck d; Fmt t = vs_choose("target", 2) ? SYSTUS : ASTER; int kind = vs_choose("frame", 4), shape = vs_choose("shape", 5), terms = 2 + vs_choose("terms", 3), comp = vs_choose("components", 6), cases = 1 + vs_choose("subcases", 2); bool grdset = vs_choose("GRDSET", 2), order = vs_choose("order", 2);
    Frame f = makeFrame(d, kind, shape); string sys = d.bulk; d.bulk.clear(); set<int> local{30, 60, 50}; meshCd(d, local, grdset);
    static const int nodes[] = {30, 40, 60, 30}; Lin want, other; { auto c = d.card("MPC"); c(3);
        for (int k = 0; k < terms; k++) {
            int n = nodes[k], q = (comp + (k == 3 ? 3 : 2 * k)) % 6; double a = vs_dyadic(vs_name("a", k).c_str(), 8 + 800 * k, 800 + 800 * k, 3); if (k == 2) c()(); c(n)(q + 1)(a);
            if (t == SYSTUS || !local.count(n)) { want.coef[{n, q}] = a; continue; } V3 u[3]; axesAt(f, pos[n], u); for (int j = 0; j < 3; j++) { double y = a * u[q % 3][j]; auto it = want.coef.find({n, q / 3 * 3 + j}); if (it == want.coef.end()) want.coef[{n, q / 3 * 3 + j}] = y; else it->second += y; }
        } }
    { d.card("MPC")(4)(20)(2)(2.)(10)(3)(5.); other.coef[{20, 1}] = 2; other.coef[{10, 2}] = 5; } d.card("SPC1")(2)("123")(10);
    d.bulk = order ? d.bulk + sys : sys + d.bulk; d.caseControl = cases == 1 ? "LOAD=5\nSPC=2\nMPC=3\n" : "LOAD=5\nSPC=2\nSUBCASE 1\nMPC=3\nSUBCASE 3\nMPC=4\n";
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) { int id = k ? 3 : 1; auto rel = relations(v, id, k, cases); CHECK(t, rel.lin.size() == 1, "the relation is written once"); if (rel.lin.size() == 1) CHECK(t, sameLin(rel.lin[0], k ? other : want), "coefficients of the relation along the axes of the grid points"); if (t == SYSTUS) for (auto &p : pos) { V3 u[3]; axesAt(f, p.second, u); checkFrame(v, id, cases, p.first, local.count(p.first) ? u : nullptr); } }
    vs_reach(tname[t]);
}
