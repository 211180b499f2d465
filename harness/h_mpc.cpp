// Linear relations between degrees of freedom: MPC, rigid bodies, RBE3.
#include "h_mpc_rel.h"
// the relation is written once, up to a factor of +-1
static bool sameRow(const Lin &a, const Lin &w) {
    if (a.coef.size() != w.coef.size()) return false; for (auto &x : w.coef) if (!a.coef.count(x.first)) return false;
    bool plus = true, minus = true; for (auto &x : w.coef) { double k = a.coef.at(x.first); if (!close(k, x.second)) plus = false; if (!close(k, -x.second)) minus = false; if (!plus && !minus) return false; } return a.rhs == w.rhs;
}
static Lin clean(const Lin &l) { Lin r; r.rhs = l.rhs; for (auto &x : l.coef) if (x.second != 0) r.coef[x.first] = x.second; return r; }
// want: relations, each identified by a component that appears in it (and in no other one)
static void sameRows(Fmt t, vector<Lin> got, const vector<std::pair<ND, Lin>> &want) {
    for (auto &g : got) g = clean(g); size_t used = 0;
    for (auto &w : want) { int n = 0; const Lin *m = nullptr; for (auto &g : got) if (g.coef.count(w.first)) { n++; m = &g; } CHECK(t, n == 1, "each relation is written exactly once"); if (n == 1) { used++; CHECK(t, sameRow(*m, clean(w.second)), "coefficients of a relation"); } }
    CHECK(t, got.size() == want.size(), "no other relation is written"); (void)used;
}
static void mesh(Deck &d, int n, bool shells = true) {
    for (auto &p : pos) { auto c = d.card("GRID"); c(p.first)()(p.second[0])(p.second[1])(p.second[2]); }
    (void)n; (void)shells; for (int e = 0; e < 2; e++) d.card("CQUAD4")(e + 1)(4)(10 + 20 * e)(20 + 20 * e)(40 + 20 * e)(30 + 20 * e);
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("FORCE")(5)(10)(0)(1.)(1.)(2.)(3.); d.card("FORCE")(6)(10)(0)(1.)(1.)(2.)(3.); d.card("SPC1")(2)("123456")(10);
}
static void grid() { pos.clear(); for (int i = 0; i < 6; i++) pos[10 * (i + 1)] = {double(i % 2), double(i / 2), 0.}; }
VS_HARNESS(mpc_terms) {
    grid(); Deck d; Fmt t = (Fmt)vs_choose("target", 4); int terms = 2 + vs_choose("terms", 4), cases = 1 + vs_choose("subcases", 2), both = vs_choose("same set", 2), shift = vs_choose("component", 6), two = vs_choose("second relation", 3), order = vs_choose("order", 2);
    double a[6]; for (int i = 0; i < 6; i++) { string n = "a" + std::to_string(i); a[i] = i % 2 ? vs_dyadic(n.c_str(), -8000, -1, 3) : vs_dyadic(n.c_str(), 1, 8000, 3); }
    mesh(d, 6); static const int nodes[] = {60, 20, 50, 20, 30, 40}; Lin l1, l2, l3;
    auto card = [&](int sid, int k, Lin &l) { auto c = d.card("MPC"); c(sid); for (int i = 0; i < terms; i++) { if (i && i % 2 == 0) c()(); int n = nodes[i], dof = (i + shift + k) % 6; double x = a[(i + k) % 6]; c(n)(dof + 1)(x); l.coef[{n, dof}] = x; } };
    // relation 1 (set 3); relation 2 shifted components (set 3, or set 4), relation 3 in an unselected set
    auto put = [&](int k) { if (k == 0) card(3, 0, l1); if (k == 1 && two) card(two == 1 ? 3 : 4, 1, l2); if (k == 2) card(8, 2, l3); };
    for (int k = 0; k < 3; k++) put(order ? 2 - k : k);
    static const int ids[] = {2, 7}; int mpc[] = {3, both ? 3 : 4}; if (cases == 2 && !both && two != 2) return;
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += string(k ? "LOAD=6\n" : "LOAD=5\n") + "SPC=2\nMPC=" + std::to_string(mpc[k]) + "\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        vector<std::pair<ND, Lin>> want; if (mpc[k] == 3) want.push_back({{60, shift % 6}, l1}); if (two && mpc[k] == (two == 1 ? 3 : 4)) want.push_back({{60, (1 + shift) % 6}, l2});
        auto r = relations(v, cases > 1 ? ids[k] : 1, k, cases); sameRows(t, r.lin, want); CHECK(t, r.rigid.empty() && r.rbe3.empty(), "no other relation is written");
    }
    vs_reach(tname[t]);
}
// rigid bodies: any set of components, master on the mesh or free, one or two dependent nodes, one or two subcases
static vector<Lin> expand(Fmt t, const Rel &r, int master) {
    vector<Lin> l = r.lin;
    for (auto &g : r.rigid) { CHECK(t, g.count(master), "a rigid body holds its independent node"); for (int n : g) if (n != master) for (int k = 0; k < 6; k++) l.push_back(rigidRow(master, n, k)); }
    return l;
}
VS_HARNESS(rigid_bodies) {
    grid(); Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 4), slaves = 1 + vs_choose("dependent nodes", 2), where = vs_choose("independent node", 2), cases = 1 + vs_choose("subcases", 2);
    if (kind && slaves == 2) return; bool full = slaves == 1 && cases == 1 && where && kind == 0; static const int some[] = {63, 7, 56, 1, 34, 21};
    int mask = kind == 0 || kind == 3 ? full ? 1 + vs_choose("components", 63) : some[vs_choose("some components", 6)] : 63;
    int m = where ? 70 : 20, s1 = 60, s2 = 30; string code; int arm = slaves == 1 && cases == 1 ? vs_choose("arm along an axis", 5) : 0; for (int i = 0; i < 6; i++) if (mask >> i & 1) code += char('1' + i);
    pos[m] = {vs_dyadic("x", -8000, 8000, 3), vs_dyadic("y", -8000, 8000, 3), vs_dyadic("z", -8000, 8000, 3)}; pos[s1] = {vs_dyadic("u", -8000, 8000, 3), 1100., 0.5};
    if (arm) { pos[s1] = {2., 4., .5}; pos[m] = pos[s1]; for (int a = 0; a < 3; a++) if (arm == 4 ? a != 1 : a == arm - 1) pos[m][a] += vs_dyadic(a ? a == 1 ? "dy" : "dz" : "dx", 8, 8000, 3); }
    mesh(d, 6);
    if (kind == 0) { auto c = d.card("RBE2"); c(90)(m)(code)(s1); if (slaves == 2) c(s2); }
    if (kind == 1) d.card("RBAR")(90)(m)(s1)("123456");
    if (kind == 2) d.card("RBAR")(90)(s1)(m)()("123456");
    if (kind == 3) { auto c = d.card("RBAR1"); c(90)(m)(s1); if (mask != 63) c(code); }
    static const int ids[] = {2, 7};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += string(k ? "LOAD=6\n" : "LOAD=5\n") + "SPC=2\n"; }
    View v; translate(d, t, v);
    vector<std::pair<ND, Lin>> want; for (int s : {s1, s2}) if (s == s1 || slaves == 2) for (int k = 0; k < 6; k++) if (mask >> k & 1) want.push_back({{s, k}, rigidRow(m, s, k)});
    for (int k = 0; k < cases; k++) { auto r = relations(v, cases > 1 ? ids[k] : 1, k, cases); sameRows(t, expand(t, r, m), want); CHECK(t, r.rbe3.empty(), "no other relation is written"); }
    vs_reach(tname[t]);
}
VS_HARNESS(rbe3_weights) {
    grid(); Deck d; Fmt t = (Fmt)vs_choose("target", 4); int groups = 1 + vs_choose("groups", 3), where = vs_choose("dependent node", 2), cases = 1 + vs_choose("subcases", 2), same = vs_choose("same weight", 2), mask = vs_choose("components", 7);
    static const char *codes[] = {"123", "123456", "1", "23", "3456", "246", "5"}; static const char *sc[] = {"123", "12", "1346"}; static const vector<int> nodes[] = {{40, 60}, {10}, {50, 30}};
    double w[3] = {vs_dyadic("a", 1, 8000, 3), vs_dyadic("b", 1, 8000, 3), vs_dyadic("c", 1, 8000, 3)}; if (same) w[1] = w[0]; int m = where ? 70 : 20; pos[m] = {3., 4., 5.};
    mesh(d, 6); Rbe3Out want; want.master = m; want.dofs = ofCode(codes[mask]);
    { auto c = d.card("RBE3"); c(93)()(m)(codes[mask]); for (int g = 0; g < groups; g++) { c(w[g])(sc[g]); for (int n : nodes[g]) { c(n); want.slaves[n] = {ofCode(sc[g]), w[g]}; } } }
    static const int ids[] = {2, 7};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += string(k ? "LOAD=6\n" : "LOAD=5\n") + "SPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        auto r = relations(v, cases > 1 ? ids[k] : 1, k, cases); CHECK(t, r.lin.empty() && r.rigid.empty(), "no other relation is written"); CHECK(t, r.rbe3.size() == 1, "the RBE3 is written once"); if (r.rbe3.size() != 1) continue; auto &o = r.rbe3[0];
        CHECK(t, o.master == m && o.dofs == want.dofs, "averaged node and components"); CHECK(t, o.slaves.size() == want.slaves.size(), "nodes of the average");
        for (auto &s : want.slaves) { auto i = o.slaves.find(s.first); CHECK(t, i != o.slaves.end() && i->second.first == s.second.first, "components of the average"); if (i != o.slaves.end()) CHECK(t, close(i->second.second, s.second.second), "weight of a node"); }
    }
    vs_reach(tname[t]);
}
