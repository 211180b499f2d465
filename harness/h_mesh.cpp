// Mesh translation: node positions and element connectivity reach every output format.
#include "h_view.h"
using namespace view; using std::vector; using std::string;
struct Kind { const char *card; int n; int kind; const char *prop; };
static const Kind kinds[] = {
    {"CTRIA3", 3, 203, "PSHELL"}, {"CTRIAR", 3, 203, "PSHELL"}, {"CTRIA6", 6, 206, "PSHELL"}, {"CQUAD4", 4, 204, "PSHELL"}, {"CQUADR", 4, 204, "PSHELL"}, {"CQUAD8", 8, 208, "PSHELL"},
    {"CTETRA", 4, 304, "PSOLID"}, {"CTETRA", 10, 310, "PSOLID"}, {"CPYRAM", 5, 305, "PSOLID"}, {"CPYRAM", 13, 313, "PSOLID"}, {"CPENTA", 6, 306, "PSOLID"}, {"CPENTA", 15, 315, "PSOLID"},
    {"CHEXA", 8, 308, "PSOLID"}, {"CHEXA", 20, 320, "PSOLID"}, {"CBAR", 2, 102, "PBAR"}, {"CBEAM", 2, 102, "PBEAM"}, {"CROD", 2, 102, "PROD"}};
static void material(Deck &d, int id) { d.card("MAT1")(id)(2000.)()(0.25)(7.); }
static void property(Deck &d, const string &p, int id, int mat) {
    if (p == "PSHELL") d.card("PSHELL")(id)(mat)(0.5)(mat);
    else if (p == "PSOLID") d.card("PSOLID")(id)(mat);
    else if (p == "PBAR") d.card("PBAR")(id)(mat)(2.)(3.)(4.)(5.);
    else if (p == "PBEAM") d.card("PBEAM")(id)(mat)(2.)(3.)(4.)()(5.);
    else if (p == "PROD") d.card("PROD")(id)(mat)(2.)(5.);
}
static bool supported(const Kind &k, Fmt t) { if (t == SYSTUS && k.kind == 313) return false; return true; }
// one element of every kind: any node numbering permutation is modelled by symbolic coordinates on distinct nodes
VS_HARNESS(mesh_cells) {
    Deck d; int ki = vs_choose("kind", sizeof kinds / sizeof *kinds); Fmt t = (Fmt)vs_choose("target", 4); const Kind &k = kinds[ki];
    vs_assume(supported(k, t));
    bool beam = k.kind == 102;
    vector<V3> x(k.n); vector<int> ids;
    bool rev = vs_choose("reversed ids", 2); // ids given in decreasing order: positions and ids disagree
    for (int i = 0; i < k.n; i++) ids.push_back(rev ? 900 - 7 * i : 11 + 5 * i);
    for (int i = 0; i < k.n; i++) { auto c = d.card("GRID"); c(ids[i])(); for (int j = 0; j < 3; j++) { x[i][j] = beam ? 8. * i + j : vs_dyadic(vs_name("x", i, j).c_str(), -100000, 100000, 7); c(x[i][j]); } }
    int rot = vs_choose("rotation", 2); vector<int> con; for (int i = 0; i < k.n; i++) con.push_back(ids[(i + rot) % k.n]);
    int eid = 4321, pid = 55;
    { auto c = d.card(k.card); c(eid)(pid); for (int n : con) c(n); if (k.prop == string("PBAR") || k.prop == string("PBEAM")) c(1.)(2.)(4.); }
    property(d, k.prop, pid, 9); material(d, 9);
    View v; translate(d, t, v);
    CHECK(t, v.nodeRows == k.n && (int)v.coords.size() == k.n, "every GRID is written once");
    for (int i = 0; i < k.n; i++) { CHECK(t, v.coords.count(ids[i]), "GRID keeps its id"); for (int j = 0; j < 3; j++) CHECK(t, v.coords[ids[i]][j] == x[i][j], "GRID coordinate"); }
    CHECK(t, v.cellRows == 1 && v.cells.count(eid), "the element is written once, with its id");
    auto &e = v.cells[eid]; CHECK(t, e.kind == k.kind, "element shape"); CHECK(t, e.nodes == con, "element connectivity");
    if (t == NAS_MODERN) CHECK(t, e.prop == pid, "element property id");
    vs_reach(tname[t]);
}
// several elements together: other kinds, the same nodes again, a common property, any numbering and any order
VS_HARNESS(mesh_mixed) {
    Deck d; const int NK = sizeof kinds / sizeof *kinds; Fmt t = (Fmt)vs_choose("target", 4); int a = vs_choose("kind", NK), b = vs_choose("other kind", NK), num = vs_choose("numbers", 4); const Kind *k[4] = {&kinds[a], &kinds[b], &kinds[a], &kinds[(a + b) % NK]};
    for (auto *x : k) vs_assume(supported(*x, t)); bool order = (a + b + num) & 1, own = (a ^ num) & 2;
    static const int first[] = {10, 99000, 9000000 - 40, 500}, step[] = {3, 7, 1, -5}; V3 x[24]; int ids[24], eids[4]; map<int, int> at;
    for (int i = 0; i < 24; i++) { ids[i] = first[num] + step[num] * i; at[ids[i]] = i; auto c = d.card("GRID"); c(ids[i])(); for (int j = 0; j < 3; j++) { x[i][j] = j == 0 && i < 4 ? vs_dyadic(vs_name("x", i).c_str(), -100000, 100000, 7) : (7 * i + 5 * j) % 11 + 0.25 * i; c(x[i][j]); } } // no element is flat
    string grids = d.bulk; d.bulk.clear(); vector<int> con[4]; string props; std::set<string> done; int pids[4];
    for (int e = 0; e < 4; e++) {
        eids[e] = num == 1 ? 80000000 + 11 * e : num == 2 ? 3 - (e == 3 ? -9 : e) : num == 3 ? ids[e] : 20 + 10 * ((e + 2) % 4); int off = e == 2 ? 4 : e == 3 ? 2 : 0; for (int i = 0; i < k[e]->n; i++) con[e].push_back(ids[k[e]->kind / 100 == 1 ? 18 + i + e : off + i]);
        string p = k[e]->prop; int same = -1; for (int f = 0; f < e; f++) if (k[f]->prop == p && !own) same = f; pids[e] = same >= 0 ? pids[same] : 31 + 4 * e;
        if (same < 0) { property(d, p, pids[e], 9); props += d.bulk; d.bulk.clear(); }
        auto c = d.card(k[e]->card); c(eids[e])(pids[e]); for (int n : con[e]) c(n); if (p == "PBAR" || p == "PBEAM") c(1.)(2.)(4.); }
    string els = d.bulk; d.bulk.clear(); material(d, 9); d.bulk = order ? props + els + d.bulk + grids : grids + els + props + d.bulk;
    View v; translate(d, t, v);
    CHECK(t, v.nodeRows == 24 && v.coords.size() == 24, "every GRID is written once");
    for (int i = 0; i < 24; i++) { CHECK(t, v.coords.count(ids[i]), "GRID keeps its id"); for (int j = 0; j < 3; j++) CHECK(t, v.coords[ids[i]][j] == x[i][j], "GRID coordinate"); }
    CHECK(t, v.cellRows == 4 && v.cells.size() == 4, "every element is written once");
    for (int e = 0; e < 4; e++) { CHECK(t, v.cells.count(eids[e]), "the element keeps its id"); auto &c = v.cells[eids[e]]; CHECK(t, c.kind == k[e]->kind, "element shape"); CHECK(t, c.nodes == con[e], "element connectivity"); if (t == NAS_MODERN) CHECK(t, c.prop == pids[e], "element property id"); }
    vs_reach(tname[t]);
}
