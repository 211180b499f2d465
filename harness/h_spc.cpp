// Imposed degrees of freedom.
#include "h_bc.h"
using namespace view; using std::vector; using std::string; using std::map;
static void mesh(Deck &d, const char *ps = nullptr, int psNode = 0) {
    for (int i = 0; i < 6; i++) { auto c = d.card("GRID"); c(10 * (i + 1))()(double(i % 2))(double(i / 2))(0.); if (ps && psNode == 10 * (i + 1)) c()(ps); }
    for (int e = 0; e < 2; e++) d.card("CQUAD4")(e + 1)(4)(10 + 20 * e)(20 + 20 * e)(40 + 20 * e)(30 + 20 * e);
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.);
}
// every component set, by every card
VS_HARNESS(spc_components) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 6); int mask = 1 + vs_choose("components", 63); map<ND, double> want;
    string code; for (int i = 0; i < 6; i++) if (mask >> i & 1) code += char('1' + i);
    double a = kind >= 4 ? vs_dyadic("a", -8000, 8000, 3) : 0, b = kind == 5 ? vs_dyadic("b", -8000, 8000, 3) : 0;
    auto add = [&](int n, double x) { for (int i = 0; i < 6; i++) if (mask >> i & 1) want[{n, i}] = x; };
    mesh(d, kind == 0 ? code.c_str() : nullptr, 30);
    if (kind == 0) add(30, 0);
    if (kind == 1) { d.card("SPC1")(2)(code)(20)(60)(40); add(20, 0); add(60, 0); add(40, 0); }
    if (kind == 2) { d.card("SPC1")(2)(code)(20)("THRU")(40); add(20, 0); add(30, 0); add(40, 0); }
    if (kind == 3) { d.card("SPC")(2)(30)(code); add(30, 0); }
    if (kind == 4) { d.card("SPC")(2)(30)(code)(a); add(30, a); }
    if (kind == 5) { d.card("SPC")(2)(30)(code)(a)(50)(code)(b); add(30, a); add(50, b); }
    d.card("FORCE")(5)(10)(0)(1.)(1.)(2.)(3.); d.caseControl = "LOAD=5\nSPC=2\n";
    View v; translate(d, t, v); sameBc(t, bc(v, 1, 0, 1), want); vs_reach(tname[t]);
}
// several subcases, combined sets, unselected sets, enforced displacements, the same component given twice
VS_HARNESS(spc_cases) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int cases = 1 + vs_choose("subcases", 3), add = vs_choose("SPCADD", 2), ps = vs_choose("GRID PS", 2), spcd = vs_choose("SPCD", 4), twice = vs_choose("twice", 2), order = vs_choose("order", 2);
    double p = vs_dyadic("p", 1, 8000, 3), q = vs_dyadic("q", 1, 8000, 3), s = vs_dyadic("s", 1, 8000, 3);
    mesh(d, ps ? "3" : nullptr, 30);
    // set 1: node 10 components 123, node 20 component 2 = p; set 2: nodes 20, 40 component 1; set 9: nodes 10, 50 component 3
    auto cards = [&](int k) {
        if (k == 0) { d.card("SPC1")(1)("123")(10); d.card("SPC")(1)(20)("2")(p); }
        if (k == 1) { d.card("SPC1")(2)("1")(20)(40); if (twice) d.card("SPC1")(2)("1")(20)(60); }
        if (k == 2) { d.card("SPC1")(9)("3")(10)(50); }
        if (k == 3 && add) d.card("SPCADD")(7)(1)(2);
        if (k == 4 && spcd) { auto c = d.card("SPCD"); c(5)(10)(spcd == 2 ? "23" : "2")(q); if (spcd == 3) c(40)("1")(s); }
    };
    for (int k = 0; k < 5; k++) cards(order ? 4 - k : k);
    d.card("FORCE")(5)(60)(0)(1.)(1.)(2.)(3.); d.card("FORCE")(6)(60)(0)(1.)(4.)(2.)(3.);
    static const int ids[] = {2, 3, 8}; int loadOf[] = {5, 6, 6}, spcOf[] = {add ? 7 : 1, add ? 7 : 1, 9};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += "LOAD=" + std::to_string(loadOf[k]) + "\nSPC=" + std::to_string(spcOf[k]) + "\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        map<ND, double> want; if (ps) want[{30, 2}] = 0;
        if (spcOf[k] == 9) want[{10, 2}] = want[{50, 2}] = 0;
        else { for (int i = 0; i < 3; i++) want[{10, i}] = 0; want[{20, 1}] = p; if (add) { want[{20, 0}] = want[{40, 0}] = 0; if (twice) want[{60, 0}] = 0; } }
        if (loadOf[k] == 5 && spcd) { want[{10, 1}] = q; if (spcd == 2) want[{10, 2}] = q; if (spcd == 3 && add) want[{40, 0}] = s; }
        if (loadOf[k] == 5 && spcd == 3 && !add) return; // enforced value on a free component: not a valid model
        sameBc(t, bc(v, cases > 1 ? ids[k] : 1, k, cases), want);
    }
    vs_reach(tname[t]);
}
// components given again by other cards of the selected sets
VS_HARNESS(spc_overlap) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int cases = 1 + vs_choose("subcases", 2); static const char *codes[] = {"12", "24", "1356"}; map<ND, double> wantOf[4]; mesh(d);
    for (int k = 1; k < 4; k++) { // set k
        string code = codes[vs_choose(("components" + std::to_string(k)).c_str(), 3)]; int where = vs_choose(("nodes" + std::to_string(k)).c_str(), cases == 1 ? 3 : 2); auto c = d.card("SPC1"); c(k)(code); if (where != 1) c(60); if (where) c(40);
        for (char x : code) { if (where != 1) wantOf[k][{60, x - '1'}] = 0; if (where) wantOf[k][{40, x - '1'}] = 0; }
    }
    d.card("SPCADD")(7)(1)(2)(3); d.card("SPCADD")(8)(2)(3); d.card("FORCE")(5)(10)(0)(1.)(1.)(2.)(3.);
    if (cases == 1) d.caseControl = "LOAD=5\nSPC=7\n"; else d.caseControl = "SUBCASE 2\nLOAD=5\nSPC=7\nSUBCASE 4\nLOAD=5\nSPC=8\n";
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) { auto want = wantOf[2]; want.insert(wantOf[3].begin(), wantOf[3].end()); if (k == 0) want.insert(wantOf[1].begin(), wantOf[1].end()); sameBc(t, bc(v, cases == 1 ? 1 : k ? 4 : 2, k, cases), want); }
    vs_reach(tname[t]);
}
