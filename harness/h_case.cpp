// Case control: which sets each subcase selects.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map;
VS_HARNESS(case_selection) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int cases = vs_choose("subcases", 4), sp = vs_choose("SPC", 5), lo = vs_choose("LOAD", 5), form = vs_choose("form", 5), extra = vs_choose("other lines", 4), mp = (sp + lo) % 4; // places: 0 above, 1 in each, 2 above and in the second one, 3 above and in the first one, 4 in the last one only
    vs_assume(cases || (sp == 0 && lo == 0)); bool label = extra == 2 && t != SYSTUS;
    for (int i = 0; i < 6; i++) d.card("GRID")(10 * (i + 1))()(double(i % 2))(double(i / 2))(0.); for (int e = 0; e < 2; e++) d.card("CQUAD4")(e + 1)(4)(10 + 20 * e)(20 + 20 * e)(40 + 20 * e)(30 + 20 * e);
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.);
    double f[5], p[5]; for (int k = 1; k < 5; k++) { f[k] = vs_dyadic(vs_name("f", k).c_str(), 1 + 10000 * k, 10000 * k + 8000, 3); p[k] = vs_dyadic(vs_name("p", k).c_str(), 1 + 10000 * k, 10000 * k + 8000, 3); d.card("SPC1")(20 + k)("12")(10)(20); d.card("SPC")(20 + k)(10 + 10 * k)("3")(p[k]); d.card("FORCE")(20 + k)(60)(0)(f[k])(0.)(double(k))(0.); auto c = d.card("MPC"); c(20 + k)(50)(1)(double(k))(60)(1)(1.); }
    auto line = [&](const char *kw, int set) { string s = std::to_string(set), k = kw; if (form == 3) for (auto &c : k) c = (char)tolower(c); d.caseControl += form == 0 || form == 3 ? k + "=" + s + "\n" : form == 1 ? k + " = " + s + "\n" : form == 2 ? "  " + k + "= " + s + "   \n" : "\t" + k + "=" + s + "\n"; };
    auto has = [&](int place, int k) { return k == 0 ? place == 0 || place == 2 || place == 3 : place == 1 || (place == 2 && k == 2) || (place == 3 && k == 1) || (place == 4 && k == cases); };
    auto mine = [&](int place, int k) { return has(place, k) && k ? 20 + k : has(place, 0) ? 24 : 0; };
    if (extra == 1) d.caseControl += "TITLE = SPC=23\nECHO=NONE\n$ LOAD=23\n"; if (extra == 3) d.caseControl += "SET 23 = 10,20\nDISP=ALL\nSPCFORCES=23\nMPCFORCES=23\nSUBTITLE=LOAD=23\n"; static const int ids[] = {0, 2, 3, 8};
    for (int k = 0; k <= cases; k++) { if (k) d.caseControl += (form == 3 ? "subcase " : "SUBCASE ") + std::to_string(ids[k]) + "\n"; if (k && label) d.caseControl += "LABEL=LOAD 9\n"; bool first = (k + extra) % 2; auto both = [&](bool spc) { if (spc && has(sp, k)) line("SPC", k ? 20 + k : 24); if (!spc && has(lo, k)) line("LOAD", k ? 20 + k : 24); if (!spc && has(mp, k)) line("MPC", k ? 20 + k : 24); }; both(first); if (extra == 1 && k) d.caseControl += "$ SPC=23\n"; both(!first); if (extra == 3 && k) d.caseControl += "STRESS=ALL\n"; }
    View v; translate(d, t, v); int n = cases ? cases : 1;
    for (int k = 1; k <= n; k++) { int q = cases ? k : 0, s = cases ? mine(sp, q) : 24, l = cases ? mine(lo, q) : 24, m = cases ? mine(mp, q) : mp == 1 || mp == 4 ? 0 : 24, id = cases > 0 ? ids[k] : 1; map<ND, double> want; map<int, V6> load;
        if (s) { for (int x : {10, 20}) for (int j = 0; j < 2; j++) want[{x, j}] = 0; want[{10 + 10 * (s - 20), 2}] = p[s - 20]; } if (l) load[60] = {0, f[l - 20] * (l - 20), 0, 0, 0, 0};
        sameBc(t, bc(v, id, k - 1, n), want); sameNodal(t, nodal(v, id, k - 1, n), load); double got = 0; int rows = 0;
        if (t == ASTER) { for (auto *c : chargesOf(v, k - 1)) for (auto *x : c->args.factors("LIAISON_DDL")) { rows++; got = out::reals(x->get("COEF_MULT")).at(0) * out::reals(x->get("COEF_MULT")).at(1); } }
        else if (t != SYSTUS) { auto cc = caseOf(v.text, id); for (int x : sets(v, "MPCADD", cc["MPC"])) for (auto &c : v.nas->of("MPC")) if (fld(c, 1) == std::to_string(x)) { rows++; got = realOf(fld(c, 4)) * realOf(fld(c, 7)); } }
        if (t != SYSTUS) CHECK(t, rows == (m ? 1 : 0) && (!m || got == m - 20), "the selected multi-point constraint"); }
    vs_reach(tname[t]);
}
