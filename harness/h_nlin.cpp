// Non-linear static and buckling sequences (Code_Aster).
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
static void model(Deck &d) { for (int i = 0; i < 3; i++) d.card("GRID")(10 + i)()(1. * i)(0.)(0.); d.card("CBAR")(3)(5)(10)(11)(0.)(0.)(1.); d.card("CBAR")(4)(5)(11)(12)(0.)(0.)(1.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); d.card("MAT1")(9)(200.)()(0.25)(1.); }
static const string &nameOf(const out::Val *v) { static string none; return v ? v->text : none; }
static map<int, V6> forces(View &v, const string &charge) { map<int, V6> r; auto *c = v.comm->named(charge); vs_assert(c, "charge exists"); static const char *names[] = {"FX", "FY", "FZ", "MX", "MY", "MZ"}; for (auto *f : c->args.factors("FORCE_NODALE")) for (int n : asterNodes(v, f)) { auto &x = r.insert({n, V6{{0, 0, 0, 0, 0, 0}}}).first->second; for (int d = 0; d < 6; d++) if (f->get(names[d])) addTo(x[d], out::real(f->get(names[d]))); } return r; }
static vector<double> values(const out::Val *v) { vector<double> r; if (v) for (auto &i : v->items) r.push_back(out::real(&i)); return r; }
static set<int> clamped(View &v, const out::Cmd *c) { set<int> r; for (auto *f : c->args.factors("DDL_IMPO")) for (int n : asterNodes(v, f)) r.insert(n); return r; }
VS_HARNESS(nonlinear_steps) {
    Deck d; Fmt t = ASTER; int n = 1 + vs_choose("subcases", 4), par = vs_choose("NLPARM", 3), load = vs_choose("loads", 4), spc = vs_choose("SPC", 3), two = vs_choose("forces", 2), order = vs_choose("order", 2); d.exec = "SOL 106\n";
    string m0; if (order) { model(d); m0 = d.bulk; d.bulk.clear(); } map<int, map<int, V6>> want; vector<int> sid, inc, sp; // load set, increments and constraint set of each subcase
    for (int k = 0; k < n; k++) { int s = load == 0 ? 30 + k : load == 1 ? 30 : load == 2 ? 30 + k / 2 : 30 + k % 2; sid.push_back(s); int p = par == 0 ? 0 : par == 1 ? k % 3 : 2 - k % 3; inc.push_back(p == 0 ? 10 : p == 1 ? 4 : 25); sp.push_back(spc == 0 ? 2 : spc == 1 ? 2 + k % 2 : k + 1 == n ? 3 : 2);
        if (!want.count(s)) { auto &w = want[s]; for (int f = 0; f < 1 + two; f++) { double x = vs_dyadic(vs_name("f", s, f).c_str(), 1 + 1000 * f, 900 + 1000 * f, 3); d.card("FORCE")(s)(11 + f)(0)(1.)(x)(0.)(0.); auto &y = w.insert({11 + f, V6{{0, 0, 0, 0, 0, 0}}}).first->second; y[0] = x; } }
        d.caseControl += "SUBCASE " + std::to_string(k + 1) + "\nLOAD=" + std::to_string(s) + "\nNLPARM=" + std::to_string(50 + p) + "\n" + (spc ? "SPC=" + std::to_string(sp[k]) + "\n" : ""); }
    d.card("NLPARM")(50); d.card("NLPARM")(51)(4); d.card("NLPARM")(52)(25); d.card("SPC1")(2)("123456")(10); d.card("SPC1")(3)("123")(10)(12); if (!spc) d.caseControl = "SPC=2\n" + d.caseControl; if (order) d.bulk += m0; else model(d);
    View v; translate(d, t, v); auto rs = v.comm->of("STAT_NON_LINE"); CHECK(t, (int)rs.size() == n, "one STAT_NON_LINE per subcase");
    for (int k = 0; k < n; k++) {
        auto &r = *rs[k]; auto init = r.args.factors("ETAT_INIT"); CHECK(t, k ? init.size() == 1 && nameOf(init[0]->get("EVOL_NOLI")) == rs[k - 1]->name : init.empty(), "a step starts from the end of the step before");
        auto in = r.args.factors("INCREMENT"); vs_assert(in.size() == 1, "INCREMENT"); auto *au = v.comm->named(nameOf(in[0]->get("LIST_INST"))); vs_assert(au && au->op == "DEFI_LIST_INST", "list of instants"); auto df = au->args.factors("DEFI_LIST"); vs_assert(df.size() == 1, "DEFI_LIST"); auto *li = v.comm->named(nameOf(df[0]->get("LIST_INST"))); vs_assert(li && li->op == "DEFI_LIST_REEL", "DEFI_LIST_REEL");
        CHECK(t, close(out::real(li->args.get("DEBUT")), k), "first instant of a step"); auto it = li->args.factors("INTERVALLE"); vs_assert(it.size() == 1, "one interval"); CHECK(t, close(out::real(it[0]->get("JUSQU_A")), k + 1), "last instant of a step"); auto *nb = it[0]->get("NOMBRE"), *pa = it[0]->get("PAS"); CHECK(t, nb ? intOf(nb->text) == inc[k] : pa && close(out::real(pa) * inc[k], 1.), "increments of a step");
        map<int, V6> ends[2]; set<int> fixed; int bcs = 0;
        for (auto *e : r.args.factors("EXCIT")) { auto *c = v.comm->named(nameOf(e->get("CHARGE"))); vs_assert(c, "charge exists"); if (auto *fm = e->get("FONC_MULT")) { auto *fo = v.comm->named(fm->text); vs_assert(fo && fo->op == "DEFI_FONCTION" && nameOf(fo->args.get("NOM_PARA")) == "INST", "function of time"); auto x = values(fo->args.get("VALE")); CHECK(t, x.size() == 4 && close(x[0], k) && close(x[2], k + 1), "a load varies over the step"); for (int q = 0; q < 2; q++) for (auto &f : forces(v, c->name)) { auto &y = ends[q].insert({f.first, V6{{0, 0, 0, 0, 0, 0}}}).first->second; if (x[1 + 2 * q] != 0) for (int j = 0; j < 6; j++) addTo(y[j], x[1 + 2 * q] == 1 ? f.second[j] : f.second[j] * x[1 + 2 * q]); } }
            else { bcs++; for (int i : clamped(v, c)) fixed.insert(i); } }
        sameNodal(t, ends[1], want[sid[k]]); if (k) sameNodal(t, ends[0], want[sid[k - 1]]); else sameNodal(t, ends[0], {});
        CHECK(t, bcs == 1 && fixed == (sp[k] == 2 ? set<int>{10} : set<int>{10, 12}), "constraints of a step");
    }
    vs_reach("code_aster");
}
VS_HARNESS(buckling) {
    Deck d; Fmt t = ASTER; int n = 1 + vs_choose("buckling subcases", 3), sub = vs_choose("STATSUB", 3), search = vs_choose("EIGRL", 4), spc = vs_choose("SPC", 3), order = vs_choose("order", 2), nums = vs_choose("numbers", 2); d.exec = "SOL 105\n"; int id0 = nums ? 7 : 1;
    string m0; if (order) { model(d); m0 = d.bulk; d.bulk.clear(); } double f = vs_dyadic("f", 1, 900, 3), v1 = vs_dyadic("v1", 1, 90, 3), v2 = vs_dyadic("v2", 100, 900, 3); d.card("FORCE")(30)(12)(0)(f)(-1.)(0.)(0.);
    { auto c = d.card("EIGRL"); c(40); if (search % 2) c(v1)(v2); else c()(); if (search > 1) c(12); else c(3); c()(); } d.card("EIGRL")(41)()()(5); d.card("SPC1")(2)("123456")(10); d.card("SPC1")(3)("123")(10)(12);
    d.caseControl = (spc == 0 ? string("SPC=2\n") : string("")) + "SUBCASE " + std::to_string(id0) + "\nLOAD=30\n" + (spc ? "SPC=2\n" : "");
    for (int k = 1; k <= n; k++) { d.caseControl += "SUBCASE " + std::to_string(id0 + k * (nums ? 5 : 1)) + "\nMETHOD=" + (k == 2 ? "41" : "40") + "\n"; if (spc) d.caseControl += spc == 1 ? "SPC=2\n" : "SPC=3\n"; if (sub == 1) d.caseControl += "STATSUB=" + std::to_string(id0) + "\n"; if (sub == 2) d.caseControl += "STATSUB(BUCKLING)=" + std::to_string(id0) + "\n"; }
    if (order) d.bulk += m0; else model(d); View v; translate(d, t, v); auto st = v.comm->of("MECA_STATIQUE"), bu = v.comm->of("CALC_MODES"); CHECK(t, st.size() == 1, "one static analysis"); CHECK(t, (int)bu.size() == n, "one CALC_MODES per buckling subcase");
    map<int, V6> got; set<int> fixed; for (auto *e : st[0]->args.factors("EXCIT")) { auto *c = v.comm->named(nameOf(e->get("CHARGE"))); vs_assert(c, "charge exists"); for (auto &x : forces(v, c->name)) got[x.first] = x.second; for (int i : clamped(v, c)) fixed.insert(i); } map<int, V6> w; w[12] = V6{{-f, 0, 0, 0, 0, 0}}; sameNodal(t, got, w); CHECK(t, fixed == set<int>{10}, "constraints of the static analysis");
    for (int k = 1; k <= n; k++) {
        auto &b = *bu[k - 1]; CHECK(t, nameOf(b.args.get("TYPE_RESU")) == "MODE_FLAMB", "buckling modes"); auto *ge = v.comm->named(nameOf(b.args.get("MATR_RIGI_GEOM"))), *ri = v.comm->named(nameOf(b.args.get("MATR_RIGI"))); vs_assert(ge && ri && ge->op == "ASSE_MATRICE" && ri->op == "ASSE_MATRICE", "matrices of buckling");
        auto *gel = v.comm->named(nameOf(ge->args.get("MATR_ELEM"))), *rel = v.comm->named(nameOf(ri->args.get("MATR_ELEM"))); vs_assert(gel && rel, "element matrices of buckling"); CHECK(t, nameOf(gel->args.get("OPTION")) == "RIGI_GEOM" && nameOf(rel->args.get("OPTION")) == "RIGI_MECA", "geometric and elastic stiffness"); CHECK(t, nameOf(ge->args.get("NUME_DDL")) == nameOf(ri->args.get("NUME_DDL")), "matrices with the same numbering");
        auto *si = v.comm->named(nameOf(gel->args.get("SIEF_ELGA"))); vs_assert(si, "stresses of the static analysis"); CHECK(t, nameOf(si->args.get("OPERATION")) == "EXTR" && nameOf(si->args.get("NOM_CHAM")) == "SIEF_ELGA" && nameOf(si->args.get("RESULTAT")) == st[0]->name, "geometric stiffness of the static analysis");
        set<int> own; auto *ch = rel->args.get("CHARGE"); vs_assert(ch, "constraints of a buckling analysis"); for (auto &c : ch->items) { auto *x = v.comm->named(c.text); vs_assert(x, "charge exists"); for (int i : clamped(v, x)) own.insert(i); } CHECK(t, own == (spc == 2 ? set<int>{10, 12} : set<int>{10}), "constraints of a buckling analysis");
        CHECK(t, nameOf(b.args.get("OPTION")) == "PLUS_PETITE", "lowest critical loads"); auto cc = b.args.factors("CALC_CHAR_CRIT"); vs_assert(cc.size() == 1, "CALC_CHAR_CRIT"); auto *nm = cc[0]->get("NMAX_CHAR_CRIT"); CHECK(t, nm && intOf(nm->text) == (k == 2 ? 5 : search > 1 ? 12 : 3), "number of critical loads");
    }
    vs_reach("code_aster");
}
