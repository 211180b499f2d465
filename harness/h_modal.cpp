// Normal modes and frequency response: what the Code_Aster command file computes for each subcase.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
static const out::Cmd *ref(View &v, const out::Val *x, const char *what) { vs_assert(x && v.comm->named(x->text), what); return v.comm->named(x->text); }
static void mesh(Deck &d) {
    d.card("GRID")(10)()(0.)(0.)(0.); d.card("GRID")(11)()(1.)(0.)(0.); d.card("GRID")(12)()(2.)(0.)(0.); d.card("CBAR")(3)(5)(10)(11)(0.)(0.)(1.); d.card("CBAR")(4)(5)(11)(12)(0.)(0.)(1.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); d.card("MAT1")(9)(200.)()(0.25)(1.);
    d.card("SPC1")(2)("123456")(10); d.card("SPC1")(3)("123456")(12);
}
// constraints of an assembled matrix: constrained nodes
static set<int> held(View &v, const vector<string> &charges) { set<int> r; for (auto &n : charges) { auto *c = v.comm->named(n); vs_assert(c, "CHARGE is defined"); for (auto *f : c->args.factors("DDL_IMPO")) { vs_assert(f->get("DX") && f->get("DY") && f->get("DZ") && f->get("DRX") && f->get("DRY") && f->get("DRZ"), "clamped node"); for (int k : asterNodes(v, f)) r.insert(k); } } return r; }
// an assembled matrix is the one of the given option, with the given constraints
static string matrix(View &v, const out::Val *m, const char *option, const set<int> &nodes) {
    auto *a = ref(v, m, "matrix is defined"); vs_assert(a->op == "ASSE_MATRICE", "matrix is assembled"); auto *e = ref(v, a->args.get("MATR_ELEM"), "elementary matrix is defined"); vs_assert(e->op == "CALC_MATR_ELEM" && e->args.get("OPTION")->text == option, "kind of matrix");
    CHECK(ASTER, held(v, e->args.strings("CHARGE")) == nodes, "constraints of the matrix"); auto *n = ref(v, a->args.get("NUME_DDL"), "numbering is defined"); CHECK(ASTER, n->op == "NUME_DDL" && held(v, n->args.strings("CHARGE")) == nodes, "constraints of the numbering"); return n->name;
}
struct Search { bool band = false; double lo = 0, hi = 0; int n = 0; string norm = "MASS_GENE"; };
// one EIGRL / EIGR card
static Search search(Deck &d, int sid, int card, int bounds, int norm, double lo, double hi, int nd) {
    Search s; auto c = d.card(card ? "EIGR" : "EIGRL"); c(sid); if (card) c("LAN"); bool b = bounds == 0; s.band = bounds == 0 || bounds == 3; s.lo = b ? lo : 0; s.hi = hi; s.n = bounds == 1 ? nd : 1;
    if (b) c(lo); else c(); if (s.band) c(hi); else c(); if (card) c(); if (bounds == 1) c(nd); else c(); if (card) c()(); else c()()(); if (norm == 1) c("MASS"); if (norm == 2) { c("MAX"); s.norm = "TRAN_ROTA"; } return s;
}
static void modes(View &v, const string &name, const Search &s, const set<int> &nodes, double flo, double fhi) {
    auto *x = v.comm->named(name); vs_assert(x && x->op == "EXTR_MODE", "modes are extracted"); auto fs = x->args.factors("FILTRE_MODE"); vs_assert(fs.size() == 1, "one filter"); CHECK(ASTER, close(out::real(fs[0]->get("FREQ_MIN")), flo) && close(out::real(fs[0]->get("FREQ_MAX")), fhi), "frequency cut-offs");
    auto *m = ref(v, fs[0]->get("MODE"), "modes are computed"); vs_assert(m->op == "CALC_MODES", "modes are computed by CALC_MODES"); string a = matrix(v, m->args.get("MATR_RIGI"), "RIGI_MECA", nodes), b = matrix(v, m->args.get("MATR_MASS"), "MASS_MECA", nodes); CHECK(ASTER, a == b, "same numbering");
    auto nf = m->args.factors("NORM_MODE"); CHECK(ASTER, nf.size() == 1 && nf[0]->get("NORME")->text == s.norm, "normalisation of the modes"); auto cf = m->args.factors("CALC_FREQ"); vs_assert(cf.size() == 1, "one search"); string o = m->args.get("OPTION")->text;
    if (s.band) { CHECK(ASTER, o == "BANDE" && !cf[0]->get("NMAX_FREQ"), "search in a frequency band"); auto r = out::reals(cf[0]->get("FREQ")); CHECK(ASTER, r.size() == 2 && close(r[0], s.lo) && close(r[1], s.hi), "frequency band"); }
    else { CHECK(ASTER, o == "PLUS_PETITE" && !cf[0]->get("FREQ"), "search of the lowest modes"); CHECK(ASTER, cf[0]->get("NMAX_FREQ") && out::real(cf[0]->get("NMAX_FREQ")) == s.n, "number of modes"); }
}
VS_HARNESS(modal_search) {
    Deck d; d.exec = "SOL 103\n"; int cases = 1 + vs_choose("subcases", 2), card = vs_choose("card", 2), bounds = vs_choose("bounds", 4), norm = vs_choose("norm", 3), other = cases > 1 ? vs_choose("other", 3) : 0, cut = vs_choose("cut", 3), order = vs_choose("order", 2), above = cases > 1 ? vs_choose("above", 2) : 0;
    mesh(d); string m = d.bulk; d.bulk.clear(); double lo = vs_dyadic("lo", 1, 8000, 3), hi = vs_dyadic("hi", 8001, 80000, 3); int nd = bounds == 1 && vs_choose("nd", 2) ? 37 : 2; double flo = 0, fhi = 1e30; Search s[2];
    s[0] = search(d, 30, card, bounds, norm, lo, hi, nd); s[1] = search(d, 31, 1 - card, 1, 2 - norm, 0, 0, 7);
    if (cut) { flo = vs_dyadic("flo", 1, 800, 3); d.card("PARAM")("LFREQ")(flo); } if (cut > 1) { fhi = vs_dyadic("fhi", 800001, 900000, 3); d.card("PARAM")("HFREQ")(fhi); } if (cut && bounds == 3) s[0].lo = flo;
    d.bulk = order ? d.bulk + m : m + d.bulk; int me[2] = {30, other == 1 ? 30 : 31}, sp[2] = {2, other == 2 ? 2 : 3};
    if (above) d.caseControl = "METHOD=30\nSPC=2\n"; for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(k + 1) + "\n"; if (!above || me[k] != 30) d.caseControl += "METHOD=" + std::to_string(me[k]) + "\n"; if (!above || sp[k] != 2) d.caseControl += "SPC=" + std::to_string(sp[k]) + "\n"; }
    View v; translate(d, ASTER, v); int n = 0; for (auto &c : v.comm->cmds) if (c.op == "EXTR_MODE") n++; CHECK(ASTER, n == cases, "one modal analysis per subcase");
    for (int k = 0; k < cases; k++) { string r; int i = 0; for (auto &c : v.comm->cmds) if (c.op == "EXTR_MODE" && i++ == k) r = c.name; modes(v, r, s[me[k] - 30], {sp[k] == 2 ? 10 : 12}, flo, fhi); }
    vs_reach("code_aster");
}
// ------------------------------------------------------------------ frequency response
struct Exc { map<ND, double> force; vector<double> table; double phase = 0; string type = "FORC"; };
static vector<double> table(View &v, const out::Val *x) { auto *f = ref(v, x, "function is defined"); vs_assert(f->op == "DEFI_FONCTION", "function is a table"); vs_assert(f->args.get("NOM_PARA") && f->args.get("NOM_PARA")->text == "FREQ", "function of the frequency"); return out::reals(f->args.get("VALE")); }
static map<ND, double> forces(View &v, const out::Val *vect) {
    static const char *names[] = {"FX", "FY", "FZ", "MX", "MY", "MZ"}; auto *a = ref(v, vect, "load vector is defined"); vs_assert(a->op == "ASSE_VECTEUR", "load vector is assembled"); auto *e = ref(v, a->args.get("VECT_ELEM"), "elementary vector is defined"); map<ND, double> r;
    for (auto &n : e->args.strings("CHARGE")) { auto *c = v.comm->named(n); vs_assert(c, "CHARGE is defined"); for (auto *f : c->args.factors("FORCE_NODALE")) for (int k : asterNodes(v, f)) for (int j = 0; j < 6; j++) if (f->get(names[j])) { vs_assert(!r.count({k, j}), "one force per component"); r[{k, j}] = out::real(f->get(names[j])); } } return r;
}
static vector<double> freqs(View &v, const out::Val *x) { auto *l = ref(v, x, "list of frequencies is defined"); if (l->args.get("VALE")) return out::reals(l->args.get("VALE")); auto i = l->args.factors("INTERVALLE"); vs_assert(i.size() == 1, "one interval"); vector<double> r{out::real(l->args.get("DEBUT")), out::real(i[0]->get("JUSQU_A")), out::real(i[0]->get("NOMBRE"))}; for (auto *f : l->args.factors("RAFFINEMENT")) r.push_back(out::real(f->get("DISPERSION"))); return r; }
VS_HARNESS(frequency_response) {
    Deck d; bool modal = vs_choose("modal", 2); d.exec = modal ? "SOL 111\n" : "SOL 108\n"; int cases = 1 + vs_choose("subcases", 2), which = vs_choose("axis", 2); bool order = vs_choose("order", 2);
    // two groups of variations, the rest at its default
    int load = 0, comb = 0, phase = 0, freq = 0, damp = 0, type = 0, shared = 0, stat = 0, same = 0;
    if (which == 0) { load = vs_choose("load", 2); comb = vs_choose("comb", 5); shared = vs_choose("shared", 2); stat = vs_choose("static", 3); if (cases > 1) same = vs_choose("same", modal ? 4 : 2); }
    else { phase = vs_choose("phase", 3); freq = vs_choose("freq", modal ? 3 : 2); if (modal) { damp = vs_choose("damp", 3); type = vs_choose("type", 4); } }
    mesh(d); string m = d.bulk; d.bulk.clear(); Search s = search(d, 30, 0, 1, 0, 0, 0, 12), s2 = search(d, 31, 0, 1, 0, 0, 0, 15); Exc e[2]; vector<double> fr[2];
    // excitations 70 and 71
    double a = vs_dyadic("a", 1, 8000, 3), f = vs_dyadic("f", 16, 8000, 3), y0 = vs_dyadic("y0", 1, 8000, 3), ph = vs_dyadic("ph", 1, 2880, 3); const char *types[] = {"", "DISP", "VELO", "ACCE"}, *tv[] = {"FORC", "DEPL", "VITE", "ACCE"};
    e[0].table = {0.5, comb ? 2. : y0, 100, 4}; e[1].table = shared ? e[0].table : vector<double>{1, 3, 50, 6}; e[0].force[{11, 2}] = a; e[1].force[{12, 0}] = 6; e[1].phase = 45; e[0].type = tv[type];
    for (int k = 0; k < 2; k++) { auto c = d.card(load ? "RLOAD1" : "RLOAD2"); c(70 + k)(80 + k)(); if (k == 1) c(45.); else if (phase == 0) c(); else if (phase == 1) { c(ph); e[0].phase = ph; } else { c(95); e[0].phase = ph; } c(k && !shared ? 91 : 90)(); if (k == 0 && type) c(types[type]); }
    if (phase == 2) d.card("DPHASE")(95)(11)(3)(ph);
    if (stat) { auto c = d.card("FORCE"); c(80)(11)()(a)(0.)(0.)(1.); } else d.card("DAREA")(80)(11)(3)(a); d.card("DAREA")(81)(12)(1)(6.);
    auto tab = [&](int id, const vector<double> &t) { auto c = d.card("TABLED1"); c(id); for (int i = 0; i < 7; i++) c(); for (double x : t) c(x); c("ENDT"); }; tab(90, e[0].table); if (!shared) tab(91, e[1].table);
    vector<std::pair<int, double>> sets[2] = {{{0, 1.}}, {{1, 1.}}}; int request[2] = {70, 71};
    if (comb) { request[0] = 60; sets[0] = {{0, comb == 1 ? 1. : f}}; { auto c = d.card("DLOAD"); c(60)(comb == 4 ? f : 1.)(comb == 1 || comb == 4 ? 1. : f)(70); if (comb == 3) { c(2.)(71); sets[0].push_back({1, 2.}); } } if (comb == 2) { d.card("DLOAD")(61)(2.)(1.5)(70); request[1] = 61; sets[1] = {{0, 3.}}; } }
    // frequencies 40 (first subcase) and 41, damping 50
    double f0 = vs_dyadic("f0", 1, 800, 3), f1 = vs_dyadic("f1", 801, 1600, 3); int nf = freq && vs_choose("nf", 2) ? 37 : 2; double spread = 0.125;
    if (freq == 0) { d.card("FREQ")(40)(f0)(f1)(300.); fr[0] = {f0, f1, 300}; } else if (freq == 1) { d.card("FREQ1")(40)(f0)(0.5)(nf); fr[0] = {f0, f0 + 0.5 * nf, (double)nf}; } else { d.card("FREQ4")(40)(f0)(f1)(spread)(nf); fr[0] = {f0, f1, (double)nf, spread}; } d.card("FREQ")(41)(3.)(9.); fr[1] = {3, 9};
    double g = vs_dyadic("g", 1, 512, 10); if (damp) { auto c = d.card("TABDMP1"); c(50)(damp == 1 ? "CRIT" : "G"); for (int i = 0; i < 6; i++) c(); c(1.)(g)(100.)(0.5)("ENDT"); }
    if (stat == 2) { string b = d.bulk; size_t p = b.find("FORCE "), q = b.find('\n', p) + 1; d.bulk = b.substr(p, q - p) + b.substr(0, p) + b.substr(q); }
    d.bulk = order ? d.bulk + m : m + d.bulk; int sp[2] = {2, same & 1 ? 2 : 3}, me[2] = {30, same & 2 ? 30 : 31};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(k + 1) + "\n"; d.caseControl += "SPC=" + std::to_string(sp[k]) + "\nDLOAD=" + std::to_string(request[k]) + "\nFREQUENCY=" + std::to_string(40 + k) + "\n"; if (modal) d.caseControl += "METHOD=" + std::to_string(me[k]) + "\n"; if (!k && damp) d.caseControl += "SDAMPING=50\n"; }
    View v; translate(d, ASTER, v); auto &cm = *v.comm; vector<const out::Cmd *> dyn = cm.of("DYNA_VIBRA"); CHECK(ASTER, (int)dyn.size() == cases, "one frequency response per subcase");
    for (int k = 0; k < cases; k++) {
        auto &x = dyn[k]->args; set<int> nodes{sp[k] == 2 ? 10 : 12}; CHECK(ASTER, x.get("TYPE_CALCUL")->text == "HARM" && x.get("BASE_CALCUL")->text == (modal ? "GENE" : "PHYS"), "kind of response"); string base; map<string, map<string, string>> gene; string numbering;
        if (modal) {
            vector<const out::Cmd *> pb = cm.of("PROJ_BASE"); vs_assert((int)pb.size() == cases, "one projection per subcase"); auto *al = ref(v, pb[k]->args.get("BASE"), "modal base is defined"); modes(v, al->op, me[k] == 30 ? s : s2, nodes, 0, 1e30);
            for (auto *q : pb[k]->args.factors("MATR_ASSE_GENE")) { vs_assert(q->get("MATRICE") && q->get("MATRICE")->items.size() == 1, "generalised matrix"); string nm = q->get("MATRICE")->items[0].text; string op = nm.substr(0, 4); numbering = matrix(v, q->get("MATR_ASSE"), op == "MASS" ? "MASS_MECA" : op == "RIGI" ? "RIGI_MECA" : "AMOR_MECA", nodes); gene["m"][nm] = op; }
            for (auto *q : pb[k]->args.factors("VECT_ASSE_GENE")) { vs_assert(q->get("VECTEUR") && q->get("VECTEUR")->items.size() == 1, "generalised vector"); string nm = q->get("VECTEUR")->items[0].text; vs_assert(!gene["v"].count(nm), "generalised vectors differ"); gene["v"][nm] = q->get("VECT_ASSE")->text; gene["t"][nm] = q->get("TYPE_VECT")->text; }
            CHECK(ASTER, gene["m"][x.get("MATR_MASS")->text] == "MASS" && gene["m"][x.get("MATR_RIGI")->text] == "RIGI", "generalised matrices");
            bool dk = k == 0 && damp; CHECK(ASTER, !x.factors("AMOR_MODAL").empty() == dk, "modal damping is applied where requested");
            if (dk) { auto *am = ref(v, x.factors("AMOR_MODAL")[0]->get("AMOR_REDUIT"), "damping list is defined"); size_t p = am->op.find(".EXTR_TABLE"); vs_assert(p != string::npos, "damping is read from a table"); auto *ct = cm.named(am->op.substr(0, p)); vs_assert(ct && ct->op == "CREA_TABLE" && ct->args.factors("FONCTION").size() == 1, "damping table"); auto *fn = ref(v, ct->args.factors("FONCTION")[0]->get("FONCTION"), "damping function"); double coef = 1;
                if (fn->op == "CALC_FONCTION") { auto cb = fn->args.factors("COMB"); vs_assert(cb.size() == 1, "one term"); coef = out::real(cb[0]->get("COEF")); fn = ref(v, cb[0]->get("FONCTION"), "damping function"); } if (!fn->call) fn = cm.named(fn->op); vs_assert(fn && fn->op == "CALC_FONC_INTERP", "damping is interpolated"); auto *pf = ref(v, fn->args.get("VALE_PARA"), "frequencies of the modes"); CHECK(ASTER, pf->op == al->op + ".LIST_VARI_ACCES", "damping is evaluated at the modes of the analysis");
                auto tb = table(v, fn->args.get("FONCTION")); CHECK(ASTER, tb.size() == 4 && close(tb[0], 1) && close(tb[2], 100) && close(coef * tb[1], damp == 1 ? g : 0.5 * g) && close(coef * tb[3], damp == 1 ? 0.5 : 0.25), "modal damping"); }
        } else { matrix(v, x.get("MATR_MASS"), "MASS_MECA", nodes); matrix(v, x.get("MATR_RIGI"), "RIGI_MECA", nodes); numbering = matrix(v, x.get("MATR_AMOR"), "AMOR_MECA", nodes); }
        auto lf = freqs(v, x.get("LIST_FREQ")); CHECK(ASTER, lf.size() == fr[k].size(), "number of frequencies"); for (size_t i = 0; i < lf.size(); i++) CHECK(ASTER, close(lf[i], fr[k][i]), "excitation frequency");
        auto ex = x.factors("EXCIT"); CHECK(ASTER, ex.size() == sets[k].size(), "number of excitations"); set<int> done;
        for (auto *q : ex) {
            auto *vec = q->get("VECT_ASSE"); string fx, ty = "FORC"; if (modal) { string g2 = q->get("VECT_ASSE_GENE")->text; vs_assert(gene["v"].count(g2), "generalised vector is projected"); fx = gene["v"][g2]; ty = gene["t"][g2]; } else fx = vec->text; out::Val fv; fv.text = fx; auto got = forces(v, &fv); CHECK(ASTER, cm.named(fx)->args.get("NUME_DDL")->text == numbering, "numbering of the load vector");
            int hit = -1; for (size_t i = 0; i < sets[k].size(); i++) { auto &w = e[sets[k][i].first]; if (got.size() == 1 && got.begin()->first == w.force.begin()->first) hit = (int)i; } CHECK(ASTER, hit >= 0 && done.insert(hit).second, "node and component of the excitation"); if (hit < 0) continue; auto &w = e[sets[k][hit].first]; double sc = sets[k][hit].second;
            CHECK(ASTER, close(got.begin()->second, w.force.begin()->second), "force of the excitation"); CHECK(ASTER, ty == w.type, "type of the excitation"); CHECK(ASTER, close(out::real(q->get("PHAS_DEG")), w.phase), "phase of the excitation");
            auto tb = table(v, q->get("FONC_MULT")); CHECK(ASTER, tb.size() == w.table.size(), "size of the table"); for (size_t i = 0; i < tb.size(); i++) CHECK(ASTER, close(tb[i], i % 2 ? (sc == 1 ? w.table[i] : w.table[i] * sc) : w.table[i]), "table of the excitation");
        }
    }
    vs_reach(modal ? "modal" : "direct");
}
