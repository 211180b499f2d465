// Reference results (f06, csv) that become checks of the translated analyses.
#include "h_load.h"
#include "../ResultReaders/ResultReadersFacade.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
static const char *comps[] = {"DX", "DY", "DZ", "DRX", "DRY", "DRZ"};
struct Row { int node; double u[6]; bool scalar = false, alone = false; };
static void structure(Deck &d, int frame) {
    static const int ids[] = {10, 7, 25, 30, 4}; for (int i = 0; i < 5; i++) { auto c = d.card("GRID"); c(ids[i])()(i == 2 ? 0. : double(i))(i == 2 ? 3. : 0.)(0.); if (frame && (i == 2 || i == 4)) c(6); }
    if (frame == 1) { d.card("CORD2R")(6)()(0.)(0.)(0.)(1.)(0.)(0.)(0.)(1.)(0.); } if (frame == 2) d.card("CORD2C")(6)()(0.)(0.)(0.)(0.)(0.)(1.)(1.)(0.)(0.);
    int e = 3; for (auto p : vector<std::pair<int, int>>{{10, 7}, {7, 30}, {30, 4}, {7, 25}}) d.card("CBAR")(e++)(5)(p.first)(p.second)(0.)(0.)(1.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10); d.card("FORCE")(3)(4)(0)(1.)(1.)(2.)(3.);
}
// basic components of a displacement given along the axes of the frame of grid points 25, at (0,3,0), and 4, at (4,0,0): frame 1 has z along x, x along y; frame 2 is cylindrical
static void basic(int frame, int node, const double *u, double *r) { if (node != 25 && node != 4) frame = 0; if (node == 4 && frame == 2) frame = 0; for (int k = 0; k < 6; k += 3) { if (frame == 0) { for (int i = 0; i < 3; i++) r[k + i] = u[k + i]; } else if (frame == 1) { r[k] = u[k + 2]; r[k + 1] = u[k]; r[k + 2] = u[k + 1]; } else { r[k] = -u[k + 1]; r[k + 1] = u[k]; r[k + 2] = u[k + 2]; } } }
static string page(int n, int sub, int style) { string s = "1    A TITLE WITH ANY TEXT                                          NOVEMBER  19, 2026  NASTRAN  PAGE  " + std::to_string(n) + "\n"; if (style == 1) s += "     A SUBTITLE\n"; s += sub ? "0                                                                              SUBCASE " + std::to_string(sub) + (style == 2 ? "              " : "") + "\n" : string("0\n"); return s + (style == 2 ? " \n\n" : "\n"); }
static const char *head = "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3\n";
static string rows(const vector<Row> &rs, size_t a, size_t b) { string s; for (size_t i = a; i < b; i++) { s += "            " + std::to_string(rs[i].node) + (rs[i].scalar ? "      S   " : "      G   "); for (int k = 0; k < (rs[i].alone ? 1 : 6); k++) s += "   " + (rs[i].u[k] == 0 ? string("0.0") : vs_put(rs[i].u[k])); s += "\n"; } return s; }
static CP conf(Deck &d, Fmt t, const string &file, double tol) { return CP(d.dir + "/in.nas", Solver(solver(t)), "", "out", d.dir, LogLevel::ERROR, d.mode, file, tol, false, false, "", "", false, "lagrangian", 0.0, 0.0, "auto", "systus", {}, "table", 9, "auto", "cosmic95"); }
static void run(Deck &d, Fmt t, const string &file, const string &text, double tol, View &v, string *base = nullptr) {
    { std::ofstream(d.dir + "/" + file) << text; } if (getenv("VS_SHOW")) fprintf(stderr, "%s\n%s\n", d.text().c_str(), text.c_str()); v.t = t; v.dir = d.dir; d.parse(solver(t)); auto c = conf(d, t, d.dir + "/" + file, tol); auto r = vega::result::ResultReadersFacade::getResultReader(c); vs_assert((bool)r, "a reader of result files"); r->add_assertions(c, *d.model); d.finish();
    if (t == ASTER) readAster(v, *d.model, v.text = d.aster()); else { string a = d.systus(); if (base) *base = a.substr(0, a.rfind("_ALL.DAT")); readSystus(v, slurp(ascFile(a, 1))); }
    if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", v.text.c_str());
}
typedef map<ND, double> Disp;
// the displacement checks written for the k-th static analysis
static Disp checksAster(View &v, const string &resu, double tol, double inst) {
    Disp r; for (auto *c : v.comm->of("TEST_RESU")) for (auto *f : c->args.factors("RESU")) {
        vs_assert(f->get("RESULTAT") && v.comm->named(f->get("RESULTAT")->text), "checked result is computed"); if (f->get("RESULTAT")->text != resu) continue; auto n = asterNodes(v, f); vs_assert(n.size() == 1, "one node per check"); int k = 0; for (; k < 6; k++) if (f->get("NOM_CMP") && f->get("NOM_CMP")->text == comps[k]) break; vs_assert(k < 6 && f->get("NOM_CHAM")->text == "DEPL", "checked component");
        vs_assert(!r.count({n[0], k}), "a component is checked once"); double x = out::real(f->get("VALE_REFE")); r[{n[0], k}] = x; if (x != 0) CHECK(ASTER, out::real(f->get("VALE_CALC")) == x, "value of a check"); CHECK(ASTER, f->get("CRITERE")->text == (x == 0 ? "ABSOLU" : "RELATIF"), "relative or absolute check"); CHECK(ASTER, close(out::real(f->get("PRECISION")), tol), "tolerance of a check");
        if (inst < 0) CHECK(ASTER, f->get("NUME_ORDRE") && intOf(f->get("NUME_ORDRE")->text) == 1 && !f->get("INST"), "order number of a check"); else CHECK(ASTER, f->get("INST") && close(out::real(f->get("INST")), inst), "instant of a check");
    } return r;
}
static map<int, Disp> checksSystus(const string &dat, double tol) {
    map<int, Disp> all; int number = 0; size_t count = 0; std::istringstream in(dat); string l; int node = 0; auto after = [](const string &s, size_t p, char end) { return s.substr(p, s.find(end, p) - p); }; int toler = 0;
    while (std::getline(in, l)) { const string a = "displacement = node_displacement(", b = "diff = abs((displacement[", c = "if (diff > abs("; if (l.compare(0, a.size(), a) == 0) { number = (int)intOf(after(l, a.size(), ',')); node = (int)intOf(after(l, l.find(',') + 1, ')')); } else if (l.compare(0, b.size(), b) == 0) { int k = l[b.size()] - '1'; size_t p = l.find("-(", b.size()); double x = realOf(after(l, p + 2, ')')); auto &r = all[number]; vs_assert(!r.count({node, k}), "a component is checked once"); r[{node, k}] = x; count++; size_t q = l.find("/(", p); double s = realOf(after(l, q + 2, ')')); CHECK(SYSTUS, s == (x == 0 ? 1. : x), "relative or absolute check"); } else if (l.compare(0, c.size(), c) == 0) { toler++; CHECK(SYSTUS, close(realOf(after(l, c.size(), ')')), tol), "tolerance of a check"); } }
    vs_assert(toler == (int)count, "every check has a tolerance"); return all;
}
static void sameChecks(Fmt t, const Disp &got, const Disp &want) { CHECK(t, got.size() == want.size(), "every component of the result file is checked, and no other"); for (auto &w : want) { auto g = got.find(w.first); CHECK(t, g != got.end(), "a component of the result file is checked"); CHECK(t, g->second == w.second, "reference value of a check"); } }
VS_HARNESS(static_results) {
    Deck d; Fmt t = vs_choose("target", 2) ? SYSTUS : ASTER; int cases = vs_choose("subcases", 4), csv = t == ASTER && cases ? vs_choose("file", 2) : 0, spcs = t == SYSTUS && cases > 1 ? vs_choose("constraints", 3) : 0, frame = t == ASTER && !csv ? vs_choose("frame", 3) : 0, style = vs_choose("style", 3), extra = csv ? 0 : vs_choose("sections", cases ? 6 : 5), split = csv ? 0 : vs_choose("break", 3), order = cases > 1 ? vs_choose("order", 3) : 0, tl = vs_choose("tolerance", 2); double tol = tl ? 0.005 : 0.02; bool nl = t == ASTER && !csv && cases == 1 && vs_choose("step", 2);
    static const int num[2][4] = {{0, 2, 3, 8}, {0, 1, 2, 3}}, *ids = num[csv]; structure(d, frame); d.card("SPC1")(9)("123")(10)(30); auto set2 = [&](int k) { return spcs == 1 ? k % 2 == 0 : spcs == 2 && k > 1; }; if (nl) { d.exec = "SOL 106\n"; d.card("NLPARM")(50)(4); } d.caseControl = "SPC=2\n" + string(nl ? "NLPARM=50\n" : "") + (cases ? "" : "LOAD=3\n"); for (int k = 1; k <= cases; k++) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\nLOAD=3\n" + (set2(k) ? "SPC=9\n" : "");
    int n = cases ? cases : 1; map<int, Disp> want; string text; int pg = 1; vector<int> file; for (int k = 1; k <= n; k++) file.push_back(k); if (order == 1) std::reverse(file.begin(), file.end()); if (order == 2) file.erase(file.begin());
    if (csv) { if (style) text += "#\n#---- TABLE\n"; text += style == 2 ? " ,RESULTAT ,NOM_CHAM         ,INST         ,NUME_ORDRE   ,NOEUD    ,COOR_X       ,DX           ,DY           ,DZ           ,DRX          ,DRY          ,DRZ         \n" : style ? "RESULTAT,INST,NOEUD,DZ,DX\n" : "NOEUD,RESULTAT,DX,DY,DZ,DRX,DRY,DRZ\n"; }
    for (int k : file) {
        int sub = cases ? ids[k] : 0; vector<Row> rs; for (int q : {7, 25, 30, 4}) { if (q == 4 && k == 2) continue; Row r; r.node = q; for (int i = 0; i < 6; i++) r.u[i] = (q + i + k) % 4 == 0 ? 0. : (q + i) % 3 ? vs_dyadic(vs_name("u", k, q * 10 + i).c_str(), 1 + 1000 * i, 900 + 1000 * i, 3) : -0.5 * (k + i) - 0.25 * q; rs.push_back(r); }
        for (auto &r : rs) { double b[6]; basic(frame, r.node, r.u, b); for (int i = 0; i < 6; i++) if (!(csv && style == 1) || i == 0 || i == 2) want[k][{r.node, i}] = b[i]; }
        if (csv) { for (auto &r : rs) { auto num = [&](int i) { return r.u[i] == 0 ? string(" 0.00000E+00 ") : " " + vs_put(r.u[i]) + " "; }; string re = "RESU" + std::to_string(sub ? sub : 1), no = "N" + std::to_string(r.node); if (style == 2) { text += " ," + re + "    ,DEPL             , 0.00000E+00 ,           1 ," + no + "       , 1.00000E+01 "; for (int i = 0; i < 6; i++) text += "," + num(i); } else if (style) text += re + ",0.," + no + "," + num(2) + "," + num(0); else { text += no + "," + re; for (int i = 0; i < 6; i++) text += "," + num(i); } text += "\n"; } continue; }
        if (extra == 3 || extra == 4) { Row s = rs[0]; s.node = 900; s.scalar = true; s.alone = extra == 4; rs.insert(rs.begin() + 1, s); }
        string top = page(pg++, sub, style) + (nl ? "     LOAD STEP =  1.00000E+00\n" : "") + "                                             D I S P L A C E M E N T   V E C T O R\n" + (style == 1 ? " \n" : "") + head, spc = page(pg++, sub, style) + "                               F O R C E S   O F   S I N G L E - P O I N T   C O N S T R A I N T\n\n" + head + rows(rs, 0, 1), load = page(pg++, sub, style) + "                                                     L O A D   V E C T O R\n\n" + head + rows(rs, 1, 2);
        size_t cut = split == 0 ? rs.size() : split == 1 ? 2 : 1; if (extra == 1 || extra == 2) text += load; text += top + rows(rs, 0, cut); if (cut < rs.size()) text += top + rows(rs, cut, rs.size()); if (extra == 2) text += spc;
    }
    if (extra == 5) { Row r; r.node = 7; for (double &u : r.u) u = 7.5; string other = page(pg++, 77, style) + "                                             D I S P L A C E M E N T   V E C T O R\n" + head + rows({r}, 0, 1); text = style ? text + other : other + text; }
    if (!csv) text += "1                                        * * * END OF JOB * * *\n"; View v; string base; run(d, t, csv ? "ref.csv" : style == 1 ? "ref.F06" : "ref.f06", text, tol, v, &base);
    if (t == ASTER) { vector<string> res; for (auto &c : v.comm->cmds) if (c.op == "MECA_STATIQUE" || c.op == "STAT_NON_LINE") res.push_back(c.name); vs_assert((int)res.size() == n, "one analysis per subcase"); for (int k = 1; k <= n; k++) sameChecks(t, checksAster(v, res[k - 1], tol, nl ? 1. : csv ? 0. : -1.), want[k]); }
    else { if (getenv("VS_SHOW")) for (int f = 1; f < 3; f++) fprintf(stderr, "FILE %d\n%s\n", f, slurp(base + "_SC" + std::to_string(f) + ".DAT").c_str()); // subcases with the same constraints share a file, their results are numbered in it
        map<int, Disp> got[2]; for (int f = 0; f < 2; f++) got[f] = checksSystus(slurp(base + "_SC" + std::to_string(f + 1) + ".DAT"), tol); int used[2] = {0, 0}; for (int k = 1; k <= n; k++) { int f = set2(k); sameChecks(t, got[f][++used[f]], want[k]); } for (int f = 0; f < 2; f++) for (auto &g : got[f]) CHECK(t, g.second.empty() || g.first <= used[f], "only existing results are checked"); }
    vs_reach(tname[t]);
}
// ------------------------------------------------------------------ natural frequencies
struct Mode { int n; double eigen, cycles, mass, stiff; };
static string modePage(int &pg, int sub, int style, const vector<Mode> &m, size_t a, size_t b, const char *note = "") { string s = page(pg++, sub, style) + "                                              R E A L   E I G E N V A L U E S\n" + note + "   MODE    EXTRACTION      EIGENVALUE            RADIANS             CYCLES            GENERALIZED         GENERALIZED\n    NO.       ORDER                                                                       MASS              STIFFNESS\n"; for (size_t i = a; i < b; i++) { auto put = [](double x) { return "        " + (x == 0 ? string("0.0") : vs_put(x)); }; s += "        " + std::to_string(m[i].n) + "         " + std::to_string(m[i].n) + put(m[i].eigen) + put(3.5 * m[i].n) + put(m[i].cycles) + put(m[i].mass) + put(m[i].stiff) + "\n"; } return s; }
VS_HARNESS(modal_results) {
    Deck d; Fmt t = vs_choose("target", 2) ? SYSTUS : ASTER; int cases = vs_choose("subcases", 3), cut = t == ASTER ? vs_choose("cut", 5) : 0, masses = vs_choose("masses", 3), split = vs_choose("break", 2), zero = vs_choose("rigid", 2), style = vs_choose("style", 3), extra = vs_choose("sections", 3), order = cases > 1 ? vs_choose("order", 2) : 0, tl = vs_choose("tolerance", 2); double tol = tl ? 0.005 : 0.02; bool buckling = t == ASTER && cases == 2 && !cut && vs_choose("buckling", 2);
    static const int ids[] = {0, 2, 8}; structure(d, 0); d.exec = buckling ? "SOL 105\n" : "SOL 103\n"; d.card("SPC1")(9)("123456")(4); d.card("EIGRL")(30)()()(12); d.card("EIGRL")(31)()()(15); double lo = 0, hi = 1e30;
    // modes near 4, 12, 20 and 28; the cut-offs fall between them
    if (cut == 1 || cut == 3) lo = vs_dyadic("lo", 5 * 8, 11 * 8, 3); if (cut == 2 || cut == 3) hi = vs_dyadic("hi", 21 * 8, 27 * 8, 3); if (cut == 4) lo = vs_dyadic("lo", 40 * 8, 50 * 8, 3); if (lo > 0) d.card("PARAM")("LFREQ")(lo); if (hi < 1e30) d.card("PARAM")("HFREQ")(hi);
    d.caseControl = cases ? "" : "SPC=2\nMETHOD=30\n"; for (int k = 1; k <= cases; k++) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n" + (buckling ? k == 1 ? "SPC=2\nLOAD=3\n" : "SPC=2\nMETHOD=30\n" : k == 1 ? "SPC=2\nMETHOD=30\n" : "SPC=9\nMETHOD=31\n");
    int n = cases ? cases : 1, pg = 1; string text; map<int, vector<Mode>> want; vector<int> file; for (int k = buckling ? 2 : 1; k <= n; k++) file.push_back(k); if (order) std::reverse(file.begin(), file.end());
    for (int k : file) { int sub = cases ? ids[k] : 0; vector<Mode> m; for (int i = 0; i < 4; i++) { auto v = [&](const char *s, int a, int b) { return vs_dyadic(vs_name(s, k, i).c_str(), a, b, 3); }; Mode x; x.n = i + 1; bool z = zero && i == 0; x.cycles = z ? 0 : v("f", (4 + 8 * i) * 8 - 7, (4 + 8 * i) * 8 + 7); x.eigen = z ? 0 : v("l", 1000 * (i + 1), 1000 * (i + 1) + 900); x.mass = masses == 0 || (masses == 2 && i % 2) ? 1. : v("m", 100, 200); x.stiff = z ? 0 : v("k", 9000 + 1000 * i, 9900 + 1000 * i); m.push_back(x); } want[k] = m;
        size_t c = split ? 2 : 4; text += modePage(pg, sub, style, m, 0, c); if (c < 4) text += modePage(pg, sub, style, m, c, 4); if (extra == 1) text += modePage(pg, sub, style, m, 0, 2, "                                             (AFTER AUGMENTATION OF RESIDUAL VECTORS)\n"); if (extra == 2) text += page(pg++, sub, style) + "      EIGENVALUE =  6.499125E+02\n          CYCLES =  4.057397E+00         R E A L   E I G E N V E C T O R   N O .          1\n\n" + head + "             7      G      0.0            1.0            2.0            0.0            0.0            0.0\n"; }
    text += "1                                        * * * END OF JOB * * *\n"; View v; string base; run(d, t, "ref.f06", text, tol, v, &base);
    for (int k = buckling ? 2 : 1; k <= n; k++) {
        set<std::pair<string, int>> done; auto once = [&](const string &p, int i) { CHECK(t, done.insert({p, i}).second, "a quantity is checked once"); };
        if (t == ASTER) {
            string r; int i = 0; for (auto &c : v.comm->cmds) if (buckling ? c.op == "CALC_MODES" : c.op == "EXTR_MODE") if (++i == (buckling ? 1 : k)) r = c.name; vs_assert(!r.empty(), "modes are computed"); for (auto *c : v.comm->of("TEST_RESU")) CHECK(t, !c->args.factors("RESU").empty(), "a test has something to check");
            for (auto *c : v.comm->of("TEST_RESU")) for (auto *f : c->args.factors("RESU")) { vs_assert(f->get("RESULTAT") && v.comm->named(f->get("RESULTAT")->text), "checked result is computed"); if (f->get("RESULTAT")->text != r) continue; string p = f->get("PARA")->text; int q = (int)intOf(f->get("NUME_MODE")->text); once(p, q); CHECK(t, q >= 1 && q <= 4, "checked mode"); auto &m = want[k][q - 1]; double x = p == "FREQ" ? m.cycles : p == "MASS_GENE" ? m.mass : p == "RIGI_GENE" ? m.stiff : m.eigen; CHECK(t, buckling ? p == "CHAR_CRIT" : p == "FREQ" || p == "MASS_GENE" || p == "RIGI_GENE", "checked quantity"); CHECK(t, close(out::real(f->get("VALE_CALC")), x), "reference value of a mode"); CHECK(t, close(out::real(f->get("TOLE_MACHINE")), tol), "tolerance of a check"); if (p == "FREQ" || p == "CHAR_CRIT") CHECK(t, f->get("CRITERE")->text == (m.cycles == 0 ? "ABSOLU" : "RELATIF"), "relative or absolute check"); }
            for (auto &m : want[k]) { bool in = buckling || !((lo > 0 && (m.n == 1 || cut == 4)) || (hi < 1e30 && m.n == 4)); if (buckling) { CHECK(t, done.count({"CHAR_CRIT", m.n}) == 1, "every mode of the result file is checked"); continue; } CHECK(t, done.count({"FREQ", m.n}) == (in ? 1u : 0u), "every mode of the result file within the cut-offs is checked"); CHECK(t, done.count({"MASS_GENE", m.n}) == (in ? 1u : 0u), "the generalised mass of a mode is checked"); if (in && !(masses == 0 || (masses == 2 && m.n % 2 == 0))) CHECK(t, done.count({"RIGI_GENE", m.n}) == 1, "the generalised stiffness of a mode is checked"); if (!in) CHECK(t, done.count({"RIGI_GENE", m.n}) == 0, "excluded modes are not checked"); }
        } else {
            string dat = slurp(base + "_SC" + std::to_string(k) + ".DAT"), l; if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", dat.c_str()); std::istringstream in(dat); int q = 0, tolers = 0; auto after = [](const string &s, size_t p, char end) { return s.substr(p, s.find(end, p) - p); }; const string a = "frequency = frequency_number(", b = "diff = abs((frequency-(", c = "if (diff > abs(";
            while (std::getline(in, l)) { if (l.compare(0, a.size(), a) == 0) { q = (int)intOf(after(l, a.size(), ')')); once("FREQ", q); CHECK(t, q >= 1 && q <= 4, "checked mode"); } else if (l.compare(0, b.size(), b) == 0) { auto &m = want[k][q - 1]; CHECK(t, close(realOf(after(l, b.size(), ')')), m.cycles), "reference value of a mode"); CHECK(t, close(realOf(after(l, l.find("/(", b.size()) + 2, ')')), m.cycles == 0 ? 1. : m.cycles), "relative or absolute check"); } else if (l.compare(0, c.size(), c) == 0) { tolers++; CHECK(t, close(realOf(after(l, c.size(), ')')), tol), "tolerance of a check"); } }
            CHECK(t, done.size() == 4 && tolers == 4, "every mode of the result file is checked");
        }
    }
    vs_reach(buckling ? "buckling" : tname[t]);
}
// ------------------------------------------------------------------ frequency response
static void complexOf(const string &s0, double *re, double *im) { string s = s0; vs_assert(!s.empty() && s.back() == 'j', "a complex value"); s.pop_back(); size_t p = string::npos; for (size_t i = 1; i < s.size(); i++) if (s[i] == '+' && s[i - 1] != 'e' && s[i - 1] != 'E') { p = i; break; } vs_assert(p != string::npos, "a complex value"); *re = realOf(s.substr(0, p)); *im = realOf(s.substr(p + 1)); }
VS_HARNESS(response_results) {
    Deck d; Fmt t = vs_choose("target", 2) ? SYSTUS : ASTER; bool modal = t == SYSTUS || vs_choose("modal", 2); int cases = vs_choose("subcases", 3), frame = vs_choose("frame", 3), polar = vs_choose("polar", 2), style = vs_choose("style", 3), split = vs_choose("break", 2), nf = 1 + vs_choose("frequencies", 2), order = cases > 1 ? vs_choose("order", 2) : 0, tl = vs_choose("tolerance", 2), extra = vs_choose("sections", 2); double tol = tl ? 0.005 : 0.02;
    static const int ids[] = {0, 2, 8}; structure(d, frame); d.exec = modal ? "SOL 111\n" : "SOL 108\n"; d.card("SPC1")(9)("123456")(4); d.card("EIGRL")(30)()()(12); d.card("RLOAD2")(70)(80)()()(90); d.card("DAREA")(80)(25)(3)(2.); { auto c = d.card("TABLED1"); c(90); for (int i = 0; i < 7; i++) c(); c(1.)(1.)(100.)(1.)("ENDT"); } { auto c = d.card("FREQ"); c(40)(5.); if (nf > 1) c(8.); }
    d.caseControl = string("DLOAD=70\nFREQUENCY=40\n") + (modal ? "METHOD=30\n" : "") + (cases ? "" : "SPC=2\n"); for (int k = 1; k <= cases; k++) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\nSPC=" + (k == 1 ? "2\n" : "9\n");
    struct Q { int k, f, node, c; double re, im; }; vector<Q> want; int n = cases ? cases : 1, pg = 1; string text; vector<int> file; for (int k = 1; k <= n; k++) file.push_back(k); if (order) std::reverse(file.begin(), file.end());
    for (int k : file) for (int f = 0; f < nf; f++) {
        int sub = cases ? ids[k] : 0; vector<string> lines; for (int q : {7, 25, 4}) { double a[6], b[6], re[6], im[6], gr[6], gi[6]; string l1 = "0           " + std::to_string(q) + "      G   ", l2 = "                          "; static const double angle[] = {0, 90, 180, 270, 0, 180};
            for (int i = 0; i < 6; i++) { bool zero = (q + i + k) % 4 == 0; a[i] = zero ? 0. : vs_dyadic(vs_name("a", k * 10 + f, q * 10 + i).c_str(), 1 + 1000 * i, 900 + 1000 * i, 3); if (polar) { b[i] = zero ? 0 : angle[i]; re[i] = zero || i == 1 || i == 3 ? 0 : i == 2 || i == 5 ? -a[i] : a[i]; im[i] = zero ? 0 : i == 1 ? a[i] : i == 3 ? -a[i] : 0; } else { b[i] = (q + i) % 5 == 0 ? 0. : -0.5 * (i + 1) - 0.25 * q - f; re[i] = a[i]; im[i] = b[i]; } auto put = [](double x) { return "   " + (x == 0 ? string("0.0") : vs_put(x)); }; l1 += put(a[i]); l2 += put(b[i]); }
            basic(frame, q, re, gr); basic(frame, q, im, gi); for (int i = 0; i < 6; i++) want.push_back({k, f, q, i, gr[i], gi[i]}); lines.push_back(l1 + "\n" + l2 + "\n"); }
        string top = "      FREQUENCY =  " + string(f ? "8.000000E+00" : "5.000000E+00") + "\n                                       C O M P L E X   D I S P L A C E M E N T   V E C T O R\n                                                          " + (polar ? "(MAGNITUDE/PHASE)" : "(REAL/IMAGINARY)") + "\n" + (style == 1 ? " \n" : "") + head; string other = page(pg++, sub, style) + "      FREQUENCY =  " + string(f ? "8.000000E+00" : "5.000000E+00") + "\n                                           C O M P L E X   A C C E L E R A T I O N   V E C T O R\n                                                          " + (polar ? "(REAL/IMAGINARY)" : "(MAGNITUDE/PHASE)") + "\n" + head + lines[1];
        if (extra) text += other; text += page(pg++, sub, style) + top + lines[0]; if (split) text += page(pg++, sub, style) + top; text += lines[1] + lines[2];
    }
    text += "1                                        * * * END OF JOB * * *\n"; View v; string base; run(d, t, "ref.f06", text, tol, v, &base);
    for (int k = 1; k <= n; k++) {
        struct G { double re, im; }; map<std::pair<int, ND>, G> got; auto put = [&](int f, ND x, double re, double im) { CHECK(t, got.insert({{f, x}, {re, im}}).second, "a component is checked once"); };
        if (t == ASTER) {
            vector<string> res; for (auto &c : v.comm->cmds) if (modal ? c.op == "REST_GENE_PHYS" : c.op == "DYNA_VIBRA") res.push_back(c.name); CHECK(t, (int)res.size() == n, "one response per subcase");
            for (auto *c : v.comm->of("TEST_RESU")) for (auto *q : c->args.factors("RESU")) { vs_assert(q->get("RESULTAT") && v.comm->named(q->get("RESULTAT")->text), "checked result is computed"); if (q->get("RESULTAT")->text != res[k - 1]) continue; auto nn = asterNodes(v, q); vs_assert(nn.size() == 1, "one node per check"); int i = 0; for (; i < 6; i++) if (q->get("NOM_CMP") && q->get("NOM_CMP")->text == comps[i]) break; vs_assert(i < 6 && q->get("NOM_CHAM")->text == "DEPL", "checked component"); double fr = out::real(q->get("FREQ")), re, im; CHECK(t, close(fr, 5) || close(fr, 8), "checked frequency"); complexOf(q->get("VALE_CALC_C")->text, &re, &im); put(fr > 6, {nn[0], i}, re, im); auto tv = out::reals(q->get("TOLE_MACHINE")); bool rel = q->get("CRITERE")->text == "RELATIF"; CHECK(t, tv.size() >= 1 && close(tv[0], rel ? tol : 1e-5), "tolerance of a check"); for (auto &w : want) if (w.k == k && w.node == nn[0] && w.c == i && w.f == (fr > 6)) CHECK(t, rel == !(w.re == 0 && w.im == 0), "relative or absolute check"); }
        } else {
            string dat = slurp(base + "_SC" + std::to_string(k) + ".DAT"), l; if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", dat.c_str()); std::istringstream in(dat); int node = 0, f = 0, i = 0, tolers = 0; auto after = [](const string &s, size_t p, char end) { return s.substr(p, s.find(end, p) - p); }; const string a = "while (nume_ordre<nb_map-1 && abs(puls - ", b = "displacement = trans_node_displacement(nume_ordre,", c = "displacement_real = displacement[", e = "diff = (abs(displacement_real-(", h = "if (diff > abs(";
            auto is = [&](const string &p) { return l.compare(0, p.size(), p) == 0; };
            while (std::getline(in, l)) { if (is(a)) { double w = realOf(after(l, a.size(), ')')) / 6.283185307179586; CHECK(t, close(w, 5) || close(w, 8), "checked frequency"); f = w > 6; } else if (is(b)) node = (int)intOf(after(l, b.size(), ')')); else if (is(c)) i = (int)intOf(after(l, c.size(), ']')) - 1; else if (is(e)) { double re = realOf(after(l, e.size(), ')')), im = realOf(after(l, l.find("displacement_imag-(") + 19, ')')); put(f, {node, i}, re, im); } else if (is(h)) { tolers++; CHECK(t, close(realOf(after(l, h.size(), ')')), tol), "tolerance of a check"); } }
            CHECK(t, tolers == (int)got.size(), "every check has a tolerance");
        }
        size_t count = 0; for (auto &w : want) if (w.k == k) { count++; auto g = got.find({w.f, {w.node, w.c}}); CHECK(t, g != got.end(), "a component of the result file is checked"); CHECK(t, close(g->second.re, w.re) && close(g->second.im, w.im), "reference value of a check"); } CHECK(t, got.size() == count, "every component of the result file is checked, and no other");
    }
    vs_reach(tname[t]);
}
// ------------------------------------------------------------------ stresses of solid elements
static vector<int> asterCells(View &v, const out::Val *f) { vector<int> r; for (auto &g : f->strings("GROUP_MA")) { vs_assert(v.cellGroups.count(g), "GROUP_MA names an existing group"); for (int c : v.cellGroups[g]) r.push_back(c); } for (auto &m : f->strings("MAILLE")) { vs_assert(m.size() > 1 && v.cellOfPos.count(atoi(m.c_str() + 1)), "MAILLE names an existing cell"); r.push_back(v.cellOfPos[atoi(m.c_str() + 1)]); } return r; }
VS_HARNESS(stress_results) {
    Deck d; Fmt t = ASTER; int cases = vs_choose("subcases", 3), split = vs_choose("break", 4), style = vs_choose("style", 3), kinds = vs_choose("kinds", 3), order = cases > 1 ? vs_choose("order", 2) : 0, disp = vs_choose("displacements", 2), cosines = vs_choose("cosines", 2), tl = vs_choose("tolerance", 2); double tol = tl ? 0.005 : 0.02; static const int ids[] = {0, 2, 8}, grid[8] = {10, 7, 25, 30, 4, 51, 62, 15};
    for (int i = 0; i < 8; i++) d.card("GRID")(grid[i])()(double(i == 1 || i == 2 || i == 5 || i == 6))(double(i == 2 || i == 3 || i == 6 || i == 7))(double(i > 3)); { auto c = d.card("CHEXA"); c(31)(5); for (int g : grid) c(g); } { auto c = d.card("CTETRA"); c(12)(5)(10)(7)(25)(4); } d.card("PSOLID")(5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123")(10)(7)(25); d.card("FORCE")(3)(4)(0)(1.)(1.)(2.)(3.);
    d.caseControl = string("SPC=2\n") + (cases ? "" : "LOAD=3\n"); for (int k = 1; k <= cases; k++) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\nLOAD=3\n";
    int n = cases ? cases : 1, pg = 1; string text; vector<int> file; for (int k = 1; k <= n; k++) file.push_back(k); if (order) std::reverse(file.begin(), file.end()); map<int, map<std::pair<int, int>, double>> want;
    for (int k : file) { int sub = cases ? ids[k] : 0; if (disp) { Row r; r.node = 25; for (double &u : r.u) u = 1.5; text += page(pg++, sub, style) + "                                             D I S P L A C E M E N T   V E C T O R\n" + head + rows({r}, 0, 1); }
        for (int kind = 0; kind < 2; kind++) { if (kinds && kinds != kind + 1) continue; int cell = kind ? 12 : 31; vector<int> nd = kind ? vector<int>{10, 7, 25, 4} : vector<int>(grid, grid + 8); string top = string(kind ? "                   S T R E S S E S   I N    T E T R A H E D R O N   S O L I D   E L E M E N T S   ( C T E T R A )\n" : "                      S T R E S S E S   I N   H E X A H E D R O N   S O L I D   E L E M E N T S   ( H E X A )\n") + "0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN                   \n  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES \n";
            text += page(pg++, sub, style) + top + "0        " + std::to_string(cell) + "           0GRID CS  " + std::to_string(nd.size()) + " GP\n";
            for (int i = -1; i < (int)nd.size(); i++) { if ((split == 1 && i == 1) || (split == 2 && i == 0) || (split == 3 && (i == 1 || i == 3))) text += page(pg++, sub, style) + top; double m = i < 0 ? 1. : (i + k) % 4 == 0 ? 26.5 : vs_dyadic(vs_name("s", k, cell * 10 + i).c_str(), 8, 8000, 3); if (i >= 0) want[k][{cell, nd[i]}] = m; string num = i < 0 ? "CENTER" : std::to_string(nd[i]); text += "0" + string(22 - num.size(), ' ') + num + "  X  -4.996571E-01  XY   4.938064E-03   A  -4.845051E-03  " + (cosines ? "LX 0.04 1.00-0.08" : "LX 0.0  1.00 0.0 ") + "   1.863037E-01    " + vs_put(m) + "\n                         Y   2.224241E-07  YZ   5.760327E-08   B  -4.999996E-01  LY 0.0  0.00 0.0\n                         Z   2.982697E-07  ZX   3.735851E-07   C   2.603470E-07  LZ 0.0  0.00 0.0\n"; } } }
    text += "1                                        * * * END OF JOB * * *\n"; View v; run(d, t, "ref.f06", text, tol, v); vector<string> res; for (auto &c : v.comm->cmds) if (c.op == "MECA_STATIQUE") res.push_back(c.name); vs_assert((int)res.size() == n, "one analysis per subcase");
    for (int k = 1; k <= n; k++) { map<std::pair<int, int>, double> got; int other = 0; for (auto *c : v.comm->of("TEST_RESU")) for (auto *f : c->args.factors("RESU")) { vs_assert(f->get("RESULTAT") && v.comm->named(f->get("RESULTAT")->text), "checked result is computed"); if (f->get("RESULTAT")->text != res[k - 1]) continue; if (f->get("NOM_CHAM")->text == "DEPL") { other++; continue; } CHECK(t, f->get("NOM_CHAM")->text == "SIEQ_ELNO" && f->get("NOM_CMP")->text == "VMIS", "checked stress"); auto nn = asterNodes(v, f); auto cc = asterCells(v, f); vs_assert(nn.size() == 1 && cc.size() == 1, "one node of one element per check"); CHECK(t, got.insert({{cc[0], nn[0]}, out::real(f->get("VALE_CALC"))}).second, "a stress is checked once"); auto tv = out::reals(f->get("TOLE_MACHINE")); CHECK(t, f->get("CRITERE")->text == "RELATIF" && tv.size() && close(tv[0], tol), "tolerance of a check"); CHECK(t, intOf(f->get("NUME_ORDRE")->text) == 1, "order number of a check"); }
        CHECK(t, other == (disp ? 3 : 0), "displacements are checked as well"); CHECK(t, got.size() == want[k].size(), "every von Mises stress at a grid point is checked, and no other"); for (auto &w : want[k]) { auto g = got.find(w.first); CHECK(t, g != got.end(), "a von Mises stress is checked"); CHECK(t, close(g->second, w.second), "reference value of a check"); } }
    vs_reach(tname[t]);
}
