// The Code_Aster command file as a program: concepts, mesh groups; combinations of subcases.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map; using std::set;
// SUBCOM / SUBSEQ
VS_HARNESS(combined_subcases) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 3); int n = 1 + vs_choose("subcases", 4), fewer = vs_choose("fewer", n), second = vs_choose("second", 3), sep = vs_choose("separator", 3), last = vs_choose("last", 2); int zero = vs_choose("zero", 2); int c1 = n - fewer;
    d.card("GRID")(10)()(0.)(0.)(0.); d.card("GRID")(11)()(1.)(0.)(0.); d.card("CBAR")(3)(5)(10)(11)(0.)(0.)(1.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10);
    vector<std::pair<int, map<int, double>>> want; // combination id -> coefficient of each subcase id
    d.caseControl = "SPC=2\n"; vector<int> ids; auto sub = [&](int id) { d.caseControl += "SUBCASE " + std::to_string(id) + "\nLOAD=" + std::to_string(30 + id) + "\n"; d.card("FORCE")(30 + id)(11)(0)(1. * id)(1.)(0.)(0.); ids.push_back(id); };
    auto com = [&](int id, int m, int k) { d.caseControl += "SUBCOM " + std::to_string(id) + "\n" + (sep == 2 ? "SUBSEQ " : "SUBSEQ="); map<int, double> w; for (int i = 0; i < m; i++) { double x = zero && i == 0 ? 0. : vs_dyadic(vs_name("c", 10 * k + i).c_str(), i == 1 ? -8000 : 1, i == 1 ? -1 : 8000, 3); d.caseControl += vs_put(x) + (i + 1 < m ? sep == 1 ? ", " : "," : "\n"); w[ids[ids.size() - m + i]] = x; } want.push_back({id, w}); };
    for (int i = 0; i < n; i++) sub(i + 1); com(10, c1, 0); if (second == 1) com(11, n, 1); if (second == 2) { sub(20); sub(21); com(22, 2, 2); } if (last) sub(29);
    View v; translate(d, t, v);
    for (auto &w : want) {
        map<int, double> got;
        if (t == ASTER) { // the combined displacement is assembled from the displacement of each result
            int total = (int)ids.size() + (int)want.size(); map<string, int> res; vector<const out::Cmd *> st = v.comm->of("MECA_STATIQUE"); CHECK(t, st.size() == ids.size(), "one static analysis per subcase"); for (size_t i = 0; i < st.size(); i++) res[st[i]->name] = ids[i]; auto rs = v.comm->of("CREA_RESU"); CHECK(t, rs.size() == want.size() && total, "one combined result per SUBCOM"); size_t idx = &w - &want[0]; auto af = rs[idx]->args.factors("AFFE"); vs_assert(af.size() == 1, "one field in the combined result"); auto *f = v.comm->named(af[0]->get("CHAM_GD")->text); vs_assert(f && f->op == "CREA_CHAMP", "combined field is defined"); CHECK(t, f->args.get("OPERATION")->text == "ASSE", "combined field is assembled");
            for (auto *a : f->args.factors("ASSE")) { auto *e = v.comm->named(a->get("CHAM_GD")->text); vs_assert(e && e->args.get("OPERATION")->text == "EXTR" && e->args.get("NOM_CHAM")->text == "DEPL", "field of a subcase"); string r = e->args.get("RESULTAT")->text; CHECK(t, res.count(r), "result of a subcase"); CHECK(t, a->get("TOUT") && a->get("CUMUL")->text == "OUI", "fields are added"); CHECK(t, !got.count(res[r]), "a subcase is combined once"); got[res[r]] = out::real(a->get("COEF_R")); }
        } else { // SUBSEQ of the SUBCOM
            std::istringstream in(v.text); string l; vector<int> seen; bool on = false, found = false; while (std::getline(in, l)) { auto x = words(l); if (x.empty() || l[0] == '$') continue; if (x[0] == "BEGIN") break; if (x[0] == "SUBCASE") { seen.push_back(atoi(x[1].c_str())); on = false; CHECK(t, std::count(ids.begin(), ids.end(), seen.back()) == 1, "subcases of the output"); } else if (x[0] == "SUBCOM") { on = atoi(x[1].c_str()) == w.first; } else if (on) { string k = Cards::trim(l); if (k.compare(0, 6, "SUBSEQ") == 0) { found = true; vector<string> cs; string cur; for (char ch : k.substr(7) + ",") if (ch == ',') { cs.push_back(Cards::trim(cur)); cur.clear(); } else cur += ch; CHECK(t, cs.size() <= seen.size(), "coefficients for preceding subcases"); for (size_t i = 0; i < cs.size(); i++) got[seen[seen.size() - cs.size() + i]] = realOf(cs[i]); } else CHECK(t, k.compare(0, 4, "LOAD") != 0, "no load in a combination"); } } CHECK(t, found, "the combination is written");
        }
        for (int id : ids) { double x = w.second.count(id) ? w.second[id] : 0., y = got.count(id) ? got[id] : 0.; CHECK(t, close(x, y), "coefficient of a subcase in a combination"); }
        for (auto &g : got) CHECK(t, std::count(ids.begin(), ids.end(), g.first) == 1, "only subcases are combined");
    }
    vs_reach(tname[t]);
}
// ------------------------------------------------------------------ the command file as a program
static bool isName(const out::Val &v) { return !v.quoted && !v.factor && !v.list && !v.text.empty() && (isalpha((unsigned char)v.text[0]) || v.text[0] == '_'); }
static void uses(const out::Val &v, vector<string> &r) { if (v.text == "CO" && v.list && v.items.size() == 1 && v.items[0].quoted) return; if (isName(v)) r.push_back(v.text.substr(0, v.text.find('.'))); for (auto &i : v.items) uses(i, r); for (auto &k : v.kw) if (k.first != "NOM_PARA") uses(k.second, r); }
static void made(const out::Val &v, vector<string> &r) { if (v.text == "CO" && v.list && v.items.size() == 1) r.push_back(v.items[0].text); for (auto &i : v.items) made(i, r); for (auto &k : v.kw) made(k.second, r); }
static void groups(View &v, const out::Val &a) {
    for (auto &k : a.kw) {
        const string &n = k.first; bool ma = n.compare(0, 8, "GROUP_MA") == 0 && n.compare(0, 14, "GROUP_MA_ORIGI"), no = n.compare(0, 8, "GROUP_NO") == 0; vector<string> s; if (ma || no || n == "MAILLE" || n == "NOEUD") { s = a.strings(n); CHECK(ASTER, !s.empty(), "a list of cells or nodes is not empty"); }
        for (auto &x : s) { if (ma) CHECK(ASTER, v.cellGroups.count(x) && !v.cellGroups[x].empty(), "GROUP_MA is a group of the mesh"); else if (no) CHECK(ASTER, v.nodeGroups.count(x) && !v.nodeGroups[x].empty(), "GROUP_NO is a group of the mesh");
            else CHECK(ASTER, x.size() > 1 && x[0] == (n == "NOEUD" ? 'N' : 'M') && (n == "NOEUD" ? v.nodeOfPos : v.cellOfPos).count(atoi(x.c_str() + 1)), "NOEUD, MAILLE is in the mesh"); }
        groups(v, k.second);
    }
    for (auto &i : a.items) groups(v, i);
}
static void program(View &v) {
    set<string> live, python; static const set<string> operators = {"DEBUT", "FIN", "DETRUIRE", "IMPR_RESU", "IMPR_TABLE", "DEFI_FICHIER", "TEST_RESU", "PROJ_BASE", "MODI_MAILLAGE"}; bool ended = false; CHECK(ASTER, !v.comm->cmds.empty() && v.comm->cmds[0].op == "DEBUT", "the program starts with DEBUT");
    for (auto &c : v.comm->cmds) {
        if (c.name.empty() && (!c.call || c.op.empty() || c.op[0] == '.')) continue; // subscript of a Python expression
        CHECK(ASTER, !ended, "FIN is the last command"); vector<string> u, m; uses(c.args, u); made(c.args, m); size_t dot = c.op.find('.'); if (dot != string::npos) u.push_back(c.op.substr(0, dot)); else if (!c.call) u.push_back(c.op); string reuse = c.args.get("reuse") ? c.args.get("reuse")->text : "";
        for (auto &x : u) if (!live.count(x)) { if (getenv("VS_SHOW")) printf("## undefined %s in %s=%s\n", x.c_str(), c.name.c_str(), c.op.c_str()); CHECK(ASTER, false, "every concept is defined before it is used"); }
        if (c.name.empty() && c.call && dot == string::npos) CHECK(ASTER, operators.count(c.op), "the result of a command is named");
        if (!c.name.empty()) m.push_back(c.name);
        for (auto &x : m) { if (live.count(x) && !(x == c.name && reuse == x)) { if (getenv("VS_SHOW")) printf("## redefined %s\n", x.c_str()); CHECK(ASTER, false, "a concept is defined once"); } CHECK(ASTER, x.size() <= 8 && (isalpha((unsigned char)x[0]) || x[0] == '_'), "names of concepts have at most 8 characters"); live.insert(x); }
        if (c.op == "DETRUIRE") for (auto &x : u) live.erase(x); if (c.op == "FIN") ended = true;
        if (c.op == "AFFE_CHAR_MECA" || c.op == "AFFE_CHAR_MECA_F") CHECK(ASTER, c.args.kw.size() > 1, "a charge is not empty");
        groups(v, c.args);
    }
    CHECK(ASTER, ended, "FIN is there");
}
// structures, constraints, loads, and analyses of all kinds; returns the solution sequence
static string programDeck(Deck &d, bool systus = false) {
    static const int ofSystus[] = {0, 1, 2, 6}; int sol = systus ? ofSystus[vs_choose("solution", 4)] : vs_choose("solution", 7), cases = sol == 3 ? 2 : 1 + vs_choose("subcases", 2); static const char *sols[] = {"101", "103", "101", "105", "106", "108", "111"}; d.exec = string("SOL ") + sols[sol] + "\n"; bool stat = sol == 0 || sol == 2 || sol == 3 || sol == 4, dyn = sol == 5 || sol == 6;
    int what = vs_choose("what", 3), elems0 = what == 0 ? vs_choose("elements", systus ? 7 : 9) : 3, elems = systus && elems0 > 5 ? 8 : elems0, frame = systus ? vs_choose("frame", 2) : 0, cons = what == 1 ? vs_choose("constraints", 9) : 1, loads = what == 2 ? vs_choose("loads", 10) : 1, same = cases > 1 ? vs_choose("same", 4) : 0, outp = vs_choose("output", 2);
    for (int i = 0; i < 8; i++) d.card("GRID")(10 + i)()(i == 1 || i == 2 || i == 5 || i == 6 ? 1. : 0.)(i % 4 > 1 ? 1. : 0.)(i > 3 ? 1. : 0.); if (frame) { auto c = d.card("CORD2R"); c(50)(0)(0.)(0.)(0.)(0.)(1.)(1.)(1.)(0.)(0.); } if (frame) d.card("GRID")(20)()(2.)(0.)(0.)(50); else d.card("GRID")(20)()(2.)(0.)(0.); d.card("GRID")(21)()(3.)(0.)(0.);
    d.card("MAT1")(9)(200.)()(0.25)(1.); bool bar = elems == 0 || elems == 3 || elems == 4, quad = elems == 1 || elems == 3;
    if (bar) { d.card("CBAR")(1)(5)(20)(21)(0.)(0.)(1.); d.card("CBAR")(2)(5)(11)(20)(0.)(1.)(0.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); }
    if (quad) { d.card("CQUAD4")(3)(6)(10)(11)(12)(13); d.card("PSHELL")(6)(9)(0.5)(9); }
    if (elems == 2 || elems == 3) { d.card("CHEXA")(4)(7)(10)(11)(12)(13)(14)(15)(16)(17); d.card("PSOLID")(7)(9); }
    if (elems == 3) { auto c = d.card("CONM2"); c(8)(21)()(3.); } if (elems == 4) { d.card("CBUSH")(8)(11)(10)(11)()()()(0); d.card("PBUSH")(11)("K")(2.)(3.)(4.)(5.)(6.)(7.); d.card("CROD")(9)(12)(12)(13); d.card("PROD")(12)(9)(1.); }
    if (elems == 5) { d.card("CROD")(9)(12)(10)(20); d.card("CROD")(10)(12)(20)(21); d.card("PROD")(12)(9)(1.); }
    if (elems == 6 || elems == 7) { d.card("MAT8")(19)(100.)(10.)(0.25)(5.)()()(1.)()()()(8.)(7.)(6.)(5.)(4.); for (int k = 0; k < 2; k++) { d.card("CQUAD4")(3 + k)(6 + k)(10 + 4 * k)(11 + 4 * k)(12 + 4 * k)(13 + 4 * k); auto c = d.card("PCOMP"); c(6 + k)()()(4.)(elems == 6 ? "TSAI" : "")()()()(19)(0.25)(0.)()(19)(0.25)(45. + k); } }
    if (elems == 8) { d.mode = CP::TranslationMode::BEST_EFFORT; d.card("CELAS1")(8)(11)(10)(1)(11)(1); d.card("PELAS")(11)(4.); d.card("CBAR")(1)(5)(20)(21)(0.)(0.)(1.); d.card("PBAR")(5)(9)(1.)(1.)(1.)(1.); }
    // constraints 2 and 3
    for (int k = 2; k < 4; k++) { double val = vs_dyadic(vs_name("value", k).c_str(), 0, 8, 3); if (cons == 0) { d.card("SPC1")(k)("123456")(10 + k)(20); } if (cons == 1) d.card("SPC1")(k)("123456")(10)(21 - k); if (cons == 2) d.card("SPC")(k)(10)("12")(val)(11)("3")(0.5); if (cons == 3) { d.card("SPCADD")(k)(40 + k)(42 + k); d.card("SPC1")(40 + k)("123")(10); d.card("SPC1")(42 + k)("1")(10 + k); }
        if (cons == 6) { d.card("SPC1")(k)("1")(10); auto c = d.card("MPC"); c(50 + k)(10)(2)(1.)(11)(3)(2.); } if (cons == 7 || cons == 8) d.card("SPC1")(k)("1")(10); }
    if (cons == 4) { d.card("RBE2")(30)(10)("123")(11)(12); } if (cons == 5) d.card("RBE3")(30)()(10)("123")(1.)("123")(11)(12)(13); if (cons == 7) d.card("SPC1")(99)("3")(12); if (cons == 8) d.card("SPCD")(60)(10)(1)(0.5);
    // loads 60 and 61: the first one may be zero
    double x = vs_dyadic("load", 0, 8000, 3), y = vs_dyadic("accel", 0, 80, 3); for (int k = 60; k < 62 && !dyn; k++) { double z = k == 60 ? x : 2.; bool one = k == 60; if (loads == 1 || (!one && loads > 6)) { auto c = d.card("FORCE"); c(k)(11)(0)(z)(1.)(0.)(0.); } if (loads == 2) { auto c = d.card("GRAV"); c(k)()(one ? y : 9.)(0.)(0.)(1.); } if (loads == 3) { d.card("PLOAD2")(k)(one ? y : 3.)(3); } if (loads == 4) { d.card("PLOAD4")(k)(4)(one ? y : 3.)()()()(10)(12); }
        if (loads == 5) { d.card("FORCE")(k)(11)(0)(z)(1.)(0.)(0.); d.card("FORCE")(k)(12)(0)(-2.)(1.)(0.)(0.); d.card("MOMENT")(k)(12)(0)(3.)(1.)(0.)(0.); } if (loads == 6) { auto c = d.card("LOAD"); c(k)(1.)(one ? x : 2.)(70)(1.)(71 + k - 60); } if (loads == 7 && one) d.card("PLOAD1")(60)(1)("FY")("LE")(0.)(2.)(1.)(3.); if (loads == 8 && one) { auto c = d.card("RFORCE"); c(60)()()(0.25)(0.)(0.)(1.); } if (loads == 9 && one) { d.card("LOAD")(60)(1.)(1.)(61); } }
    if (loads == 6 && !dyn) { for (int k = 70; k < 73; k++) d.card("FORCE")(k)(11 + k - 70)(0)(1.)(1.)(0.)(0.); }
    if (dyn) { for (int k = 0; k < 2; k++) { { auto c = d.card("RLOAD2"); c(60 + k)(80 + k)()()(90); } if (loads < 5) d.card("DAREA")(80 + k)(11)(3)(k ? 2. : x); else d.card("FORCE")(80 + k)(11)(0)(k ? 2. : x + 1.)(0.)(0.)(1.); if (loads == 2 || loads == 6) { d.card("DLOAD")(65 + k)(1.)(1.)(60)(2.)(61); } } auto t = d.card("TABLED1"); t(90); for (int i = 0; i < 7; i++) t(); t(0.5)(2.)(100.)(4.)("ENDT"); d.card("FREQ1")(62)(1.)(2.)(4); if (loads == 3 && sol == 6) d.card("FREQ4")(63)(1.)(9.)(0.25)(3); else d.card("FREQ")(63)(1.)(3.); }
    if (sol == 1 || sol == 3 || sol == 6) { d.card("EIGRL")(64)()()(7); d.card("EIGRL")(65)(1.)(9.)(); } if (sol == 4) { d.card("NLPARM")(64)(4); d.card("NLPARM")(65)(2); } if (sol == 6 && loads == 4) { auto t = d.card("TABDMP1"); t(67)("CRIT"); for (int i = 0; i < 6; i++) t(); t(1.)(0.5)(100.)(0.5)("ENDT"); }
    d.caseControl += "SET 5 = 10,11\n";
    for (int k = 0; k < cases; k++) {
        bool second = k == 1; int c = second && !(same & 1) ? 3 : 2, l = second && !(same & 2) ? 61 : 60; if (cases > 1 || sol == 2) d.caseControl += "SUBCASE " + std::to_string(k + 1) + "\n"; bool buck = sol == 3 && second;
        if (cons != 4 && cons != 5 && !(cons == 7 && second)) d.caseControl += "SPC=" + std::to_string(c) + "\n"; if (cons == 6) d.caseControl += "MPC=" + std::to_string(50 + c) + "\n"; if (cons == 7 && second) d.caseControl += "SPC=98\n";
        if (stat && !buck && (loads || second || cons == 8)) d.caseControl += "LOAD=" + std::to_string(l) + "\n"; if (dyn) { d.caseControl += "DLOAD=" + std::to_string(l + (loads == 2 || loads == 6 ? 5 : 0)) + "\nFREQUENCY=" + std::to_string(second ? 63 : 62) + "\n"; if (sol == 6 && loads == 4) d.caseControl += "SDAMPING=67\n"; }
        if (sol == 1 || sol == 6 || buck) d.caseControl += string("METHOD=") + (second && !(same & 2) ? "65\n" : "64\n"); if (sol == 4) d.caseControl += second ? "NLPARM=65\n" : "NLPARM=64\n"; if (outp && !buck) d.caseControl += "DISP=5\n";
    }
    if (sol == 2) { d.caseControl += cases == 1 ? "SUBCOM 5\nSUBSEQ=2.\n" : "SUBCOM 5\nSUBSEQ=1.,-0.5\nSUBCOM 6\nSUBSEQ=3.\n"; }
    return sols[sol];
}
VS_HARNESS(command_program) { Deck d; string sol = programDeck(d); View v; translate(d, ASTER, v); program(v); vs_reach("code_aster"); vs_reach(sol.c_str()); }
// ------------------------------------------------------------------ the Systus files
static void coherent(out::Asc &a, const string &text) {
    auto n = [&](const char *s) { return (long)a[s].size(); }; auto head = [&](const char *s, size_t i) { auto &h = a.head[s]; vs_assert(a.head.count(s) && i < h.size(), "section is there"); return (long)intOf(h[i]); };
    auto ids = [&](const char *s) { set<long> r; for (auto &w : a[s]) { vs_assert(!w.empty(), "row is not empty"); long k = intOf(w[0]); CHECK(SYSTUS, k > 0 && r.insert(k).second, "numbers in a section are different"); } return r; };
    for (const char *s : {"NODES", "ELEMENTS", "GROUPS", "MATERIALS", "LOADS", "LISTS", "VECTORS", "TABLES"}) { CHECK(SYSTUS, head(s, 0) == n(s), "a section has as many rows as its header says"); }
    { long m = 0; for (auto &w : a["MASSES"]) { (void)w; m++; } CHECK(SYSTUS, head("MASSES", 0) == m, "MASSES has as many rows as its header says"); }
    auto nodes = ids("NODES"), elements = ids("ELEMENTS"), materials = ids("MATERIALS"), loads = ids("LOADS"), lists = ids("LISTS"), vectors = ids("VECTORS"), tables = ids("TABLES"); ids("GROUPS");
    std::istringstream in(text); string l; for (int i = 0; i < 3; i++) std::getline(in, l); auto h = words(l); vs_assert(h.size() >= 9, "third line of the file"); auto hi = [&](int i) { return (long)intOf(h[i]); };
    CHECK(SYSTUS, hi(2) == n("NODES") && hi(3) == n("ELEMENTS") && hi(4) == n("LOADS"), "the header counts nodes, elements and loads");
    auto &inf = a["INFORMATIONS"]; vs_assert(inf.size() == 3 && inf[2].size() == 40, "INFORMATIONS has three lines"); auto code = [&](int i) { return (long)intOf(inf[2][i]); };
    CHECK(SYSTUS, code(0) == n("LOADS") && code(1) == n("NODES") && code(3) == n("ELEMENTS") && code(6) == n("LISTS") && code(7) == n("VECTORS"), "INFORMATIONS counts loads, nodes, elements, lists and vectors"); CHECK(SYSTUS, code(10) == hi(5) && (code(10) == 3 || code(10) == 6), "degrees of freedom per node");
    auto ref = [&](const string &w, const set<long> &s, const char *what) { long k = intOf(w); CHECK(SYSTUS, k == 0 || s.count(k), what); };
    for (auto &w : a["NODES"]) { ref(w[3], vectors, "frame of a node is a vector"); ref(w[4], lists, "loads of a node are a list"); ref(w[5], lists, "displacements of a node are a list"); }
    for (auto &w : a["ELEMENTS"]) { CHECK(SYSTUS, materials.count(intOf(w[2])), "material of an element is there"); ref(w[3], lists, "loads of an element are a list"); size_t p = 5 + (size_t)intOf(w[4]); CHECK(SYSTUS, (long)w.size() - (long)p == intOf(w[1]) % 100, "an element has as many nodes as its type says"); set<long> own; for (; p < w.size(); p++) { CHECK(SYSTUS, nodes.count(intOf(w[p])), "nodes of an element are there"); own.insert(intOf(w[p])); } CHECK(SYSTUS, (long)own.size() == intOf(w[1]) % 100, "nodes of an element are different"); }
    set<string> names; for (auto &w : a["GROUPS"]) { vs_assert(w.size() > 7, "a group is not empty"); CHECK(SYSTUS, names.insert(w[1] + " " + w[2]).second, "names of groups are different"); for (size_t i = 7; i < w.size(); i++) CHECK(SYSTUS, (w[2] == "1" ? nodes : elements).count(intOf(w[i])), "members of a group are there"); }
    long fields = 0; for (auto &w : a["MATERIALS"]) { CHECK(SYSTUS, w.size() % 2 == 0 && w.size() > 2, "fields of a material have a key and a value"); set<string> keys; for (size_t i = 2; i + 1 < w.size(); i += 2) { fields++; CHECK(SYSTUS, keys.insert(w[i]).second, "a field of a material is given once"); if (w[i] == "26") CHECK(SYSTUS, tables.count((long)realOf(w[i + 1])), "table of a material is there"); } } CHECK(SYSTUS, head("MATERIALS", 1) == fields, "MATERIALS counts its fields");
    long items = 0; for (auto &w : a["LISTS"]) { CHECK(SYSTUS, w.size() % 2 == 1 && w.size() > 1, "lists have a load and a vector"); for (size_t i = 1; i + 1 < w.size(); i += 2) { items++; CHECK(SYSTUS, loads.count(intOf(w[i])) && vectors.count(intOf(w[i + 1])), "loads and vectors of a list are there"); } } CHECK(SYSTUS, head("LISTS", 1) == items, "LISTS counts its pairs");
    long k = 0; for (auto &w : a["LOADS"]) { CHECK(SYSTUS, intOf(w[0]) == ++k, "loads are numbered in order"); ref(w[3], vectors, "vector of a load is there"); }
    set<long> massive; for (auto &w : a["MASSES"]) { vs_assert(w.size() > 3 && w[0] == "VALUES", "mass"); size_t p = 2 + (size_t)intOf(w[1]); CHECK(SYSTUS, w.size() > p, "a mass has a node"); for (; p < w.size(); p++) CHECK(SYSTUS, nodes.count(intOf(w[p])), "node of a mass is there"); }
}
VS_HARNESS(systus_files) {
    Deck d; string sol = programDeck(d, true); View v; v.t = SYSTUS; v.dir = d.dir; d.parse(SolverName::SYSTUS); d.finish(); string all = d.systus(); int files = 0;
    string dat = slurp(all), base = all.substr(0, all.rfind("_ALL.DAT")), name = base.substr(base.rfind('/') + 1); std::istringstream in(dat); string l; vector<string> read; while (std::getline(in, l)) { auto w = words(l); if (w.size() == 2 && w[0] == "READ") read.push_back(w[1]); }
    for (;; files++) {
        string s = slurp(ascFile(all, files + 1)); if (s.empty()) break; out::Asc a(s); coherent(a, s); string own = name + "_SC" + std::to_string(files + 1) + ".DAT"; CHECK(SYSTUS, std::count(read.begin(), read.end(), own) == 1, "the command file of every subcase is read once");
        std::istringstream run(slurp(base + "_SC" + std::to_string(files + 1) + ".DAT")); int lines = 0; bool data = false; while (std::getline(run, l)) { auto w = words(l); lines++; if (w.empty() || w[0][0] == '#') continue; if (w.size() > 3 && w[1] == "1" && w[2] == "TO") CHECK(SYSTUS, intOf(w[3]) == (long)a[w[0] == "FORCE" ? "ELEMENTS" : "NODES"].size(), "results are asked on all nodes or elements"); if (w[0] == "FUNCTION") CHECK(SYSTUS, a.row("TABLES", w[1]), "function of a load is a table"); if (l.find("ASCII") != string::npos) data = true; }
        CHECK(SYSTUS, lines > 0 && data, "the command file of a subcase reads data");
    }
    CHECK(SYSTUS, files > 0 && (int)read.size() == files, "a file is written for each command file that is read"); vs_reach("systus"); vs_reach(sol.c_str());
}
