// Text of the input file: number spellings.
#include "h_bc.h"
#include <sys/stat.h>
using namespace view; using std::vector; using std::string;
// a real spelled with n digits, the point after the p-th (p < 0: none), an exponent
VS_HARNESS(real_spelling) {
    int n = 1 + vs_choose("digits", 4), p = vs_choose("point", n + 1), sg = vs_choose("sign", 3), ex = vs_choose("exponent", 6), es = ex ? vs_choose("exponent_sign", 3) : 0, en = ex ? 1 + (n == 2 ? vs_choose("exponent_digits", 2) : 0) : 0, form = n == 3 ? vs_choose("form", 3) : n % 3;
    if (ex == 5 && !es) return; // the exponent letter may only be left out before a sign
    string s; if (sg) s += sg == 1 ? '+' : '-'; long m = 0;
    for (int i = 0; i < n; i++) { if (i == p) s += '.'; unsigned char c = vs_u8(vs_name("d", i).c_str(), '0', '9'); s += vs_filebyte(c); char ch = (char)c; m = m * 10 + (ch - '0'); } if (p == n) s += '.';
    int e = 0; if (ex) { if (ex < 5) s += " EeDd"[ex]; if (es) s += es == 1 ? '+' : '-'; for (int i = 0; i < en; i++) { unsigned char c = vs_u8(vs_name("e", i).c_str(), en == 1 ? '2' : '0', en == 2 ? i ? '8' : '1' : '5'); s += vs_filebyte(c); e = e * 10 + (c - '0'); } if (es == 2) e = -e; }
    e = (int)vs_conc(e) - (n - p); double w = (double)m; static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 1e24};
    if (e > 0) w = w * p10[e]; else if (e < 0) w = w / p10[-e]; if (sg == 2) w = -w;
    Deck d; string first = "GRID    20              1.      0.      0.\n"; d.bulk = first + (form == 0 ? "GRID,10,," + s + ",0.,0.\n" : form == 1 ? string("GRID*   10                              ") + s + string(16 - s.size(), ' ') + "0.              *\n*       0.\n" : string());
    if (form == 2) { if (s.size() > 8) return; d.bulk = first + "GRID    10              " + string(8 - s.size(), ' ') + s + "0.      0.\n"; }
    d.card("GRID")(30)()(0.)(1.)(0.); d.card("CTRIA3")(1)(4)(10)(20)(30); d.card("PSHELL")(4)(9)(0.5); d.card("MAT1")(9)(200.)()(0.25)(1.);
    Model &mo = d.parse(); mo.finish(); View v;
    for (const Node &nd : mo.mesh.nodes) if (nd.id == 10) { vs_assert(nd.x == w, "value of a real number"); vs_reach("nastran"); }
}
typedef vector<string> C;
enum Style { PLUS, IMPLICIT, MARKERS, LARGE, LARGE_IMPLICIT, FREE, FREE_PLUS, TABS, IMPLICIT_SHORT, FREE_SHORT, MIXED, SMALL_LARGE, LARGE_SMALL, NSTYLES };
// a card of small field lines continued in large fields, or the other way round
static string mixedCard(const C &c, bool lower, bool largeFirst, const string &after, const string &eol, const string &between) {
    string kw = c[0], r; if (lower) for (auto &x : kw) x = (char)tolower(x); auto pad = [](string s, size_t w) { if (s.size() < w) s.resize(w, ' '); return s; }; size_t n = c.size() - 1, a = 1;
    for (int l = 0; !l || a <= n || (largeFirst && l < 2); l++) {
        bool lg = largeFirst ? l < 2 : l > 0; size_t per = lg ? 4 : 8, b = std::min(n + 1, a + per); string line = pad(l ? lg ? "*" : "" : lg ? kw + "*" : kw, 8); for (size_t i = a; i < b; i++) line += pad(c[i], lg ? 16 : 8);
        a += per; bool more = a <= n || (largeFirst && !l); if (more) line = pad(line, 72); if (after.size() && !more) line += " " + after; r += line + eol + "\n"; if (more) r += between;
    }
    return r;
}
// a card as lines of the given style; after: text appended to each line that has room, between: lines between a card and its continuation
static string styled(const C &c, int style, bool lower, const string &after, const string &eol, const string &between) {
    if (style == SMALL_LARGE || style == LARGE_SMALL) return mixedCard(c, lower, style == LARGE_SMALL, after, eol, between);
    string kw = c[0]; if (lower) for (auto &x : kw) x = (char)tolower(x); string r; size_t n = c.size() - 1; auto pad = [](string s, size_t w) { if (s.size() < w) s.resize(w, ' '); return s; }; auto rtrim = [](string s) { while (!s.empty() && (s.back() == ' ' || s.back() == ',')) s.pop_back(); return s; };
    bool shrt = style == IMPLICIT_SHORT || style == FREE_SHORT, large = style == LARGE || style == LARGE_IMPLICIT || (style == MIXED && n <= 8); size_t per = large ? 4 : 8, lines = n ? (n + per - 1) / per : 1; if (large && lines % 2) lines++;
    for (size_t l = 0; l < lines; l++) {
        string line; bool more = l + 1 < lines, lg = large; size_t a = 1 + l * per, b = std::min(n + 1, a + per); string tag = "+A" + std::to_string(l), prev = "+A" + std::to_string((int)l - 1);
        switch (style) {
        case PLUS: case IMPLICIT: case MARKERS: case IMPLICIT_SHORT: case MIXED:
            line = pad(lg ? l ? "*" : kw + "*" : l ? style == PLUS ? "+" : style == MARKERS ? prev : "" : kw, 8); for (size_t i = a; i < b; i++) line += pad(c[i], lg ? 16 : 8); if (more && (style == PLUS || style == MARKERS)) line = pad(line, 72) + (style == PLUS ? "+" : tag); if (shrt) line = pad(rtrim(line), l ? 9 : 0); break;
        case LARGE: case LARGE_IMPLICIT: line = pad(l ? "*" : kw + "*", 8); for (size_t i = a; i < b; i++) line += pad(c[i], 16); if (more && style == LARGE) line = pad(line, 72) + "*"; break;
        case FREE: case FREE_PLUS: case FREE_SHORT: line = l ? style == FREE_PLUS ? "+" : "" : kw; for (size_t i = a; i < b; i++) line += "," + c[i]; if (shrt) line = rtrim(line) + (l && rtrim(line).empty() ? "," : ""); if (more && style == FREE_PLUS) { for (size_t i = b; i < a + per; i++) line += ","; line += ",+"; } break;
        case TABS: line = l ? "+" : kw; for (size_t i = a; i < b; i++) line += (i > a && c[i - 1].size() >= 8 ? "" : "\t") + c[i]; if (more && c[b - 1].empty()) line += "\t"; break; // from tab stop to tab stop
        }
        if (after.size() && (style == FREE || style == FREE_SHORT || style == TABS || line.size() < 72 || !more)) line += " " + after; r += line + eol + "\n"; if (more) r += between;
    }
    return r;
}
static vector<C> cards() {
    vector<C> r; auto num = [](const char *n, int i) { return vs_put(vs_dyadic(vs_name(n, i).c_str(), 1, 8000, 3)); }; const int base[] = {0, 4000, 4000, 0};
    for (int i = 0; i < 4; i++) r.push_back({"GRID", std::to_string(10 + i), "", vs_put(vs_dyadic(vs_name("x", i).c_str(), base[i] + 1, base[i] + 900, 3)), i == 2 ? "1." : "0.", i > 1 ? "1." : "0.", "", i ? "" : "456"});
    for (int i = 4; i < 8; i++) r.push_back({"GRID", std::to_string(10 + i), "", std::to_string(i) + ".", i % 2 ? "1." : "0.", "2.5", "", i < 6 ? "" : "3"});
    r.push_back({"CQUAD4", "1", "4", "10", "11", "12", "13"}); r.push_back({"PSHELL", "4", "9", num("t", 0), "9", "", "", "", num("t", 1)});
    r.push_back({"CBAR", "2", "5", "10", "11", "0.", "1.", "0."}); r.push_back({"PBAR", "5", "9", num("a", 0), num("a", 1), num("a", 2), num("a", 3), num("a", 4), "", "", "", "", "", "", "", "", "", num("k", 0), num("k", 1)});
    r.push_back({"MAT1", "9", num("e", 0), "", "0.25", num("e", 1)}); r.push_back({"SPC1", "2", "123456", "10", "11", "12", "THRU", "13"});
    r.push_back({"FORCE", "3", "13", "", num("f", 0), "0.", "1.", "0."}); r.push_back({"SPC1", "2", "456", "10", "11", "12", "13", "10", "12", "11"});
    r.push_back({"RBE3", "30", "", "14", "123", "2.", "123", "15", "16", "1.5", "123", "17"}); r.push_back({"CBEAM", "3", "6", "15", "17", "0.", "0.", "1.", "", "", "", "0.5", "0.", "0.", "0.5"});
    r.push_back({"PBEAM", "6", "9", num("b", 0), num("b", 1), num("b", 2), "", num("b", 3)}); return r;
}
static string outOf(Deck &d, int target) { d.parse(target == 2 ? SolverName::CODE_ASTER : SolverName::NASTRAN); d.finish(); return target == 2 ? d.aster() : d.nastran(target == 0); }
// names numbered by counters that run through the process, renumbered by first appearance
static string renumbered(const string &s) {
    static const std::set<string> kinds{"M", "BL", "CHMEC", "CHMEF", "RESU", "CRESU", "TBLO", "uloc", "RETB", "unit", "tbresloc_", "tbresu_", "REPE_OUT/tbresloc_", "SUBCASE "}; std::map<string, std::map<string, int>> seen; string r; size_t i = 0;
    while (i < s.size()) {
        if (!isalpha(s[i]) && s[i] != '_') { r += s[i++]; continue; } size_t j = i; while (j < s.size() && (isalpha(s[j]) || s[j] == '_')) j++; string w = s.substr(i, j - i); if (w == "SUBCASE" && s[j] == ' ') { w += ' '; j++; } size_t k = j; while (k < s.size() && isdigit(s[k])) k++; string n = s.substr(j, k - j);
        bool quoted = i && s[i - 1] == '\''; if (n.size() && kinds.count(w) && !quoted) { auto &m = seen[w]; if (!m.count(n)) { int q = (int)m.size() + 1; m[n] = q; } r += w + "~" + std::to_string(m[n]); } else r += w + n; i = k;
    }
    return r;
}
static void same(const string &a, const string &b, int target, const char *label) {
    if (getenv("VS_SHOW")) fprintf(stderr, "%s\n======\n%s", a.c_str(), b.c_str());
    if (target == 2) { vs_assert(renumbered(a) == renumbered(b), label); return; }
    Cards x(a), y(b); vs_assert(x.all.size() == y.all.size(), label); for (size_t i = 0; i < x.all.size(); i++) vs_assert(x.all[i] == y.all[i], label);
    auto cc = [](const string &s) { string r, l; std::istringstream in(renumbered(s)); bool on = false; while (std::getline(in, l)) { if (l.compare(0, 5, "BEGIN") == 0) break; if (on && l.compare(0, 4, "SET ") && l[0] != '$') r += l + "\n"; if (l.compare(0, 4, "CEND") == 0) on = true; } return r; }; vs_assert(cc(a) == cc(b), label);
}
VS_HARNESS(text_formats) {
    int target = vs_choose("target", 3), even = vs_choose("even", NSTYLES), lower = vs_choose("lower", 2), what = vs_choose("what", 8), note = what < 6 ? what : 5, cc = what < 6 ? 0 : what - 5, eol = what >= 6 ? 0 : vs_choose("end_of_line", 2); if (target && cc) return;
    int odd = target || eol || cc || what == 4 || what == 5 ? (even + 1) % NSTYLES : vs_choose("odd", NSTYLES); if (cc) note = 0; auto cs = cards();
    string any = "$", end = eol ? "\r" : ""; if (note) for (int i = 0; i < 3; i++) any += vs_filebyte(vs_u8(vs_name("c", i).c_str(), 32, 126));
    Deck d, e; d.caseControl = "LOAD=3\nSPC=2\n"; for (auto &c : cs) d.bulk += styled(c, PLUS, false, "", "", "");
    e.caseControl = cc == 0 ? "LOAD=3" + end + "\nSPC=2" + end + "\n" : cc == 1 ? "  load = 3 \n$ LOAD=7\n spc   =  2\n" : "LOAD  3\nSPC  2\n"; if (cc == 1) e.exec = "sol 101\n";
    for (size_t i = 0; i < cs.size(); i++) {
        e.bulk += styled(cs[i], i % 2 ? odd : even, lower, note == 2 ? any : "", end, note == 3 ? any + end + "\n" : ""); if (note == 1) e.bulk += any + end + "\n"; if (note == 4) e.bulk += (i % 2 ? "" : "   ") + end + "\n"; if (note == 5) e.bulk += end + "\n" + any + "\n  " + any + end + "\n\n";
    }
    if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", e.bulk.c_str()); string a = outOf(d, target), b = outOf(e, target);
    same(a, b, target, "the same deck in another format gives the same output"); vs_reach(tname[target]);
}
// known finding: a '+' continuation of a small field line written without its trailing blanks
VS_HARNESS(text_short_plus) {
    int target = vs_choose("target", 3); vs_reach(tname[target]); Deck d, e; auto cs = cards();
    for (auto &c : cs) { bool m = c[0] == "CBEAM"; d.bulk += styled(c, PLUS, false, "", "", ""); if (!m) e.bulk += styled(c, PLUS, false, "", "", ""); }
    // the offsets of the bar are in fields 4 to 9 of the second line
    e.bulk += "CBEAM   3       6       15      17      0.      0.      1.\n+                       0.5     0.      0.      0.5\n";
    string a = outOf(d, target), b = outOf(e, target); same(a, b, target, "a '+' continuation of a line without its trailing blanks");
}
// a card the program does not know, or knows and ignores, among the others
VS_HARNESS(unknown_cards) {
    int target = vs_choose("target", 3), mode = vs_choose("mode", 3), kind = vs_choose("kind", 4), style = vs_choose("style", NSTYLES), n = vs_choose("length", 3), at = vs_choose("at", target || style % 3 ? 3 : 7); auto cs = cards(); size_t place = at == 0 ? 0 : at == 1 ? cs.size() : at == 2 ? 8 : 2 * at + 5;
    string letter = kind < 2 && style % 5 == 0 && n == 1 && at == 1 ? string() + vs_filebyte(vs_u8("k", 'A', 'Z')) : "Z"; C alien; alien.push_back(kind == 0 ? letter + "QZX" : kind == 1 ? letter + "QZXWV1" : kind == 2 ? "PLOTEL" : "DRESP1"); for (int i = 0; i < (n == 0 ? 3 : n == 1 ? 8 : 13); i++) alien.push_back(i == 1 && place ? string("T") + vs_filebyte(vs_u8("c", 32, 126)) + "2" : i % 3 == 2 ? "10" : i % 3 ? "0.5" : "ABC");
    bool known = kind >= 2; Deck d, e; d.caseControl = e.caseControl = "LOAD=3\nSPC=2\n"; d.mode = e.mode = mode == 2 ? CP::TranslationMode::MESH_AT_LEAST : mode ? CP::TranslationMode::BEST_EFFORT : CP::TranslationMode::MODE_STRICT;
    for (size_t i = 0; i <= cs.size(); i++) { if (i == place) e.bulk += styled(alien, style, false, "", "", ""); if (i == cs.size()) break; string l = styled(cs[i], PLUS, false, "", "", ""); d.bulk += l; e.bulk += l; }
    if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", e.bulk.c_str());
    vs_reach(tname[target]); if (!known && mode == 0) { vs_expect_exception(true); e.parse(target == 2 ? SolverName::CODE_ASTER : SolverName::NASTRAN); vs_assert(false, "an unknown card is refused in strict mode"); return; }
    string a = outOf(d, target), b = outOf(e, target); if (!known && mode == 2) { vs_assert(e.model->onlyMesh, "only the mesh is translated after an unknown card"); return; } same(a, b, target, "an unknown or ignored card leaves the rest as it is");
}

// cards in other files read by INCLUDE
VS_HARNESS(included_files) {
    int target = vs_choose("target", 3), nest = vs_choose("levels", 3), how = vs_choose("statement", 7), inside = vs_choose("text of the file", 7); auto cs = cards(); int n = (int)cs.size(), from = (vs_choose("first card", (n + 3) / 4) * 4 + (how + inside) % 4) % n, len = vs_choose("cards", 4); int to = len == 0 ? from : len == 1 ? from + 1 : len == 2 ? std::min(n, from + 4) : n;
    
    Deck d, e; d.caseControl = e.caseControl = "LOAD=3\nSPC=2\n"; for (auto &c : cs) d.bulk += styled(c, PLUS, false, "", "", ""); static const int form[] = {PLUS, IMPLICIT_SHORT, LARGE, FREE, MARKERS};
    auto name = [&](int level) { return how == 4 ? vs_name("part two ", level) + ".bdf" : how == 5 ? vs_name("Sub/Part_", level) + ".dat" : vs_name("part", level) + ".inc"; };
    auto stmt = [&](int level) { string f = how == 5 && level ? name(level).substr(4) : name(level); return how == 0 ? "INCLUDE '" + f + "'\n" : how == 1 ? "INCLUDE " + f + "\n" : how == 2 ? "include  '" + f + "'  $ comment\n" : how == 3 ? "INCLUDE    '" + f + "'   \n" : how == 4 ? "INCLUDE '" + f + "'\n" : how == 5 ? "Include '" + f + "'\n" : "INCLUDE '" + f + "'\r\n"; };
    auto put = [&](int level, string text, bool last) { if (inside == 1) text = "$ a comment\n$\n" + text; if (inside == 2) text = "\n   \n" + text + "\n\n"; if (inside == 3 && text.size()) text.pop_back(); if (inside == 4) { string r; for (char c : text) { if (c == '\n') r += '\r'; r += c; } text = r; } if (inside == 5) text += "$ the end"; (void)last; if (how == 5) mkdir((e.dir + "/Sub").c_str(), 0777); std::ofstream(e.dir + "/" + name(level)) << text; };
    string lines[3]; for (int i = 0; i < n; i++) { string l = styled(cs[i], inside == 6 ? form[i % 5] : PLUS, false, "", "", ""); bool in = i >= from && i < to; if (!in) { e.bulk += l; if (i + 1 == from || (from == 0 && i < 0)) e.bulk += stmt(0); continue; } int level = nest == 0 ? 0 : std::min(nest, i - from); if (i == from && from == 0) e.bulk += stmt(0); lines[level] += l; }
    if (from == to && from == 0) e.bulk = stmt(0) + e.bulk;
    for (int k = nest; k >= 0; k--) { string l = lines[k]; if (k < nest) l += stmt(k + 1) + (k ? "" : "$ after\n"); put(k, l, k == nest); }
    if (getenv("VS_SHOW")) fprintf(stderr, "%s\n", e.bulk.c_str()); string a = outOf(d, target), b = outOf(e, target); same(a, b, target, "cards in included files give the same output"); vs_reach(tname[target]);
}
