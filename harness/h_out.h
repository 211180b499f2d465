// Readers for the output files: Code_Aster command file, Systus ASC file, and a recorder for the MED mesh.
#pragma once
#include "h_deck.h"
#include <med.h>
#include <cstring>
#include <cctype>
namespace out {
using std::string; using std::vector; using std::pair;
// ------------------------------------------------------------------ Code_Aster command file
struct Val {
    string text; bool factor = false, list = false, quoted = false; vector<Val> items; vector<pair<string, Val>> kw;
    const Val *get(const string &k) const { for (auto &p : kw) if (p.first == k) return &p.second; return nullptr; }
    vector<const Val *> factors(const string &k) const { // factor keyword, single or repeated
        vector<const Val *> r; for (auto &p : kw) if (p.first == k) { if (p.second.factor) r.push_back(&p.second); else for (auto &i : p.second.items) if (i.factor) r.push_back(&i); } return r;
    }
    vector<string> strings(const string &k) const { const Val *v = get(k); vector<string> r; if (!v) return r; if (!v->list) r.push_back(v->text); else for (auto &i : v->items) r.push_back(i.text); return r; }
};
struct Cmd { string name, op; Val args; bool call = false; };
struct Comm {
    string s; size_t p = 0; vector<Cmd> cmds; bool ok = true;
    explicit Comm(const string &text) {
        for (size_t i = 0; i < text.size();) { // drop comments
            size_t e = text.find('\n', i); if (e == string::npos) e = text.size();
            bool q = false; size_t j = i; for (; j < e; j++) { if (text[j] == '\'') q = !q; if (text[j] == '#' && !q && !(token(text, j))) break; }
            // placeholders of the engine look like #12#
            s.append(text, i, j - i); s += '\n'; i = e + 1;
        }
        while (ws(), p < s.size()) { size_t before = p; Cmd c; string id = ident(); ws(); if (p < s.size() && s[p] == '=') { p++; ws(); c.name = id; id = ident(); ws(); } c.op = id; if (p < s.size() && s[p] == '(') { p++; c.call = true; args(c.args); } cmds.push_back(c); ws(); while (p < s.size() && (s[p] == ';' || s[p] == ',')) { p++; ws(); } if (p == before) p++; }
    }
    static bool token(const string &t, size_t j) { size_t k = j + 1; while (k < t.size() && isdigit((unsigned char)t[k])) k++; if (k > j + 1 && k < t.size() && t[k] == '#') return true; k = j; while (k > 0 && isdigit((unsigned char)t[k - 1])) k--; return k < j && k > 0 && t[k - 1] == '#'; }
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    string ident() { size_t b = p; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || s[p] == '.')) p++; return s.substr(b, p - b); }
    void args(Val &v) { // after '('
        for (;;) { ws(); if (p >= s.size()) { ok = false; return; } if (s[p] == ')') { p++; return; } if (s[p] == ',' || s[p] == ';') { p++; continue; }
            size_t save = p; string k = ident(); ws();
            if (!k.empty() && p < s.size() && s[p] == '=') { p++; v.kw.push_back({k, value()}); }
            else { p = save; size_t b = p; v.items.push_back(value()); if (p == b) p++; } }
    }
    Val value() {
        Val v; ws(); if (p >= s.size()) { ok = false; return v; }
        if (s[p] == '\'' || s[p] == '"') { char q = s[p++]; size_t b = p; while (p < s.size() && s[p] != q) p++; v.text = s.substr(b, p - b); v.quoted = true; if (p < s.size()) p++; return v; }
        if (s[p] == '(') { p++; v.list = true; args(v); return v; }
        size_t b = p; while (p < s.size() && !strchr(",();\n ", s[p])) p++;
        v.text = s.substr(b, p - b); size_t save = p; ws();
        if (p < s.size() && s[p] == '(' && !v.text.empty() && !isdigit((unsigned char)v.text[0])) { p++; v.factor = v.text == "_F"; if (!v.factor) v.list = true; args(v); } else p = save;
        return v;
    }
    vector<const Cmd *> of(const string &op) const { vector<const Cmd *> r; for (auto &c : cmds) if (c.op == op) r.push_back(&c); return r; }
    const Cmd *named(const string &n) const { for (auto &c : cmds) if (c.name == n) return &c; return nullptr; }
};
static inline double real(const Val *v) { double d = 0; bool ok = v && vs_get_real_(v->text.c_str(), &d); vs_assert(ok, "value in the command file is a number"); return d; }
static inline vector<double> reals(const Val *v) { vector<double> r; if (!v) return r; if (!v->list) r.push_back(real(v)); else for (auto &x : v->items) r.push_back(real(&x)); return r; }
static inline double realOr(const Val *v, double dflt) { return v ? real(v) : dflt; }
// ------------------------------------------------------------------ Systus ASC file
struct Asc {
    std::map<string, vector<vector<string>>> sec; std::map<string, vector<string>> head; vector<string> order;
    static vector<string> split(const string &l) {
        vector<string> r; string cur; bool q = false, any = false;
        for (char c : l) { if (c == '"') { q = !q; any = true; continue; } if (!q && (c == ' ' || c == '\t' || c == '\r')) { if (!cur.empty() || any) r.push_back(cur); cur.clear(); any = false; continue; } cur += c; }
        if (!cur.empty() || any) r.push_back(cur); return r;
    }
    explicit Asc(const string &t) {
        std::istringstream in(t); string l, cur;
        while (std::getline(in, l)) {
            if (l.compare(0, 6, "BEGIN_") == 0) { auto w = split(l); cur = w[0].substr(6); order.push_back(cur); head[cur] = vector<string>(w.begin() + 1, w.end()); sec[cur]; continue; }
            if (l.compare(0, 4, "END_") == 0) { cur.clear(); continue; }
            if (!cur.empty()) sec[cur].push_back(split(l));
        }
    }
    const vector<vector<string>> &operator[](const string &k) { return sec[k]; }
    const vector<string> *row(const string &k, const string &id) { for (auto &r : sec[k]) if (!r.empty() && r[0] == id) return &r; return nullptr; }
};
static inline double num(const string &s) { double d = 0; bool ok = vs_get_real_(s.c_str(), &d); vs_assert(ok, "value in the ASC file is a number"); return d; }
// ------------------------------------------------------------------ MED mesh recorder
struct Med {
    vector<double> coords; std::map<int, vector<int>> conn; std::map<int, vector<int>> cellNums, cellFam; vector<int> nodeNums, nodeFam;
    struct Fam { string name; int num; vector<string> groups; }; vector<Fam> fams; int opened = 0, closed = 0;
};
static Med med;
static inline string fixedStr(const char *p, size_t n) { string r; for (size_t i = 0; i < n && p[i]; i++) r += p[i]; return r; }
}
extern "C" {
med_idt MEDfileOpen(const char *const, const med_access_mode) { out::med = out::Med(); out::med.opened++; return 7; }
med_err MEDfileClose(med_idt) { out::med.closed++; return 0; }
med_err MEDmeshCr(const med_idt, const char *const, const med_int, const med_int, const med_mesh_type, const char *const, const char *const, const med_sorting_type, const med_axis_type, const char *const, const char *const) { return 0; }
med_err MEDmeshNodeCoordinateWr(const med_idt, const char *const, const med_int, const med_int, const med_float, const med_switch_mode, const med_int n, const med_float *const c) { out::med.coords.assign(c, c + 3 * n); return 0; }
med_err MEDmeshEntityNumberWr(const med_idt, const char *const, const med_int, const med_int, const med_entity_type e, const med_geometry_type g, const med_int n, const med_int *const x) { if (e == MED_NODE) out::med.nodeNums.assign(x, x + n); else out::med.cellNums[(int)g].assign(x, x + n); return 0; }
med_err MEDmeshElementConnectivityWr(const med_idt, const char *const, const med_int, const med_int, const med_float, const med_entity_type, const med_geometry_type g, const med_connectivity_mode, const med_switch_mode, const med_int n, const med_int *const x) { out::med.conn[(int)g].assign(x, x + n * ((int)g % 100)); return 0; }
med_err MEDfamilyCr(const med_idt, const char *const, const char *const name, const med_int num, const med_int ng, const char *const g) { out::Med::Fam f; f.name = name; f.num = (int)num; for (int i = 0; i < (int)ng; i++) f.groups.push_back(out::fixedStr(g + i * MED_LNAME_SIZE, MED_LNAME_SIZE)); out::med.fams.push_back(f); return 0; }
med_err MEDmeshEntityFamilyNumberWr(const med_idt, const char *const, const med_int, const med_int, const med_entity_type e, const med_geometry_type g, const med_int n, const med_int *const x) { if (e == MED_NODE) out::med.nodeFam.assign(x, x + n); else out::med.cellFam[(int)g].assign(x, x + n); return 0; }
}
