// What an output file says about the model, independent of the format: one view per target solver, so that a property is
// written once and checked for every writer.
#pragma once
#include "h_out.h"
#include <array>
namespace view {
using std::map; using std::set; using std::string; using std::vector; using std::array; using std::pair;
enum Fmt { NAS_MODERN, NAS_COSMIC, ASTER, SYSTUS };
static const char *tname[] = {"nastran", "cosmic nastran", "code_aster", "systus"};
// kinds are named by the MED geometry code; node order is the Nastran order of the bulk data cards
static inline const vector<int> &medFromNastran(int kind) { // MED position of the i-th Nastran node
    static const map<int, vector<int>> m = {
        {1, {0}}, {102, {0, 1}}, {203, {0, 1, 2}}, {206, {0, 1, 2, 3, 4, 5}}, {204, {0, 1, 2, 3}}, {208, {0, 1, 2, 3, 4, 5, 6, 7}}, {209, {0, 1, 2, 3, 4, 5, 6, 7, 8}},
        {304, {0, 2, 1, 3}}, {310, {0, 2, 1, 3, 6, 5, 4, 7, 9, 8}}, {305, {0, 3, 2, 1, 4}}, {313, {0, 3, 2, 1, 4, 8, 7, 6, 5, 9, 12, 11, 10}},
        {306, {0, 2, 1, 3, 5, 4}}, {315, {0, 2, 1, 3, 5, 4, 8, 7, 6, 12, 14, 13, 11, 10, 9}}, {308, {0, 3, 2, 1, 4, 7, 6, 5}},
        {320, {0, 3, 2, 1, 4, 7, 6, 5, 11, 10, 9, 8, 16, 19, 18, 17, 15, 14, 13, 12}}};
    static const vector<int> none; auto i = m.find(kind); return i == m.end() ? none : i->second;
}
// Systus lists the boundary nodes of the lower face in turn (corner, mid-side, corner...), then the vertical mid-side nodes,
// then the upper face; entry i = Nastran index of the i-th Systus node
static inline const vector<int> &nastranFromSystus(int kind) {
    static const map<int, vector<int>> m = {
        {1, {0}}, {102, {0, 1}}, {203, {0, 1, 2}}, {206, {0, 3, 1, 4, 2, 5}}, {204, {0, 1, 2, 3}}, {208, {0, 4, 1, 5, 2, 6, 3, 7}}, {304, {0, 1, 2, 3}},
        {310, {0, 4, 1, 5, 2, 6, 7, 8, 9, 3}}, {305, {0, 1, 2, 3, 4, 4, 4, 4}}, {306, {0, 1, 2, 3, 4, 5}}, {315, {0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14}},
        {308, {0, 1, 2, 3, 4, 5, 6, 7}}, {320, {0, 8, 1, 9, 2, 10, 3, 11, 12, 13, 14, 15, 4, 16, 5, 17, 6, 18, 7, 19}}};
    static const vector<int> none; auto i = m.find(kind); return i == m.end() ? none : i->second;
}
typedef array<double, 3> V3;
struct CellV { int id = 0, kind = 0; vector<int> nodes; int prop = 0; string kw; vector<string> rest; };
struct View {
    Fmt t; map<int, V3> coords; map<int, CellV> cells; int nodeRows = 0, cellRows = 0;
    std::unique_ptr<Cards> nas; std::unique_ptr<out::Comm> comm; std::unique_ptr<out::Asc> asc; string dir, text; vector<std::unique_ptr<out::Asc>> ascs; // ascs: one per Systus subcase file
    map<int, int> nodeOfPos, cellOfPos; // Code_Aster numbers (1..n) -> ids
    map<string, set<int>> nodeGroups, cellGroups; // ids, by group name (Code_Aster, Systus)
};
static inline int kindOf(const string &kw, size_t n) {
    if (kw == "CTRIA3" || kw == "CTRIAR") return 203; if (kw == "CTRIA6") return 206; if (kw == "CQUAD4" || kw == "CQUADR") return 204; if (kw == "CQUAD8") return 208;
    if (kw == "CTETRA") return n == 4 ? 304 : 310; if (kw == "CPYRA" || kw == "CPYRAM") return n == 5 ? 305 : 313; if (kw == "CPENTA") return n == 6 ? 306 : 315;
    if (kw == "CHEXA" || kw == "CIHEX1" || kw == "CIHEX2") return n == 8 ? 308 : 320; if (kw == "CBAR" || kw == "CBEAM" || kw == "CBUSH" || kw == "CROD" || kw == "CELAS1") return 102;
    return 0;
}
static inline size_t nodesOf(const string &kw, size_t fields) {
    if (kw == "CTRIA3" || kw == "CTRIAR") return 3; if (kw == "CTRIA6") return 6; if (kw == "CQUAD4" || kw == "CQUADR") return 4; if (kw == "CQUAD8") return 8;
    if (kw == "CTETRA") return fields <= 4 ? 4 : 10; if (kw == "CPYRA" || kw == "CPYRAM") return fields <= 5 ? 5 : 13; if (kw == "CPENTA") return fields <= 6 ? 6 : 15;
    if (kw == "CHEXA" || kw == "CIHEX1" || kw == "CIHEX2") return fields <= 8 ? 8 : 20; return 2;
}
static inline void readNastran(View &v, const string &text) {
    v.nas.reset(new Cards(text));
    for (auto &c : v.nas->all) {
        if (c[0] == "GRID") { v.nodeRows++; vs_assert(fld(c, 2).empty() || fld(c, 2) == "0", "written GRID is in the basic system"); v.coords[(int)intOf(fld(c, 1))] = {realOf(fld(c, 3)), realOf(fld(c, 4)), realOf(fld(c, 5))}; }
        else if (kindOf(c[0], 99)) {
            v.cellRows++; CellV e; e.kw = c[0]; e.id = (int)intOf(fld(c, 1)); e.prop = (int)intOf(fld(c, 2)); size_t n = nodesOf(c[0], c.size() - 3);
            for (size_t i = 0; i < n; i++) e.nodes.push_back((int)intOf(fld(c, 3 + i))); for (size_t i = 3 + n; i < c.size(); i++) e.rest.push_back(c[i]);
            e.kind = kindOf(c[0], n); v.cells[e.id] = e;
        }
    }
}
static inline void readAster(View &v, Model &m, const string &comm) {
    v.comm.reset(new out::Comm(comm)); auto &d = out::med;
    vs_assert(d.opened == 1 && d.closed == 1, "MED file written once");
    vs_assert(v.comm->ok, "command file is well formed");
    v.nodeRows = (int)d.nodeNums.size(); vs_assert(d.coords.size() == 3 * d.nodeNums.size(), "three MED coordinates per node");
    for (size_t i = 0; i < d.nodeNums.size(); i++) { vs_assert(d.nodeNums[i] == (int)i + 1, "MED nodes are numbered in order"); }
    for (const auto &n : m.mesh.nodes) { int p = (int)m.mesh.findNodePosition(n.id); v.nodeOfPos[p + 1] = n.id; vs_assert(p >= 0 && 3 * (size_t)p + 2 < d.coords.size(), "every node is in the MED mesh"); v.coords[n.id] = {d.coords[3 * p], d.coords[3 * p + 1], d.coords[3 * p + 2]}; }
    map<int, pair<int, int>> where;
    for (auto &k : d.conn) { int kind = k.first; size_t n = kind % 100; auto &nums = d.cellNums[kind]; vs_assert(nums.size() * n == k.second.size(), "MED connectivity matches the cell numbers");
        for (size_t i = 0; i < nums.size(); i++) { v.cellRows++; vs_assert(!where.count(nums[i]), "MED cell numbers are unique"); where[nums[i]] = {kind, (int)i};
            int id = (int)m.mesh.findCell((pos_t)(nums[i] - 1)).id; CellV e; e.id = id; e.kind = kind; v.cellOfPos[nums[i]] = id;
            auto &perm = medFromNastran(kind); e.nodes.resize(n); for (size_t j = 0; j < n; j++) { int mp = k.second[i * n + (perm.empty() ? j : perm[j])]; vs_assert(v.nodeOfPos.count(mp), "MED connectivity refers to an existing node"); e.nodes[j] = v.nodeOfPos[mp]; }
            v.cells[id] = e; } }
    map<int, vector<string>> fam; for (auto &f : d.fams) fam[f.num] = f.groups;
    for (size_t i = 0; i < d.nodeFam.size(); i++) if (d.nodeFam[i]) { vs_assert(d.nodeFam[i] > 0 && fam.count(d.nodeFam[i]), "node family exists"); for (auto &g : fam[d.nodeFam[i]]) v.nodeGroups[g].insert(v.nodeOfPos[(int)i + 1]); }
    for (auto &k : d.cellFam) { vs_assert(k.second.size() == d.cellNums[k.first].size(), "one family per cell"); for (size_t i = 0; i < k.second.size(); i++) if (k.second[i]) { vs_assert(k.second[i] < 0 && fam.count(k.second[i]), "cell family exists"); for (auto &g : fam[k.second[i]]) v.cellGroups[g].insert(v.cellOfPos[d.cellNums[k.first][i]]); } }
}
static inline void readSystus(View &v, const string &text) {
    v.asc.reset(new out::Asc(text));
    for (auto &r : (*v.asc)["NODES"]) { vs_assert(r.size() == 9, "NODES line has nine words"); v.nodeRows++; v.coords[(int)intOf(r[0])] = {out::num(r[6]), out::num(r[7]), out::num(r[8])}; }
    auto &nh = v.asc->head["NODES"]; vs_assert(nh.size() == 2 && intOf(nh[0]) == v.nodeRows && intOf(nh[1]) == 3, "NODES header counts the lines");
    for (auto &r : (*v.asc)["ELEMENTS"]) {
        v.cellRows++; CellV e; e.id = (int)intOf(r[0]); int type = (int)intOf(r[1]); size_t n = type % 100; size_t p = 4; int na = (int)intOf(r[p++]); p += na; e.prop = (int)intOf(r[2]); e.kw = r[1];
        vector<int> raw; for (; p < r.size(); p++) raw.push_back((int)intOf(r[p])); for (size_t i = 5; i < 5 + (size_t)na; i++) e.rest.push_back(r[i]);
        int dim = type / 1000 ; e.kind = dim * 100 + (int)n; if (n == 1) e.kind = 1;
        auto &perm = nastranFromSystus(e.kind); vs_assert(raw.size() == (perm.empty() ? n : perm.size()), "element lists as many nodes as its type says");
        e.nodes.resize(n); if (perm.empty()) e.nodes = raw; else for (size_t i = 0; i < perm.size(); i++) e.nodes[perm[i]] = raw[i];
        v.cells[e.id] = e;
    }
    for (auto &r : (*v.asc)["GROUPS"]) { if (r.size() < 4) continue; set<int> s; for (size_t i = 7; i < r.size(); i++) s.insert((int)intOf(r[i])); (r[2] == "1" ? v.nodeGroups : v.cellGroups)[r[1]] = s; }
}
static inline SolverName solver(Fmt t) { return t == ASTER ? SolverName::CODE_ASTER : t == SYSTUS ? SolverName::SYSTUS : SolverName::NASTRAN; }
static inline string ascFile(const string &all, int subcase) { size_t p = all.rfind("_ALL.DAT"); return all.substr(0, p) + "_SC" + std::to_string(subcase) + "_DATA1.ASC"; }
// parse + complete + write + read back
static inline void translate(Deck &d, Fmt t, View &v, int subcase = 1) {
    v.t = t; v.dir = d.dir;
    d.parse(solver(t)); d.finish();
    if (t == ASTER) readAster(v, *d.model, v.text = d.aster());
    else if (t == SYSTUS) { string a = d.systus(); readSystus(v, slurp(ascFile(a, subcase))); for (int i = 1;; i++) { string s = slurp(ascFile(a, i)); if (s.empty()) break; v.ascs.emplace_back(new out::Asc(s)); } }
    else readNastran(v, v.text = d.nastran(t == NAS_MODERN));
}
static inline string at(Fmt t, const char *what) { return string(what) + " [" + tname[t] + "]"; }
}
#define CHECK(t, cond, what) vs_assert((cond), view::at(t, what).c_str())
