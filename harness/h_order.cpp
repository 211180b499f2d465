// The order of the bulk data cards.
#include "h_load.h"
using namespace view; using std::vector; using std::string;
typedef vector<string> C;
static vector<C> cards() {
    auto num = [](const char *n, int i, int lo = 1, int hi = 8000) { return vs_put(vs_dyadic(vs_name(n, i).c_str(), lo, hi, 3)); };
    return {{"CORD2R", "7", "", "1.", "2.", "3.", "1.", "2.", "4.", "3.", "2.", "3."}, {"CORD2C", "8", "7", "0.", "0.", "1.", "0.", "0.", "2.", "1.", "0.", "1."}, {"GRDSET", "", "", "", "", "", "", "6"},
        {"GRID", "10", "", "0.5", "0.", "0."}, {"GRID", "11", "0", "5.", "0.", "0."}, {"GRID", "12", "7", "1.", "1.", "0."}, {"GRID", "13", "8", "1.", "90.", "2."}, {"GRID", "14", "", "2.", "7.", "3.", "", "345"},
        {"GRID", "15", "", "3.", "1.", "0."}, {"GRID", "16", "", "3.", "2.", "0."}, {"GRID", "17", "", "2.", "2.", "0."},
        {"CQUAD4", "1", "4", "14", "15", "16", "17"}, {"CTRIA3", "2", "4", "14", "15", "16"}, {"CBAR", "3", "5", "10", "11", "0.", "0.", "1."}, {"CBEAM", "5", "6", "11", "15", "0.", "0.", "1."},
        {"CONM2", "7", "13", "", "2."}, {"PSHELL", "4", "9", num("t", 0), "9"}, {"PBAR", "5", "9", num("a", 0), num("a", 1), num("a", 2), num("a", 3)}, {"PBEAM", "6", "8", num("b", 0), num("b", 1), num("b", 2), "", num("b", 3)}, {"MAT1", "9", num("e", 0), "", "0.25", "1."}, {"MAT1", "8", num("e", 1), "", "0.125", "2."},
        {"SPC1", "2", "123456", "10", "11"}, {"SPC", "4", "12", "3", num("v", 0)}, {"SPCADD", "6", "2", "4"}, {"FORCE", "3", "13", "0", num("f", 0), "0.", "1.", "0."}, {"MOMENT", "4", "14", "7", num("f", 1), "0.", "1.", "0."}, {"PLOAD2", "3", num("p", 0), "1"},
        {"LOAD", "5", "2.", "1.", "3", "1.5", "4"}, {"RBE2", "20", "12", "123", "15"}, {"MPC", "2", "13", "1", num("c", 0), "16", "1", num("c", 1)}, {"RBE3", "21", "", "17", "123", "1.", "123", "10", "11"}, {"PARAM", "WTMASS", "2."}, {"PLOAD4", "3", "2", num("p", 1)}};
}
static string text(const C &c) { string l = c[0]; l.resize(8, ' '); size_t k = 0; for (size_t i = 1; i < c.size(); i++) { if (k && k % 8 == 0) l += "+\n+       "; string f = c[i]; f.resize(8, ' '); l += f; k++; } return l + "\n"; }
VS_HARNESS(card_order) {
    Fmt t = (Fmt)vs_choose("target", 4); auto cs = cards(); int n = (int)cs.size(), i = vs_choose("card", n), j = vs_choose("moved", 8);
    vector<int> o; for (int k = 0; k < n; k++) o.push_back(k); if (j > 3) { static const int stride[] = {2, 5, 7, 31}; for (int k = 0; k < n; k++) o[k] = (i + k * stride[j - 4]) % n; } else if (j == 3) { std::rotate(o.begin(), o.begin() + i, o.end()); std::reverse(o.begin(), o.end()); } else { o.erase(o.begin() + i); o.insert(o.begin() + (j == 0 ? 0 : j == 1 ? n - 1 : n / 2), i); }
    Deck d, e; d.caseControl = e.caseControl = "LOAD=5\nSPC=6\nMPC=2\n"; for (auto &c : cs) d.bulk += text(c); for (int k : o) e.bulk += text(cs[k]);
    View a, b; translate(d, t, a); translate(e, t, b); vs_reach(tname[t]); if (getenv("VS_SHOW")) fprintf(stderr, "%s\n=====\n%s\n", a.text.c_str(), b.text.c_str());
    if (t < ASTER) { auto x = a.nas->all, y = b.nas->all; for (auto *l : {&x, &y}) for (auto &c : *l) { size_t k = c[0] == "RBE3" ? 5 : c[0] == "MPC" ? 2 : c.size(); if (k < c.size()) std::sort(c.begin() + k, c.end()); } /* their terms in any order */ std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); vs_assert(x.size() == y.size(), "as many cards"); for (size_t k = 0; k < x.size(); k++) { if (getenv("VS_SHOW") && x[k] != y[k]) { for (auto &s : x[k]) fprintf(stderr, "%s|", s.c_str()); fprintf(stderr, "   <>  "); for (auto &s : y[k]) fprintf(stderr, "%s|", s.c_str()); fprintf(stderr, "\n"); } vs_assert(x[k] == y[k], "the order of the cards does not matter"); } return; }
    if (getenv("VS_SHOW")) { for (auto &c : a.cells) fprintf(stderr, "A %d kind %d\n", c.first, c.second.kind); for (auto &c : b.cells) fprintf(stderr, "B %d kind %d\n", c.first, c.second.kind); } auto innerN = [](View &v) { map<int, V3> r; for (auto &c : v.coords) if (c.first < 9000000) r.insert(c); return r; }; CHECK(t, innerN(a) == innerN(b) && a.coords.size() == b.coords.size(), "positions"); auto inner = [](View &v) { map<int, CellV> r; for (auto &c : v.cells) if (c.first < 9000000) r.insert(c); return r; }; auto ca = inner(a), cb = inner(b); CHECK(t, ca.size() == cb.size() && a.cells.size() == b.cells.size(), "elements"); for (auto &c : ca) { CHECK(t, cb.count(c.first), "element exists"); CHECK(t, cb[c.first].nodes == c.second.nodes && cb[c.first].kind == c.second.kind, "element nodes"); }
    auto x = bc(a, 1, 0, 1), y = bc(b, 1, 0, 1); CHECK(t, x.imposed == y.imposed, "constraints"); auto f = nodal(a, 1, 0, 1), g = nodal(b, 1, 0, 1); CHECK(t, f == g, "nodal loads");
    auto p = pressures(a, 1, 0, 1), q = pressures(b, 1, 0, 1); samePressures(t, p, q); samePressures(t, q, p);
}
