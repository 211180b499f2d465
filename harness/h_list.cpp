// Lists of identifiers: single values, THRU, THRU BY.
#include "h_load.h"
using namespace view; using std::vector; using std::string;
struct Item { int kind, a, b, by; };
static const int N = 8;
// the members of a list; false: not a list
static bool members(const vector<Item> &l, std::set<int> &r) {
    for (auto &i : l) { if (i.kind == 0) { r.insert(i.a); continue; } int lo = std::min(i.a, i.b), hi = std::max(i.a, i.b), by = i.kind == 2 ? i.by : 1; if (by < 1) return false; for (int k = lo; k < hi; k += by) r.insert(k); r.insert(hi); } return true;
}
struct List { vector<string> f; void add(const Item &i) { f.push_back(std::to_string(i.a)); if (i.kind) { f.push_back("THRU"); f.push_back(std::to_string(i.b)); } if (i.kind == 2) { f.push_back("BY"); f.push_back(std::to_string(i.by)); } } };
VS_HARNESS(list_ranges) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int what = vs_choose("card", 2), layout = t ? 0 : vs_choose("layout", 3); vector<Item> l; List f;
    Item x; x.kind = 1 + vs_choose("by", 2); x.a = (int)vs_conc(vs_int("first", 1, N)); x.b = (int)vs_conc(vs_int("last", 1, N)); x.by = x.kind == 2 ? (int)vs_conc(vs_int("increment", -1, 4)) : 1;
    if (layout == 1) l.push_back({0, 5, 0, 0}); l.push_back(x); if (layout) l.push_back({0, 3, 0, 0}); if (layout == 2) l.push_back({1, 7, 8, 0}); for (auto &i : l) f.add(i);
    std::set<int> want; bool ok = members(l, want); if (!ok) vs_expect_exception(true);
    for (int i = 1; i <= N; i++) { d.card("GRID")(i)()(double(i % 2))(double(i / 2))(0.); d.card("GRID")(i + 20)()(double(i % 2) + 2.)(double(i / 2))(0.); d.card("GRID")(i + 40)()(double(i % 2) + 1.)(double(i / 2) + 1.)(0.); }
    for (int e = 1; e <= N; e++) d.card("CTRIA3")(e)(4)(e)(e + 20)(e + 40); d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("3")(21); d.card("FORCE")(3)(45)(0)(1.)(1.)(2.)(3.);
    double p = vs_dyadic("p", 1, 8000, 3); { auto c = d.card(what ? "PLOAD2" : "SPC1"); if (what) c(3)(p); else c(2)("12"); for (auto &s : f.f) c(s); }
    d.caseControl = "LOAD=3\nSPC=2\n"; vs_reach(tname[t]); View v; translate(d, t, v); vs_assert(ok, "a list with an increment below one is rejected");
    if (!what) { map<ND, double> w; w[{21, 2}] = 0; for (int i : want) w[{i, 0}] = w[{i, 1}] = 0; sameBc(t, bc(v, 1, 0, 1), w); }
    else { auto got = pressures(v, 1, 0, 1); std::set<int> seen; for (auto &g : got) { CHECK(t, want.count(*g.nodes.begin()), "only listed elements are loaded"); CHECK(t, seen.insert(*g.nodes.begin()).second, "a listed element is loaded once"); } CHECK(t, seen.size() == want.size(), "every listed element is loaded"); }
}
