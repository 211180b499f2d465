// Gravity and rotation.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map;
static void mesh(Deck &d) {
    static const double X[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (int i = 0; i < 4; i++) d.card("GRID")(10 * (i + 1))()(X[i][0])(X[i][1])(0.);
    d.card("CQUAD4")(1)(4)(10)(20)(30)(40); d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10);
}
// total acceleration of an analysis
static V3 acceleration(View &v, int analysis, int index, int total) {
    V3 r{{0, 0, 0}};
    if (v.t == SYSTUS) { string load; auto *a = ascOf(v, analysis, total, load); vs_assert(a, "every analysis has a load case"); for (auto &l : (*a)["LOADS"]) if (l[0] == load && l.size() > 3 && l[3] != "0") { auto *x = a->row("VECTORS", l[3]); vs_assert(x && x->size() >= 12 && (*x)[1] == "6", "acceleration vector"); for (int j = 0; j < 3; j++) r[j] = out::num((*x)[7 + 2 * j]); } return r; }
    if (v.t == ASTER) { int n = 0; for (auto *c : chargesOf(v, index)) { auto fs = c->args.factors("PESANTEUR"); vs_assert(fs.size() < 2, "PESANTEUR is not repeated"); for (auto *f : fs) { n++; double g = out::real(f->get("GRAVITE")); auto *d = f->get("DIRECTION"); vs_assert(d && d->items.size() == 3, "direction of gravity"); for (int j = 0; j < 3; j++) { double x = out::real(&d->items[j]); if (x != 0) addTo(r[j], x == 1 ? g : x == -1 ? -g : g * x); } } } return r; }
    auto cc = caseOf(v.text, analysis); for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &c : v.nas->all) if (c[0] == "GRAV" && fld(c, 1) == std::to_string(ls.first)) { vs_assert(fld(c, 2).empty() || fld(c, 2) == "0", "gravity in the basic system"); double g = realOf(fld(c, 3)); if (ls.second != 1) g = g * ls.second; for (int j = 0; j < 3; j++) { double x = zeroIfAbsent(c, 4 + j); if (x != 0) addTo(r[j], g * x); } } return r;
}
VS_HARNESS(gravity_sum) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int axis = vs_choose("axis", 3), more = vs_choose("more", 4), comb = vs_choose("combination", 4), cases = 1 + vs_choose("subcases", 2); bool order = vs_choose("order", 2), wt = vs_choose("wtmass", 2), neg = vs_choose("negative", 2);
    mesh(d); string m = d.bulk; d.bulk.clear(); double g = vs_dyadic("g", 1, 8000, 3), n = neg ? -1.5 : 1.5, sg = neg ? -1 : 1, h = vs_dyadic("h", 8000001, 9000000, 3); V3 a5{{0, 0, 0}}, a6{{0, 0, 0}};
    if (more == 3) g = 2.; // two directions: fixed values
    { auto c = d.card("GRAV"); c(5)()(g); for (int j = 0; j < 3; j++) c(j == axis ? n : 0.); a5[axis] = g * n; }
    if (more == 1 || more == 2) { auto c = d.card("GRAV"); c(5)(0)(h); for (int j = 0; j < 3; j++) if (j == axis) c(more == 1 ? 1. : -1.); else c(); a5[axis] = a5[axis] + (more == 1 ? h : -h); }
    if (more == 3) { auto c = d.card("GRAV"); c(5)()(4.); int b = (axis + 1) % 3; for (int j = 0; j < 3; j++) c(j == b ? 1. : 0.); a5[b] = 4.; }
    double f = comb == 2 ? 2.5 : 1.; { auto c = d.card("GRAV"); c(6)()(3.); for (int j = 0; j < 3; j++) c(j == axis ? sg * 16 : 0.); a6[axis] = sg * 48; }
    if (comb) { auto c = d.card("LOAD"); c(8)(1.)(f)(5); if (comb == 3) c(2.)(6); } if (wt) d.card("PARAM")("WTMASS")(0.25);
    d.bulk = order ? d.bulk + m : m + d.bulk; for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(k + 2) + "\n"; d.caseControl += "LOAD=" + std::to_string(k ? 6 : comb ? 8 : 5) + "\nSPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) { V3 w = k ? a6 : a5; if (!k && comb == 2) for (int j = 0; j < 3; j++) if (w[j] != 0) w[j] = f * w[j]; if (!k && comb == 3) w[axis] = w[axis] + sg * 96; V3 got = acceleration(v, cases > 1 ? k + 2 : 1, k, cases); for (int j = 0; j < 3; j++) CHECK(t, close(got[j], w[j]), "acceleration of gravity"); }
    vs_reach(tname[t]);
}
// RFORCE: angular velocity (radians) around a point
VS_HARNESS(rotation_speed) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 3); int axis = vs_choose("axis", 4), point = vs_choose("point", 3), comb = vs_choose("combination", 2), cases = 1 + vs_choose("subcases", 2); bool order = vs_choose("order", 2), neg = vs_choose("negative", 2), cid = vs_choose("cid", 2);
    mesh(d); V3 P{{0, 0, 0}}; if (point == 2) { for (int j = 0; j < 3; j++) P[j] = vs_dyadic(vs_name("x", j).c_str(), -8000, 8000, 3); d.card("GRID")(77)()(P[0])(P[1])(P[2]); } string m = d.bulk; d.bulk.clear();
    double a = axis == 3 ? 2.5 : vs_dyadic("a", 1, 80000, 3), r = axis == 3 ? 1. : 4.; V3 R{{0, 0, 0}}; if (axis == 3) R = {0, 3, -4}; else R[axis] = neg ? -r : r; double len = axis == 3 ? 5. : r;
    { auto c = d.card("RFORCE"); c(5); if (point == 1) c(); else c(point ? 77 : 0); if (cid) c(0); else c(); c(a); for (int j = 0; j < 3; j++) if (R[j] != 0 || cid) c(R[j]); else c(); }
    d.card("RFORCE")(6)(20)()(3.)(0.)(1.)(0.); if (comb) d.card("LOAD")(8)(2.25)(1.)(5);
    d.bulk = order ? d.bulk + m : m + d.bulk; for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(k + 2) + "\n"; d.caseControl += "LOAD=" + std::to_string(k ? 6 : comb ? 8 : 5) + "\nSPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        double w = k ? 6 * M_PI : 2 * M_PI * len * a; if (!k && comb) w = 1.5 * w; V3 u = k ? V3{{0, 1, 0}} : unit(R), c = k ? V3{{1, 0, 0}} : P; int n = 0;
        if (t == ASTER) { for (auto *ch : chargesOf(v, k)) { auto fs = ch->args.factors("ROTATION"); for (auto *f : fs) { n++; auto *ax = f->get("AXE"), *ce = f->get("CENTRE"); vs_assert(ax && ce && ax->items.size() == 3 && ce->items.size() == 3, "axis and centre"); V3 x; for (int j = 0; j < 3; j++) x[j] = out::real(&ax->items[j]); x = unit(x); double s = out::real(f->get("VITESSE")); CHECK(t, close(s, w), "angular velocity"); for (int j = 0; j < 3; j++) { CHECK(t, close(x[j], u[j]), "axis of rotation"); CHECK(t, close(out::real(&ce->items[j]), c[j]), "centre of rotation"); } } } }
        else { auto cc = caseOf(v.text, cases > 1 ? k + 2 : 1); for (auto &ls : loadSetsOf(v, cc["LOAD"])) for (auto &x : v.nas->all) if (x[0] == "RFORCE" && fld(x, 1) == std::to_string(ls.first)) {
            n++; vs_assert(ls.second == 1, "not in a combination"); vs_assert(fld(x, 3).empty() || fld(x, 3) == "0", "rotation in the basic system"); int g = fld(x, 2).empty() ? 0 : (int)intOf(fld(x, 2)); V3 p{{0, 0, 0}}; if (g) { CHECK(t, v.coords.count(g), "rotation around a grid point"); p = v.coords[g]; } V3 y; for (int j = 0; j < 3; j++) y[j] = zeroIfAbsent(x, 5 + j); double l = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]);
            CHECK(t, close(realOf(fld(x, 4)) * (2 * M_PI * l), w), "angular velocity"); y = unit(y); for (int j = 0; j < 3; j++) { CHECK(t, close(y[j], u[j]), "axis of rotation"); CHECK(t, close(p[j], c[j]), "centre of rotation"); } } }
        CHECK(t, n == 1, "one rotation");
    }
    vs_reach(tname[t]);
}
