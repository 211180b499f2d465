// Sections: the cross section and thickness that each element has in the input are those it has in the output.
#include "h_phys.h"
using namespace view; using std::vector; using std::string;
static const double PI = 3.14159265358979323846;
struct Sec { double A, Iy, Iz, J; double r = 0, r2 = 0, w = 0, h = 0; int shape = 0; bool hasJ = true; double ky = 0, kz = 0; bool shear = false; };
static double p4(double x) { return std::pow(x, 4); }
static double p3(double x) { return std::pow(x, 3); }
static double p2(double x) { return std::pow(x, 2); }
// section properties an element of the written model has; shape: 0 general, 1 circle (r, r2 inner), 2 rectangle (w along z, h along y)
struct SecV { bool found = false; int shape = 0; double A = 0, Iy = 0, Iz = 0, J = 0, r = 0, ep = 0, w = 0, h = 0, ay = 0, az = 0; bool bar = false; };
static SecV section(View &v, int eid) {
    SecV r; auto &e = v.cells[eid];
    if (v.t == SYSTUS) { auto *row = ascMat(v, eid); if (!row) return r; r.found = true; r.A = ascVal(*row, "11"); r.J = ascVal(*row, "14"); r.Iy = ascVal(*row, "15"); r.Iz = ascVal(*row, "16"); return r; }
    if (v.t == ASTER) {
        auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); int n = 0;
        for (int bar = 0; bar < 2; bar++) for (auto *f : c[0]->args.factors(bar ? "BARRE" : "POUTRE")) if (covers(v, f, eid)) {
            n++; r.found = true; r.bar = bar; auto k = f->strings("CARA"); auto *val = f->get("VALE"); auto *s = f->get("SECTION"); vs_assert(val && s && val->items.size() == k.size(), "AFFE_CARA_ELEM gives one value per name");
            r.shape = s->text == "CERCLE" ? 1 : s->text == "RECTANGLE" ? 2 : 0;
            for (size_t i = 0; i < k.size(); i++) { double x = out::real(&val->items[i]); if (k[i] == "A") r.A = x; else if (k[i] == "IY") r.Iy = x; else if (k[i] == "IZ") r.Iz = x; else if (k[i] == "JX") r.J = x; else if (k[i] == "AY") r.ay = x; else if (k[i] == "AZ") r.az = x; else if (k[i] == "R") r.r = x; else if (k[i] == "EP") r.ep = x; else if (k[i] == "HY") r.h = x; else if (k[i] == "HZ") r.w = x; } }
        vs_assert(n <= 1, "an element has one section"); return r;
    }
    vector<string> p; if (propCard(v, e.prop, p) != 1) return r; r.found = true;
    if (p[0] == "PROD") { r.A = realOf(fld(p, 3)); r.J = zeroIfAbsent(p, 4); r.bar = true; }
    else if (p[0] == "PBAR") { r.A = realOf(fld(p, 3)); r.Iz = zeroIfAbsent(p, 4); r.Iy = zeroIfAbsent(p, 5); r.J = zeroIfAbsent(p, 6); }
    else if (p[0] == "PBEAM") { r.A = realOf(fld(p, 3)); r.Iz = zeroIfAbsent(p, 4); r.Iy = zeroIfAbsent(p, 5); vs_assert(zeroIfAbsent(p, 6) == 0, "PBEAM without product of inertia"); r.J = zeroIfAbsent(p, 7); }
    else r.found = false;
    return r;
}
enum { K_PBAR, K_PBEAM, K_ROD, K_TUBE, K_BAR, K_I, K_PROD, NK };
VS_HARNESS(sect_beams) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("section", NK); bool beaml = (kind >= K_ROD && kind <= K_I) && vs_choose("PBEAML", 2); bool swap = vs_choose("properties first", 2); bool tall = kind == K_BAR && vs_choose("height above width", 2);
    for (int i = 0; i < 6; i++) d.card("GRID")(10 + i)()(double(i % 2) * 3)(double(i / 2))(0.);
    string grids = d.bulk; d.bulk.clear(); Sec s[2]; string props, els;
    for (int e = 0; e < 2; e++) {
        int id = e ? 100 : 200, pid = e ? 20 : 7; Sec &q = s[e]; auto real = [&](int i, long lo, long hi) { return vs_dyadic(vs_name(e ? "b" : "a", i).c_str(), lo, hi, 3); };
        if (kind == K_PROD) d.card("CROD")(id)(pid)(10 + 2 * e)(11 + 2 * e);
        else if (kind == K_PBEAM || beaml) d.card("CBEAM")(id)(pid)(10 + 2 * e)(11 + 2 * e)(0.)(0.)(1.);
        else d.card("CBAR")(id)(pid)(10 + 2 * e)(11 + 2 * e)(0.)(0.)(1.);
        els += d.bulk; d.bulk.clear();
        if (kind == K_PBAR) { q.A = real(0, 1, 800); q.Iz = real(1, 1, 800); q.Iy = real(2, 1, 800); q.J = real(3, 1, 800); q.shear = true; double k1 = real(4, 1, 8), k2 = real(5, 1, 8); q.ky = 1 / k1; q.kz = 1 / k2; auto c = d.card("PBAR"); c(pid)(9)(q.A)(q.Iz)(q.Iy)(q.J)()(); for (int i = 0; i < 8; i++) c(); c(k1)(k2); }
        else if (kind == K_PBEAM) { q.A = real(0, 1, 800); q.Iz = real(1, 1, 800); q.Iy = real(2, 1, 800); q.J = real(3, 1, 800); d.card("PBEAM")(pid)(9)(q.A)(q.Iz)(q.Iy)()(q.J); }
        else if (kind == K_PROD) { q.A = real(0, 1, 800); q.J = real(1, 1, 800); q.Iy = q.Iz = 0; d.card("PROD")(pid)(9)(q.A)(q.J); }
        else { auto c = d.card(beaml ? "PBEAML" : "PBARL"); c(pid)(9)();
            if (kind == K_ROD) { q.shape = 1; q.r = real(0, 8, 64); c("ROD")()()()()(q.r); q.A = PI * q.r * q.r; q.Iy = q.Iz = p4(q.r) * PI / 4; q.J = p4(q.r) * PI / 2; }
            else if (kind == K_TUBE) { q.shape = 1; q.r2 = real(0, 8, 32); double ep = real(1, 1, 16); q.r = q.r2 + ep; c("TUBE")()()()()(q.r)(q.r2); q.A = PI * (p2(q.r) - p2(q.r2)); q.Iy = q.Iz = (p4(q.r) - p4(q.r2)) * PI / 4; q.J = (p4(q.r) - p4(q.r2)) * PI / 2; }
            else if (kind == K_BAR) { q.shape = 2; double sm = real(0, 8, 32), lg = real(1, 33, 64); q.w = tall ? sm : lg; q.h = tall ? lg : sm; c("BAR")()()()()(q.w)(q.h); q.A = q.w * q.h; q.Iz = p3(q.h) * q.w / 12; q.Iy = q.h * p3(q.w) / 12; q.J = lg * p3(sm) * (1. / 3 - 0.21 * sm * (1 - p4(sm) / (12 * p4(lg))) / lg); }
            else { double h = real(0, 32, 64), b = real(1, 8, 32), tw = real(2, 1, 4), tf = real(3, 1, 4); c("I")()()()()(h)(b)(b)(tw)(tf)(tf); double hw = h - tf - tf; q.A = b * tf + hw * tw + b * tf; q.Iy = (p3(b) * tf + p3(b) * tf + hw * p3(tw)) / 12; q.Iz = p3(hw) * tw / 12 + 2 * (p3(tf) * b) / 12 + 2 * (tf * b) * p2(hw + tf) / 4; q.J = (b * p3(tf) + hw * p3(tw) + b * p3(tf)) / 3; }
        }
        props += d.bulk; d.bulk.clear();
    }
    d.card("MAT1")(9)(2000.)()(0.25)(7.);
    d.bulk += grids + (swap ? props + els : els + props);
    View v; translate(d, t, v);
    for (int e = 0; e < 2; e++) {
        SecV r = section(v, e ? 100 : 200); Sec &q = s[e]; CHECK(t, r.found, "every beam has a section");
        if (r.shape == 1) { CHECK(t, r.shape == q.shape && close(r.r, q.r) && close(q.r2 > 0 ? r.r - r.ep : 0., q.r2), "circular section"); continue; }
        if (r.shape == 2) { CHECK(t, r.shape == q.shape && close(r.h, q.h) && close(r.w, q.w), "rectangular section"); continue; }
        CHECK(t, close(r.A, q.A), "section area");
        if (kind == K_PROD) { CHECK(t, r.bar || t == SYSTUS, "a rod stays a rod"); if (t <= NAS_COSMIC) CHECK(t, close(r.J, q.J), "torsion constant of a rod"); continue; }
        CHECK(t, close(r.Iy, q.Iy), "moment of inertia in plane 2"); CHECK(t, close(r.Iz, q.Iz), "moment of inertia in plane 1"); CHECK(t, close(r.J, q.J), "torsion constant");
        if (t == ASTER && q.shear) CHECK(t, close(r.ay, q.ky) && close(r.az, q.kz), "shear factors of planes 1 and 2");
    }
    vs_reach(tname[t]);
}
VS_HARNESS(sect_shells) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("element", 4); int offs = t == SYSTUS ? 0 : vs_choose("offsets", 4); int own = vs_choose("properties", 2); bool swap = vs_choose("properties first", 2);
    static const char *kw[] = {"CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8"}; static const int nn[] = {3, 4, 6, 8};
    for (int e = 0; e < 3; e++) for (int i = 0; i < 8; i++) d.card("GRID")(1 + 10 * e + i)()(double(i))(double(i * i))(double(e));
    string grids = d.bulk; d.bulk.clear();
    double th[2], z[3]; for (int p = 0; p < 2; p++) th[p] = vs_dyadic(vs_name("t", p).c_str(), 1, 4000, 8);
    // elements 300, 200, 100: properties 7, 7, 20 (or 7, 20, 7)
    int prop[3] = {0, own ? 1 : 0, own ? 0 : 1};
    for (int e = 0; e < 3; e++) z[e] = 0;
    if (offs == 1) { z[0] = vs_dyadic("z", 1, 200, 8); z[1] = z[0]; z[2] = z[0]; } // all elements have the same offset
    if (offs == 2) for (int e = 0; e < 3; e++) z[e] = vs_dyadic(vs_name("z", e).c_str(), -200, 200, 8); // any
    if (offs == 3) z[1] = vs_dyadic("z", -200, 200, 8);
    for (int e = 0; e < 3; e++) { auto c = d.card(kw[kind]); c(300 - 100 * e)(prop[e] ? 20 : 7); for (int i = 0; i < nn[kind]; i++) c(1 + 10 * e + i); if (kind == 3) c()()()(); if (offs) c()(z[e]); }
    string els = d.bulk; d.bulk.clear();
    for (int p = 0; p < 2; p++) d.card("PSHELL")(p ? 20 : 7)(9)(th[p])(9); d.card("MAT1")(9)(2000.)()(0.25)(7.);
    d.bulk = grids + (swap ? d.bulk + els : els + d.bulk);
    View v; translate(d, t, v);
    for (int e = 0; e < 3; e++) {
        int eid = 300 - 100 * e; double gt = 0, gz = 0; int n = 0; CHECK(t, v.cells.count(eid), "the element is written");
        if (t == SYSTUS) { auto *row = ascMat(v, eid); if (row) { n = 1; gt = ascVal(*row, "21"); } }
        else if (t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); for (auto *f : c[0]->args.factors("COQUE")) if (covers(v, f, eid)) { n++; gt = out::real(f->get("EPAIS")); gz = out::realOr(f->get("EXCENTREMENT"), 0); } }
        else { vector<string> p; n = propCard(v, v.cells[eid].prop, p); if (n == 1) gt = realOf(fld(p, 3)); size_t zi = kind == 3 ? 5 : 1; auto &r = v.cells[eid].rest; gz = zeroIfAbsent(r, zi); for (size_t i = 0; i < r.size(); i++) if (i != zi) CHECK(t, r[i].empty(), "no thickness of its own"); }
        CHECK(t, n == 1, "every shell has one thickness"); CHECK(t, gt == th[prop[e]], "shell thickness"); CHECK(t, gz == z[e], "shell offset");
    }
    vs_reach(tname[t]);
}
// beam orientation: the vector of plane 1, along any axis across the beam, with any length
VS_HARNESS(sect_orientation) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 3); bool beam = vs_choose("CBEAM", 2); int how = vs_choose("given by", 2); int ax[2], dir[2], sg[2]; int shared = vs_choose("common nodes", 3);
    ax[0] = vs_choose("axis", 3); ax[1] = shared == 2 ? ax[0] : (ax[0] + vs_choose("other axis", 2)) % 3; int dd = vs_choose("directions", 8);
    for (int e = 0; e < 2; e++) { dir[e] = (ax[e] + 1 + ((dd >> e) & 1)) % 3; sg[e] = e && (dd & 4) ? -1 : 1; }
    V3 x[4]; for (int e = 0; e < 2; e++) { for (int j = 0; j < 3; j++) x[2 * e][j] = shared ? 0 : vs_dyadic(vs_name("o", e, j).c_str(), -800, 800, 3); x[2 * e + 1] = x[2 * e]; if (e && shared == 2) x[3] = x[1]; else x[2 * e + 1][ax[e]] += vs_dyadic(vs_name("l", e).c_str(), 8, 800, 3); }
    for (int i = 0; i < 4; i++) if (i < 2 || !shared || (shared == 1 && i == 3)) d.card("GRID")(40 - i)()(x[i][0])(x[i][1])(x[i][2]);
    V3 w[2]; for (int e = 0; e < 2; e++) { w[e] = {0, 0, 0}; w[e][dir[e]] = sg[e] * vs_dyadic(vs_name("v", e).c_str(), 1, 800, 3); }
    if (how) for (int e = 0; e < 2; e++) { V3 g; for (int j = 0; j < 3; j++) g[j] = x[2 * e][j] + w[e][j]; d.card("GRID")(50 + e)()(g[0])(g[1])(g[2]); }
    for (int e = 0; e < 2; e++) { auto c = d.card(beam ? "CBEAM" : "CBAR"); c(e ? 100 : 200)(e ? 20 : 7)(shared ? 40 : 40 - 2 * e)(shared == 2 ? 39 : 39 - 2 * e); if (how) c(50 + e); else for (int j = 0; j < 3; j++) c(w[e][j]); }
    for (int p = 0; p < 2; p++) d.card("PBAR")(p ? 20 : 7)(9)(2.)(3.)(4.)(5.); d.card("MAT1")(9)(2000.)()(0.25)(7.);
    View v; translate(d, t, v);
    for (int e = 0; e < 2; e++) { int eid = e ? 100 : 200; V3 g{{0, 0, 0}}; int n = 0;
        if (t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); for (auto *f : c[0]->args.factors("ORIENTATION")) if (covers(v, f, eid)) { n++; auto *val = f->get("VALE"); vs_assert(val && val->items.size() == 3 && f->get("CARA")->text == "VECT_Y", "orientation vector"); for (int j = 0; j < 3; j++) g[j] = out::real(&val->items[j]); } }
        else { auto &r = v.cells[eid].rest; n = r.size() >= 3; if (n) for (int j = 0; j < 3; j++) g[j] = realOf(r[j]); }
        CHECK(t, n == 1, "every beam has one orientation");
        // only the direction across the beam matters
        for (int j = 0; j < 3; j++) if (j != ax[e]) CHECK(t, j == dir[e] ? g[j] * sg[e] > 0 : g[j] == 0, "orientation of plane 1"); }
    vs_reach(tname[t]);
}
// the same for beams and vectors in any direction; three beams, two of them with a common property
static V3 across(const V3 &w, const V3 &u) { double l = u[0] * u[0] + u[1] * u[1] + u[2] * u[2], s = (w[0] * u[0] + w[1] * u[1] + w[2] * u[2]) / l; V3 r; for (int j = 0; j < 3; j++) r[j] = w[j] - s * u[j]; l = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]); for (auto &x : r) x /= l; return r; }
VS_HARNESS(sect_orientation_any) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 3); bool beam = vs_choose("CBEAM", 2); int how = vs_choose("given by", 3), dirs = vs_choose("beam", 6), vec = vs_choose("vector", 6), prop = vs_choose("properties", 2), order = vs_choose("order", 2);
    static const V3 U[6] = {{{3, 4, 0}}, {{1, 2, 2}}, {{-2, 1, -2}}, {{0, 0, -5}}, {{4, 0, 1}}, {{-1, -1, -1}}}, W[6] = {{{1, 1, 0}}, {{0.5, 0, -3}}, {{-1, 2, 5}}, {{0.25, 0, 7}}, {{2, -3, 1}}, {{-4, -0.5, 0}}};
    V3 u[3], w[3], o[3]; static const int el[] = {200, 100, 300};
    for (int e = 0; e < 3; e++) { u[e] = U[(dirs + 2 * e) % 6]; w[e] = W[(vec + e) % 6]; for (int j = 0; j < 3; j++) o[e][j] = vs_dyadic(vs_name("o", e, j).c_str(), -800, 800, 3); auto g = [&](int id, double k, const V3 &a) { auto c = d.card("GRID"); c(id)(); for (int j = 0; j < 3; j++) c(o[e][j] + k * a[j]); }; g(40 - 3 * e, 0, u[e]); g(39 - 3 * e, 1, u[e]); if (how == 1 || (how == 2 && e != 1)) g(50 + e, 1, w[e]); }
    string grids = d.bulk; d.bulk.clear();
    for (int e = 0; e < 3; e++) { auto c = d.card(beam ? "CBEAM" : "CBAR"); c(el[e])(prop && e == 1 ? 20 : 7)(40 - 3 * e)(39 - 3 * e); if (how == 1 || (how == 2 && e != 1)) c(50 + e); else for (int j = 0; j < 3; j++) c(w[e][j]); }
    for (int p = 0; p < 2; p++) if (!p || prop) d.card("PBAR")(p ? 20 : 7)(9)(2.)(3.)(4.)(5.); d.card("MAT1")(9)(2000.)()(0.25)(7.); d.bulk = order ? d.bulk + grids : grids + d.bulk;
    View v; translate(d, t, v);
    for (int e = 0; e < 3; e++) { V3 g{{0, 0, 0}}; int n = 0;
        if (t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); for (auto *f : c[0]->args.factors("ORIENTATION")) if (covers(v, f, el[e])) { n++; auto *val = f->get("VALE"); vs_assert(val && val->items.size() == 3 && f->get("CARA")->text == "VECT_Y", "orientation vector"); for (int j = 0; j < 3; j++) g[j] = out::real(&val->items[j]); } }
        else { auto &r = v.cells[el[e]].rest; n = r.size() >= 3; if (n) for (int j = 0; j < 3; j++) g[j] = realOf(r[j]); }
        CHECK(t, n == 1, "every beam has one orientation"); V3 a = across(g, u[e]), b = across(w[e], u[e]);
        for (int j = 0; j < 3; j++) CHECK(t, std::fabs(a[j] - b[j]) < 1e-4, "orientation of plane 1"); }
    vs_reach(tname[t]);
}
