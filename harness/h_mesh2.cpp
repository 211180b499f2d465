// Coordinate frames: GRID positions given in any input frame reach every solver in the global frame.
#include "h_view.h"
using namespace view; using std::vector; using std::string;
// oracle: a frame is an origin and three axes; all numbers of the axes are exact
struct Fr { V3 o{{0, 0, 0}}; V3 e[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; int kind = 0; };
static V3 toGlobal(const Fr &f, const V3 &l) { // cartesian local components
    V3 r; for (int j = 0; j < 3; j++) { double s = f.o[j]; for (int i = 0; i < 3; i++) if (f.e[i][j] != 0) s = s + l[i] * f.e[i][j]; r[j] = s; } return r;
}
static const double C[8] = {1, 0, -1, 0, 1, 0, 0, 0}, S[8] = {0, 1, 0, -1, 0, 0, 0, 0};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6; }
VS_HARNESS(mesh_frames) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("frame kind", 3); int nested = vs_choose("nested", 3); int rot = vs_choose("axes", 3); bool grdset = vs_choose("grdset", 2);
    static const char *kw[] = {"CORD2R", "CORD2C", "CORD2S"};
    // axis permutations: z axis and x axis of the frame in its reference frame
    static const V3 Z3[3] = {{{0, 0, 1}}, {{1, 0, 0}}, {{0, -1, 0}}}, X3[3] = {{{0, 1, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
    Fr base; if (nested) { base.e[0] = {0, 1, 0}; base.e[1] = {-1, 0, 0}; base.e[2] = {0, 0, 1}; for (int j = 0; j < 3; j++) base.o[j] = vs_dyadic(vs_name("base", j).c_str(), -4000, 4000, 3); }
    V3 o; for (int j = 0; j < 3; j++) o[j] = vs_dyadic(vs_name("origin", j).c_str(), -4000, 4000, 3);
    Fr top; if (nested == 2) { top.e[0] = {0, 0, -1}; top.e[1] = {0, 1, 0}; top.e[2] = {1, 0, 0}; for (int j = 0; j < 3; j++) top.o[j] = vs_dyadic(vs_name("top", j).c_str(), -4000, 4000, 3);
        auto c = d.card("CORD2R"); c(8)(0); for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) c(top.o[j] + (k == 1 ? top.e[2][j] : k == 2 ? top.e[0][j] : 0.)); }
    if (nested) { auto c = d.card("CORD2R"); c(31)(nested == 2 ? 8 : 0); for (int j = 0; j < 3; j++) c(base.o[j]); for (int j = 0; j < 3; j++) c(base.o[j] + base.e[2][j]); for (int j = 0; j < 3; j++) c(base.o[j] + base.e[0][j]); }
    { auto c = d.card(kw[kind]); c(12)(nested ? 31 : 0); for (int j = 0; j < 3; j++) c(o[j]); for (int j = 0; j < 3; j++) c(o[j] + Z3[rot][j]); for (int j = 0; j < 3; j++) c(o[j] + X3[rot][j]); }
    Fr f; f.o = toGlobal(base, o); Fr dir = base; dir.o = {0, 0, 0}; V3 ez = toGlobal(dir, Z3[rot]), ex = toGlobal(dir, X3[rot]);
    f.e[2] = ez; f.e[0] = ex; f.e[1] = {ez[1] * ex[2] - ez[2] * ex[1], ez[2] * ex[0] - ez[0] * ex[2], ez[0] * ex[1] - ez[1] * ex[0]};
    if (nested == 2) { Fr td = top; td.o = {0, 0, 0}; f.o = toGlobal(top, f.o); for (int i = 0; i < 3; i++) f.e[i] = toGlobal(td, f.e[i]); }
    if (grdset) d.card("GRDSET")()(12);
    V3 want[5]; int n = 0; vector<int> ids;
    for (int i = 0; i < 4; i++) {
        V3 l, c; if (kind == 0) { for (int j = 0; j < 3; j++) c[j] = l[j] = vs_dyadic(vs_name("x", i, j).c_str(), -4000, 4000, 3); }
        else if (kind == 1) { double r = vs_dyadic(vs_name("r", i).c_str(), 1, 4000, 3), z = vs_dyadic(vs_name("z", i).c_str(), -4000, 4000, 3); l = {r, 90. * i, z}; c = {r * C[i], r * S[i], z}; }
        else { double r = vs_dyadic(vs_name("r", i).c_str(), 1, 4000, 3); int th = i & 1 ? 90 : i == 2 ? 180 : 0; int ph = i == 3 ? 90 : 0; // theta from z, phi from x
            l = {r, (double)th, (double)ph}; c = {th == 90 ? (ph == 0 ? r : 0.) : 0., th == 90 && ph == 90 ? r : 0., th == 0 ? r : th == 180 ? -r : 0.}; }
        int id = 40 - i; ids.push_back(id); auto g = d.card("GRID"); g(id); if (grdset) g(); else g(12); for (int j = 0; j < 3; j++) g(l[j]); want[n++] = toGlobal(f, c);
    }
    d.card("GRID")(7)(0)(1.)(2.)(3.);
    d.card("CQUAD4")(1)(5)(ids[0])(ids[1])(ids[2])(ids[3]); d.card("PSHELL")(5)(9)(0.5)(9); d.card("MAT1")(9)(2000.)()(0.25)(7.);
    View v; translate(d, t, v);
    for (int i = 0; i < n; i++) { CHECK(t, v.coords.count(ids[i]), "GRID keeps its id"); for (int j = 0; j < 3; j++) CHECK(t, near(v.coords[ids[i]][j], want[i][j]), "GRID position in the basic system"); }
    if (!grdset) CHECK(t, near(v.coords[7][0], 1) && near(v.coords[7][1], 2) && near(v.coords[7][2], 3), "GRID in the basic system is unchanged");
    vs_reach(tname[t]);
}
// frames defined by grid points (CORD1R), themselves possibly located in another frame, given in any card order
VS_HARNESS(mesh_frames_points) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int parent = vs_choose("points in", 4); bool swap = vs_choose("ids swapped", 2); bool first = vs_choose("frames first", 2); int child = vs_choose("child", 3);
    // frame A (id ida): by points p0 (origin), p1 (on z), p2 (in xz), located in frame 77: 0 basic, 1 rectangular, 2 cylindrical, 3 frame by points
    int ida = swap ? 90 : 20, idb = 77; string frames, grids; Deck tmp;
    auto flush = [&](string &s) { s += d.bulk; d.bulk.clear(); };
    Fr P; V3 po{{0, 0, 0}};
    if (parent) { for (int j = 0; j < 3; j++) po[j] = parent == 2 ? 2.5 * j - 4 : vs_dyadic(vs_name("po", j).c_str(), -400, 400, 2); P.o = po; } // a cylindrical parent has fixed numbers: its axes are rounded
    if (parent == 1 || parent == 2) { P.e[0] = {0, 1, 0}; P.e[1] = {0, 0, 1}; P.e[2] = {1, 0, 0}; auto c = d.card(parent == 1 ? "CORD2R" : "CORD2C"); c(idb)(0); for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) c(po[j] + (k == 1 ? P.e[2][j] : k == 2 ? P.e[0][j] : 0.)); }
    if (parent == 3) { P.e[0] = {0, 1, 0}; P.e[1] = {0, 0, 1}; P.e[2] = {1, 0, 0}; d.card("CORD1R")(idb)(1)(2)(3); }
    flush(frames); if (parent == 3) for (int k = 0; k < 3; k++) { auto c = d.card("GRID"); c(k + 1)(); for (int j = 0; j < 3; j++) c(po[j] + (k == 1 ? 2 * P.e[2][j] : k == 2 ? 3 * P.e[0][j] : 0.)); }
    flush(grids);
    V3 ao; for (int j = 0; j < 3; j++) ao[j] = parent == 2 ? 7.25 + j : vs_dyadic(vs_name("ao", j).c_str(), -400, 400, 2);
    V3 loc[3] = {ao, ao, ao}; if (parent == 2) { double r = ao[0], z = ao[2]; loc[0] = {r, 90, z}; loc[1] = {r, 90, z + 2}; loc[2] = {r + 1, 90, z}; } else { loc[1][2] = ao[2] + 2; loc[2][0] = ao[0]; loc[2][1] = ao[1] + 4; loc[2][2] = ao[2] + 1; }
    for (int k = 0; k < 3; k++) { auto c = d.card("GRID"); c(11 + k)(parent ? idb : 0); for (int j = 0; j < 3; j++) c(loc[k][j]); } flush(grids);
    d.card("CORD1R")(ida)(11)(12)(13); flush(frames);
    Fr A; V3 lo = parent == 2 ? V3{{0., ao[0], ao[2]}} : ao; A.o = toGlobal(P, lo); Fr R = P; R.o = {0, 0, 0}; A.e[2] = toGlobal(R, {{0, 0, 1}}); A.e[0] = toGlobal(R, {{0, 1, 0}}); A.e[1] = toGlobal(R, {{-1, 0, 0}});
    Fr B = A; int idc = ida;
    if (child) { idc = 50; auto c = d.card(child == 1 ? "CORD2R" : "CORD2C"); c(idc)(ida); double q = vs_dyadic("co", -400, 400, 2); V3 co{{q, 2, -3}}; for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) c(co[j] + (k == 1 ? (j == 0 ? 1. : 0.) : k == 2 ? (j == 1 ? 1. : 0.) : 0.));
        Fr AR = A; AR.o = {0, 0, 0}; B.o = toGlobal(A, co); B.e[2] = toGlobal(AR, {{1, 0, 0}}); B.e[0] = toGlobal(AR, {{0, 1, 0}}); B.e[1] = toGlobal(AR, {{0, 0, 1}}); flush(frames); }
    V3 want[3]; for (int i = 0; i < 3; i++) { V3 l; for (int j = 0; j < 3; j++) l[j] = vs_dyadic(vs_name("x", i, j).c_str(), 1, 400, 2); V3 c = l; if (child == 2) { l[1] = 90 * i; c = {l[0] * C[i], l[0] * S[i], l[2]}; } want[i] = toGlobal(B, c); auto g = d.card("GRID"); g(61 + i)(idc); for (int j = 0; j < 3; j++) g(l[j]); }
    flush(grids); d.bulk = first ? frames + grids : grids + frames;
    d.card("CTRIA3")(1)(5)(61)(62)(63); d.card("PSHELL")(5)(9)(0.5)(9); d.card("MAT1")(9)(2000.)()(0.25)(7.);
    View v; translate(d, t, v);
    for (int k = 0; k < 3; k++) { V3 w = toGlobal(P, parent == 2 ? V3{{0., loc[k][0], loc[k][2]}} : loc[k]); CHECK(t, v.coords.count(11 + k), "GRID keeps its id"); for (int j = 0; j < 3; j++) CHECK(t, near(v.coords[11 + k][j], w[j]), "position of the points of a frame"); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(t, near(v.coords[61 + i][j], want[i][j]), "GRID position in a frame given by points");
    vs_reach(tname[t]);
}
// general frames: axes given by points at any distance, not orthogonal, rotated by any angle; any angles of the points; any order of the cards; GRDSET and an explicit zero
static V3 crs(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static V3 nrm(V3 a) { double l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); for (auto &x : a) x /= l; return a; }
static Fr within(const Fr &p, const Fr &f) { Fr r = f, q = p; q.o = {0, 0, 0}; r.o = toGlobal(p, f.o); for (int i = 0; i < 3; i++) r.e[i] = toGlobal(q, f.e[i]); return r; }
VS_HARNESS(mesh_frames_general) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("frame kind", 4), shape = vs_choose("shape", 5), nested = vs_choose("nested", 3), order = vs_choose("order", 3), defs = vs_choose("grdset", 3);
    static const char *kw[] = {"CORD2R", "CORD2C", "CORD2S"}; static const V3 Z[5] = {{{0, 0, 4}}, {{3, 4, 0}}, {{-1, 2, 2}}, {{0, 0, -0.25}}, {{1, 1, 1}}}, X[5] = {{{2, 0, 3}}, {{0, 0, 2}}, {{5, 1, 0}}, {{-1, -1, 7}}, {{1, -2, 3}}};
    vector<string> frames; string grids; Fr f[3]; int ids[3] = {30, 12, 71}, n = nested + 1; // f[0] lies in the basic system, f[1] in f[0]..., the last one holds the points
    auto card = [&](int k, const char *w) { f[k].o = {1.5 - k, 2. * k - 3, 7.25}; int s = (shape + k) % 5; V3 z = Z[s], x = X[s]; if (kind == 3 && k == n - 1) { // by points of the parent frame
            for (int g = 0; g < 3; g++) { auto c = d.card("GRID"); c(101 + g); if (k) c(ids[k - 1]); else c(0); for (int j = 0; j < 3; j++) c(f[k].o[j] + (g == 1 ? z[j] : g == 2 ? x[j] : 0.)); } grids += d.bulk; d.bulk.clear(); d.card("CORD1R")(99)(101)(102)(103)(ids[k])(101)(102)(103); }
        else { auto c = d.card(w); c(ids[k]); if (k) c(ids[k - 1]); else c(); for (int g = 0; g < 3; g++) for (int j = 0; j < 3; j++) c(f[k].o[j] + (g == 1 ? z[j] : g == 2 ? x[j] : 0.)); }
        f[k].e[2] = nrm(z); f[k].e[1] = nrm(crs(z, x)); f[k].e[0] = crs(f[k].e[1], f[k].e[2]); frames.push_back(d.bulk); d.bulk.clear(); };
    for (int k = 0; k < n; k++) { card(k, k == n - 1 ? kw[kind % 3] : "CORD2R"); if (k) f[k] = within(f[k - 1], f[k]); }
    int last = ids[n - 1]; if (defs) { d.card("GRDSET")()(last); frames.insert(frames.begin(), d.bulk); d.bulk.clear(); }
    static const double A[4][2] = {{30, 60}, {-45, 135}, {110, 250}, {400, -20}}; V3 want[5];
    for (int i = 0; i < 4; i++) { V3 l, c; double a = A[i][0] * M_PI / 180, b = A[i][1] * M_PI / 180; 
        if (kind == 0 || kind == 3) { for (int j = 0; j < 3; j++) c[j] = l[j] = vs_dyadic(vs_name("x", i, j).c_str(), -4000, 4000, 3); }
        else if (kind == 1) { double r = vs_dyadic(vs_name("r", i).c_str(), 1, 4000, 3), z = vs_dyadic(vs_name("z", i).c_str(), -4000, 4000, 3); l = {r, A[i][0], z}; c = {r * std::cos(a), r * std::sin(a), z}; }
        else { double r = vs_dyadic(vs_name("r", i).c_str(), 1, 4000, 3); l = {r, A[i][0], A[i][1]}; c = {r * (std::sin(a) * std::cos(b)), r * (std::sin(a) * std::sin(b)), r * std::cos(a)}; }
        auto g = d.card("GRID"); g(40 - i); if (defs) g(); else g(last); for (int j = 0; j < 3; j++) g(l[j]); want[i] = toGlobal(f[n - 1], c); }
    { auto g = d.card("GRID"); g(7); if (defs) g(0); else g(); if (defs == 2) g()(2.)(); else g(1.)(2.)(3.); want[4] = defs == 2 ? V3{{0, 2, 0}} : V3{{1, 2, 3}}; }
    string points = d.bulk; d.bulk.clear(); if (order == 2) std::reverse(frames.begin(), frames.end()); string fr; for (auto &s : frames) fr += s; d.bulk = order == 0 ? fr + grids + points : order == 1 ? points + fr + grids : points + grids + fr;
    d.card("CQUAD4")(1)(5)(40)(39)(38)(37); d.card("PSHELL")(5)(9)(0.5)(9); d.card("MAT1")(9)(2000.)()(0.25)(7.);
    View v; translate(d, t, v);
    for (int i = 0; i < 5; i++) { int id = i == 4 ? 7 : 40 - i; CHECK(t, v.coords.count(id), "GRID keeps its id"); for (int j = 0; j < 3; j++) CHECK(t, near(v.coords[id][j], want[i][j]), "GRID position in the basic system"); }
    vs_reach(tname[t]);
}
