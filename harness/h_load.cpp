// Nodal forces and moments.
#include "h_load.h"
using namespace view; using std::vector; using std::string; using std::map;
static V3 P[8];
static void mesh(Deck &d) {
    for (int i = 0; i < 6; i++) { P[i] = {double(i % 2), double(i / 2), 0.}; }
    P[6] = {4., 5., 6.};
    for (int i = 0; i < 7; i++) { auto c = d.card("GRID"); c(10 * (i + 1))(); for (int j = 0; j < 3; j++) c(P[i][j]); }
    for (int e = 0; e < 2; e++) d.card("CQUAD4")(e + 1)(4)(10 + 20 * e)(20 + 20 * e)(40 + 20 * e)(30 + 20 * e);
    d.card("PSHELL")(4)(9)(0.5)(9); d.card("MAT1")(9)(200.)()(0.25)(1.); d.card("SPC1")(2)("123456")(10);
}
static const V3 Z3[3] = {{{0, 0, 1}}, {{1, 0, 0}}, {{0, -1, 0}}}, X3[3] = {{{0, 1, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
static V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double sc(double s, double x) { return s == 1 ? x : s * x; }
// FORCE and MOMENT, in the basic system or in a frame, alone or with others on the same node
VS_HARNESS(nodal_vector) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 2), frame = vs_choose("frame", 4), rot = frame ? vs_choose("axes", 3) : 0, comps = vs_choose("components", 4), more = vs_choose("more", 3); bool first = vs_choose("order", 2);
    if (frame > 1 && more) return;
    mesh(d); string grid = d.bulk; d.bulk.clear(); static const char *kw[] = {"", "CORD2R", "CORD2C", "CORD2C"}; const V3 pe[3] = {{{0, 1, 0}}, {{0, 0, 1}}, {{1, 0, 0}}}, po{{1.5, 2., -3.}}; V3 e[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
    int node = 60; V3 pos = P[5], o = pos;
    if (frame) { // the node lies in the xz plane of the frame, or in its yz plane
        V3 z = Z3[rot], x = X3[rot], y = cross(z, x); int side = frame == 1 ? 0 : vs_choose("side", 2); double a = frame == 1 ? vs_dyadic("ox", -80, 80, 3) : 2., b = frame == 1 ? 1.5 : 3.;
        for (int j = 0; j < 3; j++) o[j] = pos[j] - a * (side ? y : x)[j] - b * z[j];
        if (frame == 3) { auto c = d.card("CORD2R"); c(9)(0); for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) c(po[j] + (k == 1 ? pe[2][j] : k == 2 ? pe[0][j] : 0.)); } // frame 12 is given in frame 9
        auto point = [&](Deck::Card &c, V3 p) { for (int i = 0; i < 3; i++) if (frame == 3) { double u = 0; for (int j = 0; j < 3; j++) u += (p[j] - po[j]) * pe[i][j]; c(u); } else c(p[i]); };
        auto c = d.card(kw[frame]); c(12)(frame == 3 ? 9 : 0); V3 oz, ox; for (int j = 0; j < 3; j++) { oz[j] = o[j] + z[j]; ox[j] = o[j] + x[j]; } point(c, o); point(c, oz); point(c, ox);
        e[0] = x; e[1] = y; e[2] = z;
        if (frame > 1 && side) { e[0] = y; for (int j = 0; j < 3; j++) e[1][j] = -x[j]; }
    }
    string sys = d.bulk; d.bulk.clear();
    double m = vs_dyadic("m", 1, 800, 3), f[3]; for (int j = 0; j < 3; j++) f[j] = comps == 3 || comps == j ? vs_dyadic(vs_name("f", j).c_str(), -800, 800, 3) : 0;
    map<int, V6> want; V6 &w = want[node]; w.fill(0); int b = kind ? 3 : 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (e[i][j] != 0 && (comps == 3 || comps == i)) w[b + j] = (m * f[i]) * e[i][j];
    { auto c = d.card(kind ? "MOMENT" : "FORCE"); c(5)(node); if (frame) c(12); else c(); c(m); for (int j = 0; j < 3; j++) if (comps == 3 || comps == j) c(f[j]); else c(); }
    if (more) { double g = vs_dyadic("g", 800001, 900000, 3), h = vs_dyadic("h", 800001, 900000, 3); d.card("FORCE")(5)(node)()(1.)(0.)(g)(0.); d.card("MOMENT")(5)(30)()(1.)(0.)(0.)(h); addTo(w[1], g); V6 &u = want[30]; u.fill(0); u[5] = h; if (more == 2) { double q = vs_dyadic("q", 8000001, 9000000, 3); d.card("FORCE")(5)(node)()(1.)(0.)(q); addTo(w[1], q); d.card("FORCE")(6)(node)()(1.)(q); } }
    d.bulk = first ? sys + d.bulk + grid : grid + d.bulk + sys; d.caseControl = "LOAD=5\nSPC=2\n";
    View v; translate(d, t, v); sameNodal(t, nodal(v, 1, 0, 1), want); vs_reach(tname[t]);
}
// several nodes, at any place, loaded in the same skew frame
static V3 nrm(V3 a) { double l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); for (auto &x : a) x /= l; return a; }
VS_HARNESS(nodal_frames) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 3), frame = vs_choose("frame", 4), shape = vs_choose("shape", 5), comps = vs_choose("components", 4), order = vs_choose("order", 3); bool inside = vs_choose("grid in the frame", 2);
    static const V3 Z[5] = {{{0, 0, 4}}, {{3, 4, 0}}, {{-1, 2, 2}}, {{0, 0, -0.25}}, {{1, 1, 1}}}, X[5] = {{{2, 0, 3}}, {{0, 0, 2}}, {{5, 1, 0}}, {{-1, -1, 7}}, {{1, -2, 3}}};
    mesh(d); string grid = d.bulk; d.bulk.clear(); V3 o{{2.5, -1.5, 0.75}}, e[3], po{{1.5, 2., -3.}}, pe[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; auto axes = [](int s, V3 *e) { e[2] = nrm(Z[s]); e[1] = nrm(cross(Z[s], X[s])); e[0] = cross(e[1], e[2]); };
    if (frame > 1) { axes((shape + 1) % 5, pe); auto c = d.card("CORD2R"); c(9)(); int s = (shape + 1) % 5; for (int g = 0; g < 3; g++) for (int j = 0; j < 3; j++) c(po[j] + (g == 1 ? Z[s][j] : g == 2 ? X[s][j] : 0.)); }
    { auto c = d.card(frame & 1 ? "CORD2C" : "CORD2R"); c(12); if (frame > 1) c(9); else c(); for (int g = 0; g < 3; g++) for (int j = 0; j < 3; j++) c(o[j] + (g == 1 ? Z[shape][j] : g == 2 ? X[shape][j] : 0.)); }
    V3 q[3]; axes(shape, q); if (frame > 1) { V3 g = po; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g[j] += o[i] * pe[i][j]; o = g; for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) { e[k][j] = 0; for (int i = 0; i < 3; i++) e[k][j] += q[k][i] * pe[i][j]; } } else for (int k = 0; k < 3; k++) e[k] = q[k];
    string sys = d.bulk; d.bulk.clear(); map<int, V6> want; static const int nodes[3] = {60, 30, 81};
    if (inside) { auto c = d.card("GRID"); c(81)(12); V3 l{{3., frame & 1 ? 40. : 2., 1.}}; double a = 40 * M_PI / 180; V3 w = frame & 1 ? V3{{3 * std::cos(a), 3 * std::sin(a), 1}} : l; P[7] = o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P[7][j] += w[i] * e[i][j]; for (int j = 0; j < 3; j++) c(l[j]); } else { d.card("GRID")(81)()(1.)(2.)(3.); P[7] = {1, 2, 3}; }
    string more = d.bulk; d.bulk.clear();
    for (int k = 0; k < 3; k++) { const V3 &x = k == 0 ? P[5] : k == 1 ? P[2] : P[7]; V3 u[3] = {e[0], e[1], e[2]}; if (frame & 1) { V3 r; double h = 0; for (int j = 0; j < 3; j++) h += (x[j] - o[j]) * e[2][j]; for (int j = 0; j < 3; j++) r[j] = x[j] - o[j] - h * e[2][j]; u[0] = nrm(r); u[1] = cross(e[2], u[0]); }
        static const double G[3][3] = {{2, -3, 0.7}, {1.3, 1.75, -4}, {-0.3, 6.1, 3}}; double f[3], mag = vs_dyadic(vs_name("m", k).c_str(), 1, 800, 3); bool mom = kind == 1 || (kind == 2 && k == 1); V6 w; w.fill(0); auto c = d.card(mom ? "MOMENT" : "FORCE"); c(5)(nodes[k])(12)(mag); for (int j = 0; j < 3; j++) { f[j] = comps == 3 || comps == j ? G[k][j] : 0; if (comps == 3 || comps == j) c(f[j]); else c(); }
        for (int j = 0; j < 3; j++) { double y = 0; for (int i = 0; i < 3; i++) y += f[i] * u[i][j]; w[j + (mom ? 3 : 0)] = mag * y; } want[nodes[k]] = w; }
    d.bulk = order == 0 ? sys + d.bulk + grid + more : order == 1 ? grid + more + d.bulk + sys : more + sys + grid + d.bulk; d.caseControl = "LOAD=5\nSPC=2\n";
    View v; translate(d, t, v); auto got = nodal(v, 1, 0, 1); for (auto &w : want) for (int j = 0; j < 6; j++) { double g = got.count(w.first) ? got[w.first][j] : 0; CHECK(t, std::fabs(g - w.second[j]) < 1e-3, j < 3 ? "force on a node" : "moment on a node"); } CHECK(t, got.size() == 3, "no load on another node"); vs_reach(tname[t]);
}
// FORCE1 and FORCE2: the direction is given by grid points
VS_HARNESS(nodal_points) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("card", 3), axis = vs_choose("axis", 3), sign = vs_choose("sign", 2) ? 1 : -1; bool twice = vs_choose("twice", 2);
    mesh(d); double m = vs_dyadic("m", 8, 80000, 3), L = vs_dyadic("L", 8, 80000, 3); auto grid = [&](int id, V3 p) { auto c = d.card("GRID"); c(id)(); for (int j = 0; j < 3; j++) c(p[j]); };
    V3 a{{vs_dyadic("x", -800, 800, 3), vs_dyadic("y", -800, 800, 3), -7.5}}, b = a; V6 w; w.fill(0);
    if (kind == 0) { b[axis] = a[axis] + sign * L; grid(101, a); grid(102, b); d.card("FORCE1")(5)(60)(m)(101)(102); w[axis] = sign * m; }
    if (kind == 1) { b[axis] = a[axis] + 3. * sign; b[(axis + 1) % 3] = a[(axis + 1) % 3] - 4.; grid(101, a); grid(102, b); d.card("FORCE1")(5)(60)(m)(101)(102); w[axis] = sign * m * 0.6; w[(axis + 1) % 3] = -m * 0.8; }
    if (kind == 2) { V3 c{{1., 2., 3.}}, e = c; b[axis] = a[axis] + sign * L; e[(axis + 1) % 3] = c[(axis + 1) % 3] + 5.; grid(101, a); grid(102, b); grid(103, c); grid(104, e); d.card("FORCE2")(5)(60)(m)(101)(102)(103)(104); w[(axis + 2) % 3] = sign * m; }
    if (twice) { double g = vs_dyadic("g", 800001, 900000, 3); d.card("FORCE")(5)(60)()(1.)(g)(0.)(0.); addTo(w[0], g); }
    d.caseControl = "LOAD=5\nSPC=2\n"; View v; translate(d, t, v); sameNodal(t, nodal(v, 1, 0, 1), {{60, w}}); vs_reach(tname[t]);
}
// which loads act in which subcase: sets selected directly or combined by LOAD cards with factors
VS_HARNESS(nodal_cases) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int cases = 1 + vs_choose("subcases", 3), n = vs_choose("combined sets", 4); bool second = n == 2 && vs_choose("second combination", 2), order = vs_choose("order", 2), common = vs_choose("common node", 2), unit = vs_choose("unit factors", 2); if (!n && unit) return;
    mesh(d); string m0 = d.bulk; d.bulk.clear(); static const int sets[] = {5, 6, 15}; double f[3], S = unit ? 1. : vs_dyadic("S", -40, -1, 2), s[3]; map<int, V6> base[3];
    for (int k = 0; k < 3; k++) { s[k] = unit ? 1. : vs_dyadic(vs_name("s", k).c_str(), 1, 40, 2); f[k] = vs_dyadic(vs_name("f", k).c_str(), 1, 400, 2); }
    auto cards = [&](int k) {
        if (k < 3) { int node = common ? 60 : 40 + 10 * k; d.card("FORCE")(sets[k])(node)()(f[k])(0.)(1.)(0.); d.card("MOMENT")(sets[k])(20)()(1.)(k == 0 ? f[k] : 0.)(k == 1 ? f[k] : 0.)(k == 2 ? f[k] : 0.);
            V6 w; w.fill(0); w[1] = f[k]; base[k][node] = w; w.fill(0); w[3 + k] = f[k]; base[k][20] = w; }
        if (k == 3 && n) { auto c = d.card("LOAD"); c(8)(S); for (int i = 0; i < n; i++) c(s[i])(sets[i]); }
        if (k == 3 && second) d.card("LOAD")(3)(1.)(s[2])(sets[0])(1.)(sets[2]);
    };
    for (int k = 0; k < 4; k++) cards(order ? 3 - k : k);
    d.bulk = order ? d.bulk + m0 : m0 + d.bulk;
    static const int ids[] = {2, 3, 8}; int loadOf[] = {n ? 8 : 5, 6, second ? 3 : n > 1 ? 8 : 15};
    for (int k = 0; k < cases; k++) { if (cases > 1) d.caseControl += "SUBCASE " + std::to_string(ids[k]) + "\n"; d.caseControl += "LOAD=" + std::to_string(loadOf[k]) + "\nSPC=2\n"; }
    View v; translate(d, t, v);
    for (int k = 0; k < cases; k++) {
        map<int, V6> want; for (int i = 0; i < 3; i++) { double c = loadOf[k] == sets[i] ? 1. : loadOf[k] == 8 && i < n ? sc(S, s[i]) : loadOf[k] == 3 ? i == 0 ? s[2] : i == 2 ? 1. : 0. : 0.; if (c == 0) continue; for (auto &b : base[i]) { auto it = want.find(b.first); if (it == want.end()) { it = want.insert({b.first, V6()}).first; it->second.fill(0); } for (int j = 0; j < 6; j++) if (b.second[j] != 0) addTo(it->second[j], sc(c, b.second[j])); } }
        sameNodal(t, nodal(v, cases > 1 ? ids[k] : 1, k, cases), want);
    }
    vs_reach(tname[t]);
}
