// Materials: the elastic constants that each element has in the input are those it has in the output.
#include "h_phys.h"
using namespace view; using std::vector; using std::string;
struct Mat { bool hasE, hasG, hasNu; double E, G, nu, rho, ge; };
static Mat mat(Deck &d, const char *p, int id, int given, bool rho, bool ge, bool more) {
    Mat m; m.hasE = given != 1; m.hasG = given == 1 || given == 2 || given == 4; m.hasNu = given != 2 && given != 3; // 0: E nu, 1: G nu, 2: E G, 3: E, 4: E G nu
    double E = vs_dyadic(vs_name(p, 0).c_str(), 8, 8000000, 3), nu = vs_dyadic(vs_name(p, 1).c_str(), 1, 127, 8), G = vs_dyadic(vs_name(p, 2).c_str(), 8, 8000000, 3);
    if (given == 2) vs_assume(2 * G < E && E < 3 * G);
    m.rho = rho ? vs_dyadic(vs_name(p, 3).c_str(), 1, 100000, 6) : 0; m.ge = ge ? vs_dyadic(vs_name(p, 4).c_str(), 1, 100, 10) : 0;
    { auto c = d.card("MAT1"); c(id); if (m.hasE) c(E); else c(); if (m.hasG) c(G); else c(); if (m.hasNu) c(nu); else c(); if (rho) c(m.rho); else c(); if (more) c(0.25)(20.); else c()(); if (ge) c(m.ge); else if (more) c(); if (more) c(500.)(600.)(700.); } // expansion, reference temperature, stress limits
    m.nu = m.hasNu ? nu : given == 2 ? E / (2 * G) - 1 : 0; m.E = m.hasE ? E : 2 * (1 + nu) * G; m.G = m.hasG ? G : m.hasNu ? E / (2 * (1 + nu)) : 0; // the Nastran rule when one of the three is blank
    return m;
}
VS_HARNESS(mat_elastic) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("element", 5); int given = vs_choose("given", 5); bool rho = vs_choose("density", 2), ge = vs_choose("damping", 2); int wt = vs_choose("wtmass", 2); bool first = vs_choose("materials first", 2); int more = vs_choose("more", 3);
    Mat m[2]; for (int i = 0; i < 2; i++) m[i] = mat(d, i ? "b" : "a", i ? 3 : 90, given, rho, ge, more == 1);
    string matsText = d.bulk; d.bulk.clear();
    double w = 1; if (wt) { w = vs_dyadic("wtmass value", 1, 64, 3); d.card("PARAM")("WTMASS")(w); }
    // geometry: two elements of the kind, properties 7 and 20; the first has material 90 and the second material 3
    for (int i = 0; i < 8; i++) d.card("GRID")(10 + i)()(double(i % 2))(double(i / 2 % 2))(double(i / 4));
    for (int e = 0; e < 2; e++) { int id = e ? 100 : 200, p = e ? 20 : 7;
        if (kind == 0) d.card("CQUAD4")(id)(p)(10 + 4 * e)(11 + 4 * e)(13 + 4 * e)(12 + 4 * e);
        else if (kind == 1) d.card("CTETRA")(id)(p)(10 + e)(12)(14)(17);
        else if (kind == 2) d.card("CBAR")(id)(p)(10 + e)(12)(0.)(0.)(1.);
        else if (kind == 3) d.card("CROD")(id)(p)(10 + e)(12);
        else d.card("CBEAM")(id)(p)(10 + e)(12)(0.)(0.)(1.);
        int mid = e ? 3 : 90;
        if (kind == 0) d.card("PSHELL")(p)(mid)(0.5)(mid); else if (kind == 1) d.card("PSOLID")(p)(mid); else if (kind == 2) d.card("PBAR")(p)(mid)(2.)(3.)(4.)(5.); else if (kind == 3) d.card("PROD")(p)(mid)(2.)(5.); else d.card("PBEAM")(p)(mid)(2.)(3.)(4.)()(5.); }
    if (more == 2) { // a third element, of another kind, and a fourth with another property of the first kind: both have material 90
        if (kind == 2) { d.card("CTRIA3")(50)(30)(10)(11)(12); d.card("PSHELL")(30)(90)(0.5)(90); } else { d.card("CBAR")(50)(30)(14)(16)(0.)(1.)(1.); d.card("PBAR")(30)(90)(2.)(3.)(4.)(5.); }
        if (kind == 1) { d.card("CTETRA")(60)(2)(13)(12)(14)(17); d.card("PSOLID")(2)(90); } else { d.card("CROD")(60)(2)(13)(17); d.card("PROD")(2)(90)(1.); } }
    if (!first) d.bulk += matsText; else d.bulk = matsText + d.bulk;
    View v; translate(d, t, v);
    for (int e = 0; e < (more == 2 ? 4 : 2); e++) { static const int el[] = {200, 100, 50, 60}; Elas r = elas(v, el[e]); const Mat &x = m[e == 1]; CHECK(t, r.found, "every element has a material");
        CHECK(t, close(r.E, x.E), "Young modulus"); CHECK(t, close(r.nu, x.nu), "Poisson ratio"); CHECK(t, close(r.rho, x.rho * w), "density");
        CHECK(t, close(r.ge, t == SYSTUS ? 2 * x.ge : x.ge), "structural damping");
        if (t <= NAS_COSMIC) CHECK(t, close(r.G, x.G), "shear modulus"); }
    vs_reach(tname[t]);
}
