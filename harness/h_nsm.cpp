// Non structural mass: it adds inertia and nothing else.
#include "h_phys.h"
using namespace view; using std::vector; using std::string;
VS_HARNESS(sect_nsm) {
    Deck d; Fmt t = (Fmt)vs_choose("target", 4); int kind = vs_choose("property", 4); int which = vs_choose("with mass", 3); int wt = vs_choose("WTMASS", 2); bool offs = kind >= 2 && t != SYSTUS && vs_choose("offset", 2);
    double A[2], nsm[2], rho = vs_dyadic("rho", 1, 400, 6), w = wt ? vs_dyadic("w", 1, 64, 3) : 1, E = vs_dyadic("E", 1, 8000, 3), z = offs ? vs_dyadic("z", 1, 100, 3) : 0;
    for (int i = 0; i < 8; i++) d.card("GRID")(1 + i)()(double(i % 2) * 3)(double(i / 2))(double(i % 3));
    string pr; const char *kw = kind < 2 ? "CBAR" : kind == 2 ? "CTRIA3" : "CQUAD4";
    for (int e = 0; e < 2; e++) {
        A[e] = vs_dyadic(vs_name("a", e).c_str(), 8, 400, 3); nsm[e] = which == 2 || which == e ? vs_dyadic(vs_name("m", e).c_str(), 8, 400, 3) : 0;
        auto c = d.card(kw); c(e ? 100 : 200)(e ? 20 : 7); int n = kind < 2 ? 2 : kind == 2 ? 3 : 4; for (int i = 0; i < n; i++) c(1 + 4 * e + i); if (kind < 2) c(0.)(0.)(1.); else if (offs) c()(z);
    }
    for (int e = 0; e < 2; e++) {
        if (kind == 0) { auto c = d.card("PBAR"); c(e ? 20 : 7)(9)(A[e])(2.)(3.)(4.); if (nsm[e] > 0) c(nsm[e]); }
        else if (kind == 1) { auto c = d.card("PBARL"); c(e ? 20 : 7)(9)()("BAR")()()()()(A[e])(0.5); if (nsm[e] > 0) c(nsm[e]); }
        else { auto c = d.card("PSHELL"); c(e ? 20 : 7)(9)(A[e])(9); if (nsm[e] > 0) c()()()(nsm[e]); }
    }
    d.card("MAT1")(9)(E)()(0.25)(rho); if (wt) d.card("PARAM")("WTMASS")(w);
    View v; translate(d, t, v);
    for (int e = 0; e < 2; e++) {
        int eid = e ? 100 : 200, n = kind < 2 ? 2 : kind == 2 ? 3 : 4; vector<int> nodes; for (int i = 0; i < n; i++) nodes.push_back(1 + 4 * e + i);
        int stiff = 0, parts = 0; double mass = 0; bool shape = true;
        for (auto &p : v.cells) if (p.second.nodes == nodes) {
            Elas m = elas(v, p.first); parts++; CHECK(t, m.found, "every element has a material"); double a = 0, off = 0, own = 0;
            if (t == SYSTUS) { auto *row = ascMat(v, p.first); if (row) a = ascVal(*row, kind < 2 ? "11" : "21"); }
            else if (t == ASTER) { auto c = v.comm->of("AFFE_CARA_ELEM"); vs_assert(c.size() == 1, "one AFFE_CARA_ELEM"); int k = 0; for (auto *f : c[0]->args.factors(kind < 2 ? "POUTRE" : "COQUE")) if (covers(v, f, p.first)) { k++; if (kind >= 2) { a = out::real(f->get("EPAIS")); off = out::realOr(f->get("EXCENTREMENT"), 0); } else { auto *val = f->get("VALE"); a = kind == 0 ? out::real(&val->items[0]) : out::real(&val->items[0]) * out::real(&val->items[1]); } } CHECK(t, k == 1, "an element has one section"); }
            else { vector<string> c; if (propCard(v, p.second.prop, c) == 1) { a = realOf(fld(c, 3)); own = c[0] == "PSHELL" ? zeroIfAbsent(c, 8) : c[0] == "PBEAM" ? zeroIfAbsent(c, 8) : zeroIfAbsent(c, 7); } vs_assert(v.nas->of("PARAM").size() == 1, "WTMASS is already applied"); off = z; }
            if (m.E > 0) { stiff++; CHECK(t, p.first == eid && m.E == E, "the stiffness is that of the material"); }
            double more = own; if (m.E > 0) { CHECK(t, close(m.rho, w * rho), "density of the element"); } else more = more + m.rho * a;
            mass = parts == 1 ? more : mass + more; shape = shape && close(a, A[e] * (kind == 1 ? 0.5 : 1)) && (!offs || off == z);
        }
        CHECK(t, stiff == 1, "the element is stiff once"); CHECK(t, shape, "same section everywhere"); CHECK(t, parts <= (nsm[e] > 0 ? 2 : 1), "no needless element");
        CHECK(t, close(mass, w * nsm[e]), "additional mass of the element");
    }
    vs_reach(tname[t]);
}
