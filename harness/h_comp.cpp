// Composite shells (Code_Aster).
#include "h_phys.h"
using namespace view; using std::vector; using std::string; using std::map;
VS_HARNESS(composites) {
    Deck d; int layers = 1 + vs_choose("layers", 4), lam = vs_choose("symmetric", 2), mats = vs_choose("materials", 5), blank = vs_choose("blanks", 5), z0 = vs_choose("Z0", 3), zoffs = vs_choose("ZOFFS", 3); int wt = vs_choose("WTMASS", 2), order = (wt + lam + layers) % 2;
    for (int i = 0; i < 9; i++) d.card("GRID")(10 + i)()(double(i % 3))(double(i / 3))(0.25 * i); string m0 = d.bulk; d.bulk.clear();
    // two composites (elements 1 and 2, and 3), a plate of one of the materials (4)
    for (int e = 1; e < 5; e++) { int n = 10 + (e - 1) % 2 + 3 * ((e - 1) / 2); auto c = d.card("CQUAD4"); c(e)(e < 3 ? 4 : e == 3 ? 7 : 8)(n)(n + 1)(n + 4)(n + 3); if (zoffs && (e == 2 || (zoffs == 2 && e == 3))) c()(0.125 * e); }
    struct L { int mid; double t, theta; }; vector<L> l[2]; double bottom[2] = {0, 0}; static const int mid[5][4] = {{21, 21, 21, 21}, {9, 9, 9, 9}, {21, 9, 22, 9}, {9, 21, 21, 9}, {22, 21, 9, 21}};
    for (int k = 0; k < 2; k++) {
        int n = k ? 2 : layers; for (int i = 0; i < n; i++) { L x; x.mid = mid[mats][k ? 3 - i : i]; bool b = i > 0 && blank; x.t = b && (blank == 2 || blank == 4) ? l[k].back().t : vs_dyadic(vs_name("t", k, i).c_str(), 10 + 200 * i, 200 + 200 * i, 3); x.theta = b && blank > 2 ? 0. : vs_dyadic(vs_name("theta", k, i).c_str(), 8 - 700 * (i % 2), 700 - 700 * (i % 2), 3); if (b && (blank == 1 || blank == 4) && i != 2) x.mid = l[k].back().mid; l[k].push_back(x); }
        auto c = d.card("PCOMP"); c(k ? 7 : 4); if (z0 == 0) c(); else { bottom[k] = z0 == 1 ? 0. : vs_dyadic(vs_name("z", k).c_str(), -9000, -1, 3); c(bottom[k]); } c()()()()(); if (lam) c("SYM"); else c();
        for (int i = 0; i < n; i++) { bool b = i > 0 && blank; if (b && (blank == 1 || blank == 4) && i != 2) c(); else c(l[k][i].mid); if (b && (blank == 2 || blank == 4)) c(); else c(l[k][i].t); if (b && blank > 2) c(); else c(l[k][i].theta); if (i % 2 || blank == 4) c("YES"); else c(); }
        if (lam) for (int i = n - 1; i >= 0; i--) l[k].push_back(l[k][i]);
    }
    d.card("PSHELL")(8)(9)(0.5)(9); double w = wt ? 0.25 : 1.; if (wt) d.card("PARAM")("WTMASS")(w);
    struct M { double E1, E2, nu, G, G1, G2, rho; }; map<int, M> mt; mt[9] = {vs_dyadic("E", 100, 900, 3), 0, 0.25, 0, 0, 0, vs_dyadic("rho", 1, 9, 3)}; for (int k = 21; k < 23; k++) mt[k] = {vs_dyadic(vs_name("E1", k).c_str(), 1000, 1900, 3), vs_dyadic(vs_name("E2", k).c_str(), 2000, 2900, 3), vs_dyadic(vs_name("nu", k).c_str(), 1, 3, 3), vs_dyadic(vs_name("G", k).c_str(), 3000, 3900, 3), k == 21 ? vs_dyadic("G1", 4000, 4900, 3) : 0, k == 21 ? vs_dyadic("G2", 5000, 5900, 3) : 0, vs_dyadic(vs_name("r", k).c_str(), 10, 90, 3)};
    d.card("MAT1")(9)(mt[9].E1)()(0.25)(mt[9].rho); for (int k = 21; k < 23; k++) { auto c = d.card("MAT8"); c(k)(mt[k].E1)(mt[k].E2)(mt[k].nu)(mt[k].G); if (k == 21) c(mt[k].G1)(mt[k].G2); else c()(); c(mt[k].rho); }
    d.card("SPC1")(2)("123456")(10)(11); d.bulk = order ? d.bulk + m0 : m0 + d.bulk; d.caseControl = "SPC=2\n"; View v; Fmt t = ASTER; translate(d, t, v);
    auto *cara = v.comm->of("AFFE_CARA_ELEM").at(0), *mate = v.comm->of("AFFE_MATERIAU").at(0); CHECK(t, v.cells.size() == 4, "elements of the mesh");
    auto orth = [&](const string &name, int mid, bool plate) {
        auto *c = v.comm->named(name); vs_assert(c && c->op == "DEFI_MATERIAU", "material of a layer"); auto &m = mt[mid]; auto val = [&](const out::Val &o, const char *k) { auto *x = o.get(k); return x ? out::real(x) : 0.; };
        if (plate) { auto f = c->args.factors("ELAS"); vs_assert(f.size() == 1, "ELAS of a plate"); CHECK(t, close(val(*f[0], "E"), m.E1) && close(val(*f[0], "NU"), m.nu) && close(val(*f[0], "RHO"), m.rho * w), "material of a plate"); return; }
        auto f = c->args.factors("ELAS_ORTH"); vs_assert(f.size() == 1, "ELAS_ORTH of a layer"); CHECK(t, close(val(*f[0], "RHO"), m.rho * w), "density of a layer");
        if (mid == 9) { double G = m.E1 * 0.4; for (auto k : {"E_L", "E_T"}) CHECK(t, close(val(*f[0], k), m.E1), "modulus of an isotropic layer"); CHECK(t, close(val(*f[0], "NU_LT"), 0.25), "Poisson's ratio of an isotropic layer"); for (auto k : {"G_LT", "G_LN", "G_TN"}) CHECK(t, close(val(*f[0], k), G), "shear moduli of an isotropic layer"); }
        else { CHECK(t, close(val(*f[0], "E_L"), m.E1) && close(val(*f[0], "E_T"), m.E2), "moduli of a layer"); CHECK(t, close(val(*f[0], "NU_LT"), m.nu) && close(val(*f[0], "G_LT"), m.G), "Poisson's ratio and shear modulus of a layer"); CHECK(t, close(val(*f[0], "G_LN"), m.G1) && close(val(*f[0], "G_TN"), m.G2), "transverse shear moduli of a layer"); }
    };
    for (int e = 1; e < 5; e++) {
        string mat; for (auto *f : mate->args.factors("AFFE")) if (covers(v, f, e)) { CHECK(t, mat.empty(), "an element has one material"); mat = f->get("MATER")->text; } vs_assert(!mat.empty(), "an element has a material");
        const out::Val *co = nullptr; for (auto *f : cara->args.factors("COQUE")) if (covers(v, f, e)) { CHECK(t, !co, "an element has one COQUE"); co = f; } vs_assert(co, "an element has a COQUE");
        if (e == 4) { orth(mat, 9, true); CHECK(t, close(out::real(co->get("EPAIS")), 0.5) && !co->get("COQUE_NCOU") && !co->get("EXCENTREMENT"), "thickness of a plate"); continue; }
        auto &ls = l[e == 3]; double total = 0; for (auto &x : ls) total = total + x.t; auto *c = v.comm->named(mat); vs_assert(c && c->op == "DEFI_COMPOSITE", "a composite"); auto f = c->args.factors("COUCHE"); CHECK(t, f.size() == ls.size(), "number of layers"); CHECK(t, close(out::real(co->get("EPAIS")), total), "thickness of a composite"); CHECK(t, co->get("COQUE_NCOU") && intOf(co->get("COQUE_NCOU")->text) == (long)ls.size(), "COQUE_NCOU counts the layers");
        double shift = (zoffs && (e == 2 || (zoffs == 2 && e == 3)) ? 0.125 * e : 0.) + (z0 ? bottom[e == 3] + 0.5 * total : 0.); CHECK(t, close(co->get("EXCENTREMENT") ? out::real(co->get("EXCENTREMENT")) : 0., shift), "offset of a composite");
        for (size_t i = 0; i < ls.size(); i++) { CHECK(t, close(out::real(f[i]->get("EPAIS")), ls[i].t), "thickness of a layer"); CHECK(t, close(out::real(f[i]->get("ORIENTATION")), ls[i].theta), "angle of a layer"); orth(f[i]->get("MATER")->text, ls[i].mid, false); }
    }
    vs_reach("code_aster");
}
