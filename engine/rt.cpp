// Symbolic execution runtime: term construction, shadow memory, path condition, solver queries, path exploration.
#include "rt.h"
#include "vs.h"
#include <z3.h>
#include <algorithm>
#include <array>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <execinfo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64;

extern "C" {
Expr *__vs_argv[64]; void *__vs_bv[64]; void *__vs_callee; Expr *__vs_retv[16]; void *__vs_retfn;
}
static bool g_active = false;      // symbolic tracking on (inside a path)
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static u64 hstr(const std::string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = mix(h, c); return h; }

// ------------------------------------------------------------------------------------------------ statistics
struct Stats {
    u64 paths = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, asserts = 0, assert_const = 0, assert_unsat = 0, assert_cached = 0, assert_sat = 0, branches = 0,
        concretize = 0, diverged = 0, exprs = 0, ops = 0, pruned = 0, validated = 0, timeouts = 0, assert_eval = 0;
    double solver = 0;
};
static Stats S;
static std::map<std::string, u64> g_notes;        // diagnostics: key -> count
static void diag(const std::string &k) { g_notes[k]++; }

// ------------------------------------------------------------------------------------------------ variables
struct VarSet { u64 w[8]; };  // up to 512 variables + function symbols
struct Var { std::string name; Expr *e; i64 lo, hi; };
static std::vector<Var> g_vars;
static std::unordered_map<std::string, int> g_varByName;
static std::map<std::string, i64> g_inputs;  // concrete values of this path (KI: value, KX: k, KB: bits)
static u64 g_seed = 1;
static int g_ufNext = 400; static std::map<std::string, int> g_ufBit;
static VarSet VS_EMPTY = {};
static bool vsIntersects(const VarSet *a, const VarSet *b) { for (int i = 0; i < 8; i++) if (a->w[i] & b->w[i]) return true; return false; }

// ------------------------------------------------------------------------------------------------ terms
static std::unordered_multimap<u64, Expr *> g_intern;
static u64 g_nextId = 1;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 asU(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static const i64 KMAX = 1ll << 53;
static const int SMAX = 40;

static Expr *intern(Expr t) {
    u64 h = mix(mix(mix(t.op, t.kind), t.w), (u64)(uint32_t)t.aux);
    h = mix(h, (u64)(uint16_t)t.scale);
    u64 h2 = mix(h, 77);
    if (t.op == VS_CONST) { h = mix(h, t.kind == KX ? (u64)t.kc : t.cval); h2 = mix(h2, ~(t.kind == KX ? (u64)t.kc : t.cval)); }
    else if (t.op == VS_VAR) { u64 x = hstr(g_vars[t.aux].name); h = mix(h, x); h2 = mix(h2, x * 31); }
    for (Expr *x : {t.a, t.b, t.c}) { h = mix(h, x ? x->h1 : 5); h2 = mix(h2, x ? x->h2 : 7); }
    auto r = g_intern.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
        Expr *e = it->second;
        if (e->op == t.op && e->kind == t.kind && e->w == t.w && e->aux == t.aux && e->scale == t.scale && e->a == t.a && e->b == t.b && e->c == t.c &&
            (t.op != VS_CONST || (t.kind == KX ? e->kc == t.kc : e->cval == t.cval))) return e;
    }
    Expr *e = new Expr(t);
    e->id = g_nextId++; e->h1 = h; e->h2 = h2; e->zbv = e->zbool = nullptr; e->vars = &VS_EMPTY;
    S.exprs++;
    if (t.op == VS_VAR) { e->vars = new VarSet(VS_EMPTY); e->vars->w[t.aux / 64] |= 1ull << (t.aux % 64); }
    else {
        VarSet *one = &VS_EMPTY; bool own = false;
        for (Expr *x : {t.a, t.b, t.c}) {
            if (!x || x->vars == &VS_EMPTY || x->vars == one) continue;
            if (one == &VS_EMPTY) { one = x->vars; continue; }
            bool sub = true; for (int i = 0; i < 8; i++) if (x->vars->w[i] & ~one->w[i]) sub = false;
            if (sub) continue;
            if (!own) { one = new VarSet(*one); own = true; }
            for (int i = 0; i < 8; i++) one->w[i] |= x->vars->w[i];
        }
        e->vars = one;
    }
    g_intern.emplace(h, e);
    return e;
}
static Expr blank(int op, Kind k, int w) { Expr e; memset(&e, 0, sizeof e); e.op = op; e.kind = k; e.w = w; return e; }
static Expr *kiConst(u64 v, unsigned w) {
    Expr e = blank(VS_CONST, KI, w); e.cval = v & mask(w); e.kc = sx(v, w); e.lo = e.hi = e.kc; return intern(e);
}
static void setXConc(Expr &e, i64 k, int s) {
    e.kc = k; e.scale = s; e.cval = asU(std::ldexp((double)k, -s));
}
static void setXInt(Expr &e, i64 lo, i64 hi) { e.lo = lo; e.hi = hi; e.dlo = std::ldexp((double)lo, -e.scale); e.dhi = std::ldexp((double)hi, -e.scale); }
static Expr *kxConst(i64 k, int s) {
    while (s > 0 && !(k & 1)) { k >>= 1; s--; }
    Expr e = blank(VS_CONST, KX, 64); setXConc(e, k, s); setXInt(e, k, k); return intern(e);
}
// exact dyadic form of a concrete double, or null
static Expr *kxOfDouble(double d) {
    if (!std::isfinite(d) || std::fabs(d) >= (double)KMAX) return nullptr;
    if (d == 0) return kxConst(0, 0);
    int ex; double m = std::frexp(d, &ex); // d = m*2^ex
    i64 k = (i64)std::ldexp(m, 53); int s = 53 - ex;
    while (!(k & 1)) { k >>= 1; s--; }
    if (s > SMAX) return nullptr;
    if (s < 0) { if (s < -53) return nullptr; i128 kk = (i128)k << (-s); if (kk > KMAX || kk < -KMAX) return nullptr; k = (i64)kk; s = 0; }
    return kxConst(k, s);
}
static Expr *kbConst(double d) {
    Expr e = blank(VS_CONST, KB, 64); e.cval = asU(d); e.dlo = e.dhi = d; e.nan = std::isnan(d); return intern(e);
}
static Expr *dConst(double d) { Expr *x = kxOfDouble(d); return x ? x : kbConst(d); }
static bool isConst(Expr *e) { return e->op == VS_CONST; }
static void encErr(const char *what) { diag(std::string("ENCODING-MISMATCH ") + what); }

static Expr *ki2(int op, unsigned w, Expr *a, Expr *b, u64 res, int aux = 0) {
    Expr e = blank(op, KI, w); e.a = a; e.b = b; e.aux = aux; e.cval = res & mask(w); e.kc = sx(res, w);
    i64 tl = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), th = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    if (w == 1) { tl = -1; th = 0; }
    e.lo = tl; e.hi = th;
    auto fit = [&](i128 l, i128 h) { if (l >= tl && h <= th) { e.lo = (i64)l; e.hi = (i64)h; } };
    if (a && b) {
        i128 al = a->lo, ah = a->hi, bl = b->lo, bh = b->hi;
        switch (op) {
        case VS_ADD: fit(al + bl, ah + bh); break;
        case VS_SUB: fit(al - bh, ah - bl); break;
        case VS_MUL: { if (al > -(((i128)1) << 62) && bl > -(((i128)1) << 62)) { i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break; }
        case VS_AND: if (bl >= 0 && al >= 0) fit(0, std::min(ah, bh)); else if (bl >= 0) fit(0, bh); else if (al >= 0) fit(0, ah); break;
        case VS_OR: case VS_XOR: if (al >= 0 && bl >= 0) { i128 m = 1; while (m <= std::max(ah, bh)) m <<= 1; fit(0, m - 1); } break;
        case VS_UREM: if (bl > 0 && al >= 0) fit(0, std::min(ah, bh - 1)); else if (bl > 0) fit(0, bh - 1); break;
        case VS_UDIV: if (bl > 0 && al >= 0) fit(al / bh, ah / bl); break;
        case VS_SDIV: if (bl > 0) { i128 p[4] = {al / bl, al / bh, ah / bl, ah / bh}; fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
        case VS_SREM: if (bl > 0) fit(al >= 0 ? 0 : -(bh - 1), ah <= 0 ? 0 : bh - 1); break;
        case VS_LSHR: if (isConst(b) && al >= 0 && b->kc < 64) fit(al >> (int)b->kc, ah >> (int)b->kc); break;
        case VS_ASHR: if (isConst(b) && b->kc < 64) fit(al >> (int)b->kc, ah >> (int)b->kc); break;
        case VS_SHL: if (isConst(b) && b->kc >= 0 && b->kc < 62) fit(al << (int)b->kc, ah << (int)b->kc); break;
        case VS_SMAX: fit(std::max(al, bl), std::max(ah, bh)); break;
        case VS_SMIN: fit(std::min(al, bl), std::min(ah, bh)); break;
        }
    }
    if (e.lo == e.hi) {
        if (e.lo != e.kc) encErr("int interval");
        return nullptr;
    }
    if (e.kc < e.lo || e.kc > e.hi) encErr("int interval");
    return intern(e);
}
static Expr *kiCast(int op, unsigned w, Expr *a, u64 res, int aux = 0) {
    Expr e = blank(op, KI, w); e.a = a; e.aux = aux; e.cval = res & mask(w); e.kc = sx(res, w);
    i64 tl = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), th = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    if (w == 1) { tl = -1; th = 0; }
    e.lo = tl; e.hi = th;
    if (op == VS_SEXT) { e.lo = a->lo; e.hi = a->hi; }
    else if (op == VS_ZEXT) { if (a->lo >= 0) { e.lo = a->lo; e.hi = a->hi; } else { e.lo = 0; if (a->w < 64) e.hi = (i64)mask(a->w); } }
    else if (op == VS_TRUNC || (op == VS_EXTRACT && aux == 0)) { if (a->lo >= tl && a->hi <= th) { e.lo = a->lo; e.hi = a->hi; } }
    if (e.lo == e.hi) return nullptr;
    if (e.kc < e.lo || e.kc > e.hi) encErr("cast interval");
    return intern(e);
}
static Expr *mkNot(Expr *a) { // w==1
    if (a->op == VS_NOT) return a->a;
    if (isConst(a)) return kiConst(!a->cval, 1);
    Expr e = blank(VS_NOT, KI, 1); e.a = a; e.cval = !a->cval; e.kc = sx(e.cval, 1); e.lo = -1; e.hi = 0; return intern(e);
}
static Expr *boolExpr(int op, Expr *a, Expr *b, int pred, bool res) {
    Expr e = blank(op, KI, 1); e.a = a; e.b = b; e.aux = pred; e.cval = res; e.kc = sx(e.cval, 1); e.lo = -1; e.hi = 0; return intern(e);
}
static Expr *mkX(int op, Expr *a, Expr *b, Expr *c, i128 kc, int scale, i128 lo, i128 hi, int aux = 0) {
    if (lo == hi) return kxConst((i64)lo, scale);
    Expr e = blank(op, KX, 64); e.a = a; e.b = b; e.c = c; e.aux = aux; e.scale = scale; setXConc(e, (i64)kc, scale); setXInt(e, (i64)lo, (i64)hi);
    if (kc < lo || kc > hi) encErr("dyadic interval");
    return intern(e);
}

// affine normal form of an exact dyadic term: sum coef_i * atom_i + c, used to cancel terms (exact arithmetic only)
struct Aff { std::map<u64, std::pair<Expr *, double>> t; double c = 0; };
static bool affOf(Expr *e, Aff &r, double f, int depth) {
    if (depth > 40 || r.t.size() > 24) return false;
    if (isConst(e)) { r.c += f * asD(e->cval); return true; }
    switch (e->op) {
    case VS_FADD: return affOf(e->a, r, f, depth + 1) && affOf(e->b, r, f, depth + 1);
    case VS_FSUB: return affOf(e->a, r, f, depth + 1) && affOf(e->b, r, -f, depth + 1);
    case VS_FNEG: return affOf(e->a, r, -f, depth + 1);
    case VS_FMUL: if (isConst(e->b)) return affOf(e->a, r, f * asD(e->b->cval), depth + 1); if (isConst(e->a)) return affOf(e->b, r, f * asD(e->a->cval), depth + 1); break;
    }
    auto &p = r.t[e->id]; p.first = e; p.second += f; if (p.second == 0) r.t.erase(e->id);
    return true;
}
static bool hasCommonAtom(Expr *a, Expr *b) { return vsIntersects(a->vars, b->vars); }
static bool okX(i128 lo, i128 hi) { return lo >= -KMAX && hi <= KMAX; }

static void bv_concretize(Expr *e, const char *why);
static void dumpE(Expr *e, int d);

// double operand as expression (raw kinds converted); null if it had to be concretized
static Expr *dOp(Expr *e, u64 c) {
    if (!e) return dConst(asD(c));
    if (e->kind == KI) { // raw bits of an integer term used as a double
        bv_concretize(e, "int bits as double"); return dConst(asD(c));
    }
    return e;
}
static Expr *iOp(Expr *e, u64 c, unsigned w, const char *why) {
    if (!e) return kiConst(c, w);
    if (e->kind != KI) { bv_concretize(e, why); return kiConst(c, w); }
    if (e->w != w) { diag("WIDTH-MISMATCH " + std::string(why)); bv_concretize(e, "width mismatch"); return kiConst(c, w); }
    return e;
}
// null for constants (concrete)
static Expr *out(Expr *e, u64 res, const char *what) {
    if (!e) return nullptr;
    if (e->kind == KX) { double r = asD(res); if (std::ldexp((double)e->kc, -e->scale) != r) { encErr(what); return nullptr; } e = isConst(e) ? nullptr : e; return e; }
    if (isConst(e)) return nullptr;
    return e;
}
// uninterpreted floating point operation with interval
static Expr *mkKB(int op, Expr *a, Expr *b, u64 res, double lo, double hi, bool nan) {
    if ((op == VS_FADD || op == VS_FMUL) && b && (isConst(a) != isConst(b) ? isConst(a) : a->id > b->id)) std::swap(a, b);
    double r = asD(res);
    if (!nan && lo == hi && !(lo == 0)) { if (r != lo) encErr("float interval const"); return nullptr; }
    Expr e = blank(op, KB, 64); e.a = a; e.b = b; e.cval = res; e.dlo = lo; e.dhi = hi; e.nan = nan;
    if (std::isnan(r) ? !nan : !(r >= lo && r <= hi)) encErr("float interval");
    Expr *x = intern(e);
    if (x->cval != res && !(asD(x->cval) == r)) encErr("float congruence");
    return x;
}
static bool mayNan(Expr *e) { return e->kind == KB && e->nan; }
static Expr *fbin(int op, Expr *a, Expr *b, u64 res) {
    double al = a->dlo, ah = a->dhi, bl = b->dlo, bh = b->dhi;
    if (a->kind == KX && b->kind == KX) {
        if (op == VS_FADD || op == VS_FSUB) {
            if (op == VS_FSUB && a == b) return kxConst(0, 0);
            if (op == VS_FADD && isConst(a) && a->kc == 0) return b;
            if (isConst(b) && b->kc == 0) return a;
            if (!isConst(a) && hasCommonAtom(a, b) || ((isConst(a) || isConst(b)) && ((isConst(a) ? b : a)->op == VS_FADD || (isConst(a) ? b : a)->op == VS_FSUB))) {
                Aff f; // coefficients are small dyadics here; anything else is left alone
                if (affOf(a, f, 1, 0) && affOf(b, f, op == VS_FADD ? 1 : -1, 0) && f.t.size() <= 1) {
                    Expr *c = kxOfDouble(f.c);
                    if (f.t.empty() && c) return c;
                    if (f.t.size() == 1 && c) {
                        Expr *x = f.t.begin()->second.first; double k = f.t.begin()->second.second; Expr *kx = kxOfDouble(k);
                        if (k == 1 && f.c == 0) return x;
                        if (k == -1 && f.c == 0) return mkX(VS_FNEG, x, nullptr, nullptr, -x->kc, x->scale, -x->hi, -x->lo);
                        if (k == 1 && (x->op == VS_VAR || a->op == VS_FADD || a->op == VS_FSUB)) { // x + c
                            int s = std::max(x->scale, c->scale); i128 fx = (i128)1 << (s - x->scale), fc = (i128)1 << (s - c->scale);
                            i128 lo = x->lo * fx + c->kc * fc, hi = x->hi * fx + c->kc * fc;
                            if (okX(lo, hi)) { Expr *p = x, *q = c; if (p->id > q->id) std::swap(p, q); return mkX(VS_FADD, p, q, nullptr, x->kc * fx + c->kc * fc, s, lo, hi); }
                        }
                        (void)kx;
                    }
                }
            }
            int s = std::max(a->scale, b->scale);
            i128 fa = (i128)1 << (s - a->scale), fb = (i128)1 << (s - b->scale);
            i128 lo, hi, kc;
            if (op == VS_FADD) { lo = a->lo * fa + b->lo * fb; hi = a->hi * fa + b->hi * fb; kc = a->kc * fa + b->kc * fb; }
            else { lo = a->lo * fa - b->hi * fb; hi = a->hi * fa - b->lo * fb; kc = a->kc * fa - b->kc * fb; }
            if (okX(lo, hi)) { if (op == VS_FADD && a->id > b->id) std::swap(a, b); return mkX(op, a, b, nullptr, kc, s, lo, hi); }
        }
        if (op == VS_FMUL) {
            if ((isConst(a) && a->kc == 0) || (isConst(b) && b->kc == 0)) return kxConst(0, 0);
            if (isConst(a) && a->kc == 1 && a->scale == 0) return b;
            if (isConst(b) && b->kc == 1 && b->scale == 0) return a;
            i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
            i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4), kc = (i128)a->kc * b->kc;
            int s = a->scale + b->scale;
            if (okX(lo, hi) && s <= SMAX) { if (a->id > b->id) std::swap(a, b); return mkX(op, a, b, nullptr, kc, s, lo, hi); }
        }
        if (op == VS_FDIV) {
            if (a == b && (a->lo > 0 || a->hi < 0)) return kxConst(1, 0);
            if (((a->op == VS_FNEG && a->a == b) || (b->op == VS_FNEG && b->a == a)) && (a->lo > 0 || a->hi < 0)) return kxConst(-1, 0);
            if (isConst(b) && b->kc != 0) {
                i64 k = b->kc < 0 ? -b->kc : b->kc;
                if (!(k & (k - 1))) { // power of two: exact
                    Expr *inv = dConst(1.0 / asD(b->cval));
                    if (inv->kind == KX) return fbin(VS_FMUL, a, inv, res);
                }
            }
            if (isConst(a) && a->kc == 0 && (b->lo > 0 || b->hi < 0)) return kxConst(0, 0);
        }
    }
    if (op == VS_FDIV && isConst(a) && a->kind == KX && a->kc == 0 && !mayNan(b) && (bl > 0 || bh < 0)) return kxConst(0, 0);
    int ipow = op == VS_FPOW && isConst(b) && (asD(b->cval) == 2 || asD(b->cval) == 3 || asD(b->cval) == 4) ? (int)asD(b->cval) : 0;
    if (ipow && a->kind == KX) { // a representable power is computed exactly
        Expr *p = a; double c = asD(a->cval), x = c; bool ok = true;
        for (int i = 1; i < ipow && ok; i++) { x *= c; p = fbin(VS_FMUL, p, a, asU(x)); ok = p && p->kind == KX; }
        if (ok && p->cval == res) return p;
    }
    // intervals (round-to-nearest is monotone, so end points bound the rounded result)
    double lo = -INFINITY, hi = INFINITY; bool nan = true;
    bool an = mayNan(a) || mayNan(b);
    auto fin = [](double x) { return std::isfinite(x); };
    if (fin(al) && fin(ah) && fin(bl) && fin(bh)) {
        if (op == VS_FADD) { lo = al + bl; hi = ah + bh; nan = an; }
        else if (op == VS_FSUB) { lo = al - bh; hi = ah - bl; nan = an; }
        else if (op == VS_FMUL) { double p[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); nan = an; }
        else if (op == VS_FDIV && (bl > 0 || bh < 0)) { double p[4] = {al / bl, al / bh, ah / bl, ah / bh}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); nan = an; }
        if (op == VS_FSUB && a == b && !an) return kxConst(0, 0);
        if (op == VS_FMUL && isConst(b) && asD(b->cval) == 1.0) return a;
        if (op == VS_FMUL && isConst(a) && asD(a->cval) == 1.0) return b;
        if (op == VS_FDIV && isConst(b) && asD(b->cval) == 1.0) return a;
        if ((op == VS_FADD || op == VS_FSUB) && isConst(b) && asD(b->cval) == 0.0) return a;
        if (op == VS_FADD && isConst(a) && asD(a->cval) == 0.0) return b;
        if (op == VS_FMUL && a == b && lo < 0) lo = 0;
        if ((op == VS_FMIN || op == VS_FMAX) && !an) { if (op == VS_FMIN) { lo = std::min(al, bl); hi = std::min(ah, bh); } else { lo = std::max(al, bl); hi = std::max(ah, bh); } nan = false; }
    }
    if (ipow && !an && std::isfinite(al) && std::isfinite(ah)) {
        double m = std::max(std::fabs(al), std::fabs(ah)); hi = std::pow(m, ipow) * (1 + 1e-14); lo = al >= 0 ? std::pow(al, ipow) * (1 - 1e-14) : ipow == 3 ? -hi : 0; nan = false;
        if (!std::isfinite(hi)) { lo = -INFINITY; hi = INFINITY; nan = true; }
    }
    if (op == VS_FHYPOT && !an && std::isfinite(al) && std::isfinite(ah) && std::isfinite(bl) && std::isfinite(bh)) { // between the larger absolute value and the sum
        auto low = [](double l, double h) { return l > 0 ? l : h < 0 ? -h : 0; }; auto high = [](double l, double h) { return std::max(std::fabs(l), std::fabs(h)); };
        lo = std::max(low(al, ah), low(bl, bh)) * (1 - 1e-14); hi = (high(al, ah) + high(bl, bh)) * (1 + 1e-14); nan = !std::isfinite(hi); if (nan) hi = INFINITY;
    }
    if (op == VS_FATAN2 && !an) { lo = -3.1415926535897936; hi = 3.1415926535897936; nan = false; }
    return mkKB(op, a, b, res, lo, hi, nan);
}
static Expr *fun(int op, Expr *a, u64 res) {
    if (a->kind == KX) {
        i64 lo = a->lo, hi = a->hi, k = a->kc; int s = a->scale;
        switch (op) {
        case VS_FNEG: if (a->op == VS_FNEG) return a->a; return mkX(op, a, nullptr, nullptr, -k, s, -hi, -lo);
        case VS_FABS:
            if (lo >= 0) return a;
            if (hi <= 0) return mkX(VS_FNEG, a, nullptr, nullptr, -k, s, -hi, -lo);
            return mkX(op, a, nullptr, nullptr, k < 0 ? -k : k, s, 0, std::max(-lo, hi));
        case VS_FFLOOR: if (!s) return a; return mkX(op, a, nullptr, nullptr, k >> s, 0, lo >> s, hi >> s);
        case VS_FCEIL: if (!s) return a; return mkX(op, a, nullptr, nullptr, -((-k) >> s), 0, -((-lo) >> s), -((-hi) >> s));
        case VS_FTRUNC: case VS_FROUND: case VS_FRINT: if (!s) return a; break;
        case VS_FSQRT: if (a->op == VS_FMUL && a->a == a->b) { Expr *r = fun(VS_FABS, a->a, res); if (r && r->cval == res) return r; } break; // the square is exact
        }
    }
    double lo = -INFINITY, hi = INFINITY; bool nan = true;
    bool fin = std::isfinite(a->dlo) && std::isfinite(a->dhi) && !mayNan(a);
    switch (op) {
    case VS_FNEG: lo = -a->dhi; hi = -a->dlo; nan = mayNan(a); break;
    case VS_FABS: nan = mayNan(a); if (a->dlo >= 0 && !nan) return a; lo = a->dlo > 0 ? a->dlo : a->dhi < 0 ? -a->dhi : 0; hi = std::max(std::fabs(a->dlo), std::fabs(a->dhi)); break;
    case VS_FSIN: case VS_FCOS: if (fin) { lo = -1; hi = 1; nan = false; } break;
    case VS_FATAN: if (fin) { lo = -1.5707963267948968; hi = 1.5707963267948968; nan = false; } break;
    case VS_FSQRT: if (fin && a->dlo >= 0) { lo = std::sqrt(a->dlo); hi = std::sqrt(a->dhi); nan = false; } break;
    case VS_FEXP: if (fin) { lo = 0; hi = INFINITY; nan = false; } break;
    case VS_FFLOOR: case VS_FCEIL: case VS_FTRUNC: case VS_FROUND: case VS_FRINT:
        if (fin) { lo = std::floor(a->dlo); hi = std::ceil(a->dhi); nan = false; } break;
    }
    return mkKB(op, a, nullptr, res, lo, hi, nan);
}

// comparison of doubles; returns a w==1 expr or constant
static Expr *fcmp(int pred, Expr *a, Expr *b, bool res) {
    // pred: 1 OEQ 2 OGT 3 OGE 4 OLT 5 OLE 6 ONE 7 ORD 8 UNO 9 UEQ 10 UGT 11 UGE 12 ULT 13 ULE 14 UNE
    if (pred == 0 || pred == 15) return kiConst(pred == 15, 1);
    bool nan = mayNan(a) || mayNan(b);
    if (!nan) {
        if (pred == 7) return kiConst(1, 1);
        if (pred == 8) return kiConst(0, 1);
        int p = pred & 7; if (p == 0) p = 0; // 1 EQ 2 GT 3 GE 4 LT 5 LE 6 NE
        if (p == 2 || p == 3) { std::swap(a, b); p = p == 2 ? 4 : 5; }
        if (a == b) return kiConst(p == 1 || p == 5, 1);
        double al = a->dlo, ah = a->dhi, bl = b->dlo, bh = b->dhi;
        if (p == 4) { if (ah < bl) return kiConst(1, 1); if (al >= bh) return kiConst(0, 1); }
        if (p == 5) { if (ah <= bl) return kiConst(1, 1); if (al > bh) return kiConst(0, 1); }
        if (p == 1 || p == 6) { if (ah < bl || bh < al) return kiConst(p == 6, 1); if (al == ah && bl == bh && al == bl) return kiConst(p == 1, 1); }
        if (p == 6) { Expr *e = fcmp(1, a, b, !res); return e ? mkNot(e) : nullptr; }
        if (a->kind == KX && b->kind == KX) return boolExpr(VS_FCMP, a, b, p, res);
        // dyadic against an interval: exact when no representable k falls inside the undetermined zone
        auto thr = [&](Expr *x, double v) { return std::ldexp((long double)v, x->scale); };
        if (a->kind == KX && b->kind == KB) {
            long double tl = thr(a, bl), th = thr(a, bh); // k ? [tl,th]
            if (p == 5) { // k<=B : true if k<=tl, false if k>th
                long double fl = std::floor(tl), fh = std::floor(th);
                if (fl == fh && std::fabs(fl) < 9e15L) return boolExpr(VS_FCMP, a, kxConst((i64)fl, a->scale), 5, res);
            } else if (p == 4) { // k<B : true if k<tl, false if k>=th
                long double cl = std::ceil(tl), ch = std::ceil(th);
                if (cl == ch && std::fabs(cl) < 9e15L) return boolExpr(VS_FCMP, a, kxConst((i64)cl, a->scale), 4, res);
            } else if (p == 1 && bl == bh) {
                if (std::floor(tl) != tl) return kiConst(0, 1);
            }
        } else if (a->kind == KB && b->kind == KX) {
            long double tl = thr(b, al), th = thr(b, ah);
            if (p == 5) { // A<=k : true if k>=th ; false if k<tl
                long double cl = std::ceil(tl), ch = std::ceil(th);
                if (cl == ch && std::fabs(cl) < 9e15L) return boolExpr(VS_FCMP, kxConst((i64)cl, b->scale), b, 5, res);
            } else if (p == 4) { // A<k: true if k>th; false if k<=tl
                long double fl = std::floor(tl), fh = std::floor(th);
                if (fl == fh && std::fabs(fl) < 9e15L) return boolExpr(VS_FCMP, kxConst((i64)fl, b->scale), b, 4, res);
            } else if (p == 1 && al == ah) {
                if (std::floor(tl) != tl) return kiConst(0, 1);
            }
        }
        if (p == 1 && a->id > b->id) std::swap(a, b);
        return boolExpr(VS_FCMP, a, b, p, res);
    }
    if (pred >= 8) { // unordered = not (inverse ordered)
        static const int inv[] = {0, 0, 0, 0, 0, 0, 0, 0, 7, 6, 5, 4, 3, 2, 1};
        Expr *e = fcmp(inv[pred], a, b, !res);
        return e ? mkNot(e) : nullptr;
    }
    int p = pred;
    if (p == 2 || p == 3) { std::swap(a, b); p = p == 2 ? 4 : 5; }
    return boolExpr(VS_FCMP, a, b, p, res);
}

// ------------------------------------------------------------------------------------------------ solver
static Z3_context Z; static Z3_solver ZS, ZR; static Z3_sort zb[65];
static unsigned g_qtimeout = 20000;
static void z3err(Z3_context c, Z3_error_code e) { diag(std::string("Z3-ERROR ") + Z3_get_error_msg(c, e)); }
static void z3init() {
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(Z, z3err);
    memset(zb, 0, sizeof zb);
    ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_UFBV"));
    Z3_solver_inc_ref(Z, ZS);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_qtimeout);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), (unsigned)g_seed);
    Z3_solver_set_params(Z, ZS, p);
    ZR = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZR); Z3_solver_set_params(Z, ZR, p); Z3_params_dec_ref(Z, p);
}
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto &s = m[w]; if (!s) s = Z3_mk_bv_sort(Z, w); return s; }
static unsigned xw(i64 lo, i64 hi) { unsigned w = 2; while (w < 64 && (lo < -(1ll << (w - 1)) || hi > (1ll << (w - 1)) - 1)) w++; return w; }
static unsigned xw(Expr *e) { return xw(e->lo, e->hi); }
static Z3_ast znum(i64 v, unsigned w) {
    if (w <= 64) return Z3_mk_int64(Z, v, bvs(w));
    return Z3_mk_sign_ext(Z, w - 64, Z3_mk_int64(Z, v, bvs(64)));
}
static Z3_ast bv(Expr *e); static Z3_ast zbool(Expr *e);
static Z3_ast xat(Expr *e, unsigned w) { // k of a dyadic at width w
    unsigned cw = xw(e); Z3_ast a = bv(e);
    if (cw == w) return a;
    if (cw < w) return Z3_mk_sign_ext(Z, w - cw, a);
    return Z3_mk_extract(Z, w - 1, 0, a);
}
static Z3_ast xatScale(Expr *e, unsigned w, int s) {
    Z3_ast a = xat(e, w);
    if (s > e->scale) a = Z3_mk_bvshl(Z, a, znum(s - e->scale, w));
    return a;
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, znum(1, 1), znum(0, 1)); }
static Z3_ast zand2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static Z3_ast zor2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(Z, 2, x); }
static Z3_ast rawOf(Expr *e) { // 64-bit IEEE pattern of a double term (dyadics through an uninterpreted injection)
    if (e->kind == KB) return bv(e);
    if (isConst(e)) return znum((i64)e->cval, 64);
    Z3_sort d = bvs(128); Z3_func_decl f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, "x2raw"), 1, &d, bvs(64));
    Z3_ast a = xatScale(e, 128, SMAX);
    return Z3_mk_app(Z, f, 1, &a);
}
static Z3_ast ufArg(Expr *e, char &tag) {
    if (e->kind == KX) { tag = 'x'; return xatScale(e, 128, SMAX); }
    tag = 'r'; return bv(e);
}
static Z3_ast fltKey(Z3_ast x) { // monotone key of a non-NaN double; -0 and +0 share a key
    Z3_ast sign = Z3_mk_extract(Z, 63, 63, x);
    Z3_ast isneg = Z3_mk_eq(Z, sign, znum(1, 1));
    Z3_ast neg = Z3_mk_bvneg(Z, Z3_mk_bvand(Z, x, znum(INT64_MAX, 64)));
    return Z3_mk_ite(Z, isneg, neg, x); // signed comparison
}
static Z3_ast zisnan(Z3_ast x) { return Z3_mk_bvugt(Z, Z3_mk_bvand(Z, x, znum(INT64_MAX, 64)), znum(0x7ff0000000000000ll, 64)); }

static Z3_ast bvBuild(Expr *e) {
    if (e->kind == KI) {
        unsigned w = e->w;
        switch (e->op) {
        case VS_CONST: return Z3_mk_int64(Z, e->kc, bvs(w));
        case VS_VAR: return Z3_mk_const(Z, Z3_mk_string_symbol(Z, g_vars[e->aux].name.c_str()), bvs(w));
        case VS_ADD: return Z3_mk_bvadd(Z, bv(e->a), bv(e->b));
        case VS_SUB: return Z3_mk_bvsub(Z, bv(e->a), bv(e->b));
        case VS_MUL: return Z3_mk_bvmul(Z, bv(e->a), bv(e->b));
        case VS_UDIV: return Z3_mk_bvudiv(Z, bv(e->a), bv(e->b));
        case VS_SDIV: return Z3_mk_bvsdiv(Z, bv(e->a), bv(e->b));
        case VS_UREM: return Z3_mk_bvurem(Z, bv(e->a), bv(e->b));
        case VS_SREM: return Z3_mk_bvsrem(Z, bv(e->a), bv(e->b));
        case VS_SHL: return Z3_mk_bvshl(Z, bv(e->a), bv(e->b));
        case VS_LSHR: return Z3_mk_bvlshr(Z, bv(e->a), bv(e->b));
        case VS_ASHR: return Z3_mk_bvashr(Z, bv(e->a), bv(e->b));
        case VS_AND: if (w == 1) break; return Z3_mk_bvand(Z, bv(e->a), bv(e->b));
        case VS_OR: if (w == 1) break; return Z3_mk_bvor(Z, bv(e->a), bv(e->b));
        case VS_XOR: if (w == 1) break; return Z3_mk_bvxor(Z, bv(e->a), bv(e->b));
        case VS_SMAX: return Z3_mk_ite(Z, Z3_mk_bvsge(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b));
        case VS_SMIN: return Z3_mk_ite(Z, Z3_mk_bvsle(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b));
        case VS_UMAX: return Z3_mk_ite(Z, Z3_mk_bvuge(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b));
        case VS_UMIN: return Z3_mk_ite(Z, Z3_mk_bvule(Z, bv(e->a), bv(e->b)), bv(e->a), bv(e->b));
        case VS_USUBSAT: return Z3_mk_ite(Z, Z3_mk_bvuge(Z, bv(e->a), bv(e->b)), Z3_mk_bvsub(Z, bv(e->a), bv(e->b)), znum(0, w));
        case VS_UADDSAT: { Z3_ast s = Z3_mk_bvadd(Z, bv(e->a), bv(e->b)); return Z3_mk_ite(Z, Z3_mk_bvult(Z, s, bv(e->a)), znum(-1, w), s); }
        case VS_ZEXT: if (e->a->w == 1) return Z3_mk_ite(Z, zbool(e->a), znum(1, w), znum(0, w)); return Z3_mk_zero_ext(Z, w - e->a->w, bv(e->a));
        case VS_SEXT: if (e->a->w == 1) return Z3_mk_ite(Z, zbool(e->a), znum(-1, w), znum(0, w)); return Z3_mk_sign_ext(Z, w - e->a->w, bv(e->a));
        case VS_TRUNC: return Z3_mk_extract(Z, w - 1, 0, bv(e->a));
        case VS_EXTRACT: return Z3_mk_extract(Z, e->aux + w - 1, e->aux, bv(e->a));
        case VS_CONCAT: return Z3_mk_concat(Z, bv(e->a), bv(e->b)); // a high
        case VS_ITE: if (w == 1) break; return Z3_mk_ite(Z, zbool(e->a), bv(e->b), bv(e->c));
        case VS_ABS: return Z3_mk_ite(Z, Z3_mk_bvslt(Z, bv(e->a), znum(0, w)), Z3_mk_bvneg(Z, bv(e->a)), bv(e->a));
        case VS_FPTOSI: { // exact dyadic, truncation toward zero
            Expr *x = e->a; unsigned ww = std::max(xw(x) + 1, w);
            Z3_ast k = xat(x, ww);
            if (x->scale) k = Z3_mk_bvsdiv(Z, k, Z3_mk_bvshl(Z, znum(1, ww), znum(x->scale, ww)));
            return ww == w ? k : Z3_mk_extract(Z, w - 1, 0, k);
        }
        }
        if (w == 1) return b2bv(zbool(e));
        diag("UNENCODED op " + std::to_string(e->op)); return znum(0, w);
    }
    if (e->kind == KX) {
        unsigned w = xw(e);
        switch (e->op) {
        case VS_CONST: return znum(e->kc, w);
        case VS_VAR: return Z3_mk_const(Z, Z3_mk_string_symbol(Z, g_vars[e->aux].name.c_str()), bvs(w));
        case VS_FADD: return Z3_mk_bvadd(Z, xatScale(e->a, w, e->scale), xatScale(e->b, w, e->scale));
        case VS_FSUB: return Z3_mk_bvsub(Z, xatScale(e->a, w, e->scale), xatScale(e->b, w, e->scale));
        case VS_FMUL: return Z3_mk_bvmul(Z, xat(e->a, w), xat(e->b, w));
        case VS_FNEG: return Z3_mk_bvneg(Z, xat(e->a, w));
        case VS_FABS: { Z3_ast a = xat(e->a, w); return Z3_mk_ite(Z, Z3_mk_bvslt(Z, a, znum(0, w)), Z3_mk_bvneg(Z, a), a); }
        case VS_FFLOOR: { unsigned ww = xw(e->a); Z3_ast r = Z3_mk_bvashr(Z, bv(e->a), znum(e->a->scale, ww)); return ww == w ? r : ww > w ? Z3_mk_extract(Z, w - 1, 0, r) : Z3_mk_sign_ext(Z, w - ww, r); }
        case VS_FCEIL: { unsigned ww = xw(e->a) + 1; Z3_ast r = Z3_mk_bvneg(Z, Z3_mk_bvashr(Z, Z3_mk_bvneg(Z, xat(e->a, ww)), znum(e->a->scale, ww))); return ww == w ? r : ww > w ? Z3_mk_extract(Z, w - 1, 0, r) : Z3_mk_sign_ext(Z, w - ww, r); }
        case VS_ITE: return Z3_mk_ite(Z, zbool(e->a), xatScale(e->b, w, e->scale), xatScale(e->c, w, e->scale));
        case VS_SITOFP: { unsigned iw = e->a->w; Z3_ast a = bv(e->a); if (iw == w) return a; return iw > w ? Z3_mk_extract(Z, w - 1, 0, a) : Z3_mk_sign_ext(Z, w - iw, a); }
        case VS_UITOFP: { unsigned iw = e->a->w; Z3_ast a = bv(e->a); if (iw == w) return a; return iw > w ? Z3_mk_extract(Z, w - 1, 0, a) : Z3_mk_zero_ext(Z, w - iw, a); }
        }
        diag("UNENCODED X op " + std::to_string(e->op)); return znum(0, w);
    }
    // KB
    switch (e->op) {
    case VS_CONST: return znum((i64)e->cval, 64);
    case VS_VAR: return Z3_mk_const(Z, Z3_mk_string_symbol(Z, g_vars[e->aux].name.c_str()), bvs(64));
    case VS_ITE: return Z3_mk_ite(Z, zbool(e->a), rawOf(e->b), rawOf(e->c));
    case VS_FNEG: if (e->a->kind == KB) return Z3_mk_bvxor(Z, bv(e->a), znum(INT64_MIN, 64)); break;
    case VS_FABS: if (e->a->kind == KB) return Z3_mk_bvand(Z, bv(e->a), znum(INT64_MAX, 64)); break;
    }
    char t1 = '-', t2 = '-'; Z3_ast args[2]; Z3_sort so[2]; unsigned n = 1;
    args[0] = ufArg(e->a, t1); so[0] = Z3_get_sort(Z, args[0]);
    if (e->b) { args[1] = ufArg(e->b, t2); so[1] = Z3_get_sort(Z, args[1]); n = 2; }
    std::string nm = "fp" + std::to_string(e->op) + t1 + t2;
    Z3_func_decl f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, nm.c_str()), n, so, bvs(64));
    return Z3_mk_app(Z, f, n, args);
}
static Z3_ast bv(Expr *e) { if (!e->zbv) e->zbv = bvBuild(e); return (Z3_ast)e->zbv; }
static Z3_ast zboolBuild(Expr *e) {
    switch (e->op) {
    case VS_CONST: return e->cval ? Z3_mk_true(Z) : Z3_mk_false(Z);
    case VS_NOT: return Z3_mk_not(Z, zbool(e->a));
    case VS_AND: return zand2(zbool(e->a), zbool(e->b));
    case VS_OR: return zor2(zbool(e->a), zbool(e->b));
    case VS_XOR: return Z3_mk_xor(Z, zbool(e->a), zbool(e->b));
    case VS_ITE: return Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->c));
    case VS_ICMP: {
        if (e->a->w == 1) {
            Z3_ast a = zbool(e->a), b = zbool(e->b);
            if (e->aux == 32) return Z3_mk_eq(Z, a, b);
            if (e->aux == 33) return Z3_mk_not(Z, Z3_mk_eq(Z, a, b));
        }
        Z3_ast a = bv(e->a), b = bv(e->b);
        switch (e->aux) {
        case 32: return Z3_mk_eq(Z, a, b); case 33: return Z3_mk_not(Z, Z3_mk_eq(Z, a, b));
        case 34: return Z3_mk_bvugt(Z, a, b); case 35: return Z3_mk_bvuge(Z, a, b); case 36: return Z3_mk_bvult(Z, a, b); case 37: return Z3_mk_bvule(Z, a, b);
        case 38: return Z3_mk_bvsgt(Z, a, b); case 39: return Z3_mk_bvsge(Z, a, b); case 40: return Z3_mk_bvslt(Z, a, b); case 41: return Z3_mk_bvsle(Z, a, b);
        }
        break;
    }
    case VS_FCMP: {
        if (e->a->kind == KX && e->b->kind == KX) {
            int s = std::max(e->a->scale, e->b->scale);
            unsigned w = std::max(xw(e->a) + (s - e->a->scale), xw(e->b) + (s - e->b->scale));
            Z3_ast a = xatScale(e->a, w, s), b = xatScale(e->b, w, s);
            if (e->aux == 1) return Z3_mk_eq(Z, a, b);
            if (e->aux == 4) return Z3_mk_bvslt(Z, a, b);
            if (e->aux == 5) return Z3_mk_bvsle(Z, a, b);
        } else {
            Z3_ast a = rawOf(e->a), b = rawOf(e->b);
            Z3_ast c; Z3_ast ka = fltKey(a), kb = fltKey(b);
            if (e->aux == 7) c = Z3_mk_true(Z);
            else if (e->aux == 1) c = Z3_mk_eq(Z, ka, kb);
            else if (e->aux == 6) c = Z3_mk_not(Z, Z3_mk_eq(Z, ka, kb));
            else if (e->aux == 4) c = Z3_mk_bvslt(Z, ka, kb);
            else c = Z3_mk_bvsle(Z, ka, kb);
            if (mayNan(e->a)) c = zand2(c, Z3_mk_not(Z, zisnan(a)));
            if (mayNan(e->b)) c = zand2(c, Z3_mk_not(Z, zisnan(b)));
            return c;
        }
        break;
    }
    case VS_OVF_UMUL: return Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, bv(e->a), bv(e->b), false));
    case VS_OVF_SMUL: return Z3_mk_not(Z, zand2(Z3_mk_bvmul_no_overflow(Z, bv(e->a), bv(e->b), true), Z3_mk_bvmul_no_underflow(Z, bv(e->a), bv(e->b))));
    case VS_OVF_UADD: return Z3_mk_not(Z, Z3_mk_bvadd_no_overflow(Z, bv(e->a), bv(e->b), false));
    case VS_OVF_SADD: return Z3_mk_not(Z, zand2(Z3_mk_bvadd_no_overflow(Z, bv(e->a), bv(e->b), true), Z3_mk_bvadd_no_underflow(Z, bv(e->a), bv(e->b))));
    case VS_OVF_USUB: return Z3_mk_bvult(Z, bv(e->a), bv(e->b));
    case VS_OVF_SSUB: return Z3_mk_not(Z, zand2(Z3_mk_bvsub_no_overflow(Z, bv(e->a), bv(e->b)), Z3_mk_bvsub_no_underflow(Z, bv(e->a), bv(e->b), true)));
    }
    return Z3_mk_eq(Z, bv(e), znum(1, 1));
}
static Z3_ast zbool(Expr *e) { if (!e->zbool) e->zbool = zboolBuild(e); return (Z3_ast)e->zbool; }

// interval facts about uninterpreted results inside a term
static void collectKB(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &kbs) {
    if (!e || !seen.insert(e).second) return;
    if (e->kind == KB && e->op != VS_CONST) kbs.push_back(e);
    collectKB(e->a, seen, kbs); collectKB(e->b, seen, kbs); collectKB(e->c, seen, kbs);
}

struct Constraint { Expr *e; bool val; };
static std::vector<Constraint> g_pc;
static std::unordered_map<Expr *, bool> g_known;  // decided conditions on this path
// shared unsat cache
struct Cell { u64 a, b; };
static Cell *g_cache; static const u64 NCELL = 1 << 20;
static bool cacheHas(u64 a, u64 b) { for (u64 i = 0; i < 16; i++) { Cell &c = g_cache[(a + i) & (NCELL - 1)]; if (c.a == a && c.b == b) return true; if (!c.a) return false; } return false; }
static void cachePut(u64 a, u64 b) { if (!a) a = 1; for (u64 i = 0; i < 16; i++) { Cell &c = g_cache[(a + i) & (NCELL - 1)]; if (!c.a) { c.b = b; __sync_synchronize(); c.a = a; return; } if (c.a == a && c.b == b) return; } }

static std::vector<size_t> sliceOf(VarSet vs, VarSet *outv) {
    std::vector<size_t> sl; std::vector<char> in(g_pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < g_pc.size(); i++)
            if (!in[i] && vsIntersects(g_pc[i].e->vars, &vs)) {
                in[i] = 1; sl.push_back(i);
                for (int k = 0; k < 8; k++) { u64 n = vs.w[k] | g_pc[i].e->vars->w[k]; if (n != vs.w[k]) { vs.w[k] = n; ch = true; } }
            }
    }
    std::sort(sl.begin(), sl.end());
    *outv = vs;
    return sl;
}
static FILE *g_dump = nullptr;

// ------------------------------------------------------------------------------------------------ rounding-error relaxation
// Floating point operations whose result may be inexact are uninterpreted in the bit-vector encoding.  For conditions about
// them this second encoding over the reals is tried: every operation is its exact value plus an error bounded by half an ulp
// of the result's interval, every other operation an unconstrained value of its interval.  It only adds behaviours, so
// "unsat" is sound; a model is a candidate that is run.
struct RealEnc {
    std::unordered_map<Expr *, Z3_ast> memo; std::vector<Z3_ast> side; unsigned long fresh = 0; bool bad = false;
    Z3_sort R = Z3_mk_real_sort(Z);
    Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(Z, 2, x); }
    Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(Z, 2, x); }
    Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(Z, 2, x); }
    Z3_ast numD(double d) { // exact rational
        if (d == 0) return Z3_mk_int(Z, 0, R);
        int ex; double m = std::frexp(d, &ex); long long k = (long long)std::ldexp(m, 53); ex -= 53;
        while (!(k & 1)) { k >>= 1; ex++; }
        Z3_ast n = Z3_mk_int64(Z, k, R); std::string p = "1"; int a = ex < 0 ? -ex : ex;
        for (int i = 0; i < a; i++) { int c = 0; for (size_t j = p.size(); j-- > 0;) { int v = (p[j] - '0') * 2 + c; p[j] = '0' + v % 10; c = v / 10; } if (c) p.insert(p.begin(), '0' + c); }
        Z3_ast q = Z3_mk_numeral(Z, p.c_str(), R);
        return ex < 0 ? Z3_mk_div(Z, n, q) : mul(n, q);
    }
    Z3_ast freshR(double lo, double hi) {
        Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("$r" + std::to_string(fresh++)).c_str()), R);
        if (std::isfinite(lo)) side.push_back(Z3_mk_ge(Z, v, numD(lo))); if (std::isfinite(hi)) side.push_back(Z3_mk_le(Z, v, numD(hi)));
        return v;
    }
    Z3_ast rounded(Expr *e, Z3_ast exact) {
        if (e->kind == KX) return exact;
        if (!std::isfinite(e->dlo) || !std::isfinite(e->dhi) || e->nan) return freshR(e->dlo, e->dhi);
        double m = std::max(std::fabs(e->dlo), std::fabs(e->dhi)); double u = std::ldexp(m, -52); if (u < 1e-300) u = 1e-300;
        Z3_ast r = freshR(e->dlo, e->dhi); side.push_back(Z3_mk_le(Z, sub(r, exact), numD(u))); side.push_back(Z3_mk_le(Z, sub(exact, r), numD(u)));
        return r;
    }
    Z3_ast term(Expr *e) { auto i = memo.find(e); if (i != memo.end()) return i->second; Z3_ast r = build(e); memo[e] = r; return r; }
    Z3_ast build(Expr *e) {
        if (e->kind == KI) return freshR((double)e->lo, (double)e->hi);
        if (e->op == VS_CONST) { if (!std::isfinite(asD(e->cval))) { bad = true; return numD(0); } return numD(asD(e->cval)); }
        switch (e->op) {
        case VS_VAR: { Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, (g_vars[e->aux].name + "$real").c_str()), R); if (e->kind == KX) { side.push_back(Z3_mk_ge(Z, v, numD(e->dlo))); side.push_back(Z3_mk_le(Z, v, numD(e->dhi))); } return v; }
        case VS_FADD: return rounded(e, add(term(e->a), term(e->b)));
        case VS_FSUB: return rounded(e, sub(term(e->a), term(e->b)));
        case VS_FMUL: return rounded(e, mul(term(e->a), term(e->b)));
        case VS_FDIV: if (e->b->dlo > 0 || e->b->dhi < 0) return rounded(e, Z3_mk_div(Z, term(e->a), term(e->b))); break;
        case VS_FPOW: if (isConst(e->b) && (asD(e->b->cval) == 2 || asD(e->b->cval) == 3 || asD(e->b->cval) == 4)) { Z3_ast t = term(e->a), p = t; for (int i = 1; i < (int)asD(e->b->cval); i++) p = mul(p, t); return rounded(e, p); } break;
        case VS_FNEG: return Z3_mk_unary_minus(Z, term(e->a));
        case VS_FABS: { Z3_ast a = term(e->a); return Z3_mk_ite(Z, Z3_mk_lt(Z, a, numD(0)), Z3_mk_unary_minus(Z, a), a); }
        case VS_ITE: { Z3_ast c = cond(e->a); return Z3_mk_ite(Z, c, term(e->b), term(e->c)); }
        case VS_FMIN: case VS_FMAX: { Z3_ast a = term(e->a), b = term(e->b); return Z3_mk_ite(Z, e->op == VS_FMIN ? Z3_mk_le(Z, a, b) : Z3_mk_ge(Z, a, b), a, b); }
        case VS_FSQRT: if (e->a->dlo >= 0 && std::isfinite(e->dhi)) { Z3_ast s = freshR(0, e->dhi * (1 + 1e-9) + 1e-300); side.push_back(Z3_mk_eq(Z, mul(s, s), term(e->a))); return rounded(e, s); } break;
        }
        return freshR(e->dlo, e->dhi);
    }
    // an integer built from conditions: the condition that it is 1 (nullptr when it may have other values)
    Z3_ast bit(Expr *e) {
        if (e->w == 1) return cond(e); if (e->kind != KI) return nullptr;
        switch (e->op) {
        case VS_CONST: return e->cval == 0 ? Z3_mk_false(Z) : e->cval == 1 ? Z3_mk_true(Z) : nullptr;
        case VS_ZEXT: case VS_TRUNC: return bit(e->a);
        case VS_AND: case VS_OR: case VS_XOR: { Z3_ast a = bit(e->a), b = a ? bit(e->b) : nullptr; return !b ? nullptr : e->op == VS_AND ? zand2(a, b) : e->op == VS_OR ? zor2(a, b) : Z3_mk_xor(Z, a, b); }
        case VS_ITE: { Z3_ast a = bit(e->b), b = a ? bit(e->c) : nullptr; return b ? Z3_mk_ite(Z, cond(e->a), a, b) : nullptr; }
        }
        return nullptr;
    }
    Z3_ast cond(Expr *e) { // any condition; what is not about reals is an unconstrained boolean
        auto i = memo.find(e); if (i != memo.end()) return i->second;
        Z3_ast r = nullptr;
        switch (e->op) {
        case VS_ICMP: if ((e->aux == 32 || e->aux == 33) && isConst(e->b) && e->b->cval < 2) { r = bit(e->a); if (r && (e->b->cval == 1) != (e->aux == 32)) r = Z3_mk_not(Z, r); } break;
        case VS_XOR: if (e->w == 1) r = Z3_mk_xor(Z, cond(e->a), cond(e->b)); break;
        case VS_TRUNC: if (e->w == 1) r = bit(e->a); break;
        case VS_CONST: r = e->cval ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
        case VS_NOT: r = Z3_mk_not(Z, cond(e->a)); break;
        case VS_AND: if (e->w == 1) r = zand2(cond(e->a), cond(e->b)); break;
        case VS_OR: if (e->w == 1) r = zor2(cond(e->a), cond(e->b)); break;
        case VS_ITE: if (e->w == 1) r = Z3_mk_ite(Z, cond(e->a), cond(e->b), cond(e->c)); break;
        case VS_FCMP: if (!mayNan(e->a) && !mayNan(e->b)) { Z3_ast a = term(e->a), b = term(e->b); r = e->aux == 1 ? Z3_mk_eq(Z, a, b) : e->aux == 4 ? Z3_mk_lt(Z, a, b) : e->aux == 5 ? Z3_mk_le(Z, a, b) : e->aux == 6 ? Z3_mk_not(Z, Z3_mk_eq(Z, a, b)) : Z3_mk_true(Z); } break;
        }
        if (!r) r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("$b" + std::to_string(fresh++)).c_str()), Z3_mk_bool_sort(Z));
        memo[e] = r; return r;
    }
    Z3_ast condP(Expr *e, bool val) { // the condition or its negation; strict comparisons of dyadics are at least one unit apart
        if (e->op == VS_NOT) return condP(e->a, !val);
        if (e->w == 1 && (e->op == VS_AND || e->op == VS_OR)) return (e->op == VS_AND) == val ? zand2(condP(e->a, val), condP(e->b, val)) : zor2(condP(e->a, val), condP(e->b, val));
        if (e->op == VS_FCMP && e->a->kind == KX && e->b->kind == KX && (e->aux == 4 || e->aux == 5)) {
            Z3_ast a = term(e->a), b = term(e->b), u = numD(std::ldexp(1., -std::max(e->a->scale, e->b->scale)));
            if (e->aux == 4) return val ? Z3_mk_le(Z, add(a, u), b) : Z3_mk_le(Z, b, a);
            return val ? Z3_mk_le(Z, a, b) : Z3_mk_le(Z, add(b, u), a);
        }
        Z3_ast z = cond(e); return val ? z : Z3_mk_not(Z, z);
    }
};
static int queryReal(const std::vector<size_t> &sl, const std::vector<std::pair<Expr *, bool>> &extra, const VarSet &all, std::map<std::string, i64> *m){
    double t0 = now(); S.queries++;
    Z3_solver_push(Z, ZR);
    RealEnc R; Z3_ast z;
    for (size_t i : sl) { z = R.condP(g_pc[i].e, g_pc[i].val); Z3_solver_assert(Z, ZR, z); }
    for (auto &x : extra) { z = R.condP(x.first, x.second); Z3_solver_assert(Z, ZR, z); }
    for (Z3_ast s : R.side) Z3_solver_assert(Z, ZR, s);
    int res = -1; Z3_lbool r = R.bad ? Z3_L_UNDEF : Z3_solver_check(Z, ZR);
    if (r == Z3_L_FALSE) { res = 0; S.unsat++; }
    else if (r == Z3_L_TRUE) {
        res = 1; S.sat++; Z3_model mo = Z3_solver_get_model(Z, ZR); Z3_model_inc_ref(Z, mo);
        if (m) for (size_t v = 0; v < g_vars.size(); v++) if (all.w[v / 64] >> (v % 64) & 1) {
            Var &q = g_vars[v]; if (q.e->kind == KI) continue;
            Z3_ast val = nullptr; if (!Z3_model_eval(Z, mo, R.term(q.e), true, &val)) continue;
            double d = std::strtod(Z3_get_numeral_decimal_string(Z, val, 40), nullptr);
            if (q.e->kind == KB) (*m)[q.name] = (i64)asU(d);
            else { long double k = std::floor(std::ldexp((long double)d, q.e->scale) + 0.5L); i64 kk = k < q.lo ? q.lo : k > q.hi ? q.hi : (i64)k; (*m)[q.name] = kk; }
        }
        Z3_model_dec_ref(Z, mo);
    } else S.unknown++;
    Z3_solver_pop(Z, ZR, 1); S.solver += now() - t0;
    return res;
}
// is path /\ extra satisfiable?  1 sat (model in m), 0 unsat, -1 unknown
static int query(const std::vector<std::pair<Expr *, bool>> &extra, std::map<std::string, i64> *m, bool *wasCached = nullptr) {
    VarSet vs = VS_EMPTY;
    for (auto &x : extra) for (int k = 0; k < 8; k++) vs.w[k] |= x.first->vars->w[k];
    VarSet all; auto sl = sliceOf(vs, &all);
    u64 h1 = 17, h2 = 19;
    { // order independent over the slice
        std::vector<std::pair<u64, u64>> hs;
        for (size_t i : sl) hs.push_back({mix(g_pc[i].e->h1, g_pc[i].val), mix(g_pc[i].e->h2, g_pc[i].val)});
        std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
        for (auto &h : hs) { h1 = mix(h1, h.first); h2 = mix(h2, h.second); }
        for (auto &x : extra) { h1 = mix(h1, mix(x.first->h1, 2 + x.second)); h2 = mix(h2, mix(x.first->h2, 2 + x.second)); }
        for (size_t v = 0; v < g_vars.size(); v++) if (all.w[v / 64] >> (v % 64) & 1) { h1 = mix(h1, g_vars[v].lo); h2 = mix(h2, g_vars[v].hi); }
        if (!h1) h1 = 1;
    }
    if (cacheHas(h1, h2)) { S.cached++; if (wasCached) *wasCached = true; return 0; }
    std::map<std::string, i64> realModel; int realRes = -1;
    {
        std::unordered_set<Expr *> sn; std::vector<Expr *> ks; for (auto &x : extra) collectKB(x.first, sn, ks);
        bool arith = false; for (Expr *e : ks) if (e->op != VS_VAR && e->op != VS_ITE && e->op != VS_FNEG && e->op != VS_FABS) arith = true;
        if (arith) { realRes = queryReal(sl, extra, all, &realModel); if (realRes == 0) { cachePut(h1, h2); return 0; } }
    }
    double t0 = now();
    S.queries++;
    Z3_solver_push(Z, ZS);
    std::unordered_set<Expr *> seen; std::vector<Expr *> kbs;
    for (size_t i : sl) { Z3_ast a = zbool(g_pc[i].e); Z3_solver_assert(Z, ZS, g_pc[i].val ? a : Z3_mk_not(Z, a)); collectKB(g_pc[i].e, seen, kbs); }
    for (auto &x : extra) { Z3_ast a = zbool(x.first); Z3_solver_assert(Z, ZS, x.second ? a : Z3_mk_not(Z, a)); collectKB(x.first, seen, kbs); }
    for (size_t v = 0; v < g_vars.size(); v++)
        if (all.w[v / 64] >> (v % 64) & 1) {
            Var &r = g_vars[v]; Expr *e = r.e;
            if (e->kind == KB) { // finite
                Z3_solver_assert(Z, ZS, Z3_mk_bvult(Z, Z3_mk_bvand(Z, bv(e), znum(INT64_MAX, 64)), znum(0x7ff0000000000000ll, 64)));
                continue;
            }
            unsigned w = e->kind == KX ? xw(e) : e->w;
            Z3_solver_assert(Z, ZS, Z3_mk_bvsge(Z, bv(e), znum(r.lo, w)));
            Z3_solver_assert(Z, ZS, Z3_mk_bvsle(Z, bv(e), znum(r.hi, w)));
        }
    for (Expr *e : kbs) if (e->op != VS_VAR) {
        Z3_ast r = bv(e);
        if (!e->nan) {
            Z3_solver_assert(Z, ZS, Z3_mk_not(Z, zisnan(r)));
            Z3_ast k = fltKey(r);
            if (e->dlo != -INFINITY) Z3_solver_assert(Z, ZS, Z3_mk_bvsge(Z, k, fltKey(znum((i64)asU(e->dlo), 64))));
            if (e->dhi != INFINITY) Z3_solver_assert(Z, ZS, Z3_mk_bvsle(Z, k, fltKey(znum((i64)asU(e->dhi), 64))));
        }
    }
    int res = -1;
    if (realRes == 1) { // the candidate, rounded to the grid of the inputs, has to meet what the bit-vector encoding decides exactly
        auto fits = [&] {
            Z3_solver_push(Z, ZS);
            for (auto &v : g_vars) { auto i = realModel.find(v.name); if (i == realModel.end()) continue; Expr *e = v.e; Z3_solver_assert(Z, ZS, Z3_mk_eq(Z, bv(e), znum(i->second, e->kind == KX ? xw(e) : e->kind == KB ? 64 : e->w))); }
            Z3_lbool r = Z3_solver_check(Z, ZS); Z3_solver_pop(Z, ZS, 1); return r == Z3_L_TRUE; };
        if (!fits()) { realRes = -1; realModel.clear(); }
    }
    Z3_lbool r = Z3_solver_check(Z, ZS);
    if (r == Z3_L_FALSE) { res = 0; S.unsat++; cachePut(h1, h2); }
    else if (r == Z3_L_TRUE) {
        res = 1; S.sat++;
        if (m && realRes == 1) for (auto &v : realModel) (*m)[v.first] = v.second;
        if (m) {
            Z3_model mo = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, mo);
            for (size_t v = 0; v < g_vars.size(); v++)
                if ((all.w[v / 64] >> (v % 64) & 1) && !(realRes == 1 && realModel.count(g_vars[v].name))) {
                    Expr *e = g_vars[v].e; Z3_ast val = nullptr; unsigned w = e->kind == KX ? xw(e) : e->w;
                    if (Z3_model_eval(Z, mo, bv(e), true, &val)) {
                        uint64_t u = 0;
                        if (Z3_get_numeral_uint64(Z, val, &u)) (*m)[g_vars[v].name] = e->kind == KB ? (i64)u : sx(u, w);
                        else diag("model value not numeral");
                    }
                }
            Z3_model_dec_ref(Z, mo);
        }
    } else { S.unknown++; diag(std::string("solver unknown: ") + Z3_solver_get_reason_unknown(Z, ZS)); }
    if (g_dump && res >= 0) {
        fprintf(g_dump, "%s(check-sat) ; expect %s\n;;;END\n", Z3_solver_to_string(Z, ZS), res ? "sat" : "unsat"); fflush(g_dump);
    }
    Z3_solver_pop(Z, ZS, 1);
    S.solver += now() - t0;
    return res;
}

// ------------------------------------------------------------------------------------------------ paths
struct Item { std::map<std::string, i64> in; std::vector<u64> prefix; std::vector<u64> excl; };
static Item g_item; static std::vector<u64> g_trace; static bool g_replayOnly = false;
static std::string g_msg; // message buffer to the parent
static int g_fd = -1;
static void put(const void *p, size_t n) { g_msg.append((const char *)p, n); }
static void put64(u64 v) { put(&v, 8); }
static void putS(const std::string &s) { put64(s.size()); put(s.data(), s.size()); }
static void putIn(const std::map<std::string, i64> &m) { put64(m.size()); for (auto &p : m) { putS(p.first); put64((u64)p.second); } }
static std::set<std::string> g_reached, g_samplesv; static std::unordered_set<void *> g_fns;
static std::string g_scratch; static bool g_allowExc = false;
static std::map<std::string, i64> mergeIn(const std::map<std::string, i64> &m) { auto r = g_inputs; for (auto &p : m) r[p.first] = p.second; return r; }
static void emitItem(const std::map<std::string, i64> &m, const std::vector<u64> &prefix, const std::vector<u64> &excl) {
    put64('I'); putIn(mergeIn(m)); put64(prefix.size()); for (u64 x : prefix) put64(x); put64(excl.size()); for (u64 x : excl) put64(x);
}
static void emitViolation(const std::string &label, const std::map<std::string, i64> &m, const char *how) { put64('V'); putS(label); putS(how); putIn(mergeIn(m)); }
static void rmrf(const std::string &d) {
    if (d.size() < 8 || d.find("/vs-scratch-") == std::string::npos) return;
    DIR *D = opendir(d.c_str()); if (!D) return;
    while (dirent *e = readdir(D)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n; struct stat st;
        if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
    }
    closedir(D); rmdir(d.c_str());
}
static bool g_finished = false;
[[noreturn]] static void finish(int code) {
    if (!g_finished) {
        g_finished = true; g_active = false;
        // validation of the encoding: the concrete inputs of this path satisfy the path condition according to the solver
        bool anyKB = false;
        if (code == 0 && !g_replayOnly && (g_trace.size() % 8 == 0)) {
            Z3_solver_push(Z, ZS);
            for (auto &c : g_pc) { Z3_ast a = zbool(c.e); Z3_solver_assert(Z, ZS, c.val ? a : Z3_mk_not(Z, a)); }
            for (auto &v : g_vars) { Expr *e = v.e; unsigned w = e->kind == KX ? xw(e) : e->w; Z3_solver_assert(Z, ZS, Z3_mk_eq(Z, bv(e), znum(e->kind == KX ? e->kc : (i64)e->cval, w))); }
            Z3_lbool r = Z3_solver_check(Z, ZS);
            if (r == Z3_L_FALSE) encErr("path condition refuted by its own concrete inputs"); else if (r == Z3_L_TRUE) S.validated++;
            Z3_solver_pop(Z, ZS, 1);
        }
        (void)anyKB;
        put64('S'); put(&S, sizeof S);
        for (auto &s : g_reached) { put64('R'); putS(s); }
        for (auto &n : g_notes) { put64('N'); putS(n.first); put64(n.second); }
        for (void *f : g_fns) { put64('F'); put64((u64)f); }
        if (g_fd >= 0) { size_t o = 0; while (o < g_msg.size()) { ssize_t n = write(g_fd, g_msg.data() + o, g_msg.size() - o); if (n <= 0) break; o += n; } }
        if (!g_scratch.empty()) rmrf(g_scratch);
    }
    _exit(code);
}
static bool decide(Expr *e, bool val, u64 extraHash, bool explore) {
    // append a decision to the trace and the path condition; explore the other side when beyond the prefix
    size_t pos = g_trace.size();
    u64 h = mix(mix(e->h1, extraHash), val);
    if (pos < g_item.prefix.size()) {
        if (g_item.prefix[pos] != h) { S.diverged++; diag("divergence"); if (getenv("VS_DEBUG")) { { fprintf(stderr, "divergence at %zu of %zu val %d other-hash %d\n", pos, g_item.prefix.size(), val, g_item.prefix[pos] == mix(mix(e->h1, extraHash), !val)); dumpE(e, 0); for (auto &v : g_vars) fprintf(stderr, "  %s=%lld\n", v.name.c_str(), (long long)(v.e->kind == KX ? v.e->kc : v.e->cval)); } } finish(3); }
    } else if (explore) {
        std::map<std::string, i64> m;
        int r = query({{e, !val}}, &m);
        if (r == 1) {
            auto p = g_trace; p.push_back(mix(mix(e->h1, extraHash), !val));
            emitItem(m, p, {});
        }
    }
    g_trace.push_back(h);
    g_pc.push_back({e, val});
    g_known[e] = val;
    return true;
}
static void branchOn(Expr *e, bool taken, u64 site) {
    bool t = taken;
    while (e->op == VS_NOT) { e = e->a; t = !t; }
    if (isConst(e)) return;
    // conjunctions: decide components where the outcome forces them
    auto it = g_known.find(e);
    if (it != g_known.end()) { if (it->second != t) encErr("inconsistent decision"); return; }
    S.branches++;
    decide(e, t, 0, true);
    (void)site;
}
static Expr *eqConst(Expr *e, u64 c) {
    if (e->kind == KI) return boolExpr(VS_ICMP, e, kiConst(c, e->w), 32, true);
    if (e->kind == KX) return boolExpr(VS_FCMP, e, kxConst(e->kc, e->scale), 1, true);
    Expr *r = boolExpr(VS_FCMP, e, kbConst(asD(c)), 1, true);
    return r;
}
static Expr *eqExcl(Expr *e, u64 c) { // as eqConst for an excluded value (c: integer value, k, or bits)
    if (e->kind == KI) return boolExpr(VS_ICMP, e, kiConst(c, e->w), 32, false);
    if (e->kind == KX) return boolExpr(VS_FCMP, e, kxConst((i64)c, e->scale), 1, false);
    return boolExpr(VS_FCMP, e, kbConst(asD(c)), 1, false);
}
static std::unordered_set<Expr *> g_concd;
static int countIte(Expr *e, std::unordered_set<Expr *> &seen) {
    if (!e || isConst(e) || !seen.insert(e).second) return 0;
    return (e->op == VS_ITE) + countIte(e->a, seen) + countIte(e->b, seen) + countIte(e->c, seen);
}
// decide the conditions of the case splits inside a term; true if nothing symbolic is left on the taken side
static bool resolveIte(Expr *e, std::unordered_map<Expr *, bool> &memo) {
    if (!e || isConst(e)) return true;
    if (e->op == VS_VAR) return false;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r;
    if (e->op == VS_ITE) { bool t = e->a->cval; branchOn(e->a, t, 0); r = resolveIte(t ? e->b : e->c, memo); }
    else { r = resolveIte(e->a, memo); r = resolveIte(e->b, memo) && r; r = resolveIte(e->c, memo) && r; }
    return memo[e] = r;
}
static void bv_concretize(Expr *e, const char *why) {
    if (isConst(e) || !g_active || !g_concd.insert(e).second) return;
    { std::unordered_set<Expr *> seen; int n = countIte(e, seen);
      if (n > 0 && n <= 16) { std::unordered_map<Expr *, bool> memo; if (resolveIte(e, memo)) { diag(std::string("case split: ") + why); return; } } }
    S.concretize++; diag(std::string("concretize: ") + why + (e->kind == KX ? " (double)" : e->kind == KB ? " (raw)" : ""));
    if (getenv("VS_TRACE_CONC") && strstr(why, getenv("VS_TRACE_CONC"))) { fprintf(stderr, "concretize %s\n", why); dumpE(e, 0); raise(SIGTRAP); }
    u64 val = e->kind == KX ? (u64)e->kc : e->cval;
    size_t pos = g_trace.size();
    Expr *eq = eqConst(e, e->cval);
    u64 h = mix(mix(e->h1, 991), 0);
    u64 hv = mix(h, val);
    std::vector<u64> excl;
    bool explore = pos >= g_item.prefix.size();
    if (!explore) {
        u64 want = g_item.prefix[pos];
        if (pos + 1 == g_item.prefix.size() && !g_item.excl.empty()) {
            if (want != h) { S.diverged++; diag("divergence"); finish(3); }
            excl = g_item.excl; explore = true;
        } else if (want != hv) { S.diverged++; diag("divergence"); finish(3); }
    }
    if (explore && !isConst(eq)) {
        if (excl.size() > 3000) diag("INCOMPLETE concretization");
        else {
            excl.push_back(val);
            std::vector<std::pair<Expr *, bool>> ex;
            for (u64 v : excl) ex.push_back({eqExcl(e, v), false});
            std::map<std::string, i64> m;
            if (query(ex, &m) == 1) { auto p = g_trace; p.push_back(h); emitItem(m, p, excl); }
        }
    }
    g_trace.push_back(hv);
    if (!isConst(eq)) { g_pc.push_back({eq, true}); g_known[eq] = true; }
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct ShCell { uintptr_t key; Expr *e[8]; uint8_t idx[8]; };
static uint8_t g_filter[1 << 22];
static inline size_t fidx(uintptr_t a) { return ((a >> 3) ^ (a >> 23)) & ((1 << 22) - 1); }
static std::unordered_map<uintptr_t, ShCell> g_mem;
static inline ShCell *cellAt(uintptr_t a) {
    if (!g_filter[fidx(a)]) return nullptr;
    auto it = g_mem.find(a >> 3); return it == g_mem.end() ? nullptr : &it->second;
}
static void shClear(uintptr_t a, u64 n) {
    if (g_mem.empty()) return;
    uintptr_t end = a + n;
    if (n > (1 << 16)) {
        for (auto &p : g_mem) { uintptr_t base = p.first << 3; if (base + 8 > a && base < end) for (int i = 0; i < 8; i++) if (base + i >= a && base + i < end) p.second.e[i] = nullptr; }
        return;
    }
    for (uintptr_t c = a & ~7ull; c < end; c += 8) {
        ShCell *s = cellAt(c); if (!s) continue;
        for (int i = 0; i < 8; i++) if (c + i >= a && c + i < end) s->e[i] = nullptr;
    }
}
static inline void shSetByte(uintptr_t a, Expr *e, uint8_t idx) {
    g_filter[fidx(a)] = 1;
    ShCell &c = g_mem[a >> 3]; c.key = a >> 3; c.e[a & 7] = e; c.idx[a & 7] = idx;
}
static inline u64 byteOf(Expr *e, unsigned i) { return (e->cval >> (8 * i)) & 0xff; }
static inline Expr *shGetByte(uintptr_t a, uint8_t *idx) {
    ShCell *c = cellAt(a); if (!c) return nullptr;
    Expr *e = c->e[a & 7]; if (!e) return nullptr;
    *idx = c->idx[a & 7];
    if (byteOf(e, *idx) != *(uint8_t *)a && !(e->kind != KI && *idx == 7 && (e->cval << 1) == 0 && (*(uint8_t *)a & 0x7f) == 0)) { c->e[a & 7] = nullptr; return nullptr; } // overwritten by code outside the instrumentation
    return e;
}
static Expr *extractByte(Expr *e, unsigned i) {
    if (e->kind != KI) { bv_concretize(e, "byte of double"); return kiConst(byteOf(e, i), 8); }
    if (e->w == 8 && i == 0) return e;
    if (e->w < 8) return nullptr;
    if (isConst(e)) return kiConst(byteOf(e, i), 8);
    if (e->op == VS_ZEXT && i * 8 >= e->a->w) return kiConst(0, 8);
    if (e->op == VS_ZEXT && e->a->w == 8 && i == 0) return e->a;
    if (e->op == VS_CONCAT) { unsigned lw = e->b->w; if (i * 8 + 8 <= lw) return extractByte(e->b, i); if (i * 8 >= lw && lw % 8 == 0) return extractByte(e->a, i - lw / 8); }
    Expr *r = kiCast(VS_EXTRACT, 8, e, byteOf(e, i), i * 8);
    return r ? r : kiConst(byteOf(e, i), 8);
}
static bool anyShadow(uintptr_t a, u64 n) { uint8_t ix; for (u64 i = 0; i < n; i++) if (shGetByte(a + i, &ix)) return true; return false; }

static Expr *icmp(int pred, Expr *a, Expr *b, bool res);
static Expr *mkIte(Expr *c, Expr *x, Expr *y, unsigned w, u64 res);
static Expr *simpInt(int op, unsigned w, Expr *a, Expr *b, u64 res) {
    bool ca = isConst(a), cb = isConst(b);
    if (ca && cb) return nullptr;
    switch (op) {
    case VS_ADD: if (ca && !a->cval) return b; if (cb && !b->cval) return a;
        if (ca) std::swap(a, b), std::swap(ca, cb);
        if (cb && a->op == VS_ADD && isConst(a->b)) { Expr *k = kiConst(a->b->cval + b->cval, w); if (!k->cval) return a->a; return ki2(VS_ADD, w, a->a, k, res); }
        break;
    case VS_SUB: if (cb && !b->cval) return a; if (a == b) return nullptr;
        if (cb) return simpInt(VS_ADD, w, a, kiConst(-b->cval, w), res);
        break;
    case VS_MUL: if (ca && a->cval == 1) return b; if (cb && b->cval == 1) return a; if ((ca && !a->cval) || (cb && !b->cval)) return nullptr; break;
    case VS_AND:
        if (a == b) return a;
        if ((ca && !a->cval) || (cb && !b->cval)) return nullptr;
        if (ca && a->cval == mask(w)) return b; if (cb && b->cval == mask(w)) return a;
        break;
    case VS_OR:
        if (a == b) return a;
        if (ca && !a->cval) return b; if (cb && !b->cval) return a;
        if ((ca && a->cval == mask(w)) || (cb && b->cval == mask(w))) return nullptr;
        break;
    case VS_XOR:
        if (a == b) return nullptr;
        if (ca && !a->cval) return b; if (cb && !b->cval) return a;
        if (w == 1 && cb) return mkNot(a); if (w == 1 && ca) return mkNot(b);
        break;
    case VS_SHL: case VS_LSHR: case VS_ASHR:
        if (op != VS_SHL && cb && a->op == VS_SHL && isConst(a->b) && a->b->cval == b->cval && w < 64 && b->cval < w - 1 && a->a->lo >= 0 && a->a->hi < (1ll << (w - 1 - b->cval))) return a->a; // nothing is shifted out
        if (cb && !b->cval) return a; if (ca && !a->cval) return nullptr; break;
    case VS_UDIV: case VS_SDIV: if (cb && b->cval == 1) return a; break;
    case VS_UMAX: case VS_UMIN: case VS_SMAX: case VS_SMIN: { // a case split, so that decided comparisons apply
        bool sg = op == VS_SMAX || op == VS_SMIN, mx = op == VS_UMAX || op == VS_SMAX;
        bool lt = sg ? a->kc < b->kc : (a->cval & mask(w)) < (b->cval & mask(w));
        Expr *c = icmp(sg ? 40 : 36, a, b, lt);
        Expr *x = mx ? b : a, *y = mx ? a : b;
        if (!c) return lt ? x : y;
        return mkIte(c, x, y, w, res);
    }
    }
    if ((op == VS_UDIV || op == VS_SDIV || op == VS_UREM || op == VS_SREM) && cb && b->kc > 1 && a->lo >= 0) {
        if (a->hi < b->kc) return (op == VS_UREM || op == VS_SREM) ? a : nullptr;
        // a = c*x + y with 0 <= y < c, no wrap (interval of the sum fits): quotient x, remainder y
        auto mulBy = [&](Expr *m) { return m->op == VS_MUL && isConst(m->b) && m->b->kc == b->kc && m->a->lo >= 0 && (i128)m->a->hi * b->kc == (i128)m->hi; };
        Expr *m = nullptr, *y = nullptr;
        if (a->op == VS_ADD && mulBy(a->a)) m = a->a, y = a->b; else if (a->op == VS_ADD && mulBy(a->b)) m = a->b, y = a->a; else if (mulBy(a)) m = a;
        if (m && (!y || (y->lo >= 0 && y->hi < b->kc && (i128)m->hi + y->hi == (i128)a->hi))) {
            if (op == VS_UDIV || op == VS_SDIV) return m->a;
            return y ? y : nullptr;
        }
    }
    if ((op == VS_ADD || op == VS_MUL || op == VS_AND || op == VS_OR || op == VS_XOR) && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
    return ki2(op, w, a, b, res);
}
static Expr *icmp(int pred, Expr *a, Expr *b, bool res);
static Expr *mkIte(Expr *c, Expr *x, Expr *y, unsigned w, u64 res);

static Expr *icmp(int pred, Expr *a, Expr *b, bool res) {
    if (isConst(a) && isConst(b)) return nullptr;
    if (a == b) return nullptr; // reflexive: constant
    if (isConst(a)) { // constant to the right
        static const int sw[] = {32, 33, 36, 37, 34, 35, 40, 41, 38, 39};
        return icmp(sw[pred - 32], b, a, res);
    }
    if (pred == 33) { Expr *e = icmp(32, a, b, !res); return e ? mkNot(e) : nullptr; }
    // intervals
    i64 al = a->lo, ah = a->hi, bl = b->lo, bh = b->hi;
    bool nonneg = al >= 0 && bl >= 0;
    if (a->w > 1) switch (pred) {
        case 32: if (ah < bl || bh < al) return nullptr; break;
        case 40: if (ah < bl || al >= bh) return nullptr; break;
        case 41: if (ah <= bl || al > bh) return nullptr; break;
        case 38: if (al > bh || ah <= bl) return nullptr; break;
        case 39: if (al >= bh || ah < bl) return nullptr; break;
        case 36: if (nonneg && (ah < bl || al >= bh)) return nullptr; break;
        case 37: if (nonneg && (ah <= bl || al > bh)) return nullptr; break;
        case 34: if (nonneg && (al > bh || ah <= bl)) return nullptr; break;
        case 35: if (nonneg && (al >= bh || ah < bl)) return nullptr; break;
    }
    // canonical predicates: ult/ule/slt/sle/eq through negation
    if (pred == 35) { Expr *e = icmp(36, a, b, !res); return e ? mkNot(e) : nullptr; }
    if (pred == 34) { Expr *e = icmp(37, a, b, !res); return e ? mkNot(e) : nullptr; }
    if (pred == 39) { Expr *e = icmp(40, a, b, !res); return e ? mkNot(e) : nullptr; }
    if (pred == 38) { Expr *e = icmp(41, a, b, !res); return e ? mkNot(e) : nullptr; }
    if (isConst(b)) {
        if (pred == 32) {
            if (a->w == 1) return b->cval ? a : mkNot(a);
            if (a->op == VS_ZEXT || a->op == VS_SEXT) {
                u64 t = b->cval & mask(a->a->w);
                bool fits = a->op == VS_ZEXT ? t == b->cval : (u64)(sx(t, a->a->w)) == (u64)b->kc;
                if (!fits) return nullptr;
                return icmp(32, a->a, kiConst(t, a->a->w), res);
            }
            if (a->op == VS_ITE && isConst(a->b) && isConst(a->c)) {
                bool t = a->b == b, f = a->c == b;
                if (t && !f) return a->a; if (f && !t) return mkNot(a->a); if (!t && !f) return nullptr;
            }
            if (a->w > 1 && a->op == VS_ADD && a->lo >= 0 && b->kc >= 0 && !isConst(a->a) && !isConst(a->b)) { // c*x + y == k with 0 <= y < c
                for (int sw = 0; sw < 2; sw++) {
                    Expr *m = sw ? a->b : a->a, *y = sw ? a->a : a->b;
                    if (m->op == VS_MUL && isConst(m->b) && m->b->kc > 1 && m->a->lo >= 0 && (i128)m->a->hi * m->b->kc == (i128)m->hi && y->lo >= 0 && y->hi < m->b->kc && (i128)m->hi + y->hi == (i128)a->hi) {
                        i64 q = b->kc / m->b->kc, r = b->kc % m->b->kc; bool xq = m->a->kc == q, yr = y->kc == r;
                        Expr *e1 = icmp(32, m->a, kiConst(q, a->w), xq), *e2 = icmp(32, y, kiConst(r, a->w), yr);
                        if (!e1 && !xq) return nullptr; if (!e2 && !yr) return nullptr;
                        if (!e1) return e2; if (!e2) return e1;
                        return simpInt(VS_AND, 1, e1, e2, xq && yr);
                    }
                }
            }
            if (a->op == VS_ADD && isConst(a->b)) return icmp(32, a->a, kiConst(b->cval - a->b->cval, a->w), res);
        }
        if (a->op == VS_ZEXT && (pred == 36 || pred == 37) && b->cval <= mask(a->a->w)) return icmp(pred, a->a, kiConst(b->cval, a->a->w), res);
        if (a->op == VS_SEXT && (pred == 40 || pred == 41) && b->kc == sx(b->cval, a->a->w)) return icmp(pred, a->a, kiConst(b->cval, a->a->w), res);
        if (pred == 36 && b->cval == 1) return icmp(32, a, kiConst(0, a->w), res);
    }
    if (pred == 32 && a->id > b->id) std::swap(a, b);
    if (pred == 32 && isConst(a)) std::swap(a, b);
    return boolExpr(VS_ICMP, a, b, pred, res);
}
static Expr *castInt(int op, unsigned sw, unsigned dw, Expr *a, u64 res) {
    if (sw == dw) return a;
    if (op == VS_SEXT && a->w > 1 && a->w < 64 && a->lo >= 0 && a->hi < (1ll << (a->w - 1))) op = VS_ZEXT; // a non-negative value
    if (op == VS_ZEXT && a->op == VS_TRUNC && a->w < 63 && a->a->lo >= 0 && a->a->hi < (1ll << a->w)) { if (a->a->w == dw) return a->a; return castInt(a->a->w > dw ? VS_TRUNC : VS_ZEXT, a->a->w, dw, a->a, res); }
    if (op == VS_TRUNC) {
        if (dw == 1 && a->op == VS_ZEXT && a->a->w == 1) return a->a;
        if ((a->op == VS_ZEXT || a->op == VS_SEXT)) {
            if (a->a->w == dw) return a->a;
            if (a->a->w > dw) return castInt(VS_TRUNC, a->a->w, dw, a->a, res);
            return castInt(a->op, a->a->w, dw, a->a, res);
        }
        if (a->op == VS_CONCAT && a->b->w == dw) return a->b;
        if (a->op == VS_TRUNC) return castInt(VS_TRUNC, a->a->w, dw, a->a, res);
    } else if (op == VS_ZEXT && a->op == VS_ZEXT) return castInt(VS_ZEXT, a->a->w, dw, a->a, res);
    else if (op == VS_SEXT && (a->op == VS_SEXT || (a->op == VS_ZEXT))) return castInt(a->op, a->a->w, dw, a->a, res);
    return kiCast(op, dw, a, res);
}
static Expr *mkIte(Expr *c, Expr *x, Expr *y, unsigned w, u64 res) {
    if (x == y) return x;
    while (c->op == VS_NOT) { c = c->a; std::swap(x, y); }
    auto kn = g_known.find(c); if (kn != g_known.end()) return kn->second ? x : y;
    if (x->kind == KI && y->kind == KI) {
        if (w == 1) {
            if (isConst(x) && isConst(y)) return x->cval ? c : mkNot(c);
            if (isConst(x)) return x->cval ? simpInt(VS_OR, 1, c, y, res) : simpInt(VS_AND, 1, mkNot(c), y, res);
            if (isConst(y)) return y->cval ? simpInt(VS_OR, 1, mkNot(c), x, res) : simpInt(VS_AND, 1, c, x, res);
        }
        Expr e = blank(VS_ITE, KI, w); e.a = c; e.b = x; e.c = y; e.cval = res & mask(w); e.kc = sx(res, w); e.lo = std::min(x->lo, y->lo); e.hi = std::max(x->hi, y->hi);
        return intern(e);
    }
    if (x->kind == KX && y->kind == KX) {
        int s = std::max(x->scale, y->scale); i128 fx = (i128)1 << (s - x->scale), fy = (i128)1 << (s - y->scale);
        i128 lo = std::min(x->lo * fx, y->lo * fy), hi = std::max(x->hi * fx, y->hi * fy), kc = c->cval ? x->kc * fx : y->kc * fy;
        if (okX(lo, hi)) return mkX(VS_ITE, c, x, y, kc, s, lo, hi);
    }
    if (x->kind != KI && y->kind != KI) {
        if (x->kind == KX || y->kind == KX) { // mixed representation: decide the condition
            bool t = c->cval; branchOn(c, t, 0); return t ? x : y;
        }
        Expr e = blank(VS_ITE, KB, 64); e.a = c; e.b = x; e.c = y; e.cval = res; e.dlo = std::min(x->dlo, y->dlo); e.dhi = std::max(x->dhi, y->dhi); e.nan = mayNan(x) || mayNan(y);
        if (!e.nan && c->op == VS_FCMP && (c->aux == 4 || c->aux == 5) && ((c->a == x && c->b == y) || (c->a == y && c->b == x))) { // minimum or maximum of the two
            if (c->a == x) e.dhi = std::min(x->dhi, y->dhi); else e.dlo = std::max(x->dlo, y->dlo);
        }
        return intern(e);
    }
    bool t = c->cval; branchOn(c, t, 0); return t ? x : y;
}

// load through a symbolic address that ranges over a small table: case split inside the term
static void dumpE(Expr *e, int d) { if (!e || d > 8) return; fprintf(stderr, "%*sop%d k%d w%d aux%d cval=%lx lo=%ld hi=%ld%s\n", d * 2, "", e->op, e->kind, e->w, e->aux, e->cval, e->lo, e->hi, e->op == VS_VAR ? g_vars[e->aux].name.c_str() : ""); dumpE(e->a, d + 1); dumpE(e->b, d + 1); dumpE(e->c, d + 1); }
static Expr *tableLoad(Expr *ae, uintptr_t a, int bits, u64 conc) {
    if (ae->kind != KI || ae->w != 64 || bits > 64 || (bits & 7) || ae->lo <= 4096 || ae->hi - ae->lo > 4096) return nullptr;
    i64 step = 1; i64 lo = ae->lo, hi = ae->hi;
    Expr *x = ae->op == VS_ADD && isConst(ae->b) ? ae->a : ae;
    if (x->op == VS_MUL && isConst(x->b)) step = x->b->kc; else if (x->op == VS_SHL && isConst(x->b)) step = 1ll << x->b->kc;
    if (step == 1) { std::unordered_set<Expr *> seen; if (countIte(ae, seen)) return nullptr; }
    if (step <= 0 || (hi - lo) / step > 512 || ((i64)a - lo) % step) return nullptr;
    unsigned n = bits / 8;
    if (anyShadow(lo, hi - lo + n)) return nullptr;
    auto rd = [&](i64 p) { u64 v = 0; memcpy(&v, (void *)p, n); return v; };
    std::vector<std::pair<i64, u64>> runs; // (last address, value)
    for (i64 p = lo; p <= hi; p += step) { u64 v = rd(p); if (!runs.empty() && runs.back().second == v) runs.back().first = p; else runs.push_back({p, v}); }
    Expr *r = kiConst(runs.back().second, bits);
    for (int i = (int)runs.size() - 2; i >= 0; i--) {
        bool le = (i64)a <= runs[i].first;
        Expr *c = icmp(41, ae, kiConst(runs[i].first, 64), le);
        if (!c) { if (le) r = kiConst(runs[i].second, bits); continue; }
        Expr *v = kiConst(runs[i].second, bits);
        r = mkIte(c, v, r, bits, le ? v->cval : r->cval);
    }
    if (r->cval != (conc & mask(bits))) { encErr("table load"); return nullptr; }
    return r;
}
// ------------------------------------------------------------------------------------------------ instrumentation entry points
static Expr g_zeroArr[1];
static Expr *g_nullArgs[64];
extern "C" {
Expr *__vs_bin(int op, int w, Expr *x, u64 xc, Expr *y, u64 yc, u64 res) {
    if (!x && !y) return nullptr;
    S.ops++;
    if (op == VS_FADD || op == VS_FSUB || op == VS_FMUL || op == VS_FDIV || op == VS_FREM || (op >= VS_FMIN && op <= VS_FMOD)) {
        if (w != 64) { if (x) bv_concretize(x, "float"); if (y) bv_concretize(y, "float"); return nullptr; }
        Expr *a = dOp(x, xc), *b = dOp(y, yc);
        if (isConst(a) && isConst(b)) return nullptr;
        return out(fbin(op, a, b, res), res, "fbin");
    }
    Expr *a = iOp(x, xc, w, "int op"), *b = iOp(y, yc, w, "int op");
    return out(simpInt(op, w, a, b, res), res, "bin");
}
Expr *__vs_cmp(int pred, int w, Expr *x, u64 xc, Expr *y, u64 yc, u64 res) {
    if (!x && !y) return nullptr;
    S.ops++;
    if (pred < 32) {
        if (w != 64) { if (x) bv_concretize(x, "float"); if (y) bv_concretize(y, "float"); return nullptr; }
        Expr *a = dOp(x, xc), *b = dOp(y, yc);
        if (isConst(a) && isConst(b)) return nullptr;
        Expr *r = fcmp(pred, a, b, res);
        if (r && isConst(r) && r->cval != (res & 1)) encErr("fcmp const");
        if (r && r->cval != (res & 1)) encErr("fcmp");
        return out(r, res, "fcmp");
    }
    Expr *a = iOp(x, xc, w, "int cmp"), *b = iOp(y, yc, w, "int cmp");
    Expr *r = icmp(pred, a, b, res & 1);
    if (r && r->cval != (res & 1)) { encErr("icmp"); return nullptr; }
    return out(r, res, "icmp");
}
Expr *__vs_cast(int op, int sw, int dw, Expr *x, u64 xc, u64 res) {
    if (!x) return nullptr;
    S.ops++;
    switch (op) {
    case VS_BITCAST: return x;
    case VS_ZEXT: case VS_SEXT: case VS_TRUNC: {
        Expr *a = iOp(x, xc, sw, "int cast"); if (isConst(a)) return nullptr;
        return out(castInt(op, sw, dw, a, res), res, "cast");
    }
    case VS_SITOFP: case VS_UITOFP: {
        if (dw != 64) { bv_concretize(x, "float"); return nullptr; }
        Expr *a = iOp(x, xc, sw, "itofp"); if (isConst(a)) return nullptr;
        if (op == VS_UITOFP && a->lo < 0) {
            if (a->w <= 32) { Expr *z = castInt(VS_ZEXT, a->w, 64, a, xc); if (z) return out(mkX(VS_SITOFP, z, nullptr, nullptr, z->kc, 0, z->lo, z->hi), res, "uitofp"); }
            bv_concretize(a, "uitofp range"); return nullptr;
        }
        if (!okX(a->lo, a->hi)) { bv_concretize(a, "itofp range"); return nullptr; }
        return out(mkX(VS_SITOFP, a, nullptr, nullptr, a->kc, 0, a->lo, a->hi), res, "sitofp");
    }
    case VS_FPTOSI: case VS_FPTOUI: {
        Expr *a = dOp(x, xc); if (isConst(a)) return nullptr;
        if (a->kind == KX && !(op == VS_FPTOUI && a->lo < 0)) {
            i64 d = (i64)1 << a->scale; i64 lo = a->lo / d, hi = a->hi / d;
            i128 tl = dw >= 64 ? (i128)INT64_MIN : -((i128)1 << (dw - 1)), th = dw >= 64 ? (i128)INT64_MAX : ((i128)1 << (dw - 1)) - 1;
            if (lo >= tl && hi <= th) {
                if (lo == hi) return nullptr;
                Expr e = blank(VS_FPTOSI, KI, dw); e.a = a; e.cval = res & mask(dw); e.kc = sx(res, dw); e.lo = lo; e.hi = hi;
                if (e.kc != a->kc / d) encErr("fptosi");
                return intern(e);
            }
        }
        bv_concretize(a, "fptoint"); return nullptr;
    }
    }
    bv_concretize(x, "cast"); return nullptr;
}
Expr *__vs_un(int op, int w, Expr *x, u64 xc, u64 res) {
    if (!x) return nullptr;
    S.ops++;
    if (op >= VS_FNEG && op <= VS_FLOG10) {
        if (w != 64) { bv_concretize(x, "float"); return nullptr; }
        Expr *a = dOp(x, xc); if (isConst(a)) return nullptr;
        return out(fun(op, a, res), res, "fun");
    }
    Expr *a = iOp(x, xc, w, "int un"); if (isConst(a)) return nullptr;
    if (op == VS_ABS) return out(kiCast(VS_ABS, w, a, res), res, "abs");
    if (op == VS_NOT) return out(mkNot(a), res, "not");
    bv_concretize(a, "unary"); return nullptr;
}
Expr *__vs_ite(int w, Expr *c, u64 cv, Expr *x, u64 xc, Expr *y, u64 yc) {
    if (!c) return (cv & 1) ? x : y;
    S.ops++;
    Expr *cc = iOp(c, cv, 1, "select cond");
    if (isConst(cc)) return (cv & 1) ? x : y;
    if (!x && !y && xc == yc) return nullptr;
    bool dbl = (x && x->kind != KI) || (y && y->kind != KI);
    Expr *a, *b;
    if (dbl) {
        if ((x && x->kind == KI) || (y && y->kind == KI)) { branchOn(cc, cv & 1, 0); return (cv & 1) ? x : y; }
        a = x ? x : dConst(asD(xc)); b = y ? y : dConst(asD(yc));
    } else { a = iOp(x, xc, w, "ite"); b = iOp(y, yc, w, "ite"); }
    Expr *r = mkIte(cc, a, b, w, (cv & 1) ? xc : yc);
    return out(r, (cv & 1) ? xc : yc, "ite");
}
Expr *__vs_tern(int op, int w, Expr *x, u64 xc, Expr *y, u64 yc, Expr *z, u64 zc, u64 res) {
    if (!x && !y && !z) return nullptr;
    if (op == VS_FMULADD || op == VS_FMA) {
        Expr *a = dOp(x, xc), *b = dOp(y, yc), *c = dOp(z, zc);
        Expr *p = fbin(VS_FMUL, a, b, asU(asD(xc) * asD(yc)));
        if (!p) p = dConst(asD(xc) * asD(yc));
        return out(fbin(VS_FADD, p, c, res), res, "fmuladd");
    }
    for (Expr *e : {x, y, z}) if (e) bv_concretize(e, "ternary");
    return nullptr;
}
Expr *__vs_ovf(int op, int w, Expr *x, u64 xc, Expr *y, u64 yc, u64 res) {
    if (!x && !y) return nullptr;
    Expr *a = iOp(x, xc, w, "ovf"), *b = iOp(y, yc, w, "ovf");
    if (isConst(a) && isConst(b)) return nullptr;
    if (w == 64 && a->lo >= 0 && b->lo >= 0) {
        unsigned __int128 m = op == VS_OVF_UMUL ? (unsigned __int128)a->hi * b->hi : 0;
        if (op == VS_OVF_UMUL && !(m >> 64)) return nullptr;
        if (op == VS_OVF_UADD) return nullptr;
        if (op == VS_OVF_USUB && a->lo >= b->hi) return nullptr;
    }
    return boolExpr(op, a, b, 0, res & 1);
}
Expr *__vs_gep(Expr *base, u64 bc, Expr *idx, u64 ic, u64 size) {
    if (!base && !idx) return nullptr;
    u64 off = ic * size;
    Expr *o = nullptr;
    if (idx) o = __vs_bin(VS_MUL, 64, idx, ic, nullptr, size, off);
    return __vs_bin(VS_ADD, 64, base, bc, o, off, bc + off);
}
Expr *__vs_load(void *addr, Expr *ae, int bits, u64 conc) {
    uintptr_t a = (uintptr_t)addr;
    if (ae && !isConst(ae)) { Expr *t = tableLoad(ae, a, bits, conc); if (t) return isConst(t) ? nullptr : t; bv_concretize(ae, "load address"); }
    if (!g_filter[fidx(a)] && !((a & 7) && g_filter[fidx(a + 7)])) return nullptr;
    unsigned n = (bits + 7) / 8;
    uint8_t ix; Expr *e0 = shGetByte(a, &ix);
    if (e0 && ix == 0 && ((e0->kind == KI && (unsigned)(e0->w + 7) / 8 == n) || (e0->kind != KI && n == 8))) {
        bool all = true;
        for (unsigned i = 1; i < n && all; i++) { uint8_t j; Expr *e = shGetByte(a + i, &j); all = e == e0 && j == i; }
        if (all) {
            if (e0->kind == KI && (int)e0->w != bits) { // bool stored as byte
                if (e0->w < (unsigned)bits) return out(castInt(VS_ZEXT, e0->w, bits, e0, conc), conc, "load");
                return out(castInt(VS_TRUNC, e0->w, bits, e0, conc), conc, "load");
            }
            return e0;
        }
    }
    bool any = false;
    for (unsigned i = 0; i < n; i++) { // part of a double: stale unless all 8 bytes are still those of the double
        uint8_t j; Expr *e = shGetByte(a + i, &j); if (!e) continue;
        if (e->kind == KI) { any = true; continue; }
        bool live = true; uintptr_t b0 = a + i - j;
        for (unsigned k = 0; k < 8 && live; k++) { uint8_t q; live = shGetByte(b0 + k, &q) == e && q == k; }
        if (live) any = true; else shClear(a + i, 1);
    }
    if (!any) return nullptr;
    Expr *r = nullptr; u64 cv = 0;
    for (unsigned i = 0; i < n; i++) {
        uint8_t j; Expr *e = shGetByte(a + i, &j);
        Expr *b = nullptr;
        if (e) { if (e->kind == KI && e->w < 8) b = castInt(VS_ZEXT, e->w, 8, e, byteOf(e, 0)); else b = extractByte(e, j); }
        u64 cb = *(uint8_t *)(a + i);
        if (!b) b = kiConst(cb, 8);
        cv |= cb << (8 * i);
        if (!r) r = b;
        else if (isConst(r) && isConst(b)) r = kiConst(cv, 8 * (i + 1));
        else if (isConst(b) && b->cval == 0) r = castInt(VS_ZEXT, r->w, 8 * (i + 1), r->op == VS_ZEXT ? r : r, cv);
        else {
            Expr e2 = blank(VS_CONCAT, KI, 8 * (i + 1)); e2.a = b; e2.b = r; e2.cval = cv; e2.kc = sx(cv, e2.w);
            e2.lo = e2.w >= 64 ? INT64_MIN : -(1ll << (e2.w - 1)); e2.hi = e2.w >= 64 ? INT64_MAX : (1ll << (e2.w - 1)) - 1;
            r = intern(e2);
        }
    }
    if (isConst(r)) return nullptr;
    if ((int)r->w != bits) { if (bits < (int)r->w) r = castInt(VS_TRUNC, r->w, bits, r, conc); }
    return out(r, conc, "load concat");
}
void __vs_store(void *addr, Expr *, int bits, Expr *e, u64 conc) {
    uintptr_t a = (uintptr_t)addr; unsigned n = (bits + 7) / 8;
    if (!e) {
        if (g_filter[fidx(a)] || ((a & 7) && g_filter[fidx(a + 7)])) shClear(a, n);
        return;
    }
    if (isConst(e)) { shClear(a, n); return; }
    if ((e->kind == KX || e->kind == KB) && e->w == 64 && e->cval != conc) { // -0.0: keep the bit pattern concrete-consistent
        if (asD(conc) == 0 && asD(e->cval) == 0) { /* the sign of a zero is not part of the encoding (see DESIGN.md) */ }
        else { encErr("store"); shClear(a, n); return; }
    }
    else if (e->cval != (conc & mask(e->w))) { encErr("store value"); shClear(a, n); return; }
    for (unsigned i = 0; i < n; i++) shSetByte(a + i, e, i);
}
void __vs_branch(Expr *e, u64 taken, u64 site) {
    if (!e || !g_active) return;
    if (e->kind != KI) { bv_concretize(e, "branch"); return; }
    branchOn(e, taken & 1, site);
}
void __vs_switch(Expr *e, int bits, u64 val, u64 n, u64 *table, u64 site) {
    if (!e || !g_active) return;
    Expr *x = iOp(e, val, bits, "switch"); if (isConst(x)) return;
    for (u64 i = 0; i < n; i++) {
        bool hit = table[i] == val;
        Expr *c = icmp(32, x, kiConst(table[i], bits), hit);
        if (c) branchOn(c, hit, site);
        if (hit) return;
    }
}
void __vs_memcpy(void *d, void *s, u64 n, Expr *dE, Expr *sE, Expr *nE) {
    if (dE) bv_concretize(dE, "memcpy dst"); if (sE) bv_concretize(sE, "memcpy src"); if (nE) bv_concretize(nE, "memcpy len");
    if (!n || g_mem.empty()) return;
    uintptr_t da = (uintptr_t)d, sa = (uintptr_t)s;
    if (n > (1 << 24)) { diag("huge memcpy"); return; }
    std::vector<std::pair<Expr *, uint8_t>> tmp; bool any = false;
    for (u64 i = 0; i < n;) {
        uintptr_t p = sa + i;
        if (!g_filter[fidx(p)]) { u64 k = 8 - (p & 7); if (k > n - i) k = n - i; if (any) tmp.resize(tmp.size() + k, {nullptr, 0}); i += k; continue; }
        uint8_t ix = 0; Expr *e = shGetByte(p, &ix);
        if (e && !any) { any = true; tmp.resize(i, {nullptr, 0}); }
        if (any) tmp.push_back({e, ix});
        i++;
    }
    shClear(da, n);
    if (any) for (u64 i = 0; i < n; i++) if (tmp[i].first) shSetByte(da + i, tmp[i].first, tmp[i].second);
}
void __vs_memset(void *d, u64 v, u64 n, Expr *dE, Expr *vE, Expr *nE) {
    if (dE) bv_concretize(dE, "memset dst"); if (nE) bv_concretize(nE, "memset len");
    if (!vE) { shClear((uintptr_t)d, n); return; }
    Expr *e = vE->w == 8 ? vE : castInt(VS_TRUNC, vE->w, 8, vE, v & 0xff);
    if (!e) { shClear((uintptr_t)d, n); return; }
    for (u64 i = 0; i < n; i++) shSetByte((uintptr_t)d + i, e, 0);
}
void __vs_concretize(Expr *e, u64 val, const char *why) { if (e && g_active) bv_concretize(e, why); }
Expr **__vs_args(void *fn) {
    if (__vs_callee == fn) { __vs_callee = nullptr; if (g_active) g_fns.insert(fn); return __vs_argv; }
    return g_nullArgs;
}
void __vs_byval(Expr **arr, int idx, void *dst, u64 size) {
    if (arr == __vs_argv) __vs_memcpy(dst, __vs_bv[idx], size, nullptr, nullptr, nullptr); else shClear((uintptr_t)dst, size);
}
void __vs_unconsumed(void *callee, int n, const char *name) {
    if (__vs_callee != callee) return;
    __vs_callee = nullptr;
    if (!g_active) return;
    for (int i = 0; i < n; i++) if (__vs_argv[i]) { Expr *e = __vs_argv[i]; __vs_argv[i] = nullptr; bv_concretize(e, (std::string("arg of ") + name).c_str()); }
}
void __vs_clear(void *a, u64 n) { shClear((uintptr_t)a, n); }
}
// a call from the harness or a model into the runtime: fetch shadows
static Expr *argE(void *fn, int i) { return __vs_callee == fn ? __vs_argv[i] : nullptr; }
static void consumed() { __vs_callee = nullptr; }
static void ret(void *fn, Expr *e) { if (e) { __vs_retv[0] = e; __vs_retfn = fn; } }

// ------------------------------------------------------------------------------------------------ harness API
static Expr *newVar(const char *name, Kind k, unsigned w, i64 lo, i64 hi, int scale, u64 *cv) {
    if (g_varByName.count(name)) { fprintf(stderr, "duplicate symbolic input %s\n", name); abort(); }
    int id = g_vars.size(); if (id >= 400) { fprintf(stderr, "too many symbolic inputs\n"); abort(); }
    auto it = g_inputs.find(name); i64 v;
    if (it != g_inputs.end()) v = it->second;
    else {
        u64 h = mix(hstr(name), g_seed);
        if (k == KB) v = (i64)asU((double)(i64)(h % 2000) - 1000.0 + 0.125);
        else { u64 span = (u64)hi - (u64)lo + 1; v = span ? (i64)((u64)lo + h % span) : (i64)h; }
        g_inputs[name] = v;
    }
    if (k != KB && (v < lo || v > hi)) { fprintf(stderr, "input %s out of range\n", name); abort(); }
    g_vars.push_back({name, nullptr, lo, hi}); g_varByName[name] = id;
    Expr e = blank(VS_VAR, k, w); e.aux = id;
    if (k == KI) { e.cval = (u64)v & mask(w); e.kc = v; e.lo = lo; e.hi = hi; *cv = e.cval; }
    else if (k == KX) { setXConc(e, v, scale); e.scale = scale; setXInt(e, lo, hi); *cv = e.cval; }
    else { e.cval = (u64)v; e.dlo = -DBL_MAX; e.dhi = DBL_MAX; e.nan = false; *cv = (u64)v; }
    if (k != KB && lo == hi) { if (k == KX) *cv = asU(std::ldexp((double)lo, -scale)); g_vars[id].e = intern(e); return nullptr; }
    Expr *x = intern(e); g_vars[id].e = x; return x;
}
extern "C" {
int64_t vs_i64(const char *name, int64_t lo, int64_t hi) {
    consumed(); u64 c; Expr *e = newVar(name, KI, 64, lo, hi, 0, &c); ret((void *)vs_i64, e); return (i64)c;
}
double vs_dyadic(const char *name, int64_t klo, int64_t khi, int scale) {
    consumed(); u64 c; Expr *e = newVar(name, KX, 64, klo, khi, scale, &c); ret((void *)vs_dyadic, e); return asD(c);
}
double vs_rawdouble(const char *name) { consumed(); u64 c; Expr *e = newVar(name, KB, 64, 0, 0, 0, &c); ret((void *)vs_rawdouble, e); return asD(c); }
unsigned char vs_u8(const char *name, int lo, int hi) {
    consumed(); u64 c; Expr *e = newVar(name, KI, 64, lo, hi, 0, &c);
    if (e) ret((void *)vs_u8, castInt(VS_TRUNC, 64, 8, e, c)); return (unsigned char)c;
}
static std::vector<std::pair<Expr *, uint8_t>> g_fbytes; // input files hold the byte 0x80 + k for the k-th symbolic byte
char vs_filebyte(unsigned char c) {
    Expr *e = argE((void *)vs_filebyte, 0); consumed(); if (!e || isConst(e)) return (char)c;
    if (g_fbytes.size() >= 128) abort(); g_fbytes.push_back({e, c}); return (char)(0x80 + g_fbytes.size() - 1);
}
int vs_filebyte_in(int c) { // a byte read from a file
    consumed(); size_t k = (size_t)c - 0x80; if (c < 0x80 || k >= g_fbytes.size()) return c; auto &b = g_fbytes[k];
    ret((void *)vs_filebyte_in, castInt(VS_ZEXT, 8, 32, b.first, b.second)); return b.second;
}
int vs_symtext(const char *t, long n) { consumed(); uint8_t ix; if (g_active) for (long i = 0; i < n; i++) { Expr *e = shGetByte((uintptr_t)(t + i), &ix); if (e && !isConst(e)) return 1; } return 0; }
int vs_choose(const char *name, int n) {
    consumed(); u64 c; Expr *e = newVar(name, KI, 64, 0, n - 1, 0, &c); if (e) { bv_concretize(e, "choice"); } return (int)c;
}
int64_t vs_conc(int64_t v) { Expr *e = argE((void *)vs_conc, 0); consumed(); if (e) bv_concretize(e, "vs_conc"); return v; }
void vs_assert_(bool c, const char *label) {
    Expr *e = argE((void *)vs_assert_, 0); consumed();
    if (!g_active) return;
    S.asserts++; g_reached.insert(std::string("assert:") + label);
    if (e && e->kind == KI && e->w != 1) e = icmp(33, e, kiConst(0, e->w), c);
    if (!e || isConst(e)) {
        if (!c) { emitViolation(label, {}, "path"); }
        else S.assert_const++;
        return;
    }
    Expr *x = e; bool t = c;
    while (x->op == VS_NOT) { x = x->a; t = !t; }
    if (!c) { // concretely false on this path
        emitViolation(label, {}, "path"); S.assert_sat++;
        if (!g_known.count(x)) decide(x, t, 1, true);
        return;
    }
    auto it = g_known.find(x);
    if (it != g_known.end()) { S.assert_const++; return; }
    size_t pos = g_trace.size();
    if (pos >= g_item.prefix.size()) {
        std::map<std::string, i64> m; bool cached = false;
        int r = query({{x, !t}}, &m, &cached);
        if (r == 0) { S.assert_unsat++; if (cached) S.assert_cached++; }
        else if (r == 1) { S.assert_sat++; emitViolation(label, m, "solver"); }
        else diag(std::string("INCOMPLETE assertion undecided: ") + label);
    } else S.assert_eval++;
    decide(x, t, 1, false);
}
void vs_assume(bool c) {
    Expr *e = argE((void *)vs_assume, 0); consumed();
    if (!g_active) return;
    if (e && e->kind == KI && e->w != 1) e = icmp(33, e, kiConst(0, e->w), c);
    if (!e || isConst(e)) { if (!c) { S.pruned++; finish(0); } return; }
    Expr *x = e; bool t = c;
    while (x->op == VS_NOT) { x = x->a; t = !t; }
    if (g_known.count(x)) { if (!c) { S.pruned++; finish(0); } return; }
    decide(x, t, 2, !c);
    if (!c) { S.pruned++; finish(0); }
}
int vs_param(const char *name, int dflt) { consumed(); std::string k = std::string("VS_PARAM_") + name; const char *v = getenv(k.c_str()); return v ? atoi(v) : dflt; }
void vs_reach(const char *label) { consumed(); g_reached.insert(label); }
void vs_note(const char *k, const char *v) { consumed(); diag(std::string("note: ") + k + "=" + v); }
void vs_expect_exception(bool on) { consumed(); g_allowExc = on; }
bool vs_is_symbolic_build() { consumed(); return true; }
void vs_mark(bool on) { consumed(); g_active = on; }
const char *vs_scratch() {
    consumed();
    if (g_scratch.empty()) {
        const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = std::string(base) + "/vs-scratch-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) abort();
        g_scratch = b.data();
    }
    return g_scratch.c_str();
}
}
// ------------------------------------------------------------------------------------------------ numbers <-> text
static std::vector<std::pair<Expr *, u64>> g_tokI, g_tokD;    // inputs: index -> term, concrete
static std::vector<std::pair<Expr *, u64>> g_tokO;            // outputs
static const i64 TOKI = 77000000; static const double TOKD = 770000.5;
extern "C" {
void vs_put_int_(int64_t v, char *o) {
    Expr *e = argE((void *)vs_put_int_, 0); consumed();
    if (!e) { sprintf(o, "%lld", (long long)v); return; }
    sprintf(o, "%lld", (long long)(TOKI + g_tokI.size())); g_tokI.push_back({e, (u64)v});
}
void vs_put_real_(double v, char *o) {
    Expr *e = argE((void *)vs_put_real_, 0); consumed();
    if (!e) { sprintf(o, "%.12g", v); if (!strpbrk(o, ".eEni")) strcat(o, "."); return; }
    sprintf(o, "%.1f", TOKD + g_tokD.size()); g_tokD.push_back({e, asU(v)});
}
// not a placeholder: the value is either already symbolic (an inner model resolved it) or native
static void hookKeep(void *p, int n) {
    uint8_t ix; Expr *e = shGetByte((uintptr_t)p, &ix); u64 v = 0; memcpy(&v, p, n);
    if (e && ix == 0 && e->cval == (v & mask(e->w))) return;
    shClear((uintptr_t)p, n);
}
void __vs_numhook(void *p, int type) {
    if (!g_active) return;
    if (type == 'd') {
        double d; memcpy(&d, p, 8); double k = d - TOKD;
        if (k >= 0 && k < g_tokD.size() && k == std::floor(k)) {
            auto &t = g_tokD[(size_t)k]; memcpy(p, &t.second, 8); __vs_store(p, nullptr, 64, t.first, t.second);
        } else hookKeep(p, 8);
        return;
    }
    int n = (type == 'i' || type == 'j') ? 4 : (type == 'l' || type == 'm' || type == 'x' || type == 'y') ? 8 : 0;
    if (!n) return;
    i64 v = 0; if (n == 4) { int x; memcpy(&x, p, 4); v = x; } else memcpy(&v, p, 8);
    i64 k = v - TOKI;
    if (k >= 0 && k < (i64)g_tokI.size()) {
        auto &t = g_tokI[k]; memcpy(p, &t.second, n);
        Expr *e = t.first; if (e->kind == KI && (int)e->w > n * 8) e = castInt(VS_TRUNC, e->w, n * 8, e, t.second);
        else if (e->kind == KI && (int)e->w < n * 8) e = castInt(VS_SEXT, e->w, n * 8, e, t.second);
        __vs_store(p, nullptr, n * 8, e && !isConst(e) ? e : nullptr, t.second & mask(n * 8));
    } else hookKeep(p, n);
}
static int tokenOf(Expr *e, u64 c, char *o) {
    static std::unordered_map<Expr *, int> idx; // one placeholder per term
    if (e->kind == KI) while (e->op == VS_TRUNC || e->op == VS_SEXT) {
        if (e->op == VS_SEXT) e = e->a; else if (e->a->lo >= e->lo && e->a->hi <= e->hi) e = e->a; else break;
    }
    auto it = idx.find(e); int k;
    if (it != idx.end()) k = it->second; else { k = g_tokO.size(); idx[e] = k; g_tokO.push_back({e, e->cval}); }
    (void)c; return sprintf(o, "#%d#", k);
}
// models call these: symbolic number printed -> placeholder text; returns length, 0 if the value is concrete
int vs_tok_out_i(int64_t v, char *o) {
    Expr *e = argE((void *)vs_tok_out_i, 0); consumed(); if (!e) return 0;
    return tokenOf(e, (u64)v, o);
}
int vs_tok_out_d(double v, char *o) {
    Expr *e = argE((void *)vs_tok_out_d, 0); consumed(); if (!e) return 0;
    return tokenOf(e, asU(v), o);
}
// a concrete number too long for its field
int vs_tok_out_c(double v, char *o) {
    consumed(); static std::map<u64, int> idx; u64 c = asU(v); auto it = idx.find(c); int k; if (it != idx.end()) k = it->second; else { k = g_tokO.size(); idx[c] = k; g_tokO.push_back({nullptr, c}); }
    return sprintf(o, "#%d#", k);
}
// input text -> number; true if text is a placeholder
bool vs_tok_in_d(double parsed, double *outp) { consumed(); *outp = parsed; __vs_numhook(outp, 'd'); return true; }
bool vs_tok_in_i(int64_t parsed, int64_t *outp) { consumed(); *outp = parsed; __vs_numhook(outp, 'l'); return true; }
void vs_conc_text(const char *t) {
    consumed(); uint8_t ix; if (!g_active) return;
    for (;; t++) { Expr *e = shGetByte((uintptr_t)t, &ix); if (e && !isConst(e)) bv_concretize(e, "text parsed by libc"); if (!*t) break; }
}
static std::pair<Expr *, u64> *tokO(const char *t) {
    while (*t == ' ') t++;
    if (*t != '#') return nullptr;
    char *e; long k = strtol(t + 1, &e, 10); if (e == t + 1 || *e != '#' || k < 0 || (size_t)k >= g_tokO.size()) return nullptr;
    e++; while (*e == ' ') e++;
    return *e ? nullptr : &g_tokO[k];
}
bool vs_tok_text(const char *t, const char **end, double *v) {
    consumed(); if (!g_active) return false;
    while (*t == ' ') t++;
    if (*t != '#') return false;
    char *e; long k = strtol(t + 1, &e, 10); if (e == t + 1 || *e != '#' || k < 0 || (size_t)k >= g_tokO.size()) return false;
    if (!g_tokO[k].first) { shClear((uintptr_t)end, 8); *end = e + 1; memcpy(v, &g_tokO[k].second, 8); return true; }
    if (g_tokO[k].first->kind == KI) return false; // integers are not re-read as reals
    shClear((uintptr_t)end, 8); *end = e + 1; memcpy(v, &g_tokO[k].second, 8); __vs_store(v, nullptr, 64, g_tokO[k].first, g_tokO[k].second); return true;
}
bool vs_get_int_(const char *t, int64_t *v) {
    consumed(); shClear((uintptr_t)v, 8);
    if (auto *p = tokO(t)) {
        if (!p->first) return false;
        *v = (i64)p->second; Expr *e = p->first; if (e->kind != KI) return false;
        if (e->w < 64) e = castInt(VS_SEXT, e->w, 64, e, p->second), *v = sx(p->second, p->first->w);
        __vs_store(v, nullptr, 64, e, (u64)*v); return true;
    }
    char *e; errno = 0; long long x = strtoll(t, &e, 10); if (e == t) return false; while (*e == ' ') e++; if (*e) return false; *v = x; return true;
}
bool vs_get_real_(const char *t, double *v) {
    consumed(); shClear((uintptr_t)v, 8);
    if (auto *p = tokO(t)) {
        Expr *e = p->first; if (!e) { memcpy(v, &p->second, 8); return true; }
        if (e->kind == KI) { i64 s = sx(p->second, e->w); *v = (double)s; Expr *x = __vs_cast(VS_SITOFP, e->w, 64, e, p->second, asU(*v)); __vs_store(v, nullptr, 64, x, asU(*v)); return true; }
        memcpy(v, &p->second, 8); __vs_store(v, nullptr, 64, e, p->second); return true;
    }
    char *e; double x = strtod(t, &e); if (e == t) return false; while (*e == ' ') e++; if (*e) return false; *v = x; return true;
}
}
// libm: uninterpreted functions with native concrete values (called by instrumented code through models list)
#define LIBM1(fn, OP) extern "C" double __vsm_##fn(double x) { Expr *e = argE((void *)__vsm_##fn, 0); consumed(); double r = fn(x); if (e) ret((void *)__vsm_##fn, __vs_un(OP, 64, e, asU(x), asU(r))); return r; }
#define LIBM2(fn, OP) extern "C" double __vsm_##fn(double x, double y) { Expr *a = argE((void *)__vsm_##fn, 0), *b = argE((void *)__vsm_##fn, 1); consumed(); double r = fn(x, y); if (a || b) ret((void *)__vsm_##fn, __vs_bin(OP, 64, a, asU(x), b, asU(y), asU(r))); return r; }
LIBM1(sin, VS_FSIN) LIBM1(cos, VS_FCOS) LIBM1(tan, VS_FTAN) LIBM1(asin, VS_FASIN) LIBM1(acos, VS_FACOS) LIBM1(atan, VS_FATAN) LIBM1(sqrt, VS_FSQRT) LIBM1(exp, VS_FEXP) LIBM1(log, VS_FLOG) LIBM1(log10, VS_FLOG10)
LIBM1(floor, VS_FFLOOR) LIBM1(ceil, VS_FCEIL) LIBM1(round, VS_FROUND)
LIBM2(pow, VS_FPOW) LIBM2(atan2, VS_FATAN2) LIBM2(hypot, VS_FHYPOT) static double cabs_(double x, double y) { return ::hypot(x, y); }
extern "C" double __vsm_cabs(double x, double y) { Expr *a = argE((void *)__vsm_cabs, 0), *b = argE((void *)__vsm_cabs, 1); consumed(); double r = cabs_(x, y); if (a || b) ret((void *)__vsm_cabs, __vs_bin(VS_FHYPOT, 64, a, asU(x), b, asU(y), asU(r))); return r; }
 LIBM2(fmod, VS_FMOD)

// fresh memory carries no shadow
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (g_active && !g_mem.empty()) shClear((uintptr_t)p, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------------------------------------ driver
static std::map<std::string, vs_harness_fn> &harnesses() { static std::map<std::string, vs_harness_fn> m; return m; }
VsReg::VsReg(const char *name, vs_harness_fn f) { harnesses()[name] = f; }
static void onSignal(int s) {
    if (s == SIGALRM) { S.timeouts++; diag("INCOMPLETE path timeout"); emitViolation("hang", {}, "path"); finish(4); }
    g_active = false; // before anything else allocates: the trace is only informative
    static std::string how; how = "path"; static bool again = false;
    if (!again) { again = true; void *bt[24]; int n = backtrace(bt, 24); for (int i = 2; i < n && how.size() < 700; i++) { Dl_info di; char b[32]; snprintf(b, sizeof b, " < %p ", bt[i]); how += b; if (dladdr(bt[i], &di) && di.dli_sname) how += std::string(di.dli_sname).substr(0, 80); } }
    emitViolation(std::string("crash:signal ") + std::to_string(s), {}, how.c_str()); finish(5);
}
[[noreturn]] static void ended() { if (g_trace.size() < g_item.prefix.size()) { S.diverged++; diag("divergence (short path)"); } finish(0); __builtin_unreachable(); }
extern "C" void vs_exit(int code) { // the code under test ends the process
    g_active = false; if (g_allowExc && code) g_reached.insert("exception"); else emitViolation("exit:" + std::to_string(code), {}, "path"); ended();
}
static void runPath(vs_harness_fn f, unsigned pathTimeout) {
    static char alt[1 << 18]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM, SIGILL}) sigaction(s, &sa, nullptr);
    { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)2 << 30; setrlimit(RLIMIT_AS, &rl); } // a path that runs away ends in bad_alloc
    alarm(pathTimeout);
    S = Stats(); S.paths = 1;
    g_inputs = g_item.in; g_active = true;
    try { f(); }
    catch (const std::exception &e) {
        g_active = false;
        if (!g_allowExc || dynamic_cast<const std::bad_alloc *>(&e)) { diag(std::string("exception ") + typeid(e).name() + ": " + std::string(e.what()).substr(0, 200)); emitViolation(std::string("exception:") + typeid(e).name(), {}, "path"); }
        else g_reached.insert("exception");
    } catch (...) { g_active = false; if (!g_allowExc) emitViolation("exception:unknown", {}, "path"); else g_reached.insert("exception"); }
    ended();
}
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; sprintf(b, "\\u%04x", c); r += b; } else r += c; } return r; }
struct Rd { const std::string &s; size_t o = 0; u64 u() { u64 v = 0; if (o + 8 <= s.size()) memcpy(&v, &s[o], 8); o += 8; return v; } std::string str() { u64 n = u(); std::string r = o + n <= s.size() ? s.substr(o, n) : ""; o += n; return r; } bool end() { return o + 8 > s.size(); } };
static std::map<std::string, i64> rdIn(Rd &r) { std::map<std::string, i64> m; u64 n = r.u(); for (u64 i = 0; i < n && !r.end(); i++) { auto k = r.str(); m[k] = (i64)r.u(); } return m; }
struct Viol { std::string label, how; std::map<std::string, i64> in; };

int main(int argc, char **argv) {
    std::string hn, outp; int jobs = 8; double budget = 600; unsigned ptime = 120; u64 maxPaths = 1u << 30; bool one = false; std::string dump; int maxViol = 12; double firstViol = 0; std::set<std::string> knownLabels;
    std::map<std::string, i64> first;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--harness") hn = nx(); else if (a == "--out") outp = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--path-timeout") ptime = atoi(nx().c_str());
        else if (a == "--query-timeout-ms") g_qtimeout = atoi(nx().c_str()); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--one") one = true; else if (a == "--known") knownLabels.insert(nx()); else if (a == "--dump") dump = nx();
        else if (a == "--in") { std::string s = nx(); size_t p = s.find('='); first[s.substr(0, p)] = strtoll(s.c_str() + p + 1, 0, 10); }
        else if (a == "--list") { for (auto &h : harnesses()) printf("%s\n", h.first.c_str()); return 0; }
    }
    if (!harnesses().count(hn)) { fprintf(stderr, "no harness %s\n", hn.c_str()); return 2; }
    vs_harness_fn f = harnesses()[hn];
    g_cache = (Cell *)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    z3init();
    if (one) { g_item.in = first; g_replayOnly = true; setbuf(stdout, nullptr); int p[2]; if (pipe(p)) return 2;
        pid_t c = fork(); if (!c) { runPath(f, ptime); } int st; waitpid(c, &st, 0); fprintf(stderr, "status %x\n", st); return 0; }
    std::vector<Item> stack; stack.push_back({first, {}, {}});
    struct Job { pid_t pid; int fd; std::string buf; std::map<std::string, i64> in; };
    std::vector<Job> jobsv; Stats T; memset(&T, 0, sizeof T); std::map<std::string, u64> notes; std::set<std::string> reached; std::vector<Viol> viols; std::map<std::string, int> vcount; std::set<u64> fns;
    double t0 = now(); u64 started = 0; bool stopped = false; u64 crashes = 0; std::vector<std::string> samples; u64 maxDepth = 0;
    while (true) {
        if (firstViol && now() - firstViol > 15) stopped = true; // enough candidates to replay
        if (now() - t0 > budget || started >= maxPaths || (int)viols.size() >= maxViol) stopped = true;
        while (!stopped && !stack.empty() && (int)jobsv.size() < jobs) {
            Item it = std::move(stack.back()); stack.pop_back();
            maxDepth = std::max<u64>(maxDepth, it.prefix.size());
            int p[2]; if (pipe2(p, O_CLOEXEC)) { perror("pipe"); return 2; }
            fflush(stdout); fflush(stderr);
            pid_t c = fork();
            if (c < 0) { perror("fork"); return 2; }
            if (!c) {
                close(p[0]); g_fd = p[1]; g_item = std::move(it);
                int dn = open("/dev/null", O_RDWR); if (!getenv("VS_DEBUG")) { dup2(dn, 1); dup2(dn, 2); }
                if (!dump.empty()) { g_dump = fopen((dump + "/" + std::to_string(getpid()) + ".smt2").c_str(), "w"); }
                runPath(f, ptime);
            }
            close(p[1]); started++;
            if (samples.size() < 5) { std::string s; for (auto &kv : it.in) s += kv.first + "=" + std::to_string(kv.second) + " "; samples.push_back(s); }
            jobsv.push_back({c, p[0], "", it.in});
        }
        if (jobsv.empty()) { if (stack.empty() || stopped) break; continue; }
        std::vector<pollfd> pf; for (auto &j : jobsv) pf.push_back({j.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        for (int i = (int)jobsv.size() - 1; i >= 0; i--) {
            if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            char b[65536]; ssize_t n = read(jobsv[i].fd, b, sizeof b);
            if (n > 0) { jobsv[i].buf.append(b, n); continue; }
            close(jobsv[i].fd); int st = 0; waitpid(jobsv[i].pid, &st, 0);
            Rd r{jobsv[i].buf}; bool gotS = false;
            while (!r.end()) {
                u64 k = r.u();
                if (k == 'I') {
                    Item it; it.in = rdIn(r); u64 np = r.u(); for (u64 q = 0; q < np; q++) it.prefix.push_back(r.u()); u64 ne = r.u(); for (u64 q = 0; q < ne; q++) it.excl.push_back(r.u());
                    stack.push_back(std::move(it));
                } else if (k == 'V') { Viol v; v.label = r.str(); v.how = r.str(); v.in = rdIn(r); bool kn = knownLabels.count(v.label); if (!kn && !firstViol) firstViol = now(); if (vcount[v.label]++ < (kn ? 1 : 3)) viols.push_back(v); }
                else if (k == 'S') {
                    Stats s; memcpy((void *)&s, jobsv[i].buf.data() + r.o, sizeof s); r.o += sizeof s; gotS = true;
                    u64 *a = (u64 *)&T, *bb = (u64 *)&s; for (size_t q = 0; q < offsetof(Stats, solver) / 8; q++) a[q] += bb[q]; T.solver += s.solver;
                } else if (k == 'R') reached.insert(r.str());
                else if (k == 'N') { auto s = r.str(); notes[s] += r.u(); }
                else if (k == 'F') fns.insert(r.u());
                else { fprintf(stderr, "bad message\n"); break; }
            }
            if (!gotS) { crashes++; notes["INCOMPLETE path process died, status " + std::to_string(st)]++; std::string in; for (auto &kv : jobsv[i].in) in += kv.first + "=" + std::to_string(kv.second) + " "; if (samples.size() < 8) samples.push_back("died: " + in); }
            jobsv.erase(jobsv.begin() + i);
        }
    }
    bool inc = !stack.empty() || T.diverged || T.unknown || T.timeouts || crashes;
    for (auto &n : notes) if (n.first.find("INCOMPLETE") == 0 || n.first.find("ENCODING-MISMATCH") == 0 || n.first.find("UNENCODED") == 0 || n.first.find("Z3-ERROR") == 0 || n.first.find("WIDTH-MISMATCH") == 0) inc = true;
    FILE *o = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    fprintf(o, "{\"harness\":\"%s\",\"exhaustive\":%s,\"pending\":%zu,\"wall_s\":%.2f,\"solver_s\":%.2f,", hn.c_str(), inc ? "false" : "true", stack.size(), now() - t0, T.solver);
    fprintf(o, "\"paths\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"reused_unsat\":%lu,\"assertions\":%lu,\"assert_constant\":%lu,\"assert_unsat\":%lu,\"assert_sat\":%lu,\"branches\":%lu,\"concretizations\":%lu,\"diverged\":%lu,\"terms\":%lu,\"symbolic_ops\":%lu,\"pruned\":%lu,\"validated\":%lu,\"timeouts\":%lu,\"max_depth\":%lu,",
            T.paths, T.queries, T.sat, T.unsat, T.unknown, T.cached, T.asserts, T.assert_const, T.assert_unsat, T.assert_sat, T.branches, T.concretize, T.diverged, T.exprs, T.ops, T.pruned, T.validated, T.timeouts, maxDepth);
    auto strs = [&](const char *k, std::vector<std::string> v) { fprintf(o, "\"%s\":[", k); bool c = false; for (auto &s : v) { fprintf(o, "%s\"%s\"", c ? "," : "", jesc(s).c_str()); c = true; } fprintf(o, "]"); };
    strs("reached", {reached.begin(), reached.end()}); fprintf(o, ",");
    strs("samples", samples); fprintf(o, ",");
    std::vector<std::string> fn;
    for (u64 a : fns) { Dl_info di; if (dladdr((void *)a, &di) && di.dli_sname) { int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); std::string s = d ? d : di.dli_sname; free(d); size_t p = s.find("vega::"); if (s.compare(0, 6, "vega::") == 0 || (p != std::string::npos && s.find("std::") != 0 && s.find("boost::") != 0 && p < 20)) fn.push_back(s.substr(0, 160)); } }
    std::sort(fn.begin(), fn.end()); strs("functions", fn);
    fprintf(o, ",\"notes\":{"); { bool c = false; for (auto &n : notes) { fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(n.first).c_str(), n.second); c = true; } }
    fprintf(o, "},\"violations\":["); { bool c = false; for (auto &v : viols) { fprintf(o, "%s{\"label\":\"%s\",\"how\":\"%s\",\"inputs\":{", c ? "," : "", jesc(v.label).c_str(), v.how.c_str()); bool d = false; for (auto &kv : v.in) { fprintf(o, "%s\"%s\":%ld", d ? "," : "", jesc(kv.first).c_str(), kv.second); d = true; } fprintf(o, "}}"); c = true; } }
    fprintf(o, "]}\n"); if (o != stdout) fclose(o); else fflush(stdout);
    _exit(0);
}
