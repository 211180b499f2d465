// Runtime internals shared between rt.cpp (symbolic engine) and rt_explore.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include "vsops.h"
enum Kind : uint8_t { KI = 0, KX = 1, KB = 2 };   // integer bit-vector; exact dyadic double; raw double (interval tracked)
struct VarSet;
struct Expr {
    uint8_t op; Kind kind; uint16_t w; uint32_t id;
    int32_t aux;             // predicate / extract offset / variable index
    int16_t scale;           // KX: value = k * 2^-scale
    bool nan;                // KB: may be NaN
    Expr *a, *b, *c;
    uint64_t cval;           // concrete value (integers: zero extended; doubles: IEEE bits)
    int64_t kc;              // KX: concrete k.  KI: sign-extended concrete value
    int64_t lo, hi;          // KI: signed interval; KX: interval of k
    double dlo, dhi;         // KX, KB
    uint64_t h1, h2;         // structural hash, independent of addresses
    VarSet *vars;
    void *zbv, *zbool;
};
