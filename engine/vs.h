// Harness API.  A harness is ordinary C++ over the real code; inputs it draws are symbolic in the engine build and
// concrete in the replay build (same source, no instrumentation, values taken from the counterexample).
#pragma once
#include <string>
#include <cstdint>
#include <vector>
extern "C" {
int64_t vs_i64(const char *name, int64_t lo, int64_t hi);           // any integer of [lo,hi]
double vs_dyadic(const char *name, int64_t klo, int64_t khi, int scale); // any k*2^-scale, klo<=k<=khi
double vs_rawdouble(const char *name);                               // any finite double
unsigned char vs_u8(const char *name, int lo, int hi);
char vs_filebyte(unsigned char c);                                   // the (symbolic) byte c as written to an input file
int vs_choose(const char *name, int n);                              // one path per value of [0,n)
void vs_assert_(bool c, const char *label);
void vs_assume(bool c);
void vs_reach(const char *label);                                    // vacuity witness: must be reached on some path
void vs_note(const char *key, const char *value);
void vs_expect_exception(bool on);                                   // allowed outcome: harness ends by an exception
bool vs_is_symbolic_build();
int vs_param(const char *name, int dflt);                            // size bound, set by the check through VS_PARAM_name
int64_t vs_conc(int64_t v);                                          // enumerate the feasible values of v, one per path
// numbers <-> text (environment stub)
void vs_put_int_(int64_t v, char *out);                              // text that stands for v in an input file
void vs_put_real_(double v, char *out);
bool vs_get_int_(const char *text, int64_t *v);                      // value of a number found in an output file
bool vs_get_real_(const char *text, double *v);
const char *vs_scratch();                                            // private scratch directory of this path
void vs_mark(bool on);
}
static inline int vs_int(const char *n, int lo, int hi) { return (int)vs_i64(n, lo, hi); }
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define vs_assert(c, label) vs_assert_((c), label)
typedef void (*vs_harness_fn)();
struct VsReg { VsReg(const char *name, vs_harness_fn f); };
#define VS_HARNESS(name) static void name(); static VsReg vsreg_##name(#name, name); static void name()
// string helpers (bytes may be symbolic)
static inline std::string vs_put(int64_t v) { char b[64]; vs_put_int_(v, b); return b; }
static inline std::string vs_put(int v) { char b[64]; vs_put_int_(v, b); return b; }
static inline std::string vs_put(double v) { char b[64]; vs_put_real_(v, b); return b; }
static inline std::string vs_name(const char *p, int i) { return std::string(p) + "_" + std::to_string(i); }
static inline std::string vs_name(const char *p, int i, int j) { return vs_name(p, i) + "_" + std::to_string(j); }
