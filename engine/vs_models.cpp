// Models of library functions, compiled with the instrumentation so that symbolic bytes flow through them.
// The name of each model is the (mangled) library symbol prefixed with __vsm_; engine/models.txt lists them.
#include <cctype>
#include <cstring>
#include <istream>
#include <ostream>
#include <locale>
#include <string>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern "C" {
int vs_tok_out_i(int64_t v, char *o);
int vs_tok_out_d(double v, char *o);
int vs_tok_out_c(double v, char *o);
bool vs_tok_in_d(double parsed, double *outp);
bool vs_tok_in_i(int64_t parsed, int64_t *outp);
void vs_conc_text(const char *t);
bool vs_tok_text(const char *t, const char **end, double *outp); // an output placeholder read back by the program itself

void vs_exit(int code); int vs_symtext(const char *t, long n); int vs_filebyte_in(int c); int64_t vs_conc(int64_t v);
#ifndef VS_REPLAY
size_t __vsm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __vsm_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int __vsm_bcmp(const void *a, const void *b, size_t n) { return __vsm_memcmp(a, b, n); }
void *__vsm_memchr(const void *a, int c, size_t n) {
    const unsigned char *x = (const unsigned char *)a;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
    return nullptr;
}
int __vsm_strcmp(const char *a, const char *b) {
    for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int __vsm_strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
char *__vsm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
int __vsm_isdigit(int c) { return c >= '0' && c <= '9'; }
int __vsm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int __vsm_isblank(int c) { return c == ' ' || c == '\t'; }
int __vsm_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int __vsm_islower(int c) { return c >= 'a' && c <= 'z'; }
int __vsm_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int __vsm_isalnum(int c) { return __vsm_isalpha(c) || __vsm_isdigit(c); }
int __vsm_isprint(int c) { return c >= 32 && c <= 126; }
int __vsm_ispunct(int c) { return c > 32 && c <= 126 && !__vsm_isalnum(c); }
int __vsm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __vsm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

// std::getline(istream&, string&, char) -- explicit specialization inside libstdc++
std::istream &__vsm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_(std::istream &in, std::string &str, char delim) {
    std::ios_base::iostate err = std::ios_base::goodbit; bool got = false;
    std::istream::sentry s(in, true);
    if (s) {
        str.clear();
        std::streambuf *b = in.rdbuf();
        for (;;) {
            int c = b->sgetc();
            if (c == std::char_traits<char>::eof()) { err |= std::ios_base::eofbit; break; }
            char ch = (char)vs_filebyte_in(c);
            b->sbumpc();
            got = true;
            if (ch == delim) break;
            str.push_back(ch);
        }
    }
    if (!got) err |= std::ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
int __vsm__ZNSi4peekEv(std::istream *in) {
    std::istream::sentry s(*in, true); if (!s) return std::char_traits<char>::eof();
    int c = in->rdbuf()->sgetc(); if (c == std::char_traits<char>::eof()) { in->setstate(std::ios::eofbit); return c; }
    return vs_filebyte_in(c);
}
#endif
// number output: symbolic numbers become placeholders
#define INSERT(mangled, T, tok) \
    std::ostream &__vsm_##mangled(std::ostream *o, T v) { \
        char b[32]; int n = tok(v, b); \
        if (n) return *o << (const char *)b; \
        return o->operator<<(v); \
    }
INSERT(_ZNSo9_M_insertIdEERSoT_, double, vs_tok_out_d)
#ifndef VS_REPLAY
INSERT(_ZNSo9_M_insertIlEERSoT_, long, vs_tok_out_i)
INSERT(_ZNSo9_M_insertImEERSoT_, unsigned long, vs_tok_out_i)
INSERT(_ZNSo9_M_insertIxEERSoT_, long long, vs_tok_out_i)
#endif
#define TOSTR(mangled, T, tok) \
    std::string __vsm_##mangled(T v) { char b[32]; int n = tok(v, b); if (n) return std::string(b); return std::to_string(v); }
#ifndef VS_REPLAY
TOSTR(_ZNSt7__cxx119to_stringEi, int, vs_tok_out_i)
TOSTR(_ZNSt7__cxx119to_stringEj, unsigned, vs_tok_out_i)
TOSTR(_ZNSt7__cxx119to_stringEl, long, vs_tok_out_i)
TOSTR(_ZNSt7__cxx119to_stringEm, unsigned long, vs_tok_out_i)
#endif
TOSTR(_ZNSt7__cxx119to_stringEd, double, vs_tok_out_d)
// number input: placeholders become symbolic numbers
double __vsm_strtod(const char *s, char **e) {
    vs_conc_text(s); double v; const char *q; if (vs_tok_text(s, &q, &v)) { if (e) *e = (char *)q; return v; }
    double r = strtod(s, e); vs_tok_in_d(r, &v); return v;
}
long __vsm_strtol(const char *s, char **e, int b) { vs_conc_text(s); long r = strtol(s, e, b); int64_t v; vs_tok_in_i(r, &v); return v; }
double __vsm_atof(const char *s) { return __vsm_strtod(s, nullptr); }
int __vsm_atoi(const char *s) { return (int)__vsm_strtol(s, nullptr, 10); }
std::istream &__vsm__ZNSi10_M_extractIdEERSiRT_(std::istream *in, double &out) {
    double d = 0, v; std::ws(*in);
    if (in->good() && in->peek() == '#') { std::string t; do t += (char)in->get(); while (in->good() && (t.size() == 1 || t.back() != '#') && t.size() < 16); const char *q; if (vs_tok_text(t.c_str(), &q, &v)) { out = v; return *in; } in->setstate(std::ios::failbit); return *in; }
#ifndef VS_REPLAY
    // num_get: sign, digits, point, digits, exponent; a decimal number of at most 15 digits and an exponent of at most 22 is one correctly rounded operation
    if (!in->good()) { in->operator>>(d); out = 0; return *in; }
    std::string t; std::streambuf *b = in->rdbuf(); int digits = 0, frac = 0, sign = 0, ee = 0, eneg = 0, edigits = 0; int64_t m = 0; bool point = false, ex = false, bad = false; int c;
    for (;; b->sbumpc()) {
        c = b->sgetc(); if (c == std::char_traits<char>::eof()) { in->setstate(std::ios::eofbit); break; } char ch = (char)c;
        if (ch >= '0' && ch <= '9') { if (ex) { edigits++; if (edigits < 6) ee = ee * 10 + (ch - '0'); } else { digits++; if (point) frac++; if (digits <= 15) m = m * 10 + (ch - '0'); } t += ch; continue; }
        if ((ch == '+' || ch == '-') && (t.empty() || (ex && (t.back() == 'e' || t.back() == 'E')))) { if (ex) eneg = ch == '-'; else sign = ch == '-'; t += ch; continue; }
        if (ch == '.' && !point && !ex) { point = true; t += ch; continue; }
        if ((ch == 'e' || ch == 'E') && !ex && digits) { ex = true; t += ch; continue; }
        break;
    }
    if (!digits || (ex && !edigits)) { in->setstate(std::ios::failbit); out = 0; return *in; }
    if (!vs_symtext(t.data(), (long)t.size())) { d = strtod(t.c_str(), nullptr); vs_tok_in_d(d, &v); out = v; return *in; }
    int e10 = (int)vs_conc(ee); e10 = (eneg ? -e10 : e10) - frac;
    if (digits > 15 || e10 > 22 || e10 < -22 || edigits > 5) { vs_conc_text(t.c_str()); out = strtod(t.c_str(), nullptr); return *in; }
    static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    v = (double)m; if (e10 > 0) v = v * p10[e10]; else if (e10 < 0) v = v / p10[-e10]; out = sign ? -v : v; return *in;
#else
    in->operator>>(d); vs_tok_in_d(d, &v); out = v; return *in;
#endif
}
std::istream &__vsm__ZNSirsERi(std::istream *in, int &out) { int d = 0; in->operator>>(d); int64_t v; vs_tok_in_i(d, &v); out = (int)v; return *in; }
}
namespace vega { namespace nastran { class Line { public: __attribute__((weak)) Line &add(std::string) noexcept; }; } }
extern "C" {
// decimal formatting of reals in Nastran fields is outside the encoding: symbolic values go out as placeholders
char __vs_line_text[64];
vega::nastran::Line *__vsm__ZN4vega7nastran4Line3addEd(vega::nastran::Line *l, double v) {
    char b[64]; int n = vs_tok_out_d(v, b);
    if (!n) { if (v == 0) { strcpy(b, "0."); } else { snprintf(b, sizeof b, "%.12g", v); if (!strpbrk(b, ".en")) strcat(b, "."); if (strlen(b) > 8 && v - v == 0) vs_tok_out_c(v, b); } }
    return &l->add(std::string(b));
}
void __vsm_exit(int code) { vs_exit(code); }
}
