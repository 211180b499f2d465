#include <new>
#include <sys/resource.h>
// Replay runtime: the same harness, compiled without instrumentation against the real code, run on one concrete input.
#include "vs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <csignal>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <dirent.h>
#include <sys/stat.h>
static std::map<std::string, int64_t> in; static int bad = 0; static bool allowExc = false; static std::string scratch;
static std::map<std::string, vs_harness_fn> &hs() { static std::map<std::string, vs_harness_fn> m; return m; }
VsReg::VsReg(const char *n, vs_harness_fn f) { hs()[n] = f; }
static void rmrf(const std::string &d) {
    if (d.find("/vs-scratch-") == std::string::npos) return;
    DIR *D = opendir(d.c_str()); if (!D) return;
    while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str()); }
    closedir(D); rmdir(d.c_str());
}
[[noreturn]] static void fin(int c) { fflush(stdout); if (!scratch.empty()) rmrf(scratch); _exit(c); }
static int64_t val(const char *n, int64_t lo, int64_t hi) {
    auto it = in.find(n); if (it == in.end()) { printf("REPLAY-DEFAULT %s\n", n); return lo; }
    if (it->second < lo || it->second > hi) { printf("REPLAY-RANGE %s\n", n); fin(9); } return it->second;
}
extern "C" {
int64_t vs_i64(const char *n, int64_t lo, int64_t hi) { int64_t v = val(n, lo, hi); printf("INPUT %s = %lld\n", n, (long long)v); return v; }
double vs_dyadic(const char *n, int64_t lo, int64_t hi, int s) { double v = std::ldexp((double)val(n, lo, hi), -s); printf("INPUT %s = %.17g\n", n, v); return v; }
double vs_rawdouble(const char *n) { int64_t v = in.count(n) ? in[n] : 0; double d; memcpy(&d, &v, 8); printf("INPUT %s = %.17g\n", n, d); return d; }
unsigned char vs_u8(const char *n, int lo, int hi) { int v = (int)val(n, lo, hi); printf("INPUT %s = %d '%c'\n", n, v, v >= 32 && v < 127 ? v : '?'); return v; }
int vs_choose(const char *n, int k) { return (int)vs_i64(n, 0, k - 1); }
void vs_assert_(bool c, const char *l) { if (!c) { printf("REPLAY-VIOLATION %s\n", l); bad = 1; } }
void vs_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fin(bad); } }
int vs_param(const char *name, int dflt) { std::string k = std::string("VS_PARAM_") + name; const char *v = getenv(k.c_str()); return v ? atoi(v) : dflt; }
void vs_reach(const char *) {}
void vs_note(const char *k, const char *v) { printf("NOTE %s=%s\n", k, v); }
void vs_expect_exception(bool on) { allowExc = on; }
bool vs_is_symbolic_build() { return false; }
int64_t vs_conc(int64_t v) { return v; }
void vs_mark(bool) {}
void vs_put_int_(int64_t v, char *o) { sprintf(o, "%lld", (long long)v); }
// reals whose text is too long for a field are written as placeholders, as in the engine build
static std::vector<double> toks; static const double TOKD = 770000.5;
static bool shortText(double v, char *o) {
    for (int p = 1; p <= 8; p++) { sprintf(o, "%.*g", p, v); if (strtod(o, nullptr) == v) { if (!strpbrk(o, ".eEni")) strcat(o, "."); return strlen(o) <= 8; } }
    return false;
}
static int tokOf(double v) { for (size_t i = 0; i < toks.size(); i++) if (!memcmp(&toks[i], &v, 8)) return (int)i; toks.push_back(v); return (int)toks.size() - 1; }
void vs_put_real_(double v, char *o) { if (std::isfinite(v) && !shortText(v, o)) { int k = tokOf(v); printf("TEXT %.1f = %.17g\n", TOKD + k, v); sprintf(o, "%.1f", TOKD + k); } else if (!std::isfinite(v)) sprintf(o, "%g", v); }
int vs_tok_out_d(double v, char *o) { if (!std::isfinite(v) || shortText(v, o)) return 0; sprintf(o, "#%d#", tokOf(v)); return (int)strlen(o); }
int vs_tok_out_c(double v, char *o) { sprintf(o, "#%d#", tokOf(v)); return (int)strlen(o); }
int vs_tok_out_i(int64_t, char *) { return 0; }
void __vs_numhook(void *p, int t) { if (t != 'd') return; double d; memcpy(&d, p, 8); double k = d - TOKD; if (k >= 0 && k < (double)toks.size() && k == std::floor(k)) memcpy(p, &toks[(size_t)k], 8); }
bool vs_tok_in_d(double v, double *o) { *o = v; __vs_numhook(o, 'd'); return true; }
bool vs_tok_in_i(int64_t v, int64_t *o) { *o = v; return true; }
void vs_conc_text(const char *) {}
bool vs_tok_text(const char *t, const char **end, double *v) {
    while (*t == ' ') t++;
    if (*t != '#') return false;
    char *e; long k = strtol(t + 1, &e, 10); if (e == t + 1 || *e != '#' || k < 0 || (size_t)k >= toks.size()) return false;
    *end = e + 1; *v = toks[k]; return true;
}
bool vs_get_int_(const char *t, int64_t *v) { char *e; long long x = strtoll(t, &e, 10); if (e == t) return false; while (*e == ' ') e++; if (*e) return false; *v = x; return true; }
bool vs_get_real_(const char *t, double *v) {
    while (*t == ' ') t++;
    if (*t == '#') { char *q; long k = strtol(t + 1, &q, 10); if (q != t + 1 && *q == '#' && k >= 0 && (size_t)k < toks.size()) { for (q++; *q == ' '; q++); if (!*q) { *v = toks[k]; return true; } } return false; }
    char *e; double x = strtod(t, &e); if (e == t) return false;
    if ((*e == '+' || *e == '-') && e[1] >= '0' && e[1] <= '9') { char *f; long ex = strtol(e, &f, 10); std::string s(t, e - t); x = strtod((s + "e" + std::to_string(ex)).c_str(), nullptr); e = f; }
    while (*e == ' ') e++; if (*e) return false; *v = x; return true;
}
char vs_filebyte(unsigned char c) { return (char)c; }
const char *vs_scratch() {
    if (scratch.empty()) { char b[64]; strcpy(b, access("/dev/shm", W_OK) == 0 ? "/dev/shm/vs-scratch-XXXXXX" : "/tmp/vs-scratch-XXXXXX"); if (!mkdtemp(b)) abort(); scratch = b; }
    return scratch.c_str();
}
}
extern "C" void vs_exit(int code) { if (!allowExc || !code) { printf("REPLAY-VIOLATION exit:%d\n", code); bad = 1; } printf(bad ? "REPLAY-RESULT violated\n" : "REPLAY-RESULT held\n"); fin(bad); }
static void sig(int s) { printf("REPLAY-VIOLATION crash:signal %d\n", s); fin(1); }
int main(int argc, char **argv) {
    std::string h;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--harness") h = argv[++i];
        else if (a == "--file") { FILE *f = fopen(argv[++i], "r"); if (!f) return 2; char l[600]; while (fgets(l, sizeof l, f) && l[0] != '#') { char *q = strrchr(l, ' '); if (!q) break; *q = 0; in[l] = atoll(q + 1); } fclose(f); }
    }
    if (!hs().count(h)) { fprintf(stderr, "no harness %s\n", h.c_str()); return 2; }
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, sig);
    { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)2 << 30; setrlimit(RLIMIT_AS, &rl); }
    signal(SIGALRM, [](int) { printf("REPLAY-VIOLATION hang\n"); fin(1); }); alarm(60);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    try { hs()[h](); }
    catch (const std::exception &e) { if (!allowExc || dynamic_cast<const std::bad_alloc *>(&e)) { printf("REPLAY-VIOLATION exception:%s\n  what: %s\n", typeid(e).name(), e.what()); bad = 1; } }
    catch (...) { if (!allowExc) { printf("REPLAY-VIOLATION exception:unknown\n"); bad = 1; } }
    printf(bad ? "REPLAY-RESULT violated\n" : "REPLAY-RESULT held\n");
    fin(bad);
}
