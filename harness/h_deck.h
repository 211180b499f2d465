// End-to-end plumbing: build a solver input file whose numbers may be symbolic, parse it with the real parser, run the
// real model completion, write it with a real writer, and read the numbers of the output file back.
#pragma once
#include "vs.h"
#include "../Abstract/Model.h"
#include "../Abstract/ConfigurationParameters.h"
#include "../Nastran/NastranParser.h"
#include "../Nastran/NastranWriter.h"
#include "../Aster/AsterWriter.h"
#include "../Systus/SystusWriter.h"
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
using namespace vega;
typedef ConfigurationParameters CP;
static inline CP::TranslationMode tmode(int i) { return i == 0 ? CP::TranslationMode::BEST_EFFORT : i == 1 ? CP::TranslationMode::MESH_AT_LEAST : CP::TranslationMode::MODE_STRICT; }
static std::string slurp(const std::string &f) { std::ifstream i(f); std::ostringstream o; std::string l; while (std::getline(i, l)) { o << l << '\n'; } return o.str(); }
struct Deck {
    std::string exec = "SOL 101\n", caseControl, bulk;
    CP::TranslationMode mode = CP::TranslationMode::MODE_STRICT;
    std::unique_ptr<Model> model;
    std::string dir = vs_scratch();
    // one bulk card: strings are literal fields, numbers become fields (fixed 8-character format, wrapped with '+')
    struct Card {
        Deck &d; std::string line; int n = 0;
        Card(Deck &d, const char *kw) : d(d) { pad(kw); }
        Card(Card &&o) : d(o.d), line(o.line), n(o.n) { o.n = -1; }
        void pad(std::string s) { s.resize(8, ' '); line += s; }
        void wrap() { if (n && n % 8 == 0) { line += "+\n"; pad("+"); } n++; }
        Card &operator()(const char *s) { wrap(); pad(s); return *this; }
        Card &operator()(const std::string &s) { wrap(); pad(s); return *this; }
        Card &operator()(int v) { wrap(); pad(vs_put(v)); return *this; }
        Card &operator()(double v) { wrap(); pad(vs_put(v)); return *this; }
        Card &operator()() { return (*this)(""); }
        ~Card() { if (n >= 0) d.bulk += line + "\n"; }
    };
    Card card(const char *kw) { return Card(*this, kw); }
    std::string text() const { return exec + "CEND\n" + caseControl + "BEGIN BULK\n" + bulk + "ENDDATA\n"; }
    Model &parse(SolverName target = SolverName::NASTRAN) {
        std::string fn = dir + "/in.nas";
        { std::ofstream o(fn); o << text(); }
        CP cp(fn, Solver(target), "", "out", dir, LogLevel::ERROR, mode);
        nastran::NastranParser p; model = p.parse(cp);
        return *model;
    }
    Model &finish() { model->finish(); return *model; }
    std::string nastran(bool modern = false);
    std::string aster(std::string *exp = nullptr);
    std::string systus();
    CP config(SolverName s, const std::string &dialect = "cosmic95") {
        return CP(dir + "/in.nas", Solver(s), "", "out", dir, LogLevel::ERROR, mode, "", 0.02, false, false, "", "", false, "lagrangian", 0.0, 0.0,
                  "auto", "systus", {}, "table", 9, "auto", dialect);
    }
};

// fields of a fixed-format output file: one vector of 8-character fields per card, continuations joined
struct Cards {
    std::vector<std::vector<std::string>> all;
    static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r"); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(" \t\r"); return s.substr(a, b - a + 1); }
    explicit Cards(const std::string &text) {
        std::istringstream in(text); std::string l; bool bulk = false; size_t w = 8;
        while (std::getline(in, l)) {
            if (l.compare(0, 10, "BEGIN BULK") == 0) { bulk = true; continue; }
            if (!bulk || l.empty() || l[0] == '$') continue;
            bool cont = l[0] == '+' || l[0] == '*' || l[0] == ' ';
            std::string kw = trim(l.substr(0, 8)); bool lf = kw.find('*') != std::string::npos;
            if (!cont) { all.push_back({}); while (!kw.empty() && kw.back() == '*') kw.pop_back(); all.back().push_back(kw); }
            if (all.empty()) continue;
            w = lf ? 16 : 8;
            if (l.find(',') != std::string::npos) { std::istringstream f(l); std::string x; bool first = true; while (std::getline(f, x, ',')) { if (first) { all.back()[0] = trim(x); first = false; } else all.back().push_back(trim(x)); } continue; }
            size_t n = lf ? 4 : 8, i = 0;
            for (size_t p = 8; i < n; p += w, i++) all.back().push_back(p < l.size() ? trim(l.substr(p, w)) : "");
        }
        for (auto &c : all) while (c.size() > 1 && c.back().empty()) c.pop_back();
    }
    std::vector<std::vector<std::string>> of(const std::string &kw) const { std::vector<std::vector<std::string>> r; for (auto &c : all) if (c[0] == kw) r.push_back(c); return r; }
};
static inline std::string fld(const std::vector<std::string> &c, size_t i) { return i < c.size() ? c[i] : ""; }
static inline double realOf(const std::string &s) { double v = 0; bool ok = vs_get_real_(s.c_str(), &v); vs_assert(ok, "output field is a number"); return v; }
static inline long intOf(const std::string &s) { int64_t v = 0; bool ok = vs_get_int_(s.c_str(), &v); vs_assert(ok, "output field is an integer"); return v; }
inline std::string Deck::nastran(bool modern) {
    nastran::NastranWriter w; auto c = config(SolverName::NASTRAN, modern ? "modern" : "cosmic95");
    return slurp(w.writeModel(*model, c));
}
inline std::string Deck::aster(std::string *exp) { aster::AsterWriter w; auto c = config(SolverName::CODE_ASTER); std::string f = w.writeModel(*model, c); if (exp) *exp = slurp(f); std::string comm = f; size_t p = comm.rfind(".export"); if (p != std::string::npos) comm = comm.substr(0, p) + ".comm"; return slurp(comm); }
inline std::string Deck::systus() { systus::SystusWriter w; auto c = config(SolverName::SYSTUS); return w.writeModel(*model, c); }
