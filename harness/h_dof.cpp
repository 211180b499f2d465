// srcs: Abstract/Dof.cpp Abstract/Utility.cpp Abstract/Value.cpp
// Degree-of-freedom sets, Nastran component codes, DOF matrices and coefficients.
#include "vs.h"
#include "../Abstract/Dof.h"
#include <stdexcept>
using namespace vega; using namespace std;

VS_HARNESS(dof_algebra) {
    char a = (char)vs_int("a", 0, 63), b = (char)vs_int("b", 0, 63);
    DOFS A(a), B(b);
    vs_assert((char)(A + B) == (char)(a | b), "union");
    vs_assert((char)(A - B) == (char)(a & ~b & 63), "difference");
    vs_assert((char)(A & B) == (char)(a & b), "operator&");
    vs_assert((char)A.intersection(B) == (char)(a & b), "intersection");
    vs_assert(A.containsAll(B) == ((a & b) == b), "containsAll");
    vs_assert(A.containsAnyOf(B) == ((a & b) != 0), "containsAnyOf");
    vs_assert((A == B) == (a == b), "equality");
    vs_assert(A.empty() == (a == 0), "empty");
    int pop = 0; for (int i = 0; i < 6; i++) pop += (a >> i) & 1;
    vs_assert(A.size() == pop, "size");
    DOFS C(A); C += B; vs_assert(C == A + B, "+=");
}
VS_HARNESS(dof_iterate) {
    char a = (char)vs_int("a", 0, 63);
    DOFS A(a);
    int seen = 0, last = -1;
    for (const DOF d : A) {
        vs_assert((int)d.position > last, "iteration ascending"); last = d.position;
        vs_assert(A.contains(d), "iterated dof is contained");
        vs_assert(((a >> d.position) & 1) == 1, "iterated dof is a member");
        vs_assert((d.position < 3) == d.isTranslation && d.isTranslation != d.isRotation, "translation/rotation kind");
        seen++;
    }
    vs_assert(seen == A.size(), "iteration visits all");
    DOFS rebuilt((a & 1) != 0, (a & 2) != 0, (a & 4) != 0, (a & 8) != 0, (a & 16) != 0, (a & 32) != 0);
    vs_assert(rebuilt == A, "constructor from booleans");
}
VS_HARNESS(dof_nastran_roundtrip) {
    char a = (char)vs_int("a", 1, 63);
    DOFS A(a);
    int code = A.nastranCode();
    int c = code, prev = 7, mask = 0;
    while (c) { int d = c % 10; vs_assert(d >= 1 && d < prev, "code digits increase"); prev = d; mask |= 1 << (d - 1); c /= 10; }
    vs_assert(mask == a, "code digits are the members");
    vs_assert(DOFS::nastranCodeToDOFS(code) == A, "round trip");
}
VS_HARNESS(dof_nastran_parse) {
    int d[6], code = 0; const int N = vs_param("digits", 4); bool valid = true, ended = false; int mask = 0;
    for (int i = N - 1; i >= 0; i--) { d[i] = vs_int(vs_name("digit", i).c_str(), 0, 9); code = code * 10 + d[i]; }
    vs_assume(code != 0);
    int top = N - 1; while (top > 0 && d[top] == 0) top--;
    for (int i = 0; i <= top; i++) { if (d[i] < 1 || d[i] > 6) { valid = false; break; } mask |= 1 << (d[i] - 1); }
    bool thrown = false; DOFS r = DOFS::NO_DOFS;
    try { r = DOFS::nastranCodeToDOFS(code); } catch (const invalid_argument &e) { thrown = true; }
    vs_assert(thrown == !valid, "rejects exactly the invalid codes");
    if (!thrown) { vs_reach("valid code"); vs_assert((char)r == (char)mask, "set of digits"); } else vs_reach("invalid code");
}
