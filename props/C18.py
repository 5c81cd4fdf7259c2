"""Programs that violate a constraint are diagnosed, valid ones are accepted: families of programs, every combination of alternatives."""
import json, os, random

import c18
from sxlib import Scenario

LEVEL = "model_checking"
ORACLE = json.load(open(os.path.dirname(os.path.abspath(__file__)) + "/../lib/c18_oracle.json"))
BOUNDS = {
    "values": "57 constraints on array sizes, bit-field widths, case labels, enumerators, designators, null pointer constants, _Static_assert and divisors: every 64-bit value of each numeral; out of range escapes and integer constants: symbolic digits",
    "families": "37 templates with up to four slots; %d programs judged the same by gcc and clang -pedantic-errors (lib/c18_oracle.json), quick: all of the small families and about 1200 programs of each large one, rotating with the seed" % sum(len(o) - o.count("?") for o in ORACLE.values()),
    "numbers": "21 templates whose verdict the harness computes: small numbers, counts of arguments and initializers, names, sequences of brackets and braces, suffixes",
    "not judged": "programs on which gcc and clang disagree, and those listed in c18.MASK",
}
ASSUMPTIONS = ["gcc and clang agreeing on a program decides whether it violates a constraint", "a warning counts as a diagnostic: C does not require translation to fail except for #error"]
REQUIRE = ["valid", "rejected"]


def cstr(a):
    return '"' + "".join({"\n": "\\n", '"': '\\"', "\\": "\\\\", "\t": "\\t", "?": "\\?"}.get(c, c) for c in a) + '"'


def lit(a):
    return "\n".join(cstr(l) for l in a.splitlines(True)) or '""'


HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); char *strstr(const char *, const char *); int strncmp(const char *, const char *, u64);
static char src[8000]; static int sn;
static void put(const char *s) { u64 n = strlen(s); memcpy(src + sn, s, n); sn += n; }
/* Every line of the form "(p.c, N) error|warning: text", with N a line of the file; others only follow such a line. */
static int diagnostics(int *errors) {
  static char e[100000]; u64 n; char *d = vf_data("<stderr>", &n), *p; int lines = 1, i, count = 0;
  if (n > sizeof e - 1) n = sizeof e - 1;
  if (strstr(src, "#line")) { *errors = -1; return n > 0; } /* names and lines are the ones it gives */
  if (n) memcpy(e, d, n); e[n] = 0;
  for (i = 0; i < sn; i++) lines += src[i] == '\n';
  for (p = e; *p; ) {
    if (!strncmp(p, "(p.c, ", 6)) {
      int l = 0; p += 6; while (*p >= '0' && *p <= '9' && l < 100000) l = l * 10 + (*p++ - '0');
      if (strncmp(p, ") error: ", 9) && strncmp(p, ") warning: ", 11)) d_fail("malformed diagnostic");
      if (l < 1 || l > lines) d_fail("the diagnostic names a line outside of the file");
      if (!strncmp(p, ") error: ", 9)) ++*errors;
      count++;
    } else if (!count && *p != '\n') d_fail("output that does not name the file and line");
    while (*p && *p != '\n') p++;
    if (*p) p++;
  }
  return count;
}
static void run(const char *opts, char want) {
  int rc, errors = 0, n; vf_write("p.c", src, sn); rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  n = diagnostics(&errors);
  if (errors < 0) errors = !!rc;
  if (rc && !errors) d_fail("failure without an error message");
  if (!rc && errors) d_fail("an error is printed but the exit status is zero");
  if (want == 'V') { sx_cover("valid"); if (rc) d_fail("a valid program is rejected"); }
  if (want == 'B') { sx_cover(rc ? "rejected" : "warned"); if (!n) d_fail("a constraint violation is silently accepted"); }
}
'''
FAMILY = HEAD + r'''
static const char oracle[] = %(oracle)s;
%(tables)s
void harness(void) {
  int k = 0, c; char want;
%(choose)s
  want = oracle[k]; if (want == '?') { sx_cover("not judged"); return; }
  put(%(head)s); put(%(pre)s);
%(puts)s
  put(%(post)s);
  run("-std=%(std)s -c -o p.o p.c", want);
}
'''


# programs with symbolic numbers and names; the harness computes the verdict
NUM = HEAD + r'''
static void ch(int c) { src[sn++] = c; }
static void num(int n) { if (n < 0) { ch('('); ch('-'); num(-n); ch(')'); return; } if (n >= 10) num(n / 10); ch('0' + n %% 10); }
#define C(n, s) ((int)sx_choose(n, s))
%(tables)s
void harness(void) {
  char want;
%(body)s
  run("-std=%(std)s -c -o p.o p.c", want);
}
'''
NUMBERS = {
    "array-length": '''int a = C(12, "a"), b = C(12, "b"); put("int y["); num(a); put(" - "); num(b); put("];"); want = a > b ? 'V' : a < b ? 'B' : '?';''',
    "bit-field": '''static const char *const ty[] = { "char", "unsigned char", "short", "int", "unsigned", "long", "unsigned long", "_Bool" }; static const char w[] = { 8, 8, 16, 32, 32, 64, 64, 1 };
      int t = C(8, "type"), n = C(70, "width"), named = C(2, "named"); put("struct S { int z; "); put(ty[t]); put(named ? " f : " : " : "); num(n); put("; } s;"); want = n <= w[t] && (n || !named) ? 'V' : 'B';''',
    "case-labels": '''static const char *const ty[] = { "int", "char", "unsigned char", "long", "unsigned" }; int t = C(5, "type"), a = C(9, "a") - 4, b = C(9, "b") - 4, m = C(3, "m") + 1, d = C(3, "d");
      put("int f("); put(ty[t]); put(" x) { switch (x) { case "); num(a); put(" * "); num(m); put(": return 1; case "); num(b); put(": return 2; ");
      if (d) put("default: ; "); put("{ switch (x) { case "); num(b); put(": ; default: ; } } "); if (d == 2) put("default: return 3; "); put("} return 0; }"); want = a * m == b || d == 2 ? 'B' : 'V';''',
    "static-assert": '''static const char *const op[] = { "<", ">", "<=", ">=", "==", "!=", "&", "-" }; int a = C(4, "a") - 1, b = C(4, "b") - 1, o = C(8, "op"), v;
      v = o == 0 ? a < b : o == 1 ? a > b : o == 2 ? a <= b : o == 3 ? a >= b : o == 4 ? a == b : o == 5 ? a != b : o == 6 ? a & b : a - b;
      put("_Static_assert("); num(a); put(" "); put(op[o]); put(" "); num(b); put(", \\"m\\");"); want = v ? 'V' : 'B';''',
    "designator": '''int n = C(12, "length") + 1, i = C(14, "index"), more = C(3, "more"), k; put("int y["); num(n); put("] = { ["); num(i); put("] = 1"); for (k = 0; k < more; k++) put(", 2"); put(" };"); want = i + more < n ? 'V' : 'B';''',
    "negative-designator": '''int n = C(3, "length"), i = C(9, "index") - 4; put("int y["); if (n) num(n); put("] = { ["); num(i); put("] = 1 };"); want = i >= 0 && (!n || i < n) ? 'V' : 'B';''',
    "array-redeclared": '''int a = C(14, "a"), b = C(14, "b"); put("extern int y["); if (a) num(a); put("]; int y["); num(b + 1); put("];"); want = !a || a == b + 1 ? 'V' : 'B';''',
    "string-length": '''int a = C(8, "a") + 1, b = C(10, "b"), u = C(2, "braces"), k; put("char y["); num(a); put(u ? "] = { \\"" : "] = \\""); for (k = 0; k < b; k++) put(k == 3 ? "\\\\\\\\n" : "x"); put(u ? "\\" };" : "\\";"); want = b <= a ? 'V' : 'B';''',
    "excess-initializers": '''int a = C(6, "a") + 1, b = C(8, "b") + 1, u = C(3, "kind"), k; put(u == 0 ? "int y[" : u == 1 ? "struct { int a, b; } y[" : "void f(void) { int y["); num(a); put("] = { "); for (k = 0; k < b; k++) put("1, "); put(u == 2 ? "}; }" : "};"); want = b <= a * (u == 1 ? 2 : 1) ? 'V' : 'B';''',
    "argument-count": '''int a = C(8, "parameters"), b = C(8, "arguments"), v = C(3, "variadic"), k; put("int f("); for (k = 0; k < a; k++) put(k ? ", int" : "int"); if (!a) put("void"); else if (v) put(", ..."); put("); int g(void) { return "); put(v == 2 ? "(*f)(" : "f("); for (k = 0; k < b; k++) put(k ? ", 1" : "1"); put("); }"); want = a == b || (v && a && b > a) ? 'V' : 'B';''',
    "macro-arguments": '''int a = C(5, "parameters"), b = C(6, "arguments"), nest = C(2, "nested"), k; put("#define F("); for (k = 0; k < a; k++) { if (k) put(", "); ch('a' + k); } put(") 1\\nint y = F("); for (k = 0; k < b; k++) put(k ? nest ? ", (1, 2)" : ",1" : nest ? "G(1, 2)" : "1"); put(");\\n"); want = a == b || (a == 1 && b == 0) ? 'V' : 'B';''',
    "labels": '''int a = C(3, "a"), b = C(3, "b"), g = C(3, "goto"); put("void f(void) { goto "); ch('k' + g); put("; "); ch('k' + a); put(": ; { "); ch('k' + b); put(": ; } }  void h(void) { "); ch('k' + g); put(": ; }"); want = a != b && (g == a || g == b) ? 'V' : 'B';''',
    "names": '''int k = C(6, "kind"), a = C(4, "a"), b = C(4, "b"), c = C(4, "c"), dup = a == b || b == c || a == c; static const char *const pre[] = { "void f(int ", "struct S { int ", "enum E { ", "void f(void) { int ", "void f(void) { { int ", "#define F(" }; static const char *const mid[] = { ", int ", "; char ", ", ", ", *", "; } int ", ", " }; static const char *const post[] = { "); void g(void) { int a, b, c, d; }", "; } s;", " } e;", "; }", "; }", ") 1\\n int z;" };
      put(pre[k]); ch('a' + a); put(mid[k]); ch('a' + b); if (k != 4) { put(mid[k]); ch('a' + c); } put(post[k]); want = k == 4 ? 'V' : dup ? 'B' : 'V';''',
    "uses": '''int k = C(7, "kind"), a = C(4, "declared"), b = C(4, "used"), ok = a == b; static const char *const pre[] = { "int ", "enum { ", "void g(int ", "struct S { int ", "typedef int ", "union U { int z; struct { int ", "void h(void) { int " }; static const char *const mid[] = { "; int f(void) { return ", " }; int f(void) { return ", ") { return; } int f(void) { return ", "; } s; int f(void) { return s.", "; int f(void) { return (", "; }; } s; int f(void) { return s.", "; { int y; y = " }; static const char *const post[] = { "; }", "; }", "; }", "; }", ") 1; }", "; }", "; } }" };
      put(pre[k]); ch('a' + a); put(mid[k]); ch('a' + b); put(post[k]); want = k == 2 ? 'B' : ok ? 'V' : 'B';''',
    "tags": '''int a = C(3, "declared"), b = C(3, "used"), k = C(4, "definition"), m = C(3, "object"), ok = a == b; static const char *const w[] = { "struct ", "union ", "enum " }; put(w[a]); put(k & 1 ? a == 2 ? "T { A }; " : "T { int a; }; " : a == 2 ? "T { B, A }; " : "T; "); if (k & 2) put("void f(void) { "); put(w[b]); put(m == 0 ? "T *y; " : m == 1 ? "T y; " : "T (*y)(void); "); if (k & 2) put("}");
      if (!ok) want = 'B'; else want = a == 2 || (k & 1) || m != 1 ? 'V' : k & 2 ? 'B' : 'B';''',
    "parentheses": '''int i, depth = 0, ok = 1, state = 0; /* 0: operand expected */ put("int y = "); for (i = 0; i < 7; i++) switch (C(4, "token")) { case 0: put("( "); if (state) ok = 0; depth++; break; case 1: put(") "); if (!state || !depth) ok = 0; depth--; break; case 2: put("1 "); if (state) ok = 0; state = 1; break; default: put("+ "); state = 0; } if (!state || depth) ok = 0; put(";"); want = ok ? 'V' : 'B';''',
    "braces": '''int i, depth = 0, ok = 1, done = 0; put("int f(void) { "); for (i = 0; i < 7; i++) switch (C(4, "token")) { case 0: put("{ "); if (done) ok = 0; depth++; break; case 1: put("} "); if (done) ok = 0; if (!depth) done = 1; depth--; break; case 2: put("f(); "); if (done) ok = 0; break; default: put("; "); if (done) ok = 0; } if (!done) { put("}"); if (depth) ok = 0; } want = ok ? 'V' : 'B'; if (done && want == 'B') want = 'B';''',
    "suffix": '''static const char set[] = "uUlLxz"; int n = C(5, "n"), i, u = 0, l = 0, ok = 1, prev = 0, h = C(3, "base"); put(h == 0 ? "long y = 1" : h == 1 ? "long y = 0x1" : "long y = 07"); for (i = 0; i < n; i++) { int c = set[C(6, "c")]; ch(c); if (c == 'u' || c == 'U') u++; else if (c == 'l' || c == 'L') { if (prev == c) { if (l == 2) ok = 0; l = 2; } else if (l) ok = 0; else l = 1; } else ok = 0; if (c != prev && prev && (c == 'l' || c == 'L') && l > 1) ok = 0; prev = c; } if (u > 1) ok = 0; ch(';'); want = ok ? 'V' : 'B'; if (l > 1 && u == 0 && n > 3) want = '?';''',
    "digits": '''int b = C(3, "base"), c, i, n = C(3, "n") + 1, ok = 1; put("long y = "); put(b == 0 ? "1" : b == 1 ? "0" : "0x"); for (i = 0; i < n; i++) { static const char set[] = "0789afFgG_"; c = set[C(10, "c")]; ch(c); if (b == 0 && (c < '0' || c > '9')) ok = 0; if (b == 1 && (c < '0' || c > '7')) ok = 0; if (b == 2 && (c == 'g' || c == 'G' || c == '_')) ok = 0; } ch(';'); want = ok ? 'V' : 'B'; if (!ok) { for (i = 0; i < n; i++) if (src[sn - 2 - i] == 'f' || src[sn - 2 - i] == 'F') want = b == 2 ? want : '?'; }''',
    "error": '''int i, n = C(4, "lines"), g = C(2, "dead"); for (i = 0; i < n; i++) put("\\n"); put(g ? "#if 0\\n#error x\\n#endif\\nint z;" : "#error x\\nint z;"); want = g ? 'V' : 'B';''',
    "late-error": '''int i, n = C(6, "functions"), at = C(7, "at"), k = C(5, "kind"); static const char *const bad[] = { "int q = ;\\n", "int q(void) { return z; }\\n", "#else\\n", "int q = 1 / x;\\n", "}\\n" }; for (i = 0; i <= n; i++) { if (i == at) put(bad[k]); put("int x"); ch('a' + i); put(" = 1;\\n"); } want = at <= n ? 'B' : 'V';''',
}

# the numerals of these programs stand for every value of the C type: "pre" declares them with their range, "ok" is the condition for validity
MAGIC = {
    "subscript-difference": ("char y[@0L - @1L];", "(n0 <= LMAX) & (n1 <= LMAX)", "(long)(n0 - n1) > 0", "n0 != n1"),
    "int-array": ("int y[@0];", "(n0 <= LMAX) & (n0 != 0)", "n0 <= LMAX / 4", ""),
    "nested-array": ("short y[3][@0L]; int z[sizeof y == 6 * @0UL ? 1 : -1];", "(n0 != 0) & (n0 <= LMAX / 8)", "1", ""),
    "array-redeclared": ("extern int y[@0]; extern int y[@1];", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "array-composite": ("extern int y[][@0]; extern int y[2][@1];", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "array-pointer": ("int (*p)[@0]; int (*q)[@1]; void f(void) { p = q; }", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "array-pointer-argument": ("void g(int (*)[@0]); extern int q[4][@1]; void f(void) { g(q); }", "(n0 - 1 < IMAX / 4) & (n1 - 1 < IMAX / 4)", "n0 == n1", ""),
    "array-pointer-compare": ("int (*p)[@0]; int (*q)[@1]; int f(void) { return p == q; }", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "array-pointer-return": ("extern char q[2][@1L]; char (*f(void))[@0L] { return q; }", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "function-types": ("int f(int (*)[@0]); int f(int (*)[@1]);", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "n0 == n1", ""),
    "parameter-adjusted": ("int f(int [@0]); int f(int [@1]);", "(n0 - 1 < IMAX) & (n1 - 1 < IMAX)", "1", ""),
    "string-array": ("char y[@0] = \"abcd\";", "(n0 - 1) < 12", "n0 >= 4", ""),
    "enumerator": ("enum { A = @0 };", "n0 <= LMAX", "n0 <= IMAX", ""),
    "enumerator-negative": ("enum { A = -@0L };", "n0 <= LMAX", "n0 <= IMAX + 1", ""),
    "enumerator-unsigned": ("enum { A = @0u };", "", "n0 <= IMAX", ""),
    "enumerator-successor": ("enum { A = @0, B = 3, C = @0, D };", "n0 <= IMAX", "n0 < IMAX", ""),
    "enumerator-wrapped": ("enum { A = @0 - @1 };", "(n0 <= IMAX) & (n1 <= IMAX)", "1", ""),
    "static-assert": ("_Static_assert(@0UL, \"m\");", "", "n0 != 0", ""),
    "static-assert-compare": ("_Static_assert(@0UL > @1UL, \"m\");", "", "n0 > n1", ""),
    "static-assert-signed": ("_Static_assert(-@0L < @1L - 5, \"m\");", "(n0 <= LMAX) & (n1 <= LMAX)", "-(long)n0 < (long)n1 - 5", ""),
    "static-assert-and": ("_Static_assert(@0UL && @1, \"m\");", "n1 <= IMAX", "(n0 != 0) & (n1 != 0)", ""),
    "static-assert-low-bits": ("_Static_assert((int)@0UL, \"m\");", "", "(u32)n0 != 0", ""),
    "static-assert-in-function": ("void f(void) { _Static_assert(@0L == @1L, \"m\"); }", "(n0 <= LMAX) & (n1 <= LMAX)", "n0 == n1", ""),
    "static-assert-in-struct": ("struct S { int a; _Static_assert(@0L - 3, \"m\"); int b; };", "(n0 <= LMAX)", "n0 != 3", ""),
    "case-int": ("void f(int x) { switch (x) { case @0UL: ; case @1UL: ; } }", "", "(u32)n0 != (u32)n1", ""),
    "case-char": ("void f(char x) { switch (x) { case @0UL: ; case -1: ; } }", "", "(u32)n0 != ~0u", ""),
    "case-unsigned": ("void f(unsigned x) { switch (x) { case -@0L: ; case 7: ; default: ; case @1u: ; } }", "(n0 <= LMAX) & (n1 <= 0xfffffffful)", "((u32)-n0 != 7) & ((u32)-n0 != (u32)n1) & ((u32)n1 != 7)", ""),
    "case-long": ("void f(long x) { switch (x) { case @0UL: ; case @1UL: ; } }", "", "n0 != n1", ""),
    "case-three": ("void f(unsigned long x) { switch (x) { case @0UL: ; case @1UL: ; case @2UL: ; } }", "", "(n0 != n1) & (n1 != n2) & (n0 != n2)", ""),
    "case-nested": ("void f(long x, long y) { switch (x) { case @0UL: switch (y) { case @1UL: ; case @0UL: ; } case @2UL: ; } }", "", "(n0 != n1) & (n0 != n2)", ""),
    "divisor": ("enum { A = 4 / @0 };", "n0 <= IMAX", "n0 != 0", ""),
    "divisor-modulo": ("int y[7 % (@0UL - @1UL) < 9 ? 2 : 3];", "", "n0 != n1", ""),
    "divisor-not-evaluated": ("enum { A = @0 ? 1 / @0 : 2 };", "n0 <= IMAX", "1", ""),
    "null-pointer": ("int *p = @0;", "n0 <= LMAX", "n0 == 0", ""),
    "null-pointer-assign": ("int *p; void f(void) { p = @0L - @1L; }", "(n0 <= LMAX) & (n1 <= LMAX)", "n0 == n1", ""),
    "null-pointer-compare": ("int *p; int f(void) { return p == @0UL; }", "", "n0 == 0", ""),
    "null-pointer-unequal": ("int (*p)(void); int f(void) { return @0 != p; }", "n0 <= IMAX", "n0 == 0", ""),
    "null-pointer-argument": ("int g(int *); int f(void) { return g(@0UL); }", "", "n0 == 0", ""),
    "null-pointer-return": ("char *f(void) { return @0UL; }", "", "n0 == 0", ""),
    "null-pointer-conditional": ("int *p, x; void f(void) { p = x ? p : @0UL; }", "", "n0 == 0", ""),
    "null-pointer-conditional-2": ("int *p, x; void f(void) { p = x ? @0UL : p; }", "", "n0 == 0", ""),
    "designator": ("int y[@0] = { [@1UL] = 1 };", "(n0 - 1) < 6", "n1 < n0", ""),
    "designator-negative": ("int y[9] = { [@0L - @1L] = 1 };", "(n0 <= LMAX) & (n1 <= LMAX)", "n0 - n1 < 9", ""),
    "designator-nested": ("struct { int a[4]; char b[7]; } y[3] = { [@0UL].b[@1UL] = 1 };", "", "(n0 < 3) & (n1 < 7)", ""),
    "designator-then": ("int y[5] = { [@0UL] = 1, 2, 3 };", "", "n0 < 3", ""),
}
for _t, _w in (("char", 8), ("unsigned char", 8), ("short", 16), ("int", 32), ("unsigned", 32), ("long", 64), ("unsigned long", 64), ("_Bool", 1)):
    _n = _t.replace(" ", "-")
    MAGIC["width-" + _n] = ("struct S { int a; %s f : @0UL; };" % _t, "", "n0 - 1 < %d" % _w, "")
    MAGIC["width-unnamed-" + _n] = ("struct S { int a; %s : @0UL; int b; };" % _t, "", "n0 <= %d" % _w, "")
    MAGIC["width-second-" + _n] = ("struct S { %s f : 1, g : @0L - @1L; };" % _t, "(n0 <= LMAX) & (n1 <= LMAX)", "n0 - n1 - 1 < %d" % _w, "")
MAGIC_C = HEAD + r'''
#define LMAX 0x7ffffffffffffffful
#define IMAX 0x7ffffffful
void harness(void) {
  u64 n0 = sx_magic(0), n1 = sx_magic(1), n2 = sx_magic(2); int rc, errors = 0, n, ok;
  %(assume)s
  put(%(src)s); vf_write("p.c", src, sn);
  rc = d_lacc("-std=c11 -c -o p.o p.c");
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  n = diagnostics(&errors); ok = (%(ok)s) != 0;
  if (rc && !errors) d_fail("failure without an error message");
  if (!rc && errors) d_fail("an error is printed but the exit status is zero");
  sx_cover(rc ? "rejected" : n ? "warned" : "valid");
  if (rc) sx_assert(!ok, "a valid program is rejected");
  if (!n) sx_assert(ok, "a constraint violation is silently accepted");
}
'''

# symbolic digits at the given places of a literal; "v" is the value they spell
DIGITS = {
    "hex-escape-string": ('char s[] = "\\x@@@";', 3, 16, "v <= 255"),
    "hex-escape-longer": ('char s[] = "a\\x0@@@@b";', 4, 16, "v <= 15"),
    "hex-escape-char": ("int c = '\\x@@@';", 3, 16, "v <= 255"),
    "octal-escape-string": ('char s[] = "\\@@@";', 3, 8, "v <= 255"),
    "octal-escape-char": ("int c = '\\@@@';", 3, 8, "v <= 255"),
    "octal-escape-more": ('char s[] = "\\@@@1";', 3, 8, "v <= 255"),
    "decimal-limit-unsigned": ("int c = 184467440737095516@@u;", 2, 10, "v <= 15"),
    "decimal-limit-signed": ("int c = 92233720368547758@@ > 3;", 2, 10, "v <= 7"),
    "hex-17-digits": ("int c = 0x@ffffffffffffffffu;", 1, 16, "v == 0"),
    "octal-23-digits": ("int c = 0@777777777777777777777u;", 1, 8, "v <= 1"),
    "octal-digit": ("int c = 01@@;", 2, 10, "(d[0] < '8') & (d[1] < '8')"),
}
DIGITS_C = MAGIC_C.split("void harness")[0] + r'''
void harness(void) {
  static const char text[] = %(src)s; char d[8]; u64 v = 0; int rc, errors = 0, n, ok, i, k = 0;
  for (i = 0; text[i]; i++) {
    int c = text[i], x;
    if (c == '@') {
      c = (u8)(d[k++] = sx_var(8, "digit")); sx_assume(%(range)s);
      x = sx_smt_ite(c <= '9', c - '0', sx_smt_ite(c >= 'a', c - 'a' + 10, c - 'A' + 10)); v = v * %(base)d + x;
    }
    src[sn++] = c;
  }
  vf_write("p.c", src, sn); rc = d_lacc("-std=c11 -c -o p.o p.c");
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  n = diagnostics(&errors); ok = (%(ok)s) != 0;
  if (rc && !errors) d_fail("failure without an error message");
  if (!rc && errors) d_fail("an error is printed but the exit status is zero");
  sx_cover(rc ? "rejected" : n ? "warned" : "valid");
  if (rc) sx_assert(!ok, "a valid program is rejected");
  if (!n) sx_assert(ok, "a constraint violation is silently accepted");
}
'''


def digits(name):
    src, k, base, ok = DIGITS[name]
    rng = {8: "(c >= '0') & (c <= '7')", 10: "(c >= '0') & (c <= '9')", 16: "((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))"}[base]
    return DIGITS_C % {"src": cstr(src + "\n"), "range": rng, "base": base, "ok": ok}


def magic(name):
    src, assume, ok, also = MAGIC[name]
    import re
    text = re.sub(r"@(\d)", r"770000\1", src)
    a = "".join("sx_assume(%s); " % x for x in (assume, also) if x)
    return MAGIC_C % {"src": cstr(text + "\n"), "assume": a, "ok": ok}


def numbers(name):
    return NUM % {"tables": "", "body": NUMBERS[name].replace("\\\\", "\\") + ' put("\\n");', "std": "c11" if "assert" in name else "c99"}


def family(name, first, keep=None):
    """the programs of the group whose first slot is in the list first (and whose last slot is in keep)"""
    g = c18.G[name]
    slots = [list(s) for s in g["slots"]]
    o = ORACLE[name]
    rest = len(o) // len(slots[0])
    sub = "".join(o[f * rest:(f + 1) * rest] for f in first)
    tables = ["static const char *const s0[] = { %s };" % ", ".join(cstr(slots[0][f]) for f in first)]
    for i, s in enumerate(slots[1:], 1):
        tables.append("static const char *const s%d[] = { %s };" % (i, ", ".join(map(cstr, s))))
    choose, puts = [], []
    for i, s in enumerate(slots):
        n = len(first) if i == 0 else len(s)
        choose.append('  int c%d = sx_choose(%d, "slot%d"); k = k * %d + c%d;' % (i, n, i, n, i))
        puts.append("  put(s%d[c%d]);" % (i, i))
    if g.get("close"):
        tables.append("static const char *const close[] = { %s };" % ", ".join(cstr(g["close"][f]) for f in first))
        puts.append("  put(close[c0]);")
    return FAMILY % {"oracle": "\n".join(cstr(sub[i:i + 2000]) for i in range(0, len(sub), 2000)), "tables": "\n".join(tables), "choose": "\n".join(choose), "puts": "\n".join(puts),
                     "head": lit(g["head"]), "pre": cstr(g["pre"] or ""), "post": cstr(g["post"]), "std": g["std"]}


def scenarios(tier, seed):
    out = []
    for name in c18.G:
        n = len(c18.G[name]["slots"][0])
        per = len(ORACLE[name]) // n
        firsts = list(range(n))
        if tier == "quick" and len(ORACLE[name]) > 1300:
            k = max(1, -(-1200 // per))
            random.Random(seed * 7 + 1).shuffle(firsts)
            firsts = sorted(firsts[:k])
        chunk = max(1, 250 // per)
        for i in range(0, len(firsts), chunk):
            out.append(Scenario("%s-%d" % (name, firsts[i]), family(name, firsts[i:i + chunk])))
    for n in NUMBERS:
        out.append(Scenario("number-" + n, numbers(n)))
    for n in DIGITS:
        out.append(Scenario("digits-" + n, digits(n), query_ms=5000, time=40))
    for n in MAGIC:
        out.append(Scenario("value-" + n, magic(n), query_ms=5000, time=40))
    return out
