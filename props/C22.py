"""Command line: macros, include order, output selection, language level, code model and the linker's arguments."""
from sxlib import Scenario
import re


def cstr(a):
    return '"' + "".join({"\n": "\\n", '"': '\\"', "\\": "\\\\", "\1": "\\1\"\"", "?": "\\?"}.get(c, c) for c in a) + '"'


def fill(t, **kw):
    return re.sub(r"%\((\w+)\)[sd]", lambda m: str(kw[m.group(1)]), t)


LEVEL = "model_checking"
BOUNDS = {
    "-D": "names and values of up to 3 (thorough: 4) symbolic bytes, with and without value, function-like, joined and separate, compared with a #define line; two -D options and two input files",
    "order": "every order of three options out of 14 before or after the input file; byte-wise comparison of the output",
    "output": "every mode with -o absent, joined, separate, before or after, and eight shapes of input file name",
    "linker": "every sequence of 3 (thorough: 4) out of 14 linker arguments, objects and sources",
    "unknown options": "-X for every symbolic byte X, and every documented option with one symbolic byte appended",
    "-std": "the words reserved in each level used as identifiers, and __STDC_VERSION__",
    "-f[no-]PIC": "relocation types of calls to and accesses of external, static and undefined symbols, at both settings, in code run with symbolic arguments",
}
ASSUMPTIONS = ["execvp of the linker is replaced by a stand-in that records its arguments"]
REQUIRE = ["compared", "rejected"]

HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); void *memset(void *, int, u64); char *strcpy(char *, const char *); char *strcat(char *, const char *); char *strstr(const char *, const char *); int memcmp(const void *, const void *, u64); int strcmp(const char *, const char *); void *malloc(u64);
#include "refpp.h"
static char src[4000], opts[400]; static int sn;
static PT tg[2][RP_MAX]; static int tn[2];
static int lexf(const char *f, int k) { u64 len; char *d = vf_data(f, &len); if (!d) d_fail("no output"); rp_bad = 0; tn[k] = p_lex(d, d + len, tg[k]); return tn[k]; }
static void same_tokens(const char *a, const char *b, const char *what) { int i; pn = 0; lexf(a, 0); lexf(b, 1); if (rp_bad) { sx_cover("untokenizable"); return; } sx_assert(tn[0] == tn[1], what); for (i = 0; i < tn[0]; i++) sx_assert(p_same(tg[0][i], tg[1][i]), what); sx_cover("compared"); }
static int pick(const char *a) { int c, ok = 0; const char *p; c = sx_var(8, "byte"); for (p = a; *p; p++) ok |= c == (u8)*p; sx_assume(ok); return c; }
static void same_bytes(const char *a, const char *b, const char *what) { u64 n, m, i; char *x = vf_data(a, &n), *y = vf_data(b, &m); int ok = 1; if (!x || !y) d_fail("no output"); sx_assert(n == m, what); for (i = 0; i < n; i++) ok &= x[i] == y[i]; sx_assert(ok, what); sx_cover("compared"); }
static void save(const char *from, const char *to) { u64 n; char *p = vf_data(from, &n), *q; if (!p) d_fail("no output"); q = malloc(n + 1); memcpy(q, p, n); vf_write(to, q, n); vf_remove(from); }
'''
# -D x  is  #define x
DEF = HEAD + r'''
void harness(void) {
  static const char body[] = "N M(1,2) A B N(a) M AB x1\n"; static char arg[40], def[60]; const char *p; int n = 0, i, eq = -1, rc, rc2, sep = sx_choose(2, "separate");
  for (p = %(tmpl)s; *p; p++) arg[n++] = *p == '\1' ? pick(%(alpha)s) : *p; arg[n] = 0;
  for (i = 0; i < n && eq < 0; i++) if (arg[i] == '=') eq = i;
  strcpy(def, "#define "); strcat(def, arg); if (eq >= 0) def[8 + eq] = ' '; else strcat(def, " 1"); strcat(def, "\n");
  strcpy(src, def); strcat(src, body);
  d_put("q.c", src); d_put("p.c", body);
  rc2 = d_lacc("-E -o want.i q.c");
  strcpy(opts, sep ? "-D " : "-D"); strcat(opts, arg); strcat(opts, " -E -o out.i p.c"); rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  if (rc2) { if (!rc) d_fail("an invalid macro definition was accepted"); sx_cover("rejected"); return; }
  if (rc) d_fail("a valid macro definition was rejected");
  same_tokens("want.i", "out.i", "-D defines the macro");
}
'''
DEF2 = HEAD + r'''
/* several options, several files */
void harness(void) {
  static const char *const pl[] = { "-DA=1 -DB=A -E p.c q.c", "-E p.c q.c -D A=1 -DB=A", "-E p.c -DA=1 q.c -D B=A", "-DA -DB=A -E p.c q.c" };
  int k = sx_choose(4, "form"), rc; u64 n; char *d;
  d_put("h.h", "#ifdef A\nhA\n#endif\n#define C 3\n#define LEAK\n"); d_put("g.h", "g C\n#undef C\n");
  d_put("p.c", "#define P 1\nA B C P\n#undef A\n"); d_put("q.c", "A B C P\n#ifdef LEAK2\nbad\n#endif\n");
  vf_remove("<stdout>");
  strcpy(opts, pl[k]); strcat(opts, " -include h.h -include g.h");
  if (sx_choose(2, "reverse")) { strcpy(opts, "-include h.h -include g.h "); strcat(opts, pl[k]); }
  rc = d_lacc(opts); if (rc) d_fail("rejected");
  d = vf_data("<stdout>", &n); vf_write("got.i", d, n);
  d_put("want.i", "hA g 3 1 1 C 1 hA g 3 1 1 C P\n");
  same_tokens("want.i", "got.i", "macros given on the command line, in each file");
}
'''
INC = HEAD + r'''
/* -include files are read in order, before the main file; they see -D */
void harness(void) {
  int a = sx_choose(2, "order"), sep = sx_choose(2, "joined"), after = sx_choose(2, "after"), rc; char o[100];
  d_put("a.h", "a X\n#define X 2\n"); d_put("b.h", "b X\n#define Y X\n"); d_put("sub/p.c", "p X Y __FILE__ __LINE__\n"); d_put("sub/a.h", "wrong\n");
  strcpy(o, sep ? (a ? "-includea.h -includeb.h" : "-includeb.h -includea.h") : (a ? "-include a.h -include b.h" : "-include b.h -include a.h"));
  strcpy(opts, after ? "-E -o out.i sub/p.c " : ""); strcat(opts, o); if (!after) strcat(opts, " -E -o out.i sub/p.c");
  rc = d_lacc(opts); if (rc) d_fail("rejected");
  d_put("want.i", a ? "a X b 2 p 2 2 \"sub/p.c\" 1\n" : "b X a X p 2 2 \"sub/p.c\" 1\n");
  same_tokens("want.i", "out.i", "files named by -include");
}
'''
# the order of options does not matter
ORD = HEAD + r'''
static const char *const opt[] = { "-w", "-O1", "-fno-PIC", "-fPIC", "-g", "-std=c99", "-DX=1", "-I a", "-o out", "%(mode)s", "-pedantic", "-Wall", "-march=native", "-fno-common", "-pipe", "-fno-strict-aliasing", "-x c", "-D Y" };
static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
void harness(void) {
  static const char text[] = "#ifdef X\n#include <i.h>\n#endif\n#ifndef Y\nint nox;\n#endif\nstatic int s; extern int e; int g; int h(int);\nint f(int a) { e += a; s ^= g; return h(a + s) + T; }\n";
  int c[3], i, k, pos, rc; d_put("a/i.h", "#define T 5\n"); d_put("p.c", text); d_put("i.h", "#define T 9\n");
  c[0] = %(first)d; c[1] = sx_choose(18, "second"); c[2] = 9; if (c[1] == 9 || c[0] == c[1] || (c[0] == 2 && c[1] == 3) || (c[0] == 3 && c[1] == 2)) return;
  k = sx_choose(6, "permutation"); pos = sx_choose(4, "position");
  /* needed for the program to be valid, in a fixed place */
  strcpy(opts, "-DT=4 "); if (c[0] == 6 || c[1] == 6) { if (c[0] != 7 && c[1] != 7) return; strcpy(opts, ""); }
  for (i = 0; i < 3; i++) { if (pos == 3 && i == 2) strcat(opts, "p.c "); strcat(opts, opt[c[i]]); strcat(opts, " "); } if (pos != 3 || 1) { } strcat(opts, pos == 3 ? "" : "p.c");
  if (k == 0 && pos != 3) { sx_cover("compared"); return; }
  /* canonical order first */
  { char o[400]; strcpy(o, c[0] == 6 || c[1] == 6 ? "" : "-DT=4 "); for (i = 0; i < 3; i++) { strcat(o, opt[c[i]]); strcat(o, " "); } strcat(o, "p.c"); rc = d_lacc(o); if (rc) d_fail("rejected"); }
  save(c[0] == 8 || c[1] == 8 ? "out" : "%(dflt)s", "want");
  strcpy(opts, c[0] == 6 || c[1] == 6 ? "" : "-DT=4 ");
  { int xc = c[0] == 16 || c[1] == 16; for (i = 0; i < 3; i++) { if (pos == i && !xc) strcat(opts, "p.c "); strcat(opts, opt[c[perm[k][i]]]); strcat(opts, " "); } if (pos == 3 || xc) strcat(opts, "p.c"); }
  rc = d_lacc(opts); if (rc) d_fail("rejected in another order");
  same_bytes("want", c[0] == 8 || c[1] == 8 ? "out" : "%(dflt)s", "output when options are given in another order");
}
'''
OUT = HEAD + r'''
static const char *const in[] = { "p.c", "dir/p.c", "p.i", "dir.d/p.x.c", "p", "dir.d/p", "p.txt", "./p.c" };
static const char *const stem[] = { "p", "p", "p", "p.x", "p", "p", "p", "p" };
static const char *const mode[] = { "-c", "-S", "-dot", "-E" }; static const char *const suf[] = { ".o", ".s", ".dot", "" };
void harness(void) {
  int m = sx_choose(4, "mode"), f = sx_choose(8, "file"), o = sx_choose(5, "output"), rc, k; u64 n; char def[40], *d; const char *name; int x = f >= 4 && f <= 6;
  d_put(in[f], "int f(void) { return 5; }\n");
  strcpy(def, stem[f]); strcat(def, suf[m]);
  vf_remove("<stdout>");
  strcpy(opts, o == 1 ? "-o res " : o == 2 ? "-ores " : ""); if (x) strcat(opts, sx_choose(2, "joined") ? "-xc " : "-x c "); strcat(opts, mode[m]); strcat(opts, " "); strcat(opts, in[f]); strcat(opts, o == 3 ? " -o res" : o == 4 ? " -ores" : "");
  rc = d_lacc(opts); if (rc) d_fail("rejected");
  name = o ? "res" : m == 3 ? "<stdout>" : def;
  d = vf_data(name, &n); if (!d || !n) d_fail("the output file was not written");
  if (o && m != 3 && vf_exists(def)) d_fail("the default output file was written too");
  if (o || m != 3) { u64 k2; vf_data("<stdout>", &k2); if (k2) d_fail("output on standard output"); }
  switch (m) {
  case 0: sx_assert(n > 64 && d[0] == 0x7f && d[1] == 'E' && d[2] == 'L' && d[3] == 'F', "object file"); break;
  case 1: sx_assert(strstr(d, ".text") != 0 && strstr(d, "f:") != 0 && strstr(d, "ret") != 0, "assembly text"); break;
  case 2: sx_assert(!memcmp(d, "digraph", 7), "dot text"); break;
  case 3: sx_assert(strstr(d, "return 5 ; ") != 0 || strstr(d, "return 5;") != 0, "preprocessed text"); break;
  }
  sx_cover("compared");
}
'''
# the last of -c -S -E counts; several files; missing files
MULTI = HEAD + r'''
void harness(void) {
  int k = sx_choose(8, "case"), rc; u64 n; char *d;
  d_put("a.c", "static int x; int a(void) { return ++x; }\n"); d_put("b.c", "static int x = 2; int b(void) { return ++x; }\n"); d_put("dir/c.c", "int c = 3;\n"); d_put("e.c", "int e = ;\n");
  switch (k) {
  case 0: rc = d_lacc("-c a.c b.c dir/c.c"); if (rc) d_fail("rejected"); save("a.o", "a1"); save("b.o", "b1"); save("c.o", "c1");
    if (d_lacc("-c b.c") || d_lacc("-c dir/c.c") || d_lacc("-c a.c")) d_fail("rejected"); { u64 i, n, m; char *x, *y; const char *f[] = { "a1", "a.o", "b1", "b.o", "c1", "c.o" }; int j; for (j = 0; j < 6; j += 2) { x = vf_data(f[j], &n); y = vf_data(f[j + 1], &m); if (!x || !y) d_fail("no output"); sx_assert(n > 64 && x[0] == 0x7f, "object"); } }
    if (d_load("a.o") || d_load("b1") || d_load("c1")) d_fail("the object file is malformed"); L("a"); L("b"); L("c"); break;
  case 1: rc = d_lacc("-c a.c b.c -o out.o"); if (!rc) d_fail("-o with several inputs was accepted"); break;
  case 2: rc = d_lacc("-c none.c"); if (!rc || rc >= 1000) d_fail("a missing input file was accepted"); break;
  case 3: rc = d_lacc("-c"); if (!rc || rc >= 1000) d_fail("no input files"); break;
  case 4: rc = d_lacc("-c a.c e.c b.c"); if (!rc || rc >= 1000) d_fail("an invalid input file was accepted"); break;
  case 5: rc = d_lacc("-c a.txt"); if (!rc || rc >= 1000) d_fail("an input file of unknown type was accepted"); break;
  case 6: vf_fork_child = 0; vf_ld_rc = 3; rc = d_lacc("a.c e.c"); if (!rc || rc >= 1000) d_fail("an invalid input file was accepted"); if (vf_exec_count) d_fail("linked in spite of errors"); break;
  case 7: vf_fail_open = 1; if (sx_is_engine()) { rc = d_lacc("-c a.c"); if (!rc || rc >= 1000) d_fail("output could not be written"); } break;
  }
  sx_cover("compared");
}
'''
ERRS = r'''#include "drv.h"
/* the linker's status is passed on */
void harness(void) { int rc, s = sx_var(8, "status"); vf_fork_child = 0; vf_ld_rc = s; vf_host_ok = 0; d_put("a.c", "int main(void) { return 0; }\n"); rc = d_lacc("a.c -o a"); sx_assert(rc == s, "exit status of the linker"); sx_cover("compared"); }
'''
LD = HEAD + r'''
static const char *const arg[] = { "a.c", "dir/b.c", "b.o", "lib.a", "-lfoo", "-l bar", "-Ldir", "-L sub/dir", "-Wl,-x", "-Wl,-rpath,/d,-y", "-shared", "-rdynamic", "-o prog", "-static", "-Wl,--as-needed", "c.so" };
static const char *const exp[] = { "a.o\n", "b.o\n", "b.o\n", "lib.a\n", "-lfoo\n", "-l\nbar\n", "-Ldir\n", "-L\nsub/dir\n", "-x\n", "-rpath\n/d\n-y\n", "-shared\n", "-export-dynamic\n", "-o\nprog\n", "-static\n", "--as-needed\n", "c.so\n" };
void harness(void) {
  int i, n = %(n)d, rc, c, input = 0, c_in = 0; u64 len; char *d, want[400], *p; opts[0] = want[0] = 0;
  d_put("a.c", "int main(void) { return 0; }\n"); d_put("dir/b.c", "int b;\n"); vf_fork_child = 1;
  for (i = 0; i < n; i++) { c = i == 0 ? %(first)d : sx_choose(16, "argument"); strcat(opts, arg[c]); strcat(opts, " "); strcat(want, exp[c]); input |= c <= 3 || c == 15; }
  if (sx_choose(2, "extra")) { strcpy(src, "-w -O1 -DX "); strcat(src, opts); strcat(src, "-std=c89 -I dir"); strcpy(opts, src); }
  vf_remove("exec.txt"); rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  if (!input) { if (!rc) d_fail("no input files"); sx_cover("rejected"); return; }
  if (rc) d_fail("rejected");
  d = vf_data("exec.txt", &len); if (!d) d_fail("the linker was not started");
  p = strstr(d, "-L/usr/lib\n"); if (!p) d_fail("arguments of the linker"); p += 11; 
  sx_assert(!memcmp(p, want, strlen(want)), "order of objects, libraries and options for the linker"); p += strlen(want); sx_assert(!memcmp(p, "-lc\n", 4), "libc after everything else");
  { int shared = strstr(want, "-shared\n") != 0; sx_assert((strstr(d, "crt1.o\n") != 0) == !shared, "start-up code"); sx_assert(strstr(d, "crti.o\n") != 0 && strstr(d, "crtn.o\n") != 0, "start-up code"); }
  sx_cover("compared");
}
'''
UNK = HEAD + r'''
static const char *const o[] = { "", "-", "-O", "-std=c", "-fPIC", "-fno-", "-c", "-E", "-S", "-dot", "-w", "-g", "-pie", "-shared", "-nostdinc", "-x", "-MD", "-msse", "-O1", "--help", "-v" };
void harness(void) {
  int k = sx_choose(sizeof o / sizeof *o, "option"), c = sx_var(8, "byte"), rc, ok = 0, n; d_put("p.c", "int x;\n");
  sx_assume((c > ' ') & (c < 127)); strcpy(opts, o[k]); n = strlen(opts); opts[n] = c; opts[n + 1] = 0;
  if (k == 0) { strcat(opts, " -c p.c"); if (sx_fork(c == '-')) return; rc = d_lacc(opts); if (rc >= 1000) d_fail("the compiler did not terminate normally"); if (!rc) d_fail("an input file of unknown type was accepted"); sx_cover("rejected"); return; }
  if (k == 15 && 0) return;
  strcat(opts, " -c p.c");
  if (k == 1) ok = (c == 'c') | (c == 'S') | (c == 'E') | (c == 'v') | (c == 'w') | (c == 'g') | (c == 'W');
  else if (k == 2) ok = (c >= '0') & (c <= '3');
  else if (k == 17) ok = c == '2';
  else if (k == 15) ok = c == 'c';
  if (k == 1 && sx_fork((c == 'l') | (c == 'L') | (c == 'o') | (c == 'I') | (c == 'D') | (c == 'x'))) return; /* take the next argument */
  rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  if (sx_fork(ok)) { if (rc) d_fail("a documented option was rejected"); sx_cover("compared"); } else { u64 n2; char *d; if (!rc) d_fail("an unknown option was accepted"); d = vf_data("<stderr>", &n2); if (!d || !n2) d_fail("no message"); sx_cover("rejected"); }
}
'''
MISS = HEAD + r'''
static const char *const o[] = { "-o", "-I", "-D", "-include", "-isystem", "-x", "-l", "-L", "-std=", "-march=", "-std=c9", "-std=c17", "-std=", "-x pascal", "-O4", "-Oz", "-fno-pic", "-zzz", "-Wl,", "--version2" };
void harness(void) { int k = sx_choose(sizeof o / sizeof *o, "option"), rc; d_put("p.c", "int x;\n"); strcpy(opts, "-c p.c "); strcat(opts, o[k]); rc = d_lacc(opts); if (rc >= 1000) d_fail("the compiler did not terminate normally"); if (!rc) d_fail("an incomplete or unknown option was accepted"); sx_cover("rejected"); }
'''
STD = HEAD + r'''
static const char *const word[] = { "inline", "restrict", "_Alignof", "_Alignas", "_Noreturn", "_Static_assert", "_Bool", "asm", "auto", "volatile", "signed", "const" };
static const int since[] = { 1, 1, 2, 99, 2, 2, 1, 99, -1, -1, -1, -1 };
static const char *const lv[] = { "-std=c89", "-std=c99", "-std=c11", "-std=gnu89", "-std=gnu99", "-std=gnu11", "" };
static int (*fp)(int); static int r; static int call(void *x) { r = fp(4); return 0; }
void harness(void) {
  int w = sx_choose(12, "word"), s = sx_choose(7, "level"), l = s == 6 ? 1 : s % 3, rc, pre = sx_choose(2, "order"); u64 n; char *d;
  strcpy(src, "int f(int a) { int "); strcat(src, word[w]); strcat(src, " = a; return "); strcat(src, word[w]); strcat(src, " + 1; }\n"); d_put("p.c", src);
  strcpy(opts, pre ? lv[s] : ""); strcat(opts, " -c -o p.o p.c "); strcat(opts, pre ? "" : lv[s]);
  rc = d_lacc(opts); if (rc >= 1000) d_fail("the compiler did not terminate normally");
  if (since[w] == 99 || (word[w][0] == '_' && l < since[w])) ; /* reserved in every standard */
  else if (l >= since[w]) { if (!rc) d_fail("a keyword was accepted as an identifier"); sx_cover("rejected"); }
  else { if (rc) d_fail("an identifier was taken for a keyword of a later standard"); if (d_load("p.o")) d_fail("malformed"); fp = L("f"); d_callL(call, 0); sx_assert(r == 5, "result"); sx_cover("compared"); }
  d_put("q.c", "#ifdef __STDC_VERSION__\n__STDC_VERSION__\n#else\nnone\n#endif\n__STDC__\n"); strcpy(opts, lv[s]); strcat(opts, " -E -o out.i q.c"); if (d_lacc(opts)) d_fail("rejected");
  d_put("want.i", l == 0 ? "none 1\n" : l == 1 ? "199901L 1\n" : "201112L 1\n"); same_tokens("want.i", "out.i", "__STDC_VERSION__");
}
'''
PIC = HEAD + r'''
static u64 rd(const char *p, int n) { u64 v = 0; memcpy(&v, p, n); return v; }
static const char text[] = "extern int e, ea[4]; static int s, sa[4]; int g = 3, ga[4]; int ext(int); static int st(int x) { return x * 3; } int gl(int x) { return x + 5; }\n"
 "int (*fp)(int) = gl; int *ip = &ga[2];\n"
 "int f(int a) { int (*q)(int) = ext; s = a; sa[a & 3] += 2; g ^= a; ga[1] = a; e += s; ea[a & 3] = g; return ext(a) + st(a) + gl(g) + (q == ext) + sa[a & 3] + ea[a & 3] + *ip + e + fp(a) + (\"abc\"[a & 3]); }\n";
static int (*fp)(int), a, r; static int call(void *x) { r = fp(a); return 0; }
void harness(void) {
  static const char *const o[] = { "-fPIC", "-fno-PIC", "", "-fno-PIC -fPIC", "-fPIC -fno-PIC" }; int k = sx_choose(5, "option"), pic = k != 1 && k != 4, rc, opt = sx_choose(2, "O1"); u64 n, i, j; char *d;
  d_put("p.c", text); strcpy(opts, o[k]); if (opt) strcat(opts, " -O1"); strcat(opts, " -c -o p.o p.c"); rc = d_lacc(opts); if (rc) d_fail("rejected");
  d_put("x.c", "int e = 7, ea[4]; int ext(int x) { return x - 1; }\n"); if (d_lacc("-c -o x.o x.c")) d_fail("rejected");
  d = vf_data("p.o", &n); if (!d) d_fail("no output");
  { u64 shoff = rd(d + 40, 8), shnum = rd(d + 60, 2), got = 0, plt = 0, abs32 = 0;
    for (i = 0; i < shnum; i++) { char *sh = d + shoff + 64 * i; if (rd(sh + 4, 4) != 4) continue;
      { char *tsh = d + shoff + 64 * rd(sh + 44, 4), *sym = d + rd(d + shoff + 64 * rd(sh + 40, 4) + 24, 8); int text = (rd(tsh + 8, 8) & 4) != 0;
        for (j = 0; text && j < rd(sh + 32, 8); j += 24) { char *rp = d + rd(sh + 24, 8) + j, *sy = sym + 24 * rd(rp + 12, 4); u64 t = rd(rp + 8, 4); int undef = rd(sy + 6, 2) == 0;
          got += t == 9 || t == 41 || t == 42; plt += t == 4; abs32 += t == 10 || t == 11;
          if (pic && undef && (t == 2 || t == 10 || t == 11)) d_fail("an external symbol is addressed directly in position independent code"); } } }
    if (pic) { sx_assert(got > 0, "external data through the global offset table"); sx_assert(abs32 == 0, "no absolute addresses in position independent code"); }
    else { sx_assert(got == 0, "no global offset table without -fPIC"); } }
  if (sx_is_engine() ? d_load("x.o") || d_load("p.o") : d_load("p.o x.o")) d_fail("the object file is malformed or does not link");
  a = sx_var(32, "a"); fp = L("f"); d_callL(call, 0);
  { int s = a, sa = 2, g = 3 ^ a, e = 7 + a, ea = g, w; w = (a - 1) + a * 3 + (g + 5) + 1 + sa + ea + 0 + e + (a + 5) + "abc"[a & 3]; (void)s; sx_assert(r == w, "value of a program that uses symbols of every kind"); }
  sx_cover("compared");
}
'''
# options that must not change the code
SAME = HEAD + r'''
static const char *const o[] = { "-w", "-pipe", "-Wall", "-W", "-pedantic", "-march=x", "-fno-strict-aliasing", "-ffast-math", "-fvisibility=hidden", "-MD", "-fstrict-aliasing", "-O0", "-fPIC", "-fcommon", "-I dir", "-DUNUSED=1", "-isystem dir", "-x c", "-std=c99", "-mno-mmx", "-MP" };
void harness(void) { static const char text[] = "int t; static int u = 4; const char *s = \"x\"; struct p { int a, b; } q = { 1, 2 }; double d(double x) { return x * 2.5; } int f(int a) { q.a += a; return t + u++ + q.b; }\n"; int k = sx_choose(sizeof o / sizeof *o, "option"), rc;
  d_put("p.c", text); if (d_lacc("-c -o want %(src)s")) d_fail("rejected"); strcpy(opts, o[k]); strcat(opts, " -c -o out %(src)s"); rc = d_lacc(opts); if (rc) d_fail("rejected"); same_bytes("want", "out", "an option without effect on the program changed the object file"); }
'''
GDB = HEAD + r'''
/* -g and -v leave the program as it is; -fno-common and -O change only what they name */
static const char text[] = "struct s { int a; char b; } v[3] = { { 1, 2 } }; int c; static long l; int k(int *p, unsigned char n) { for (; n; n--) *p += n * 3; return *p; }\nint f(int a, int b) { int x = a; struct s t = v[a & 1]; l += b; c = t.b; if (a > b) x += k(&x, b & 7); switch (b & 3) { case 0: x++; break; case 2: x--; } return x + t.a + (int)l; }\n";
static int (*fp)(int, int), a, b, r; static int call(void *x) { r = fp(a, b); return 0; }
void harness(void) {
  static const char *const o[] = { "", "-g", "-v", "-fno-common", "-O2", "-O3", "-g -O1 -fno-PIC", "-w" }; int k = sx_choose(8, "option"), x, i, rc; static const int va[] = { 1, 0 }, vb[] = { 2, 0 };
  d_put("p.c", text); strcpy(opts, o[k]); strcat(opts, " -c -o p.o p.c"); rc = d_lacc(opts); if (rc) d_fail("rejected"); if (d_load("p.o")) d_fail("the object file is malformed or does not link");
  a = sx_var(32, "a"); b = sx_var(32, "b"); fp = L("f"); L("c"); d_callL(call, 0);
  x = a; if (sx_fork(a > b)) { int t = x; for (i = b & 7; i; i--) t += i * 3; x = t + t; } x += (b & 3) == 0; x -= (b & 3) == 2;
  sx_assert(r == x + ((a & 1) ? va[1] : va[0]) + (int)(long)b, "behaviour of the program"); sx_cover("compared");
}
'''


def scenarios(tier, seed):
    out = []
    n = 3 if tier == "quick" else 4
    q = tier == "quick"
    def d(name, t, alpha):
        out.append(Scenario("define-" + name, fill(DEF, tmpl=cstr(t.replace("@", "\1")), alpha=cstr(alpha))))
    d("name", "@" * n, "AB=(1x")
    d("value", "N=" + "@" * n, "AB=(1+-#")
    d("function", "M(a,b)=" + "@" * n, "ab#+,(=")
    d("parameters", "M(@@@)=a", "ab,)=")
    d("empty", "N@@", "=A1")
    out.append(Scenario("define-files", DEF2))
    out.append(Scenario("include-files", INC))
    for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16):
        if q and f in (3, 10):
            continue
        for mode, dflt in (("-c", "p.o"), ("-S", "p.s")) if not q else ((("-c", "p.o") if f % 2 else ("-S", "p.s")),):
            out.append(Scenario("order-%d%s" % (f, mode), fill(ORD, first=f, mode=mode, dflt=dflt)))
    out.append(Scenario("output-name", OUT))
    out.append(Scenario("several-files", MULTI))
    out.append(Scenario("linker-status", ERRS))
    for f in range(16):
        out.append(Scenario("linker-%d" % f, fill(LD, n=2 if q else 3, first=f)))
    out.append(Scenario("linker-4", fill(LD, n=4 if q else 5, first='(int[]){0, 4, 8, 12, 3}[sx_choose(2, "c")] * 0 + (int)(i * 5 %% 16)'.replace("%%", "%")))) if 0 else None
    out.append(Scenario("unknown", UNK))
    out.append(Scenario("incomplete", MISS))
    out.append(Scenario("standard", STD))
    out.append(Scenario("pic", PIC))
    out.append(Scenario("no-effect", fill(SAME, src="p.c")))
    out.append(Scenario("same-behaviour", GDB))
    return out
