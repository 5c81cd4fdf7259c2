"""Conditional groups, includes, #line and source locations against a model of the preprocessor's line structure."""
from sxlib import Scenario
import re


def cstr(a):
    return '"' + "".join({"\n": "\\n", '"': '\\"', "\\": "\\\\", "\1": "\\1\"\"", "?": "\\?"}.get(c, c) for c in a) + '"'


def fill(t, kw):
    return re.sub(r"%\((\w+)\)[sd]", lambda m: str(kw[m.group(1)]), t)


LEVEL = "model_checking"
BOUNDS = {
    "conditional groups": "every sequence of 5 (thorough: 6) lines out of #if, #ifdef, #elif, #else, #endif and text, of 4 lines also with #ifndef, #define, #undef and defined, valid or not, with symbolic digits as conditions; skipped groups filled with up to 5 symbolic bytes",
    "includes": "a header present or absent in each of five directories, three -I directories in every order, included from the main file, from a header in a directory and from -include, by quotes, angle brackets and a macro; guards; 12 levels of nesting",
    "locations": "3 (thorough: 4) segments in sequence out of blank lines, comments, splices, calls of macros over lines, skipped groups, included files and #line with symbolic digits, then __LINE__, __FILE__ or an error",
}
ASSUMPTIONS = [
    "__LINE__ on a logical line made of several physical lines may name any of them",
    "a diagnostic names the line of a token that is followed by another token of the same line",
]
REQUIRE = ["valid", "invalid"]

HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); void *memset(void *, int, u64); char *strcpy(char *, const char *); char *strstr(const char *, const char *); int memcmp(const void *, const void *, u64); int strcmp(const char *, const char *);
#include "refpp.h"
static char src[20000]; static int sn; static PT got[RP_MAX]; static int ng;
static void put(const char *s) { strcpy(src + sn, s); sn += strlen(s); }
static void putn(int n) { char b[12]; int i = 11; b[i] = 0; do b[--i] = '0' + n % 10; while ((n /= 10)); put(b + i); }
static int pick(const char *a) { int c, ok = 0; const char *p; if (a[0] == '0' && a[1] == '1') return '0' + sx_var(1, "digit"); c = sx_var(8, "byte"); for (p = a; *p; p++) ok |= c == (u8)*p; sx_assume(ok); return c; }
static void lexout(void) { u64 len; char *d = vf_data("out.i", &len); if (!d) d_fail("no output"); rp_bad = pn = 0; ng = p_lex(d, d + len, got); if (rp_bad) d_fail("the output cannot be tokenized"); }
static int tokis(int i, const char *s) { int n = strlen(s), k, ok; ok = i < ng && got[i].n == n; for (k = 0; ok && k < n; k++) ok &= pool[got[i].s + k] == s[k]; return ok; }
static int toknum(int i) { int k, v = 0; if (i >= ng) return -1; for (k = 0; k < got[i].n; k++) v = v * 10 + pool[got[i].s + k] - '0'; return v; }
'''

COND = HEAD + r'''
/* text lines are "__LINE__", so the output holds the number of every line that was kept */
static int want[40], nw;
void harness(void) {
  struct { int parent, taken, active, els; } st[12]; int d = 0, i, n = %(n)d, bad = 0, m = %(defd)d, rc, act = 1;
  for (i = 1; i <= n; i++) {
    int k = %(first)s, c;
    switch (k) {
    case 0: put("__LINE__\n"); if (act && !bad) want[nw++] = i; break;
    case 1: c = pick("01"); put("#if "); src[sn++] = c; src[sn] = 0; put("\n"); st[d].parent = act; st[d].els = 0; act = act ? sx_fork(c != '0') : 0; st[d].taken = act; d++; break;
    case 2: put("#ifdef M\n"); st[d].parent = act; st[d].els = 0; act = act && m; st[d].taken = act; d++; break;
    case 3: put("#endif\n"); if (!d) bad = 1; else act = st[--d].parent; break;
    case 4: put("#else\n"); if (!d || st[d - 1].els) bad = 1; else { st[d - 1].els = 1; act = st[d - 1].parent && !st[d - 1].taken; st[d - 1].taken = 1; } break;
    case 5: c = pick("01"); put("#elif "); src[sn++] = c; src[sn] = 0; put("\n"); if (!d || st[d - 1].els) bad = 1; else { if (st[d - 1].parent && !st[d - 1].taken) { act = sx_fork(c != '0'); st[d - 1].taken |= act; } else act = 0; } break;
    case 6: put(m ? "#undef M\n" : "#define M\n"); if (act) m = !m; break;
    case 7: put("#ifndef M\n"); st[d].parent = act; st[d].els = 0; act = act && !m; st[d].taken = act; d++; break;
    case 8: put("#if defined M && M0\n"); st[d].parent = act; st[d].els = 0; act = 0; st[d].taken = act; d++; break;
    case 9: put("#if defined(M)\n"); st[d].parent = act; st[d].els = 0; act = act && m; st[d].taken = act; d++; break;
    }
    if (bad) break;
  }
  if (!bad && %(close)d) while (d) { put("#endif\n"); act = st[--d].parent; i++; }
  if (d) bad = 1;
  if (!bad) { put("__LINE__\n"); want[nw++] = i; }
  d_put("p.c", src);
  rc = d_lacc(%(defd)d ? "-DM -E -o out.i p.c" : "-E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  if (bad) { sx_cover("invalid"); if (!rc) d_fail("unbalanced conditional directives were accepted"); return; }
  sx_cover("valid");
  if (rc) d_fail("balanced conditional directives were rejected");
  lexout();
  sx_assert(ng == nw, "number of lines kept");
  for (i = 0; i < nw; i++) sx_assert(toknum(i) == want[i], "line kept");
}
'''
# what a skipped group holds has no effect, whatever it is
SKIP = HEAD + r'''
static const char *const tmpl[] = { %(tmpl)s }; static const char *const alpha = %(alpha)s;
void harness(void) {
  const char *p; int rc, k = sx_choose(sizeof tmpl / sizeof *tmpl, "template");
  put(%(pre)s);
  for (p = tmpl[k]; *p; p++) { if (*p == '\1') src[sn++] = pick(alpha); else src[sn++] = *p; } src[sn] = 0;
  put(%(post)s);
  d_put("p.c", src); rc = d_lacc("%(opts)s -E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  sx_cover("valid");
  if (rc) d_fail("text in a skipped group was not ignored");
  lexout(); sx_assert(ng == 2, "tokens kept"); sx_assert(tokis(0, "kept"), "tokens kept"); sx_assert(toknum(1) == %(line)d, "line number after a skipped group");
}
'''
# search order
INC = HEAD + r'''
static const char *const dirs[] = { "a", "b", "c", "sub", "." }; static int have[5];
static void mk(int d, int self) { char path[40], text[60]; if (!have[d]) return; if (d == 4) strcpy(path, "x.h"); else { strcpy(path, dirs[d]); strcpy(path + strlen(path), "/x.h"); }
  sn = 0; put("from"); putn(d); put(" __LINE__ __FILE__\n"); d_put(path, src); }
void harness(void) {
  static const char *const perm[] = { "-I a -I b -I c", "-I a -Ic -I b", "-Ib -I a -I c", "-I b/ -I c -Ia", "-I c -I a -I b", "-Ic -Ib -Ia" };
  static const int ord[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int pr = sx_choose(6, "order"), how = %(how)d, form = sx_choose(3, "form"), i, want = -1, rc; char opts[200], path[40]; u64 len; char *e;
  for (i = 0; i < 5; i++) { have[i] = sx_fork(sx_var(1, "present")); mk(i, 0); }
  sn = 0; put("before __LINE__ __FILE__\n");
  if (form == 0) put("#include \"x.h\"\n"); else if (form == 1) put("# include <x.h> /* c */\n"); else put("#define H \"x.h\"\n#include H\n");
  put("after __LINE__ __FILE__\n");
  strcpy(opts, perm[pr]);
  if (how == 0) { d_put("p.c", src); strcpy(opts + strlen(opts), " -E -o out.i p.c"); }
  else if (how == 1) { d_put("sub/m.h", src); d_put("p.c", "#include \"sub/m.h\"\n"); strcpy(opts + strlen(opts), " -E -o out.i p.c"); }
  else if (how == 2) { d_put("sub/p.c", src); strcpy(opts + strlen(opts), " -E -o out.i sub/p.c"); }
  else { d_put("a/m.h", src); d_put("p.c", "#include <m.h>\n"); strcpy(opts + strlen(opts), " -E -o out.i p.c"); }
  if (form != 1) { if (how == 0 && have[4]) want = 4; if ((how == 1 || how == 2) && have[3]) want = 3; if (how == 3 && have[0]) want = 0; }
  if (want < 0) for (i = 0; i < 3 && want < 0; i++) if (have[ord[pr][i]]) want = ord[pr][i];
  rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  if (want < 0) { sx_cover("invalid"); if (!rc) d_fail("a missing header was accepted"); e = vf_data("<stderr>", &len); if (!e || !strstr(e, "x.h")) d_fail("diagnostic does not name the missing header"); return; }
  sx_cover("valid");
  if (rc) d_fail("the header was not found");
  lexout(); sx_assert(ng == 9, "tokens");
  strcpy(path, "from0"); path[4] += want; sx_assert(tokis(3, path), "header found first in the search order"); sx_assert(toknum(4) == 1, "line in the header");
  strcpy(path, how == 0 ? "\"p.c\"" : how == 1 ? "\"sub/m.h\"" : how == 2 ? "\"sub/p.c\"" : "\"a/m.h\"");
  sx_assert(toknum(1) == 1 && tokis(2, path), "location before"); sx_assert(toknum(7) == 3 + (form == 2) && tokis(8, path), "location after the include");
  i = got[5].n; sx_assert(i > 4 && pool[got[5].s + i - 2] == 'h' && pool[got[5].s + i - 3] == '.' && pool[got[5].s + i - 4] == 'x', "__FILE__ in the header");
  if (want == 4 || i > 5) { char w[40]; w[0] = '"'; strcpy(w + 1, want == 4 ? "" : dirs[want]); if (want != 4) strcpy(w + strlen(w), "/"); strcpy(w + strlen(w), "x.h\""); sx_assert(tokis(5, w), "__FILE__ in the header"); }
}
'''
# locations
LOC = HEAD + r'''
static int line = 1; static const char *file = "p.c"; static char want[60];
static void nl(void) { put("\n"); line++; }
static void seg(int k) {
  int a;
  switch (k) {
  case 0: nl(); break;
  case 1: put("/* x\n y\n*/"); line += 2; nl(); break;
  case 2: put("int a\\\nb;"); line++; nl(); break;
  case 3: put("M(int\n,\nc)"); line += 2; nl(); break;
  case 4: put("#if 0\nit's /* \n */ skipped\n#else\nint d;\n#endif"); line += 5; nl(); break;
  case 5: put("#include \"h.h\""); nl(); break;
  case 6: put("#line "); a = sx_var(8, "digit"); sx_assume((a >= '0') & (a <= '9')); src[sn++] = '1' + %(d)d; src[sn++] = a; src[sn] = 0; put("\n"); line = 10 + 10 * %(d)d + (a - '0'); break;
  case 7: put("#line 7 \"other.c\"\n"); line = 7; file = "other.c"; break;
  case 8: put("// c \\\n c\n"); line += 2; break;
  case 9: put("#define N \\\n 1 \\\n + 2\n#undef N\n"); line += 4; break;
  case 10: put("int s[sizeof \"a\\\nb\"];"); line++; nl(); break;
  case 11: put("#define L 30 \"l.c\"\n#line L\n"); line = 30; file = "l.c"; break;
  case 12: put("#pragma foo\n_Pragma(\"bar\")\n"); line += 2; break;
  case 13: put("#include \"g.h\""); nl(); break;
  case 14: put("int M (\n\nx /*\n*/ , )"); line += 3; nl(); break;
  case 15: put("#ifdef M\n#include \"h.h\" // c\n#else\n#include \"none.h\"\n#endif\n"); line += 5; break;
  }
}
void harness(void) {
  int i, rc; u64 len; char *e, *o; char b[12];
  d_put("h.h", "int h;\n\n#line 500 \"hh.h\"\nint h;\n"); d_put("g.h", "\n/*\n*/\n#include \"h.h\"\n#if 1\n#line 40\n#endif\n");
  put("#define M(x, y) x y;\n"); line++;
  %(segs)s
  switch (%(how)d) {
  case 0: put("__LINE__ __FILE__\n"); d_put("p.c", src); rc = d_lacc("-std=c99 -E -o out.i p.c"); if (rc) d_fail("rejected"); lexout(); sx_assert(toknum(ng - 2) == line, "__LINE__");
    want[0] = '"'; strcpy(want + 1, file); strcpy(want + strlen(want), "\""); sx_assert(tokis(ng - 1, want), "__FILE__"); sx_cover("valid"); return;
  case 1: put("int z = undeclared + 1;\nint y;\n"); break;
  case 2: put("#error message\n"); break;
  case 3: put("int z = (3 } 4);\n"); break;
  }
  d_put("p.c", src); vf_remove("<stderr>"); rc = d_lacc("-std=c99 -c -o out.o p.c");
  if (rc >= 1000) d_fail("the compiler did not terminate normally"); if (!rc) d_fail("accepted");
  line = sx_concretize(line);
  sn = 0; put("("); put(file); put(", "); putn(line); put(") error: "); e = vf_data("<stderr>", &len); if (!e) d_fail("no diagnostic"); o = strstr(e, " error: "); while (o && o > e && o[-1] != '\n') o--;
  if (!o || memcmp(o, src, sn)) d_fail("the diagnostic does not name the right location");
  sx_cover("invalid");
}
'''
NEST = HEAD + r'''
/* include chains, guards, and a header included twice with different macros */
void harness(void) {
  int n = 1 + sx_choose(12, "depth"), i, rc; char name[16];
  for (i = 0; i < n; i++) { sn = 0; put("#ifndef G"); putn(i); put("\n#define G"); putn(i); put("\nb"); putn(i); put("\n"); if (i + 1 < n) { put("#include \"n"); putn(i + 1); put(".h\"\n"); } put("#include \"n0.h\"\n"); put("e"); putn(i); put(" __LINE__\n#endif\n"); strcpy(name, "n0.h"); if (i < 10) name[1] += i; else { name[1] = '1'; name[2] = '0' + i - 10; strcpy(name + 3, ".h"); } d_put(name, src); }
  d_put("t.h", "#ifdef A\nA\n#else\nnone\n#endif\n#undef A\n");
  d_put("p.c", "#include \"n0.h\"\n#include \"n0.h\"\n#define A 1\n#include \"t.h\"\n#include \"t.h\"\n#define A 2\n#include \"t.h\"\nend __LINE__\n");
  rc = d_lacc("-E -o out.i p.c"); if (rc) d_fail("rejected");
  lexout(); sx_assert(ng == n * 3 + 5, "tokens");
  for (i = 0; i < n; i++) { sn = 0; put("b"); putn(i); sx_assert(tokis(i, src), "order of included text"); sn = 0; put("e"); putn(n - 1 - i); sx_assert(tokis(n + 2 * i, src) && toknum(n + 2 * i + 1) == (i == 0 ? 5 : 6), "text after an include"); }
  i = 3 * n; sx_assert(tokis(i, "1") && tokis(i + 1, "none") && tokis(i + 2, "2") && tokis(i + 3, "end") && toknum(i + 4) == 8, "header included again");
  sx_cover("valid");
}
'''
# directives whose operands are symbolic
LINED = HEAD + r'''
void harness(void) {
  int i, v = 0, rc, n = %(n)d; static const char *const pre[] = { "", "0", "00", "1234", "21474836" }; put("#line "); i = sx_choose(5, "prefix"); put(pre[i]); v = i == 3 ? 1234 : i == 4 ? 21474836 : 0;
  for (i = 0; i < n; i++) { int c = sx_var(8, "digit"); sx_assume((c >= '0') & (c <= '9')); src[sn++] = c; v = v * 10 + c - '0'; } src[sn] = 0;
  put("\nx __LINE__\n\n__LINE__ __FILE__\n"); d_put("p.c", src); rc = d_lacc("-E -o out.i p.c");
  if (i = sx_fork((v <= 0) | (v > 2147483645))) { sx_cover("invalid"); return; }
  if (rc) d_fail("#line was rejected"); lexout(); sx_assert(tokis(0, "x"), "text"); sx_assert(toknum(1) == v, "__LINE__ after #line"); sx_assert(toknum(2) == v + 2, "__LINE__ after #line"); sx_assert(tokis(3, "\"p.c\""), "__FILE__ after #line"); sx_cover("valid");
}
'''
FORM = HEAD + r'''
static const char *const bad[] = { "#if\nx\n#endif\n", "#ifdef\n#endif\n", "#ifndef 1\n#endif\n", "#if 1 +\n#endif\n", "#if 1 2\n#endif\n", "#if (1\n#endif\n", "#if 0\n#elif\n#endif\n", "#elif 1\n", "#else\n", "#endif\n", "#if 1\n", "#if 1\n#else\n", "#if 0\n#if 1\n#endif\n",
  "#include\n", "#include x\n", "#include \"p\n", "#include <x\n", "#line\n", "#line x\n", "#line 0x10\n", "#line 1 x\n", "#undef\n", "#define\n", "#define 1\n", "#error\n", "#error it is\n", "#unknown\n", "#if 1\n#else\n#elif 1\n#endif\n", "#if 1\n#else\n#else\n#endif\n", "#include \"u.h\"\n#endif\n", "#if 1\n#include \"v.h\"\n", "#if 1.0\n#endif\n", "#if \"a\"\n#endif\n", "#if defined\n#endif\n", "#if defined(M\n#endif\n", "#undef 1\n" };
static const char *const good[] = { "#\nx\n", "# /* c */\nx\n", " # if 1 // c\nx\n#endif // c\n", "#if 0\n#unknown\n#error no\n#include \"none\"\n#line zero\n#if (\n#elif (\n#else x\n#endif\n#elif 1\nx\n#endif\n", "#if 1\nx\n#elif 1/0 (\ny\n#else\n#endif\n", "#ifndef M\nx\n#else\n#endif\n", "#define M\n#ifdef M\nx\n#endif\n", "#define if_ 1\n#define line 3\n#define elif_ 0\n#line 5\n#if if_\nx\n#endif\n", "/* */ #if 1\nx\n/* */ # /* */ endif\n", "#define E\n#if 1 E\nx\n#endif\n", "#define D defined\nx\n",
  "#define I \"w.h\"\n#include I\n", "#define I <w.h>\n#include I\n", "#define S(x) #x\n#include S(w.h)\n", "#include \"w.h\" // c\n", "#include \"w.h\" /* c\n*/\n", "#if 1\n#include \"w.h\"\n#endif\n", "#pragma once\nx\n", "#if 0\n' \" /* */\n#endif\nx\n", "#if 0 /*\n#endif\n*/\n#else\nx\n#endif\n" };
void harness(void) {
  int b = sx_choose(2, "valid"), rc; u64 len; const char *p; int k = sx_choose(b ? sizeof good / sizeof *good : sizeof bad / sizeof *bad, "text"); char *e;
  d_put("u.h", "#if 0\n"); d_put("v.h", "#endif\n"); d_put("w.h", "x\n"); d_put("./w.h", "x\n");
  p = b ? good[k] : bad[k]; d_put("p.c", p); vf_remove("<stderr>"); rc = d_lacc(b ? "-I. -E -o out.i p.c" : "-E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  if (b) { if (rc) d_fail("valid directives were rejected"); lexout(); if (ng == 6 && 0) return; sx_assert(ng >= 1 && tokis(ng - 1, "x"), "text kept"); sx_cover("valid"); }
  else { e = vf_data("<stderr>", &len); if (!rc) d_fail("an invalid directive was accepted"); if (!e || !strstr(e, "error:")) d_fail("no diagnostic"); sx_cover("invalid"); }
}
'''


def scenarios(tier, seed):
    out = []
    n = 5 if tier == "quick" else 6
    ch = 10
    for f in (0, 1, 2):
        out.append(Scenario("groups6-%d" % f, fill(COND, {"n": n, "first": "i == 1 ? %d : sx_choose(6, \"line\")" % f, "defd": 1, "close": 1})))
    out.append(Scenario("groups10", fill(COND, {"n": n - 1, "first": "i == 1 ? 6 + sx_choose(4, \"first\") : sx_choose(10, \"line\")", "defd": 0, "close": 1})))
    for f in (0, 1, 2, 6, 7, 8, 9) if tier == "thorough" else ():
        out.append(Scenario("groups-%d" % f, fill(COND, {"n": n, "first": "i == 1 ? %d : sx_choose(%d, \"line\")" % (f, ch), "defd": 0, "close": 1})))
    for f in (1, 2) if tier == "thorough" else ():
        out.append(Scenario("groups-nested-%d" % f, fill(COND, {"n": n + 1, "first": "i == 1 ? %d : i == 2 ? 1 : sx_choose(6, \"line\")" % f, "defd": 1, "close": 1})))
    out.append(Scenario("groups-open", fill(COND, {"n": 4, "first": "sx_choose(6, \"line\")", "defd": 0, "close": 0})))
    def skip(name, t, alpha, pre, post, line, opts="-std=c99"):
        out.append(Scenario(name, fill(SKIP, {"tmpl": cstr(t.replace("@", "\1")), "alpha": cstr(alpha), "pre": cstr(pre), "post": cstr(post), "line": line, "opts": opts})))
    m = 4 if tier == "quick" else 6
    E = "\n#endif\nkept __LINE__\n"
    skip("skipped-quotes", "@" * m + "\n", "'\"x #(\\<", "#if 0\n", E.replace("\n", "z\n", 1), 5)
    skip("skipped-directive", "#@@@@\n", "ix dens'(", "#if 0\n", "#endif\nkept __LINE__\n", 4)
    skip("skipped-directive2", "#@nd@ @\n", "xf 'e(\"", "#if 0\n", "#endif\nkept __LINE__\n", 4)
    skip("skipped-elif-operand", "#elif @@@\n", "1(/x +", "#if 1\nkept __LINE__\n", "#endif\n", 2)
    skip("skipped-else-text", "@@@@\n", "'\"x#(", "#if 1\nkept __LINE__\n#else\n", "#endif\n", 2)
    skip("skipped-nested-if", "#if @@@\n#elif @\n#else @\n#endif @\n", "1('x \"", "#if 0\n", "#endif\nkept __LINE__\n", 7)
    for how in range(4):
        out.append(Scenario("include-%d" % how, fill(INC, {"how": how})))
    # six segments of the set of 16, the last ones chosen
    S = 16
    k = 2 if tier == "quick" else 3
    for how in range(4):
        for f in range(0, S, 4):
            segs = "for (i = 0; i < %d; i++) seg(%s);" % (k + 1, "i ? sx_choose(%d, \"segment\") : %d + sx_choose(4, \"segment\")" % (S if how == 0 or tier == "thorough" else S, f))
            out.append(Scenario("location-%d-%d" % (how, f), fill(LOC, {"segs": segs, "how": how, "d": f // 4})))
    out.append(Scenario("nested-includes", NEST))
    out.append(Scenario("line-digits", fill(LINED, {"n": 2})))
    out.append(Scenario("directive-forms", FORM))
    return out
