"""Arbitrary bytes and tokens at every position of seed programs: the compiler ends normally."""
import re

from sxlib import Scenario


def cstr(a):
    return '"' + "".join({"\n": "\\n", '"': '\\"', "\\": "\\\\", "\t": "\\t", "?": "\\?"}.get(c, c) for c in a) + '"'


def lit(a):
    return "\n".join(cstr(l) for l in a.splitlines(True))


LEVEL = "model_checking"
BOUNDS = {
    "seeds": "20 seed programs that together use every grammar production and directive",
    "bytes": "every value of one byte put in place of the first byte of every token (thorough: in place of, before, or last before the end of the file, at every position)",
    "tokens": "every token deleted, duplicated, preceded by its successor, made the last of the file, or replaced by (thorough: also preceded by) each of 59 tokens",
    "modes": "-c, -E for the preprocessor's seeds (thorough: -c, -S, -E and -dot for all)",
    "objects": "objects of up to 256 MB; the compiler takes time linear in the size of an initialized array",
}
ASSUMPTIONS = ["memory errors are those clang's address, bounds, null, divide-by-zero, unreachable, vla-bound and return checks or the executor's own object bounds detect", "assert() failures count as crashes"]
REQUIRE = ["accepted", "rejected"]

HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); char *strcpy(char *, const char *); char *strcat(char *, const char *); char *strstr(const char *, const char *);
static char src[8000]; static int sn;
static void run(const char *opts) {
  d_put("h.h", "int h;\n");
  { int rc; u64 n; char *d; vf_write("p.c", src, sn); rc = d_lacc(opts);
  if (rc >= 1000) d_fail("the compiler did not terminate normally");
  if (!rc) { sx_cover("accepted"); return; }
  sx_cover("rejected"); if (rc > 127) d_fail("exit status"); d = vf_data("<stderr>", &n); if (!n) d_fail("failure without a diagnostic"); }
}
'''
BYTE = HEAD + r'''
static const char text[] = %(text)s;
static const short pos[] = { %(pos)s };
void harness(void) {
  int at = pos[sx_choose(sizeof pos / sizeof *pos, "position")], how = %(how)s, c;
  memcpy(src, text, at); sn = at;
  c = sx_var(8, "byte"); src[sn++] = c;
  if (how == 0 && at < (int)sizeof text - 1) at++;
  if (how == 2) src[sn++] = '\n'; else { memcpy(src + sn, text + at, sizeof text - 1 - at); sn += sizeof text - 1 - at; }
  run("%(opts)s");
}
'''
TOKEN = HEAD + r'''
static const char *const tk[] = { %(toks)s };
static const short pos[] = { %(pos)s };
static const char *const pool[] = { %(pool)s };
static void put(const char *s) { u64 n = strlen(s); memcpy(src + sn, s, n); sn += n; }
void harness(void) {
  int i, k = sx_choose(sizeof pos / sizeof *pos, "token"), at = pos[k], how = sx_choose(%(n)d, "how"), j;
  if (how >= 4) { j = how - 4; }
  for (i = 0; i < (int)(sizeof tk / sizeof *tk); i++) {
    if (i == at) {
      if (how == 0) continue;                       /* delete */
      if (how == 1) { put(tk[i]); put(" "); }       /* duplicate */
      if (how == 2 && k + 1 < (int)(sizeof pos / sizeof *pos)) { put(tk[pos[k + 1]]); put(" "); } /* repeat the next one before */
      if (how == 3) { put("\n"); break; }            /* end of file */
      if (how >= 4) { put(%(sep)s); put(pool[j]); put(%(sep)s); %(skip)s }
    }
    put(tk[i]);
  }
  run("%(opts)s");
}
'''
TOKENS = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|[A-Za-z_]\w*|\.?\d(?:[eEpP][-+]|[\w.])*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|<<=|>>=|\.\.\.|[-+*/%&|^=<>!]=|&&|\|\||\+\+|--|->|<<|>>|##|.', re.S)
POOL = "( ) { } [ ] ; : , . = * & - ! ++ -> ? ... < / # ## int void char double struct union enum typedef static extern const register inline return if else while do for goto case default break sizeof _Alignof _Static_assert x a f s S 0 1 2.5 \"z\" 'c' \n".split(" ")
SEEDS = {
    "decl": "typedef unsigned long T;\nstatic const T x = 3, *p, a[2] = {1, 2};\nextern int (*f)(int, char *[4]);\nvoid (*g(int n, ...))(void), h();\n",
    "struct": "struct S { int a : 3; union { char b[2]; float c; }; struct S *n; } s = { 1, {{2}} };\nenum E { A = 1, B = A + 2, };\nstruct S q[] = { [1] = { .a = 2 }, s2, { .n = &s } };\n",
    "func": "int f(int a, ...) {\n int i = a; for (; i < 9; i++) { if (i & 1) continue; else break; }\n return i ? a : -i; }\n",
    "oldfunc": "int f(a, p) int a; char *p; { register int b; return a + *p; }\ninline static void v(void) { return; }\n_Noreturn void w(int [static 3], char c[]);\n",
    "switch": "int g(char c) { do { switch (c) { case 'a': c++; case 2: goto x; default: return 1; } } while (c--);\nx: return 0; }\n",
    "expr": "int x, *p, a[3]; double d;\nint e(int n) { x = n * 2 + (n << 3) % 7; *p++ += a[1]--, d /= 2.5e1; return sizeof(int *[2]) | ~x ^ !d && p == &a[n] || (char)x >= -0x1F; }\n",
    "member": "struct P { int x; struct { short y; } z[2]; } g, *h; int k(struct P q) { struct P r = q; h->z[1].y = r.x; return (&g)->z->y + ((struct P){ 1 }).x + r.z[0].y; }\n",
    "call": "int f(int, double), v(const char *, ...); int (*fp)(int, double) = f; int c(void) { v(\"a%d\", f(1, 2), 3.0f); return (*fp)(c(), 1) + (f)(2, 3); }\n",
    "string": "char s[] = \"a\\n\\x41\\101\\\"\" \"b\", *t = \"\\0z\", u[2] = \"xy\"; int c = '\\'' + '\\\\' + 'q'; char w[3] = { \"k\" };\n",
    "number": "int a = 0x1fUL, b = 017, c = 1.5e-3f > .5L, d = 2147483648, e = 0xffffffffu; double z = 1e308, y = 0x1.8p3;\n",
    "vla": "int f(int n) { int a[n][n + 1], (*p)[n] = a; n = sizeof a; { char b[n]; b[0] = 1; } return a[1][n] + p[0][1] + sizeof(int[n]); }\n",
    "builtin": "typedef __builtin_va_list L; int f(int n, ...) { L l, m; __builtin_va_start(l, n); __builtin_va_copy(m, l); n = __builtin_va_arg(l, int) + __builtin_va_arg(m, struct { double d; }).d; __builtin_va_end(l); return n; }\n",
    "c11": "_Static_assert(sizeof(int) == 4, \"m\"); _Alignas(16) char c; int a = _Alignof(double) + __builtin_offsetof(struct { int a; char b[3]; }, b[1]); _Bool b = 2;\n",
    "asm": "int f(int a) { int r; __asm__ volatile (\"addl %1, %0\" : \"=r\"(r) : \"r\"(a), \"0\"(r) : \"cc\"); return r; }\n",
    "scope": "int a; int f(int a) { { int a = 1; { extern int b; static int c = 2; typedef int a; a d = c; } } for (int i = 0; i < 2; i++) ; return a; }\n",
    "const": "enum { A = 1 ? 2 : 3 / 0, B = (int)2.5 }; int x[A + B], y = (1 && 0) || -1 > 0u, *p = &x[2] + 1; char c = (char)300; static int z[sizeof x / sizeof *x] = { 1, 2 };\n",
    "define": "#define F(a, b) a ## b + #a b\n#define G(x, ...) F(x, __VA_ARGS__) x\n#define E\nint v = 1 G(1, 2 E); F(, ) F(3\n, 4)\n#undef F\n",
    "if": "#define A 2\n#if defined A && (A > 1 ? 1 : 0) && !defined(B) || A << 2 / 1\nint a;\n#elif 0\n#else\n#endif\n#ifndef A\n\"\n#endif\n",
    "directive": "#include \"h.h\"\n#include <h.h>\n#line 7 \"x\"\n#pragma x y\n#\nint a = __LINE__; _Pragma(\"z\")\n#ifdef X\n#error no\n#endif\n",
    "splice": "int a\\\n b; /* c\n*/ // d\\\n e\nint c = '??/'' + 1; ??= define Z\n%: undef Z\nint <:2:>;\n",
}


PP = ("define", "if", "directive", "splice")


def tokens(t):
    toks = TOKENS.findall(t)
    assert "".join(toks) == t
    at, starts, word = 0, [], []
    for i, k in enumerate(toks):
        if not k.isspace() or "\n" in k:
            starts.append(at)
            word.append(i)
        at += len(k)
    return toks, starts, word


def scenarios(tier, seed):
    out = []
    thorough = tier == "thorough"
    for name, t in SEEDS.items():
        toks, starts, word = tokens(t)
        pp = name in PP
        pool = ",".join(cstr(p.replace("\\n", "\n")) for p in POOL)
        for mode in ("-c", "-S", "-E", "-dot") if thorough else ("-E" if pp else "-c",):
            skips = (("replace", "continue;"), ("insert", "")) if thorough else (("replace", "continue;"),)
            for what, skip in skips:
                out.append(Scenario("%s-token-%s%s" % (name, what, mode), TOKEN % {
                    "toks": ",".join(map(cstr, toks)), "pos": ",".join(map(str, word)), "pool": pool, "n": 4 + len(POOL),
                    "sep": '" "', "skip": skip, "opts": mode + " -o p.o p.c"}, lacc="asan"))
        for how, hn in ((0, "replace"), (1, "insert"), (2, "truncate")) if thorough else ((0, "replace"),):
            pos = range(len(t) + 1) if thorough else starts
            out.append(Scenario("%s-byte-%s" % (name, hn), BYTE % {
                "text": lit(t), "pos": ",".join(map(str, pos)), "how": how, "opts": ("-E" if pp else "-c") + " -o p.o p.c"}, lacc="asan"))
    return out
