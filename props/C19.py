"""Determinism: the same input compiled twice, with other contents of fresh memory and other addresses, and after other files."""
import random
import re

import c18
from C17 import SEEDS
from C18 import ORACLE, cstr, lit
from sxlib import Scenario

LEVEL = "model_checking"
BOUNDS = {
    "programs": "the seed programs of C17 and a corpus that uses every kind of section, symbol, relocation and literal, with integer constants standing for every value; the valid programs of the families of C18 (quick: a rotating eighth)",
    "modes": "-c, -S, -E, -dot with -O0, -O1, -fPIC, -fno-common, -std=c89, c99 and c11",
    "memory": "every content of memory that malloc, realloc and the stack hand out; heap addresses ascending in one run and descending in the other",
    "order": "each ordered pair of corpus files on one command line, the second and the first compared with the same file compiled alone",
}
ASSUMPTIONS = ["__DATE__ and __TIME__ are not used", "addresses take two values per object, not all"]
REQUIRE = ["compared", "object", "text"]

CORPUS = {
    "data": 'int a = @0, b; static int c = @1 - 3; const char *s = "short", *t = "a string that is longer than fifteen bytes"; char u[40] = "x"; static char v[7]; extern int e; int *p = &e + 2, *q = &c; void f(int x) { static long n = @1; e = b + x + n++; c = v[1]; }\n',
    "strings": 'const char *f(int i) { static const char *const t[] = { "one", "two", "three, which is a longer string", __FILE__, "" }; return i ? t[i] : __func__; } char g[] = "one" "two"; int h(void) { return sizeof "one" + "a longer string literal 123"[3]; }\n',
    "float": 'double d = 1.5; float f = 2.5f; long double l = 3.5L; double g(double x, float y) { return x * 2.25 + y / 1.5f - (x > 0.5); } long double h(long double x) { return x * 1.25L + 2; } int i(double x) { return (unsigned long) x + -x; }\n',
    "control": 'int f(int n) { int i, s = 0; for (i = 0; i < n; i++) { if (i & 1) continue; if (i == @0) break; switch (i) { case 1: s++; case @1: s += 2; break; default: goto out; } } do s--; while (s > 5); out: return n ? s : n || i && s; }\n',
    "struct": 'struct S { char c; int i; double d; } a = { 1, @0, 2.0 }; union { long l; char c[3]; } b = { 5 }; struct B { unsigned x : 3, y : 14; int z : 20; } q = { 1, 2, 3 }; struct P { char c[3]; } g(struct P p, struct S s) { struct P r = { { 1, 2 } }; a = s; q.y = s.i; return s.i ? p : r; } struct S h(void) { struct S s = { 4 }; return s; }\n',
    "calls": 'int printf(const char *, ...); static int k(int a, int b, int c, int d, int e, int f, int g, double h) { return a + g + (int)h; } int (*p)(int, ...); int f(int x) { return k(x, 2, 3, 4, 5, 6, @0, 8.5) + printf("%d %f\\n", x, 1.5) + p(1, 2.5, x) + x; } static inline int z(void) { return 1; } int w(void) { return z(); }\n',
    "vla": 'int f(int n) { int a[n], b[n][3]; char *p; p = __builtin_alloca(n + 1); a[1] = b[1][2] = n; return sizeof b + a[n - 1] + p[1]; } int g(int n, int a[n]) { int i, s = 0; for (i = 0; i < n; i++) { int t[i + 1]; t[i] = a[i]; s += t[i]; } return s; }\n',
    "variadic": '#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\nint f(int n, ...) { __builtin_va_list ap; int s = 0; va_start(ap, n); while (n--) s += va_arg(ap, int) + va_arg(ap, double) + *va_arg(ap, struct { long a[3]; } *).a; return s; }\n',
    "asm": 'int f(int a) { int r = 1; __asm__ volatile ("addl %1, %0\\n\\tnop" : "=r"(r) : "r"(a), "0"(r) : "cc"); return r; } int g(void) { int x; __asm__ ("movl $5, %0" : "=m"(x)); return x; }\n',
    "common": 'int c1, c2[10]; extern int x1, x2(void); static int s1, s2[5]; char ch; static char sc; double dd; int f(void) { return c1 + c2[3] + x1 + x2() + s1 + s2[2] + ch + sc + (int)dd; } int (*fp)(void) = f, (*fq)(void) = x2; static int unused(void) { return 1; } int *const cp = &s1; char *const cs = (char *)&c2 + 5; unsigned long diff = sizeof c2;\n',
    "types": 'typedef struct L { struct L *next; int v; enum { A, B = @0 & 15, C } e; } L; typedef int (*F)(L *, F_); L *f(L *l, int n) { return n > B ? l->next->next : &l[n]; }\n'.replace(", F_", ""),
    "scopes": 'int a; int f(int a) { { int a = 1; { extern int b; static int c = 2; typedef int a; a d = c; c++; b = d; } } { static int c = 3; return a + c++; } } int g(void) { static int c; return c++ + (int){4} + ((struct { int m; }){ 5 }).m; }\n',
    "macros": '#define F(a, b) a ## b + sizeof #a\n#define G(x, ...) F(x, __VA_ARGS__) + x\n#define H(x) G(x, 2) * __LINE__\nint v = 1 + G(1, 2), w = H(3);\n#undef F\n#define F 7\n#if F > 6 && !defined K\nint z = F;\n#define K\n#endif\n#include "h.h"\nconst char *n = __FILE__;\n#line 100 "renamed file name of some length.c"\nconst char *m = __FILE__; int l = __LINE__;\n',
    "undeclared": 'int f(void) { return undeclared; }\n',
    "tentative": 'int a; int a; static int b; static int b = 4; int c[]; extern int d[5]; int d[5]; int f(void) { extern int a; return a + b + c[0] + d[1] + sizeof d; } int f(void);\n',
    "expressions": 'long f(int a, unsigned b, long c, char d, unsigned short e) { long r = a * @0 + b / (d + 300u) % 7 - (c << 3 >> d) + (a ? b : c) + (e > a) + !d + ~b + -c; r += a && b || c; r ^= (a, d)++ * 0 + 1; return r; }\n'.replace("(a, d)++", "(a, d)"),
    "pointers": 'int a[10], m[3][4], (*p)[4] = m + 1, *q = &m[2][1]; int f(int i, int *r) { return *(a + i) + p[i][1] + (&a[9] - r) + (q > r) + **m + i[a] + *(*(m + i) + 2) + !r; } void *g(char *c, long n) { return c ? c + n : (void *)(n + (long)c); }\n',
    "empty": ';\n',
}
NUL = chr(10)

HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); char *strcpy(char *, const char *); char *strcat(char *, const char *); int strncmp(const char *, const char *, u64);
static char src[20000]; static u64 sn;
static void put(const char *s) { u64 n = strlen(s); memcpy(src + sn, s, n); sn += n; }
struct out { char *d; u64 n; };
static struct out take(const char *path, char *buf) {
  struct out o; static u64 seen[2]; u64 *at = path[0] == '<' ? &seen[path[4] == 'e'] : 0, k = at ? *at : 0; char *d = vf_data(path, &o.n);
  o.d = buf; if (at) *at = o.n; o.n -= k; if (o.n > 190000) d_fail("output too large for the harness");
  if (o.n) memcpy(buf, d + k, o.n);
  if (!at) vf_remove(path);
  return o;
}
static void same(struct out a, struct out b, const char *what) {
  u64 i; if (a.n != b.n) d_fail(what);
  for (i = 0; i < a.n; i++) sx_assert(a.d[i] == b.d[i], what);
}
static char b1[200000], b2[200000], e1[200000], e2[200000];
'''
TWICE = HEAD + r'''
static void twice(const char *opts, const char *result) {
  int r1, r2; struct out o1, o2, x1, x2; static char cmd[300];
  vf_write("p.c", src, sn); d_put("h.h", "int h;\n");
  strcpy(cmd, opts); strcat(cmd, " p.c");
  r1 = d_lacc(cmd); x1 = take("<stderr>", e1); o1 = take(result, b1);
  sx_heap_down(1);
  strcpy(cmd, opts); strcat(cmd, " p.c");
  r2 = d_lacc(cmd); x2 = take("<stderr>", e2); o2 = take(result, b2);
  if (r1 >= 1000 || r2 >= 1000) d_fail("the compiler did not terminate normally");
  if (r1 != r2) d_fail("the exit status differs between two runs");
  same(x1, x2, "the diagnostics differ between two runs");
  if (r1) { sx_cover("rejected"); return; }
  same(o1, o2, "the output differs between two runs");
  sx_cover("compared");
}
'''
MODES = [("-c -o p.o", "p.o"), ("-S -o p.s", "p.s"), ("-E", "<stdout>"), ("-dot", "<stdout>"), ("-c -O1 -o p.o", "p.o"), ("-S -O1", "<stdout>"), ("-c -fPIC -o p.o", "p.o"), ("-c -std=c89 -fno-common -o p.o", "p.o"), ("-S -fPIC -O1 -std=c11 -o p.s", "p.s"), ("-dot -O1", "<stdout>")]
PROGRAM = TWICE + r'''
static const char text[] = %(text)s;
static const char *const mode[] = { %(modes)s }, *const result[] = { %(results)s };
void harness(void) {
  int m = sx_choose(sizeof mode / sizeof *mode, "mode"); u64 n0 = sx_magic(0), n1 = sx_magic(1);
  sx_assume((n0 <= 0x7ffffffful) & (n1 <= 0x7ffffffful) & (n0 != n1)); %(more)s
  put(text); sx_cover(strncmp(result[m], "p.o", 3) ? "text" : "object"); twice(mode[m], result[m]);
}
'''
FAMILY = TWICE + r'''
static const char oracle[] = %(oracle)s;
%(tables)s
void harness(void) {
  int k = 0; u64 i;
%(choose)s
  if (oracle[k] == '?') return;
  put(%(head)s); put(%(pre)s);
%(puts)s
  put(%(post)s);
  sx_cover("object"); twice("-std=%(std)s -c -o p.o", "p.o");
}
'''
ORDER = HEAD + r'''
static const char *const text[] = { %(texts)s };
static const char *const other[] = { %(others)s };
static void file(const char *name, const char *t) { vf_write(name, t, strlen(t)); }
void harness(void) {
  static char cmd[300]; int a = sx_choose(sizeof text / sizeof *text, "this"), b = sx_choose(sizeof other / sizeof *other, "other"), after = sx_choose(2, "after"), r; struct out o1, o2; const char *name = "a file with a name.c";
  name = "a_file_name_that_is_long.c"; %(assume)s
  file(name, text[a]); file("b.c", other[b]); d_put("h.h", "int h;\n");
  strcpy(cmd, "%(mode)s "); strcat(cmd, name); r = d_lacc(cmd);
  if (r >= 1000) d_fail("the compiler did not terminate normally");
  if (r) return;
  o1 = take("%(result)s", b1);
  strcpy(cmd, "%(mode)s b.c"); r = d_lacc(cmd); if (r) return;
  %(keep)s
  strcpy(cmd, "%(mode)s "); strcat(cmd, after ? "b.c " : name); strcat(cmd, " "); strcat(cmd, after ? name : "b.c"); r = d_lacc(cmd);
  if (r >= 1000) d_fail("the compiler did not terminate normally for two files");
  if (r) d_fail("two files that compile separately are rejected together");
  o2 = take("%(result)s", b2);
  %(join)s
  same(o1, o2, "the output depends on another file of the same command line"); sx_cover("compared"); sx_cover("%(kind)s");
}
'''


def numerals(t):
    return re.sub(r"@(\d)", r"770000\1", t)


def literal_free(t):
    return t.replace("@0", "7").replace("@1", "9")


def family(name, first):
    g = c18.G[name]
    slots = [list(s) for s in g["slots"]]
    o = ORACLE[name]
    rest = len(o) // len(slots[0])
    sub = "".join(o[f * rest:(f + 1) * rest] for f in first)
    tables, choose, puts = [], [], []
    for i, s in enumerate(slots):
        if i == 0:
            s = [s[f] for f in first]
        tables.append("static const char *const s%d[] = { %s };" % (i, ", ".join(map(cstr, s))))
        choose.append('  int c%d = sx_choose(%d, "slot%d"); k = k * %d + c%d;' % (i, len(s), i, len(s), i))
        puts.append("  put(s%d[c%d]);" % (i, i))
    if g.get("close"):
        tables.append("static const char *const close[] = { %s };" % ", ".join(cstr(g["close"][f]) for f in first))
        puts.append("  put(close[c0]);")
    choose = [c.split(";")[0] + ";" for c in choose] + ["  " + c.split("; ", 1)[1] for c in choose]
    return FAMILY % {"oracle": "\n".join(cstr(sub[i:i + 2000]) for i in range(0, len(sub), 2000)), "tables": "\n".join(tables), "choose": "\n".join(choose), "puts": "\n".join(puts),
                     "head": lit(g["head"]), "pre": cstr(g["pre"] or ""), "post": cstr(g["post"]), "std": g["std"]}


def scenarios(tier, seed):
    out = []
    thorough = tier == "thorough"
    corpus = dict(CORPUS)
    corpus.update(("seed-" + n, t) for n, t in SEEDS.items())
    for n, t in corpus.items():
        for text in (0, 1):                # numerals are symbolic only where the output does not spell them
            modes = [m for m in MODES if (m[1] != "p.o") == bool(text)]
            sub = literal_free(t) if text else numerals(t)
            out.append(Scenario("twice-%s-%s" % (n, "text" if text else "object"), PROGRAM % {
                "text": lit(sub), "modes": ", ".join(cstr(m[0]) for m in modes), "results": ", ".join(cstr(m[1]) for m in modes), "more": ""}, lacc="pattern"))
    names = list(corpus)
    texts = [literal_free(corpus[n]) for n in names]
    for mode, result, kind in (("-c", "a_file_name_that_is_long.o", "object"), ("-S", "a_file_name_that_is_long.s", "text"), ("-dot", "a_file_name_that_is_long.dot", "text"), ("-c -O1 -fPIC", "a_file_name_that_is_long.o", "object"), ("-E", "a_file_name_that_is_long.i", "text")):
        if mode == "-E":
            continue
        some = list(range(len(texts)))
        if not thorough:
            random.Random(seed * 11 + len(mode)).shuffle(some)
            some = sorted(some[:14])
        chunk = 4
        for i in range(0, len(some), chunk):
            out.append(Scenario("order%s-%d" % (mode.replace(" ", ""), i), ORDER % {
                "texts": ",\n".join(map(cstr, [texts[k] for k in some[i:i + chunk]])), "others": ",\n".join(map(cstr, texts)), "assume": "", "mode": mode, "result": result, "keep": "", "join": "", "kind": kind}, lacc="pattern"))
    rnd = random.Random(seed * 13 + 5)
    for name in c18.G:
        n = len(c18.G[name]["slots"][0])
        per = len(ORACLE[name]) // n
        firsts = list(range(n))
        if not thorough:
            rnd.shuffle(firsts)
            firsts = sorted(firsts[:max(1, min(-(-n // 8), 300 // per))])
        chunk = max(1, 200 // per)
        for i in range(0, len(firsts), chunk):
            out.append(Scenario("family-%s-%d" % (name, firsts[i]), family(name, firsts[i:i + chunk]), lacc="pattern"))
    return out
