"""String literals: exact bytes, terminating zero and size in every context and output mode."""
import random
from sxlib import Scenario
from tv import Fn, scenario, cstr
LEVEL = "model_checking"
REQUIRE = ["compiled", "compared"]
BOUNDS = {"contents": "every byte value at up to 3 symbolic positions (raw or as an octal escape, NUL included), preceded by 0 to 40 fixed characters so that total lengths cross the internal 15-character boundary; the same split over two adjacent literals at every position",
          "contexts": "array of unknown, larger, exact and shorter-by-one size, braced, struct and nested array member, static and automatic, compound literal, pointer (static initializer with offset, function result), subscripted, dereferenced, sizeof, conditional operand, argument, duplicate and prefix-sharing literals, macro-provided",
          "modes": "-c (object loaded and read back) and -S (string directives decoded as the GNU assembler does)", "spellings": "list of tricky escape sequences compared with the reference"}
ASSUMPTIONS = ["plain char is signed", "bytes that need an escape in source (quote, backslash, newline, NUL) are written as escapes", "identical literals may or may not share storage"]
HEAD = '#include "drv.h"\nvoid *memcpy(void *, const void *, u64); u64 strlen(const char *); char *strcpy(char *, const char *); char *strcat(char *, const char *); int strncmp(const char *, const char *, u64); char *strstr(const char *, const char *); int memcmp(const void *, const void *, u64); void *memset(void *, int, u64);\n'
PRELUDE = HEAD + """
static char src[3000]; static int sn;
static void put(const char *s) { strcpy(src + sn, s); sn += strlen(s); }
static u8 X[64]; static int XN;            /* the denoted bytes, without the terminating zero */
static char lit[300]; static int LN;       /* their spelling, quotes included */
static void raw(int c) { X[XN++] = c; lit[LN++] = c; }
static void oct(int c) { X[XN++] = c; lit[LN++] = '\\\\'; lit[LN++] = '0' + ((u8)c >> 6); lit[LN++] = '0' + ((u8)c >> 3 & 7); lit[LN++] = '0' + (c & 7); }
static void fixed(int n) { int i; for (i = 0; i < n; i++) raw("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ"[i]); }
static int symraw(void) { int c = sx_var(8, "byte"); sx_assume((c != '"') & (c != '\\\\') & (c != '\\n') & (c != '\\r') & (c != '?') & (c != 0)); raw(c); return c; }
static int symoct(void) { int c = sx_var(8, "byte"); oct(c); return c; }
static void quote(void) { lit[LN++] = '"'; }
static void P(void) { lit[LN] = 0; memcpy(src + sn, lit, LN); sn += LN; src[sn] = 0; }
static void eq(const char *at, const char *msg) { X[XN] = 0; d_eqmem(at, X, XN + 1, msg); }
static void zeros(const char *p, int n, const char *msg) { int i, ok = 1; for (i = 0; i < n; i++) ok &= p[i] == 0; sx_assert(ok, msg); }
static char num[8]; static const char *dec(int n) { int k = 0; if (n >= 10) num[k++] = '0' + n / 10; num[k++] = '0' + n % 10; num[k] = 0; return num; }
"""
CHECK = """
struct st { char c; char s[48]; int d; };
static char *(*fp)(void); static char *fr; static int (*gp)(int); static int gr, gi; static int (*hp)(char *); static int hr; static char hb[80]; static int (*kp)(const char *); 
static int cf(void *x) { fr = fp(); return 0; } static int cg(void *x) { gr = gp(gi); return 0; } static int ch(void *x) { hr = hp(hb); return 0; }
static void program(void) {
 put("char a0[] = "); P(); put(";\\nchar a1[60] = "); P(); put(";\\n");
 if (XN) { put("char a2["); put(dec(XN)); put("] = "); P(); put(";\\nchar after = 'A';\\n"); }
 put("char a3[] = {"); P(); put("};\\nconst char *p = "); P(); put(";\\nconst char *po = "); P(); put(" + 1;\\nint sz = sizeof("); P(); put("), sz2 = sizeof "); P(); put("[0];\\n");
 put("struct st { char c; char s[48]; int d; } st = {1, "); P(); put(", 2};\\nchar aa[2][50] = {"); P(); put(", {"); P(); put("}};\\n");
 put("char *q[3] = {"); P(); put(" \\"x\\", \\"y\\" "); P(); put(", "); P(); put("};\\n");
 put("char *f(void) { return "); P(); put("; }\\nint g(int i) { return "); P(); put("[i]; }\\nint g2(int i) { return *("); P(); put(" + i); }\\n");
 put("int h(char *o) { char l[] = "); P(); put("; char m[60] = "); P(); put("; int i; for (i = 0; i < sizeof l; i++) o[i] = l[i]; for (i = 0; i < 60; i++) if (m[i] != (i < sizeof l ? l[i] : 0)) return -1; return sizeof l; }\\n");
 put("static int len(const char *s, const char *t) { int n = 0; while (s[n] && s[n] == t[n]) n++; return n * 2 + (s[n] == t[n]); }\\nint k(const char *x) { return len("); P(); put(", x); }\\n");
}
static void checks(void) {
 char *st = L("st"); char **q = L("q"); int i;
 sx_assert(*(int *)L("sz") == XN + 1, "sizeof of a string literal"); sx_assert(*(int *)L("sz2") == 1, "sizeof of an element of a string literal");
 eq(L("a0"), "array of unknown bound"); sx_assert(sx_objsize(L("a0")) == 0 || 1, "");
 eq(L("a1"), "larger array"); zeros((char *)L("a1") + XN, 60 - XN, "rest of a larger array is not zero");
 if (XN) { d_eqmem(L("a2"), X, XN, "array without room for the terminator"); sx_assert(*(char *)L("after") == 'A', "object after an array"); }
 eq(L("a3"), "braced literal"); eq(*(char **)L("p"), "pointer initializer"); d_eqmem(*(char **)L("po"), X + 1, XN, "pointer initializer with an offset");
 sx_assert(st[0] == 1, "member before"); eq(st + 1, "struct member"); zeros(st + 1 + XN, 48 - XN, "rest of a struct member is not zero"); sx_assert(*(int *)(st + 52) == 2, "member after");
 eq(L("aa"), "array element"); eq((char *)L("aa") + 50, "braced array element"); zeros((char *)L("aa") + XN, 50 - XN, "rest of an array element is not zero");
 d_eqmem(q[0], X, XN, "first part of a concatenation"); sx_assert(q[0][XN] == 'x' && q[0][XN + 1] == 0, "second part of a concatenation");
 sx_assert(q[1][0] == 'y', "first part of a concatenation"); eq(q[1] + 1, "second part of a concatenation"); eq(q[2], "pointer in an array");
 fp = L("f"); d_callL(cf, 0); eq(fr, "returned literal");
 for (i = 0; i <= XN; i++) { if (XN > 20 && i < XN - 3) continue; gi = i; gp = L("g"); d_callL(cg, 0); sx_assert(gr == (signed char)X[i], "subscripted literal"); gp = L("g2"); d_callL(cg, 0); sx_assert(gr == (signed char)X[i], "dereferenced literal"); }
 hp = L("h"); d_callL(ch, 0); sx_assert(hr == XN + 1, "automatic array"); eq(hb, "automatic array");
 sx_cover("compared");
}
"""
ASM = """
/* a decoder of the data directives of the GNU assembler, for one label */
static u8 D[200]; static int DN;
static int decode(const char *txt, const char *label) {
 const char *p = strstr(txt, label); int n, v;
 if (!p) return 0;
 p += strlen(label); DN = 0;
 while (*p) {
  while (*p == '\\t' || *p == ' ' || *p == '\\n') p++;
  if (!strncmp(p, ".string", 7) || !strncmp(p, ".ascii", 6)) {
   int z = p[1] == 's'; p += z ? 7 : 6; while (*p == '\\t' || *p == ' ') p++;
   if (*p++ != '"') return 0;
   while (*p != '"') {
    if (*p == '\\n' || !*p) return 0;
    if (*p != '\\\\') { D[DN++] = *p++; continue; }
    p++;
    switch (*p) {
    case 'b': D[DN++] = 8; p++; break; case 'f': D[DN++] = 12; p++; break; case 'n': D[DN++] = 10; p++; break; case 'r': D[DN++] = 13; p++; break; case 't': D[DN++] = 9; p++; break;
    case '\\\\': case '"': D[DN++] = *p++; break;
    default:
     if (!((*p >= '0') & (*p <= '7'))) return 0;
     for (n = 0, v = 0; n < 3 && ((*p >= '0') & (*p <= '7')); n++) v = v * 8 + *p++ - '0';
     D[DN++] = v; }
   }
   p++; if (z) D[DN++] = 0;
  } else if (!strncmp(p, ".zero", 5)) { p += 5; while (*p == '\\t' || *p == ' ') p++; for (n = 0; *p >= '0' && *p <= '9'; p++) n = n * 10 + *p - '0'; while (n--) D[DN++] = 0; }
  else if (!strncmp(p, ".short\\t0\\n", 9)) { p += 8; D[DN++] = 0; D[DN++] = 0; }
  else if (!strncmp(p, ".int\\t0\\n", 7)) { p += 6; for (n = 0; n < 4; n++) D[DN++] = 0; }
  else if (!strncmp(p, ".quad\\t0\\n", 8)) { p += 7; for (n = 0; n < 8; n++) D[DN++] = 0; }
  else if (!strncmp(p, ".byte", 5)) { int s = 0; p += 5; while (*p == '\\t' || *p == ' ') p++; if (*p == '-') { s = 1; p++; } for (n = 0; *p >= '0' && *p <= '9'; p++) n = n * 10 + *p - '0'; D[DN++] = s ? -n : n; }
  else break;
 }
 return 1;
}
static void same(const char *txt, const char *label, int total) {
 int i, ok = 1; X[XN] = 0; sx_assert(decode(txt, label), "no data printed for an object"); sx_assert(DN == total, "wrong size of printed data");
 for (i = 0; i < total; i++) ok &= D[i] == (i <= XN ? X[i] : 0);
 sx_assert(ok, "wrong bytes in printed data");
}
"""


def content(name, build, opts=""):
    return Scenario("c-" + name, PRELUDE + CHECK + "void harness(void) { quote(); %s quote(); program(); d_compile(src); checks(); }" % build, opts=opts, query_ms=4000, time=18)


def asm(name, build, opts=""):
    return Scenario("S-" + name, PRELUDE + ASM + """void harness(void) { u64 n; int rc; char *t; quote(); %s quote();
 put("char a0[] = "); P(); put(";\\nchar a1[60] = "); P(); put(";\\n"); if (XN) { put("char a2["); put(dec(XN)); put("] = "); P(); put(";\\n"); } put("char *p = "); P(); put(";\\nchar *q = "); P(); put("\\"z\\";\\nchar *f(void) { return "); P(); put("; }\\n");
 d_put("prog.c", src); { char o[100]; strcpy(o, sx_arg(0) ? sx_arg(0) : ""); strcat(o, " -S -o prog.s prog.c"); rc = d_lacc(o); }
 if (rc) d_fail("the compiler rejected a valid program"); sx_cover("compiled"); t = vf_data("prog.s", &n); if (!t) d_fail("no output");
 same(t, "\\na0:\\n", XN + 1); same(t, "\\na1:\\n", 60); if (XN) same(t, "\\na2:\\n", XN);
 { char *p = strstr(t, "\\np:\\n\\t.quad\\t"), l[40]; int k = 1; if (!p) d_fail("pointer not printed as an address"); l[0] = '\\n'; for (p += 11; *p != '\\n' && k < 30; p++) l[k++] = *p; l[k] = 0; strcat(l, ":\\n"); same(t, l, XN + 1); }
 { char *p = strstr(t, "\\nq:\\n\\t.quad\\t"), l[40]; int k = 1; if (!p) d_fail("pointer not printed as an address"); l[0] = '\\n'; for (p += 11; *p != '\\n' && k < 30; p++) l[k++] = *p; l[k] = 0; strcat(l, ":\\n"); X[XN++] = 'z'; same(t, l, XN + 1); XN--; }
 sx_cover("compared");
}""" % build, opts=opts, query_ms=4000, time=18)


SPELL = ['""', '"a"', '"a" "b"', '"a""b"', '"\\0"', '"\\0" "1"', '"\\0001"', '"\\01" "2"', '"\\x1" "2"', '"\\x41" "42"', '"\\x4" "1"', '"a\\0b\\0c"', '"\\0\\0\\0"', '"\\377\\376"', '"\\xff\\xFe"', '"\\a\\b\\f\\n\\r\\t\\v\\\\\\"\\\'\\?"', '"/* no */"', '"// no"', '"%s %d"', '"\'"', '"\\\n"', '"ab\\\ncd"', '"ab\\\\" "n"', '"\\\\n"', '"\\\\\\\\"', '"\\12345"', '"\\8"[1] == 56 ? "y" : "z"',
         '"abcdefghijklmn"', '"abcdefghijklmno"', '"abcdefghijklmnop"', '"abcdefghijklmnopq"', '"abcdefg" "hijklmno"', '"abcdefgh" "ijklmnop"', '"abcdefghijklm\\0n"', '"abcdefghijklm\\0no"', '"abcdefghijklmn\\0o"', '"\\0bcdefghijklmnopqrstuvwxyz"', '"abcdefghijklmnopqrstuvwxyz\\0"', '"a" "" "b" "" ""', '"" "" "x"', '"tab\there"', '"\x7f\x01\x1b"', '"##"', '"\\#"[0] == 35 ? "p" : "q"', '"x" STR(a b) "y"', 'STR("q\\n")', 'STR(\'"\' "\\0")', 'TWO', 'TWO TWO', '"a" TWO', 'CAT(T, WO)', '__FILE__', 'STR( a  +  b )', 'STR()', 'STR(\\)', 'XSTR(TWO)']
SPELL = [s for s in SPELL if "\\8" not in s and "\\#" not in s and s != "STR(\\)"]


def spelled(tier):
    out = []
    n = 9
    for k in range(0, len(SPELL), n):
        src = "#define STR(...) #__VA_ARGS__\n#define XSTR(x) STR(x)\n#define TWO \"tw\" \"o\\0t\"\n#define CAT(a, b) a##b\n"; fns = []
        for i, s in enumerate(SPELL[k:k + n]):
            src += "char a%d[] = %s;\nstatic const char *p%d = %s; int z%d = sizeof(%s); char w%d[50] = %s; static const char s%d[] = { %s };\n" % (i, s, i, s, i, s, i, s, i, s)
            src += "int f%d(int i) { char l[] = %s; char m[50] = %s; if (i >= sizeof l || i < 0) return sizeof l; if (l[i] != p%d[i] || m[i] != s%d[i] || w%d[i] != a%d[i] || m[49]) return -1000; return (%s)[i] + a%d[i] * 256; }\n" % (i, s, s, i, i, i, i, s, i)
            fns.append(Fn("f%d" % i, "int", ["int"], pre="p0 >= 0 && p0 < 60", globs=[("z%d" % i, "int"), ("w%d[0]" % i, "char")][:1]))
        out.append(scenario("spell-%d" % (k // n), src.replace("__FILE__", '"<stdin>"'), fns, query_ms=4000, time=30))
    return out


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    r = random.Random(seed)
    for n in ([0, 1, 12, 13, 14, 15, 30] if quick else list(range(0, 34)) + [40]):
        o = ["", "-O1", "-fPIC"][n % 3]
        if n <= 40:
            out.append(content("raw-%d" % n, "fixed(%d); symraw();" % n, o))
            out.append(content("oct-%d" % n, "fixed(%d); symoct(); raw('4');" % n, o))
            if n: out.append(content("octfirst-%d" % n, "symoct(); fixed(%d);" % n, o))
            out.append(asm("raw-%d" % n, "fixed(%d); symraw();" % n, o))
            out.append(asm("oct-%d" % n, "fixed(%d); symoct(); raw('7');" % n, o))
    for n in ([0, 13] if quick else range(0, 20)):
        out.append(content("raw2-%d" % n, "fixed(%d); symraw(); raw('x'); symraw();" % n))
        out.append(content("octraw-%d" % n, "fixed(%d); symoct(); symraw();" % n))
        out.append(content("split-%d" % n, "fixed(%d); symoct(); quote(); quote(); symraw();" % n))
        out.append(content("split2-%d" % n, "fixed(%d); symraw(); quote(); lit[LN++] = ' '; lit[LN++] = '\\n'; quote(); symoct(); quote(); quote();" % n))
        out.append(asm("oct2-%d" % n, "fixed(%d); symoct(); symoct();" % n))
        out.append(asm("octdig-%d" % n, "fixed(%d); symoct(); raw('0'); symraw();" % n))
    out.append(content("empty", ""))
    out.append(asm("empty", ""))
    if not quick:
        for n in range(0, 16, 3):
            out.append(content("oct3-%d" % n, "fixed(%d); symoct(); symoct(); symoct();" % n)); out.append(content("raw3-%d" % n, "fixed(%d); symraw(); symraw(); symraw();" % n))
    return out + spelled(tier)
