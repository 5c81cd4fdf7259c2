"""Literals: value and type of every integer, character and floating constant."""
import random
from sxlib import Scenario
from tv import cstr
LEVEL = "model_checking"
SUF = ["", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ll", "LL", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"]
BOUNDS = {"integer constants": "decimal, octal, hexadecimal with every suffix spelling and every 64-bit value; symbolic digits up to 5 places; symbolic suffix letters up to 3 places",
          "character constants": "every byte; every character after a backslash; octal escapes of 1-3 symbolic digits; hexadecimal escapes of 1-3 symbolic digits; the same inside string literals with a following symbolic character",
          "floating constants": "every double as the value of the digit sequence, with every suffix; a list of spellings checked against the reference"}
ASSUMPTIONS = ["decimal constants above LONG_MAX without u suffix are excluded (no C type on this target)", "strtoul/strtod are modelled: their result is the number spelled by the digits", "plain char is signed", "float and long double constants are compared for values a double represents exactly (see the known findings)"]
REQUIRE = ["compiled", "compared"]

HEAD = '#include "drv.h"\nvoid *memcpy(void *, const void *, u64); u64 strlen(const char *); char *strcpy(char *, const char *); char *strcat(char *, const char *);\n'


def ints(base):
    """value and type for each suffix; base 10, 8, 16"""
    pre = {10: "", 8: "0", 16: "0x"}[base]
    srcs = ["unsigned long v = %(n)s; int sz = sizeof(%(n)s); int sg = (%(n)s) * 0 - 1 < 0;\nlong f(void) { return %(n)s; } int g(void) { return (%(n)s) - (%(n)s) - 1 < 0; }\n" % {"n": (pre if base != 16 or i % 3 else "0X") + "7700000" + s} for i, s in enumerate(SUF)]
    return Scenario("int-base%d" % base, HEAD + """static const char *const srcs[] = {
%s };
static const char *const suf[] = { %s };
static long (*fp)(void); static int (*gp)(void); static long fr; static int gr;
static int cf(void *x) { fr = fp(); return 0; } static int cg(void *x) { gr = gp(); return 0; }
void harness(void) {
 int j = sx_choose(%d, "suffix"), u = 0, l = 0, sz, sg; u64 v = sx_magic(0); const char *s;
 for (s = suf[j]; *s; s++) { if (*s == 'u' || *s == 'U') u = 1; else l = 1; }
 if (!u && %d == 10) sx_assume(v <= 0x7ffffffffffffffful);
 /* C99 6.4.4.1: the first of the listed types in which the value fits */
 if (!u && !l && v <= 0x7fffffff) { sz = 4; sg = 1; }
 else if (!l && (u || %d != 10) && v <= 0xffffffff) { sz = 4; sg = 0; }
 else if (!u && v <= 0x7ffffffffffffffful) { sz = 8; sg = 1; }
 else { sz = 8; sg = 0; }
 d_compile(srcs[j]); sx_cover("compared");
 sx_assert(*(u64 *)L("v") == v, "wrong value of an integer constant");
 sx_assert(*(int *)L("sz") == sz, "wrong size of an integer constant");
 sx_assert(*(int *)L("sg") == sg, "wrong signedness of an integer constant");
 fp = L("f"); d_callL(cf, 0); sx_assert((u64)fr == v, "wrong value of an integer constant in code");
 gp = L("g"); d_callL(cg, 0); sx_assert(gr == sg, "wrong signedness of an integer constant in code");
}""" % (",\n".join(cstr(s) for s in srcs), ", ".join('"%s"' % s for s in SUF), len(SUF), base, base), query_ms=5000, time=25)


def digits(base, n):
    pre = {10: "", 8: "0", 16: "0x"}[base]
    return Scenario("digits-%d-%d" % (base, n), HEAD + """void harness(void) {
 static char src[100]; char d[%(n)d]; u64 v = 0; int i, x, k;
 sx_make_symbolic(d, sizeof d, "digits");
 for (i = 0; i < %(n)d; i++) {
  int c = (u8)d[i];
  sx_assume(%(cls)s);
  if (i == 0 && %(base)d == 10) sx_assume(c != '0');
  x = sx_smt_ite(c <= '9', c - '0', sx_smt_ite(c >= 'a', c - 'a' + 10, c - 'A' + 10));
  v = v * %(base)d + x;
 }
 strcpy(src, "unsigned long v = %(pre)s"); k = strlen(src); memcpy(src + k, d, %(n)d); strcpy(src + k + %(n)d, ";\\n");
 d_compile(src); sx_cover("compared");
 sx_assert(*(u64 *)L("v") == v, "wrong value of an integer constant");
}""" % {"n": n, "base": base, "pre": pre, "cls": {10: "(c >= '0') & (c <= '9')", 8: "(c >= '0') & (c <= '7')", 16: "((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))"}[base]}, query_ms=5000, time=30)


def suffix(n):
    return Scenario("suffix-letters-%d" % n, HEAD + """void harness(void) {
 static char src[100]; char s[4]; int i, k, rc, ok = 0, u = 0, l = 0; static const char *const good[] = { %(good)s };
 for (i = 0; i < %(n)d; i++) { s[i] = sx_var(8, "letter"); sx_assume((s[i] == 'u') | (s[i] == 'U') | (s[i] == 'l') | (s[i] == 'L') | (s[i] == 'f') | (s[i] == 'x') | (s[i] == 'i') | (s[i] == 'z')); if (s[i] == 'u' || s[i] == 'U') u = 1; if (s[i] == 'l' || s[i] == 'L') l = 1; }
 s[%(n)d] = 0;
 for (i = 0; i < %(m)d; i++) { int q = strlen(good[i]) == %(n)d, j; for (j = 0; q && j < %(n)d; j++) q = good[i][j] == s[j]; if (q) ok = 1; }
 strcpy(src, "int sz = sizeof(12"); strcat(src, s); strcat(src, "); int sg = 12"); strcat(src, s); strcat(src, " * 0 - 1 < 0;\\n");
 rc = d_try_compile(src); sx_cover("compiled"); sx_cover("compared");
 if (rc >= 1000) d_fail("the compiler did not terminate normally");
 if (!ok) { sx_assert(rc != 0, "invalid suffix accepted"); return; }
 sx_assert(rc == 0, "valid suffix rejected");
 sx_assert(*(int *)L("sz") == (l ? 8 : 4), "wrong size of an integer constant"); sx_assert(*(int *)L("sg") == !u, "wrong signedness of an integer constant");
}""" % {"n": n, "good": ", ".join('"%s"' % s for s in SUF if s), "m": len(SUF) - 1}, query_ms=5000, time=30)


def chars(kind, std=""):
    """kind: plain, simple, oct1..3, hex1..3, and the same in strings with a following character"""
    s = kind.startswith("S")
    k = kind[1:] if s else kind
    q = '"' if s else "'"
    if k == "plain":
        b = "c[0] = sx_var(8, \"ch\"); sx_assume((c[0] != '%s') & (c[0] != '\\\\') & (c[0] != '\\n') & (c[0] != '\\r') & (c[0] != 0)); n = 1; want = c[0];" % ("\\'" if not s else '"')
    elif k == "simple":
        b = "static const char a[] = \"abtnvfr?'\\\"\\\\\", b[] = \"\\a\\b\\t\\n\\v\\f\\r?'\\\"\\\\\"; i = sx_choose(11, \"escape\"); c[0] = '\\\\'; c[1] = a[i]; n = 2; want = b[i];"
    elif k.startswith("oct"):
        m = int(k[3])
        b = "c[0] = '\\\\'; want = 0; v = 0; n = 1 + %d; for (i = 0; i < %d; i++) { c[1 + i] = sx_var(8, \"digit\"); sx_assume((c[1 + i] >= '0') & (c[1 + i] <= '7')); v = v * 8 + (c[1 + i] - '0'); } sx_assume(v <= 255); want = (char)v;" % (m, m)
    else:
        m = int(k[3])
        b = "c[0] = '\\\\'; c[1] = 'x'; v = 0; n = 2 + %d; for (i = 0; i < %d; i++) { int x = sx_var(8, \"digit\"); sx_assume(((x >= '0') & (x <= '9')) | ((x >= 'a') & (x <= 'f')) | ((x >= 'A') & (x <= 'F'))); c[2 + i] = x; v = v * 16 + sx_smt_ite(x <= '9', x - '0', sx_smt_ite(x >= 'a', x - 'a' + 10, x - 'A' + 10)); } sx_assume(v <= 255); want = (char)v;" % (m, m)
    if s:
        # a following character that cannot continue the escape
        f = {"o": "(t != '\"') & (t != '\\\\') & (t != '\\n') & (t != '\\r') & (t != 0)" + ("" if k == "oct3" else " & !((t >= '0') & (t <= '7'))"), "h": "(t != '\"') & (t != '\\\\') & (t != '\\n') & (t != '\\r') & (t != 0) & !((t >= '0') & (t <= '9')) & !((t >= 'a') & (t <= 'f')) & !((t >= 'A') & (t <= 'F'))"}.get(k[0], "(t != '\"') & (t != '\\\\') & (t != '\\n') & (t != '\\r') & (t != 0)")
        return Scenario("string-" + k, HEAD + """void harness(void) {
 static char src[100]; char c[8], want, t, w; int n, i, k; unsigned v; char *s;
 %s
 { int t1 = sx_var(8, "next"); t = t1; sx_assume(%s); w = 'z'; if (t == 'x') { w = sx_var(8, "next2"); sx_assume((w == '1') | (w == 'f') | (w == 'g')); } }
 sx_assume((c[n - 1] != '?') | (t != '?'));
 strcpy(src, "char s[] = \\"ab"); k = strlen(src); memcpy(src + k, c, n); k += n; src[k++] = t; src[k++] = w; strcpy(src + k, "\\"; int sz = sizeof s;\\n");
 d_compile(src); sx_cover("compared");
 s = L("s"); sx_assert(*(int *)L("sz") == 6, "wrong length of a string literal");
 sx_assert((s[0] == 'a') & (s[1] == 'b') & (s[2] == want) & (s[3] == t) & (s[4] == w) & (s[5] == 0), "wrong contents of a string literal");
}""" % (b, f), query_ms=5000, time=30)
    return Scenario("char-" + k, HEAD + """void harness(void) {
 static char src[100]; char c[8], want; int n, i, k; unsigned v;
 %s
 strcpy(src, "int v = '"); k = strlen(src); memcpy(src + k, c, n); k += n; strcpy(src + k, "'; int sz = sizeof('a');\\n#if '"); k = strlen(src); memcpy(src + k, c, n); k += n; strcpy(src + k, "' < 0\\nint neg = 1;\\n#else\\nint neg = 0;\\n#endif\\n");
 d_compile(src); sx_cover("compared");
 sx_assert(*(int *)L("v") == (int)want, "wrong value of a character constant");
 sx_assert(*(int *)L("neg") == (want < 0), "wrong value of a character constant in #if");
 sx_assert(*(int *)L("sz") == 4, "a character constant has type int");
}""" % b, query_ms=5000, time=30)


def floats():
    return Scenario("float-values", HEAD + """void harness(void) {
 u64 m = sx_magic(1); double d; float f; int k = sx_choose(3, "suffix"); long double ld; u16 e;
 static const char *const srcs[] = {
  "double v = 7.700001; int sz = sizeof(7.700001); double n = -7.700001; float c = 7.700001;\\n",
  "float v = 7.700001f; int sz = sizeof(7.700001F); float n = -7.700001F; double c = 7.700001f;\\n",
  "long double v = 7.700001L; int sz = sizeof(7.700001l); long double n = -7.700001l; double c = 7.700001L;\\n" };
 e = m >> 52;
 sx_assume((e < 0x7ff) & ((e >= 1) | (m == 0))); memcpy(&d, &m, 8);
 if (k == 1) sx_assume((e < 0x3ff + 127) & ((m & 0x1fffffff) == 0) & ((e >= 0x3ff - 126) | (m == 0)));
 d_compile(srcs[k]); sx_cover("compared");
 if (k == 0) { double nd = -d; float fc = d; d_eqmem(L("v"), &d, 8, "wrong value of a floating constant"); d_eqmem(L("n"), &nd, 8, "wrong value of a negated floating constant"); sx_assert(*(int *)L("sz") == 8, "wrong type of a floating constant"); sx_assert(d_feq32(*(u32 *)L("c"), *(u32 *)&fc), "wrong value of a converted floating constant"); }
 if (k == 1) { float nf; double dc; f = d; nf = -f; dc = f; d_eqmem(L("v"), &f, 4, "wrong value of a floating constant"); d_eqmem(L("n"), &nf, 4, "wrong value of a negated floating constant"); sx_assert(*(int *)L("sz") == 4, "wrong type of a floating constant"); d_eqmem(L("c"), &dc, 8, "wrong value of a converted floating constant"); }
 if (k == 2) { ld = d; sx_assert(d_feqld(L("v"), &ld), "wrong value of a floating constant"); ld = -ld; sx_assert(d_feqld(L("n"), &ld), "wrong value of a negated floating constant"); sx_assert(*(int *)L("sz") == 16, "wrong type of a floating constant"); d_eqmem(L("c"), &d, 8, "wrong value of a converted floating constant"); }
}""", query_ms=5000, time=30)


SPELL = ["1.", ".5", "1e5", "1.e-3", "1E+5", "00.5", "08.5", "09e1", "1e0", "0.", "0e0", ".0e-0", "1e22", "1e23", "123456789.123456789e-5", "4.9406564584124654e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "2.2250738585072011e-308", "1e-400", "9007199254740993.0", "0.1", "0.30000000000000004", "1e1", "5e-324", "3.", "010.0", "1.0e+00002"]
SPELLF = ["1.f", ".5F", "1e5f", "0.1f", "16777217.0f", "3.4028234e38f", "1.17549435e-38f", "1e-45f", "0.f", "1e-50F", "1.5e3F"]
C99 = ["0x1.8p3", "0x1p-2", "0X.8P+1", "0x1.fffffffffffffp1023", "0xap0", "0x1p0f", "0x.1p4"]


def spellings(name, lst, opts=""):
    src = "".join("%s v%d = %s; int s%d = sizeof(%s);\n" % ("float" if x[-1] in "fF" and not x.startswith("0x1.f") and not (x.lower().startswith("0x") and "p" not in x.lower()) else "double", i, x, i, x) for i, x in enumerate(lst))
    b = "".join(" d_eqmem(L(\"v%d\"), R(\"v%d\"), sizeof(%s), \"wrong value of the constant %s\"); sx_assert(*(int *)L(\"s%d\") == *(int *)R(\"s%d\"), \"wrong type of the constant %s\");\n" % (i, i, "float" if "float v%d =" % i in src else "double", x, i, i, x) for i, x in enumerate(lst))
    return Scenario(name, HEAD + "static const char src[] = %s;\nvoid harness(void) { d_compile(src); sx_cover(\"compared\"); (void)sx_choose(2, \"dummy\");\n%s}" % (cstr(src), b), src, opts=opts, time=20)


def scenarios(tier, seed):
    out = [ints(10), ints(8), ints(16)]
    th = tier == "thorough"
    for n in (1, 2, 3, 4, 5):
        out += [digits(10, n), digits(8, n)]
        if n < 4 or th:
            out.append(digits(16, n))
    out += [suffix(1), suffix(2)] + ([suffix(3)] if th else [])
    for k in ("plain", "simple", "oct1", "oct2", "oct3", "hex1", "hex2", "hex3"):
        out += [chars(k), chars("S" + k)]
    out.append(floats())
    out += [spellings("spelling-double", SPELL), spellings("spelling-float", SPELLF), spellings("spelling-hex", C99, "-std=c99")]
    out.append(spellings("float-rounding", ["1.00000017881393432617187499f"]))
    out.append(Scenario("ldouble-spelling", HEAD + 'static const char src[] = "long double v = 0.1L;\\n";\nvoid harness(void) { d_compile(src); sx_cover("compared"); sx_assert(d_feqld(L("v"), R("v")), "wrong value of the constant 0.1L"); }', "long double v = 0.1L;", time=20))
    return out
