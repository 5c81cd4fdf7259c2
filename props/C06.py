"""Tokens: maximal munch, comments, line splices and trigraphs, on source text with symbolic bytes."""
from sxlib import Scenario
from tv import cstr

LEVEL = "model_checking"
BOUNDS = {
    "punctuators": "every string of 4 (thorough: 7) bytes from each of nine overlapping alphabets of punctuation, digits and letters; every string of 3 bytes of a 25 character alphabet; digraphs in c99 and their absence in c89",
    "numbers, literals": "preprocessing numbers of up to 5 symbolic bytes; string and character literals with up to 5 and 3 symbolic bytes including quotes, backslashes and newlines",
    "comments, splices, trigraphs": "6 symbolic bytes (thorough: 8) of comment and splice characters in text, in comments and in literals",
    "insertion": "a splice or a comment (thorough also a trigraph splice, two splices, a comment holding a splice, other white space) at every position of a program with directives and literals, which is then also run with symbolic arguments",
    "buffer": "three texts of about 90 bytes whose start lies at each of 48 distances before the end of the input buffer, after white space, a comment or identifiers",
    "keywords": "identifiers differing from a keyword in one appended, prepended or replaced symbolic byte",
}
ASSUMPTIONS = [
    "the reference lexer of lib/refpp.h implements C11 5.1.1.2 phases 1 to 3",
    "texts that hold a directive by accident, an unterminated literal or a multi-character constant are only checked for normal termination",
    "digraphs and trigraphs are compared with -std=c99",
]
REQUIRE = ["compared"]

HEAD = r'''#include "drv.h"
u64 strlen(const char *); void *memcpy(void *, const void *, u64); void *memset(void *, int, u64); char *strcpy(char *, const char *); char *strstr(const char *, const char *);
#include "refpp.h"
static char src[12000], cl[12000]; static PT want[2 * RP_MAX], got[2 * RP_MAX]; static int sn;
static int pick(const char *a) { int c, ok = 0; const char *p; c = sx_var(8, "byte"); for (p = a; *p; p++) ok |= c == (u8)*p; sx_assume(ok); return c; }
static void compare(int nw, const char *what) {
  u64 len; char *d = vf_data("out.i", &len); int i, ng;
  if (!d) d_fail("no output");
  rp_bad = 0; ng = p_lex(d, d + len, got); if (rp_bad) d_fail("the output cannot be tokenized");
  sx_assert(ng == nw, what);
  for (i = 0; i < nw; i++) sx_assert(p_same(got[i], want[i]), what);
  sx_cover("compared");
}
'''
TXT = HEAD + r'''
static const char *const tmpl[] = { %(tmpl)s };
static const char *const alpha[] = { %(alpha)s };
void harness(void) {
  int k = sx_choose(%(n)d, "template"), n, nw, rc; const char *p = tmpl[k];
  for (n = 0; *p; p++) { if (*p == '\1') { p++; src[n++] = pick(alpha[*p - '0']); } else src[n++] = *p; }
  src[n] = 0;
  rp_digraphs = %(di)d; rp_bad = pn = npm = 0;
  d_put("p.c", src);
  p_clean(src, cl);
  if (!rp_bad && p_directive(cl)) rp_stop(1);
  nw = rp_bad ? 0 : p_lex(cl, cl + strlen(cl), want);
  rc = d_lacc("%(opts)s -E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  sx_cover("ran");
  if (rp_bad) { sx_cover("excluded"); return; }
  if (rc) d_fail("valid preprocessing tokens were rejected");
  compare(nw, "tokens of the output");
}
'''
# a splice or comment inserted at every position of a program
INS = HEAD + r'''
static const char text[] = %(text)s;
static const char ins[] = %(ins)s;
static int (*fp)(int, int); static int A, B, res; static int call(void *x) { res = fp(A, B); return 0; }
void harness(void) {
  int n = strlen(text), at = %(first)d + sx_choose(%(count)d, "position"), nw, m = strlen(ins), rc;
  rp_digraphs = 1; rp_bad = pn = npm = 0;
  memcpy(src, text, at); memcpy(src + at, ins, m); strcpy(src + at + m, text + at);
  p_clean(src, cl);
  { /* the same tokens and the same kind of macro? */
    static char c2[12000]; PT *w2 = got; int n2, i, same = 1; p_clean(text, c2); nw = p_lex(cl, cl + strlen(cl), want); n2 = p_lex(c2, c2 + strlen(c2), w2);
    if (rp_bad || nw != n2 || at == 11 && %(comment)d) return; for (i = 0; i < nw; i++) same &= p_same(want[i], w2[i]); if (!same) return;
  }
  d_put("p.c", text); rc = d_lacc("-std=c99 -E -o out.i p.c"); if (rc) d_fail("the program was rejected");
  { u64 len; char *d = vf_data("out.i", &len); rp_bad = 0; nw = p_lex(d, d + len, want); }
  d_put("p.c", src); rc = d_lacc("-std=c99 -E -o out.i p.c");
  if (rc) d_fail("the program was rejected after inserting text without meaning");
  compare(nw, "tokens after inserting text without meaning");
  d_compile(src);
  A = sx_var(32, "a"); B = sx_var(32, "b"); fp = L("f"); d_callL(call, 0);
  sx_assert(res == ((A ^ B << 2) + (A == B) - (A > 31) + 'c' + 4), "value computed by the program");
}
'''
PROG = r'''#define ADD(x, y) x + \
 y
# define S "a\"b" /* note */
struct s { int a, b; }; // line
int f(int a, int b)
{
    struct s s = { 0x1e, 0 }, *p = &s; char *t = S "c";
    p->a = a ^ b << 2; p->b += a == b; p->b -= a > 31;
    return ADD(p->a, s.b) + 'c' + sizeof("a\\b"
        "") - (t[1] != '"') + (t[2] != 'b');
}
'''
# text placed at the boundary of the input buffer
BUF = HEAD + r'''
void harness(void) {
  static const char *const tail[] = { %(tails)s }; int k = sx_choose(%(n)d, "tail"), pad = %(size)d - sx_choose(48, "pad"), i, n = 0, nw, rc; u64 len;
  int style = %(style)d;
  for (i = 0; i < pad - 1; i++) src[n++] = style == 0 ? (i %% 60 == 59 ? '\n' : ' ') : style == 1 ? (i == 0 ? '/' : i == 1 ? '*' : i == pad - 3 ? '*' : i == pad - 2 ? '/' : 'x') : "abc "[i & 3];
  src[n++] = style == 0 ? '\n' : ' ';
  src[n] = 0; strcpy(src + n, tail[k]);
  rp_digraphs = 1; rp_bad = pn = npm = 0;
  d_put("p.c", src);
  rc = d_lacc("-std=c99 -E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  p_clean(style == 2 ? tail[k] : src, cl); nw = p_lex(cl, cl + strlen(cl), want);
  if (rp_bad) { sx_cover("excluded"); return; }
  if (rc) d_fail("valid preprocessing tokens were rejected");
  { char *d = vf_data("out.i", &len), *e = d; int ng; if (style == 2) { while (e < d + len - 1 && !(e[0] == '@' && e[1] == '@')) e++; }
    rp_bad = 0; ng = p_lex(e, d + len, got); if (rp_bad) d_fail("the output cannot be tokenized");
    sx_assert(ng == nw, "tokens of the output"); for (i = 0; i < nw; i++) sx_assert(p_same(got[i], want[i]), "tokens of the output"); sx_cover("compared"); }
}
'''
# keywords and identifiers that start or end like them
KEY = r'''#include "drv.h"
u64 strlen(const char *); char *strcpy(char *, const char *);
static const char *const kw[] = { "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while", "_Bool", "_Alignof", "_Noreturn", "_Static_assert", "__asm", "__asm__", "__inline", "__inline__", "__signed", "__signed__", "__restrict", "__restrict__", "__volatile", "__volatile__" };
static char src[500]; static int sn; static void put(const char *s) { strcpy(src + sn, s); sn += strlen(s); }
static int (*fp)(int); static int r; static int call(void *x) { r = fp(41); return 0; }
void harness(void) {
  int k = sx_choose(sizeof kw / sizeof *kw, "keyword"), how = sx_choose(3, "how"), i, c, keyword = 0; char id[24];
  c = sx_var(8, "byte"); sx_assume((c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c == '_') | (c >= '0') & (c <= '9'));
  strcpy(id, kw[k]); i = strlen(id);
  if (how == 0) { id[i] = c; id[i + 1] = 0; } else if (how == 1) id[i - 1] = c; else { for (; i >= 0; i--) id[i + 1] = id[i]; id[0] = c; sx_assume((c < '0') | (c > '9')); }
  if (id[0] >= '0' && id[0] <= '9') sx_kill();
  for (k = 0; k < sizeof kw / sizeof *kw; k++) { int eq = 1; for (i = 0; ; i++) { if (id[i] != kw[k][i]) { eq = 0; break; } if (!id[i]) break; } keyword |= eq; }
  { static const char v[] = "asm"; int eq = 1; for (i = 0; ; i++) { if (id[i] != v[i]) { eq = 0; break; } if (!id[i]) break; } keyword |= eq; }
  if (keyword) return;
  sn = 0; put("int f(int b) { int "); put(id); put(" = b; return "); put(id); put("+1; }\n");
  d_compile(src); fp = L("f"); d_callL(call, 0); sx_assert(r == 42, "identifier resembling a keyword");
  sx_cover("compared");
}
'''


def q(a):
    return '"' + a.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\v", "\\v").replace("\f", "\\f").replace("?", "\\?") + '"'


def txt(name, t, alphas, opts="-std=c99", di=1, **kw):
    return Scenario(name, TXT % {"tmpl": cstr(t.replace("@", "\1")), "alpha": ", ".join(q(a) for a in alphas), "n": 1, "opts": opts, "di": di}, **kw)


def ins(name, text, first, count, comment, **kw):
    return Scenario(name, INS % {"text": cstr(PROG), "ins": q(text), "first": first, "count": count, "comment": comment}, **kw)


def scenarios(tier, seed):
    out = []
    P = ["+-=>", "<>=:%", "&|=!^", "/*=%", "#%:<>", ".1e+-", ".a1_E", "=!+~?:", "><=-"]
    n = 5 if tier == "quick" else 7
    for i, a in enumerate(P):
        out.append(txt("punctuators%d" % i, "x " + "@0" * n + " y\n", [a + " "]))
    out.append(txt("punctuators-c89", "x " + "@0" * n + " y\n", ["<>%:"], opts="-std=c89", di=0))
    for i, a in enumerate(["+-<>=&|!*/%^.#?:(~a1 ", "+-*/%=<>&|^!a"] if tier == "quick" else ["+-<>=&|!*/%^.#?:(~a1 "]):
        out.append(txt("mixed%d" % i, "@0@0@0" + (" " if i == 0 else "") + "\n", [a]))
    out.append(txt("numbers", "(" + "@0" * (n - 1) + ")\n", ["1e+.x_P-"]))
    m = 6 if tier == "quick" else 8
    out.append(txt("comments", "a" + "@0" * m + "\nb*/ c\n", ["/*\na\\"]))
    out.append(txt("comments-quotes", "a" + "@0" * m + "*/\n", ["/*\"'\n"]))
    out.append(txt("splices", "a+@0@0@0@0@0@0+b\n", ["\\\n+/ "]))
    out.append(txt("splices-line-comment", "a//@0@0@0@0@0\nb c\n", ["\\\n?/"]))
    out.append(txt("splices-comment", "a b/@0@1@0@0*/ c\n", ["*/\\\n", "\\\n"]))
    out.append(txt("strings", "x\"@0@0@0@0@0\" y\"z\"\n", ["\"'\\\nn/"]))
    out.append(txt("characters", "x'@0@0' y'@0@0@0'z\n", ["\"'\\\nn1/"]))
    out.append(txt("trigraphs", "a @0@0@0@0@0@0 b\n", ["?/=\n"]))
    out.append(txt("trigraphs-literal", "\"?@0@0@0@0\" ?\n", ["?/'\"\\<n"]))
    out.append(txt("trigraphs-character", "'??@0@0' ?@0@0\n", ["?/'\"\\<n"]))
    out.append(txt("white", "a@0b@0+@0+@0\"@0\"@01\n", [" \t\v\f\n+"]))
    out.append(txt("lines", "#define A 1\n@0A@0\n@0A \\\n@0 A\n", ["\n /A"]))
    N = len(PROG)
    for lo in range(0, N, 80):
        out.append(ins("splice-at-%d" % lo, "\\\n", lo, min(80, N - lo), 0))
        out.append(ins("comment-at-%d" % lo, "/* ' */", lo, min(80, N - lo), 1))
    if tier == "thorough":
        for lo in range(0, N, 80):
            out.append(ins("trisplice-at-%d" % lo, "??/\n", lo, min(80, N - lo), 0))
            out.append(ins("splices-at-%d" % lo, "\\\n\\\n", lo, min(80, N - lo), 0))
            out.append(ins("comment2-at-%d" % lo, "/*/**\\\n/", lo, min(80, N - lo), 1))
            out.append(ins("spaces-at-%d" % lo, "\t \v\f", lo, min(80, N - lo), 1))
    tails = ['@@ a /* b */ c "d\\\\" \'e\' \\\n++ f+\\\n+ ??= // g\\\nh\n i "x" "y\\\nz"\nlast\n', "@@ identifier_of_some_length+=0x1234567890abcdefp+10*/**//**/ /*\n\n*/ end\n", "@@ \"a string literal with some length \\\" \\\\\" <<=>>=...->\n\n\n// comment\nx\n"]
    for style in range(3):
        out.append(Scenario("buffer-%d" % style, BUF % {"tails": ", ".join(cstr(t) for t in tails), "n": len(tails), "size": SIZE(), "style": style}))
    out.append(Scenario("keywords", KEY, opts="-std=c99"))
    return out


def SIZE():
    import re, os
    from sxlib import REPO
    m = re.search(r"FILE_BUFFER_SIZE\s+(\d+)", open(os.path.join(REPO, "src/preprocessor/input.c")).read())
    return int(m.group(1)) if m else 4096
