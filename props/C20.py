"""C20: identifiers, scopes, name spaces, linkage, tentative definitions."""
import random
from tv import Fn, scenario

LEVEL = "model_checking"
BOUNDS = {"values": "all values of the integer arguments", "scopes": "about 55 programs covering block, loop, parameter, function and file scope, the four name spaces, linkage of extern and static in nested scopes, typedef names", "tentative definitions": "16 sequences of file scope declarations", "many names": "sets of 40 and 120 names (thorough: up to 1200) from families with equal length, prefix, suffix, byte sum or hash, used as objects, locals, members, labels, enumerators, functions, macros and tags at the same time"}
ASSUMPTIONS = ["names of more than 200 characters and names with universal characters are not covered"]
REQUIRE = ["called"]


class B:
    def __init__(self, pre=""):
        self.s, self.f, self.g = [pre], [], []

    def add(self, nm, ret, sig, params, body, top="", **kw):
        if top:
            self.s.append(top)
        self.s.append("%s %s(%s) { %s }" % (ret, nm, sig, body))
        self.f.append(Fn(nm, ret, params, **kw))

    def out(self, name, **kw):
        return scenario(name, "\n".join(self.s), self.f, **kw)


def scopes():
    b = B("void ev(long);\nint ext(int);")
    I = ["int", "int"]
    A = lambda nm, body, top="", ret="int", sig="int a, int b", ps=I, **kw: b.add(nm, ret, sig, ps, body, top, **kw)
    A("nest", "int x = a; { int x = b; ev(x); { int x = a ^ b; ev(x); x++; ev(x); } x--; ev(x); } ev(x); return x;")
    A("self", "int x = a; { int y = x; int x = y + 1; ev(x); } return x;")
    A("szself", "char x[3]; { int x[sizeof(x)]; ev(sizeof x); x[2] = a; ev(x[2]); } return sizeof(x);")
    A("forsc", "int i = a, s = 0; for (int i = 0; i < 3; i++) { int i = b; s ^= i; } return s ^ i;")
    A("forin", "int s = 0; for (int i = 0, j = 3; i < j; i++) { int j = a; s = (s << 1) ^ j; } return s;")
    A("parm", "{ int a = b; ev(a); { int b = a ^ 1; ev(b); } ev(b); } return a;")
    A("ifsc", "if (a) { int a = 3; ev(a); } else { int a = 4; ev(a); } while (b & 1) { int b = 7; ev(b); break; } return a ^ b;")
    A("swsc", "switch (a & 3) { int z; case 0: z = b; ev(z); break; case 1: { int a = 9; z = a; } ev(z); break; default: ev(a); } return a;")
    A("fileg", "int r = G1; { int G1 = a; ev(G1); { extern int G1; ev(G1); G1 = b; } ev(G1); } return r ^ G1;", "int G1 = 5;")
    A("statg", "int r = S1; { extern int S1; ev(S1); S1 = b; { int S1 = a; ev(S1); } ev(S1); } return r ^ S1;", "static int S1 = 6;")
    A("ext2", "extern int L1; L1 = a; { extern int L1; L1 ^= b; } return L1;")
    A("ext3", "return L1 + L1;", "extern int L1; int L1 = 11;", sig="int a, int b")
    A("stl1", "static int s = 1; s += a; return s;")
    A("stl2", "static int s = 2; { static int s = 3; s ^= b; ev(s); } s ^= a; return s;")
    A("stl3", "static int s = 4; if (a) { static int s; s += 2; ev(s); } else { static int s = 8; s += 4; ev(s); } return s++;")
    A("stlp", "static int v = 7; static int *p = &v; { static int v = 9; static int *q = &v; ev(*q); ev(*p); *q = b; ev(v); } *p = a; return v;")
    A("same1", "static int s = 100; return s += a;", "static int s = 1000;")
    A("same2", "return s += b;")
    # functions
    A("fd1", "int hf(int); return hf(a) ^ b;")
    A("fd2", "{ int hf(int); ev(hf(a)); } { extern int hf(int); return hf(b); }")
    A("fd3", "return hf(a) + 1 ^ hf2(b);", "int hf(int x) { return x ^ 77; } static int hf2(int); static int hf2(int y) { return y ^ 3; }")
    A("fd4", "int (*hf)(int) = hf2; { int hf(int); ev(hf(a)); } return hf(b);")
    A("fd5", "extern int ext(int); int (*p)(int) = ext, (*q)(int) = &ext; return p(a) ^ q(b) ^ (p == q);")
    A("rec", "if (a > 3 || a < 0) return b; { int a2 = a + 1; return rec(a2, b ^ a); }", pre="p0 >= 0")
    A("stfn", "return st1(a) ^ st2(b);", "static int st1(int), st2(int); int st1(int q) { return st2(q) ^ 1; } static int st2(int q) { return q ^ 5; }")
    # name spaces
    A("ns1", "struct foo foo; foo.foo = a; goto foo; foo.foo = b; foo: return foo.foo;", "struct foo { int foo; };")
    A("ns2", "enum e e = e1; union e2 { int e; char c[4]; } e2; e2.e = a; e2.c[0] ^= e; return e2.e;", "enum e { e0, e1 = 7 };")
    A("ns3", "x: if (a > 5) { int x = b; ev(x); if (x & 1) goto y; a = 0; goto x; } y: return a;", pre="p0 < 100")
    A("ns4", "T T = { a, b }; { int T = 3; ev(T); } return T.T ^ T.U.T;", "typedef struct T { int T; struct { int T; } U; } T;") if False else None
    A("ns5", "struct m p; struct n q; p.x = a; p.y = b; q.y = a; q.x = b; ev(p.x); ev(p.y); ev(q.x); ev(q.y); return (char *) &p.x == (char *) &p;", "struct m { int x, y; }; struct n { int y; int x; };")
    A("ns6", "enum { A6 = 3, B6 } v = A6; { enum { A6 = 9, C6 = A6 } w = C6; ev(A6); ev(w); ev(B6); } ev(A6); return v ^ A6;")
    A("ns7", "enum { X7 = 1 }; { enum { X7 = X7 + 5 }; ev(X7); } { int X7 = a; ev(X7); } return X7;")
    A("lab", "int n = 0; goto end; end: if (n++ < 2) goto mid; return n ^ a; mid: ev(n); goto end;")
    A("lab2", "end: ev(a); if (a++ < 2) goto end; { goto in; in: ev(b); } return a;", pre="p0 >= 0")
    # tags
    A("tag1", "struct s1 *p; { struct s1 { long q; int r; } v; v.r = a; v.q = b; ev(sizeof v); ev(v.r); } { struct s1 w; p = &w; p->c = a; return p->c ^ sizeof *p; }", "struct s1 { char c; };")
    A("tag2", "struct s1; struct s2 { struct s1 *p; } v; struct s1 { int z[5]; } w; v.p = &w; w.z[1] = a; ev(sizeof *v.p); return v.p->z[1];")
    A("tag3", "struct s3 { struct s3 *next; int v; } x, y; x.next = &y; y.next = 0; x.v = a; y.v = b; return x.next->v ^ x.v;")
    A("tag4", "struct s3 *p = 0; ev(sizeof(struct s4 { int k[3]; })); { struct s4 q; q.k[2] = a; ev(q.k[2]); } return sizeof(struct s4);")
    A("tag5", "struct o5 { struct i5 { int a, b; } m; } x; struct i5 y; y.a = a; y.b = b; x.m = y; return x.m.a ^ x.m.b;")
    A("tag6", "union u1 { int i; struct u1s { short l, h; } s; } u; struct u1s t; u.i = a; t = u.s; return t.l ^ (t.h << 4);")
    A("tag7", "enum tt7 { P7, Q7 = 4 } v = Q7; { struct tt7 { int x; } w; w.x = a; ev(w.x); } { enum tt7 z = P7; ev(z); } return v;")
    # typedef names
    A("td1", "typedef int T1; T1 x = a; { T1 T1 = b; ev(T1); T1++; ev(T1); } { typedef char T1; ev(sizeof(T1)); } return x ^ sizeof(T1);")
    A("td2", "T2 x = a; { int T2 = 5; ev(T2 * x); ev(sizeof T2); } { T2 *x = &b; ev(*x); } return x;", "typedef int T2;")
    A("td3", "struct { int T2; } v; v.T2 = a; { char T2; T2 = b; ev(sizeof(T2)); ev(T2); } T2: return v.T2;")
    A("td4", "F4 *p = hf; G4 q = hf2; return p(a) ^ q(b);", "typedef int F4(int); typedef int (*G4)(int); F4 hf; ")
    A("td5", "A5 x = { 1, 2 }, y = { 3, 4, 5 }; A5 *z; ev(sizeof x); ev(sizeof y); return x[1] ^ y[2] ^ a;", "typedef int A5[];")
    A("td6", "const T6 x = a; T6 *const p = &b; *p ^= x; { unsigned T6 = 4; ev(sizeof(unsigned T6)); } return b;".replace("ev(sizeof(unsigned T6)); ", "ev(T6); "), "typedef int T6;")
    A("pr1", "int f(int b); { int f(int f); ev(1); } return a;")
    A("pr2", "return kr(a, (char) b, 3);", "int kr(x, y, z) char y; int x; int z; { int k = x; { int x = y; k ^= x; } return k ^ z; }")
    A("pr3", "return fp(hf2, a);", "int fp(int g(int), int v) { { int (*fp)(int) = g; return fp(v); } }")
    A("cnt", "C1++; C1 += a; { int C1[2]; C1[0] = b; C1[1] = 3; ev(C1[0]); ev(C1[1]); } return C1;", "int C1; int C1; extern int C1; int C1;")
    A("cmpl", "int x = a; (void) x; { int x = b, *p = &x; *p ^= 3; ev(x); } int *q = &x; *q ^= 1; return x;")
    A("shad", "int ev2 = a; ev(ev2); { long ext = b; ev(ext); } return ext(a);")
    A("va", "int n = 1, s = 0; { int n = 2; s = s * 4 + n; { int n = 3; s = s * 4 + n; } s = s * 4 + n; } s = s * 4 + n; return s ^ a;")
    for k in range(3):
        A("deep%d" % k, "int v = a; " + "".join("{ int %s = v ^ %d; ev(%s); " % (n, i, n) for i, n in enumerate(["v", "w", "v", "w", "a", "v", "b", "v", "w"][:5 + 2 * k])) .replace("int v = v", "int v = a") + "}" * (5 + 2 * k) + " return v ^ a ^ b;")
    return b


TENT = [  # file scope declarations in any order; object name, type, size
    ("int t0; int t0 = 5; int t0;", "t0", 4), ("extern int t1; int t1;", "t1", 4), ("static int t2; static int t2 = 7; extern int t2;", "t2", 4),
    ("int t3[]; int t3[3];", "t3", 12), ("extern int t4[]; int t4[] = { 1, 2, 3, 4, 5 };", "t4", 20), ("int t5[4]; extern int t5[];", "t5", 16),
    ("struct t6; struct t6 *t6p; struct t6 { int a, b; } t6; struct t6 *t6p = &t6;", "t6", 8), ("char t7; char t7; char t7 = 'x';", "t7", 1),
    ("int t8[];", "t8", 4), ("static const int t9 = 3; extern const int t9;", "t9", 4), ("long t10 = 1; extern long t10;", "t10", 8), ("extern long t11; long t11 = 4;", "t11", 8),
    ("struct t12 t12; struct t12 { char c[5]; };", "t12", 5), ("int t13, *t13p = &t13, t13;", "t13", 4), ("static int t14; int *t14p = &t14; static int t14 = 9;", "t14", 4),
    ("int (*t15)(int); int t15f(int); int (*t15)(int) = t15f; int t15f(int x) { return x ^ 2; }", "t15", 8),
]


def tentative():
    b = B("void ev(long);")
    for k, (d, n, sz) in enumerate(TENT):
        b.s.append(d)
        if n == "t15":
            continue
        b.add("g%d" % k, "long", "int v", ["int"], "ev(sizeof %s); ev(((char *) &%s)[%d]); ((char *) &%s)[%d] = v; return ((char *) &%s)[0];" % (n if n != "t8" else "(int)", n, sz - 1, n, sz - 1, n))
    b.add("p6", "long", "int v", ["int"], "t6p->b = v; return t6.b ^ (*t13p = v) ^ t13 ^ *t14p ^ t15(v);")
    return b


def many(n, seed):
    """n distinct names from families that are close to each other: same length, same prefix, same suffix, same byte sum"""
    rnd = random.Random(seed)
    names, seen = [], set()
    def put(x):
        if x not in seen and x not in ("do", "if"):
            seen.add(x); names.append(x)
    base = "".join(rnd.choice("abcdefghij") for _ in range(40))
    while len(names) < n:
        k = rnd.randrange(7)
        if k == 0:
            put("v%d" % rnd.randrange(3 * n))
        elif k == 1:
            L = list(base[:rnd.randrange(3, 40)]); i = rnd.randrange(len(L)); L[i] = rnd.choice("klmnopqrstuvwxyz_0123456789" if i else "klmnop"); put("".join(L))
        elif k == 2:
            L = list(base[:16]); i = rnd.randrange(1, 15); L[i], L[i + 1 if i < 14 else 1] = L[i + 1 if i < 14 else 1], L[i]; put("".join(L))
        elif k == 3:  # djb2: moving +1 / -33 between neighbouring bytes keeps the hash
            L = list("q" + base[:rnd.randrange(6, 20)]); i = rnd.randrange(1, len(L) - 1)
            if ord(L[i]) + 1 <= 122 and chr(ord(L[i + 1]) - 33).isalnum():
                put("".join(L)); L[i], L[i + 1] = chr(ord(L[i]) + 1), chr(ord(L[i + 1]) - 33); put("".join(L))
        elif k == 4:
            put("x" * rnd.randrange(1, 200))
        elif k == 5:
            put("_" * rnd.randrange(1, 5) + str(rnd.randrange(100)))
        else:
            put("Z" * rnd.randrange(1, 20) + rnd.choice(["", "a", "b", "A", "_"]))
    return names[:n]


def manyscn(name, n, seed):
    names = many(n, seed)
    b = B("void ev(long);")
    b.s.append("\n".join("%sint %s = %d;" % ("static " if i % 3 == 1 else "", x, i * 7 + 1) for i, x in enumerate(names)))
    rnd = random.Random(seed)
    order = list(range(n)); rnd.shuffle(order)
    T = "typedef char in%d[%d];" % (n, n)
    b.s.append("void pick(int *o, int v) {\n" + "\n".join("%s ^= v; o[%d] = %s;" % (names[i], i, names[i]) for i in order) + "\n}")
    b.f.append(Fn("pick", "void", ["int*%d" % n, "int"]))
    loc = [x for x in names if x not in ("o", "v", "s")][: n // 2]
    b.s.append("void local(int *o, int v) {\n" + "".join("int %s = v ^ %d;\n" % (x, i) for i, x in enumerate(loc)) + "{\n" + "".join("int %s = v ^ %d;\n" % (x, i + 5) for i, x in enumerate(loc[::3])) +
               "\n".join("o[%d] = %s;" % (i, x) for i, x in enumerate(loc)) + "\n}\n" + "\n".join("o[%d] ^= %s << 16;" % (i, x) for i, x in enumerate(loc)) + "\n}")
    b.f.append(Fn("local", "void", ["int*%d" % n, "int"]))
    b.s.append("struct mem { " + " ".join("short %s;" % x for x in names) + " };\nvoid member(struct mem *m, short *o) {\n" +
               "\n".join("o[%d] = m->%s;" % (i, names[i]) for i in order) + "\n}")
    b.f.append(Fn("member", "void", ["short*%d" % n, "short*%d" % n]))
    b.s.append("void labels(int *o, int v) { int i = 0; goto %s;\n" % names[order[0]] + "\n".join("%s: o[i++] = v ^ %d; %s" % (x, k, "goto %s;" % names[order[order.index(k) + 1]] if order[-1] != k else "return;") for k, x in enumerate(names)) + "\n}")
    b.f.append(Fn("labels", "void", ["int*%d" % n, "int"]))
    b.s.append("enum {\n" + ",\n".join("%s_E = %d" % (x, 3 * i) for i, x in enumerate(names)) + "\n};\nvoid enums(int *o, int v) {\n" + "\n".join("o[%d] = v ^ %s_E;" % (i, x) for i, x in enumerate(names)) + "\n}")
    b.f.append(Fn("enums", "void", ["int*%d" % n, "int"]))
    b.s.append("\n".join("static int %s_F(int v) { return v ^ %d; }" % (x, i * 3) for i, x in enumerate(names)) + "\nvoid funcs(int *o, int v) {\n" + "\n".join("o[%d] = %s_F(v);" % (i, x) for i, x in enumerate(names)) + "\n}")
    b.f.append(Fn("funcs", "void", ["int*%d" % n, "int"]))
    b.s.append("\n".join("#define %s_M (v ^ %d)" % (x, i * 5) for i, x in enumerate(names)) + "\n" + "\n".join("#undef %s_M" % x for x in names[::4]) + "\n" + "\n".join("#define %s_M (v ^ %d)" % (x, i * 9) for i, x in enumerate(names[::8])) +
               "\nvoid macros(int *o, int v) {\n" + "\n".join("#ifdef %s_M\no[%d] = %s_M;\n#else\no[%d] = -v;\n#endif" % (x, i, x, i) for i, x in enumerate(names)) + "\n}")
    b.f.append(Fn("macros", "void", ["int*%d" % n, "int"]))
    b.s.append("\n".join("struct %s_T { char c[%d]; };" % (x, i % 50 + 1) for i, x in enumerate(names)) + "\nvoid tags(int *o, int v) {\n" + "\n".join("o[%d] = v ^ sizeof(struct %s_T);" % (i, x) for i, x in enumerate(names)) + "\n}")
    b.f.append(Fn("tags", "void", ["int*%d" % n, "int"]))
    return b.out(name)

SYM = r'''#include "drv.h"
void *memcpy(void *, const void *, u64); char *strcpy(char *, const char *); u64 strlen(const char *);
static char A[64], B[64];
static char src[2000]; static int sn;
static void put(const char *s) { strcpy(src + sn, s); sn += strlen(s); }
static void T(const char *t) { for (; *t; t++) { if (*t == '@') put(A); else if (*t == '$') put(B); else src[sn++] = *t; } src[sn] = 0; }
static int id(int c, int first) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (!first & (c >= '0') & (c <= '9')); }
static int (*fp)(int); static int arg, res; static int call(void *x) { res = fp(arg); return 0; }
static void run(int eq, int want, int wanteq, const char *msg) { fp = L("f"); arg = 77; d_callL(call, 0); sx_assert(eq ? res == wanteq : res == want, msg); sx_cover("called"); }
void harness(void) {
  int i, la = %(la)d, lb = %(lb)d, eq = 1;
  const char *fix = "qrstuvwxyzabcdefghijQRSTUVWXYZABCDEFGHIJ0123456789";
  for (i = 0; i < la; i++) A[i] = fix[i]; for (i = 0; i < lb; i++) B[i] = fix[i];
  { static const int at[] = { %(at)s }; int k;
    for (k = 0; k < sizeof at / sizeof *at; k++) { i = at[k];
      if (i < la && %(both)d) { A[i] = sx_var(8, "a"); sx_assume(id(A[i], i == 0) & (A[i] != 'v')); }
      if (i < lb) { B[i] = sx_var(8, "b"); sx_assume(id(B[i], i == 0) & (B[i] != 'v')); } } }
  eq = la == lb; for (i = 0; i < la && i < lb; i++) eq &= A[i] == B[i];
  switch (sx_choose(%(n)d, "context")) {
%(cases)s
  }
}
'''
CTX = [  # program, value if the names differ, value if they are equal
    ("int f(int v) { int @ = v; { int $ = 5; @ ^= 3; $ += 1; } return @; }", "77 ^ 3", "77"),
    ("#define @ 3\\n#ifdef $\\nint f(int v) { return 1; }\\n#else\\nint f(int v) { return 0; }\\n#endif\\n", "0", "1"),
    ("#define @ 3\\n#undef $\\n#if @+0 == 3\\nint f(int v) { return v; }\\n#else\\nint f(int v) { return 0; }\\n#endif\\n", "77", "0"),
    ("struct @ { int a[3]; }; int f(int v) { struct $ { char c; }; struct @ *p = 0; return sizeof *p; }", "12", "1"),
    ("typedef int @; int f(int v) { { char $ = 3; } { @ $ = 4; return (int) sizeof $ + $; } }", "8", "8"),
    ("int f(int v) { struct { char @; struct { int $; } i; } m; m.@ = 2; m.i.$ = v; return m.@ * 100 + m.i.$; }", "277", "277"),
    ("static int @(int p) { return p ^ 9; } int f(int v) { int $ = 6; { int @(int); return @(v) + $ * 0; } }", "77 ^ 9", None),
    ("enum { @ = 5 }; int f(int v) { enum { $ = @ + 1 }; return @ * 10 + $; }", "56", "66"),
]


def symbolic(name, la, lb, at, both=0, ctxs=range(len(CTX)), **kw):
    from sxlib import Scenario
    cases = "".join('  case %d: %ssn = 0; T("%s\\n"); d_compile(src); run(eq, %s, %s, "context %d: wrong declaration selected"); break;\n' % (j, "sx_assume(!eq); " if CTX[k][2] is None else "", CTX[k][0], CTX[k][1], CTX[k][2] or 0, k) for j, k in enumerate(ctxs))
    return Scenario(name, SYM % {"both": both, "la": la, "lb": lb, "at": ", ".join(map(str, at)), "n": len(list(ctxs)), "cases": cases}, **kw)


def scenarios(tier, seed):
    out = []
    out.append(scopes().out("scopes", events=True, externs="int ext(int v) { ev(v); return v ^ 12345; }", opts="-std=c99", refflags=["-std=gnu99"]))
    out.append(tentative().out("tentative", events=True))
    for k in range(2 if tier == "quick" else 6):
        out.append(manyscn("names%d" % k, (40, 120, 400, 700, 900, 1200)[k], seed * 10 + k))
    for la, lb, at in ((3, 3, [1]), (15, 15, [14]), (16, 16, [15]), (1, 1, [0]), (17, 16, [15]), (40, 40, [8])):
        out.append(symbolic("sym%d-%d-%s" % (la, lb, at[0]), la, lb, at))
        if tier == "thorough":
            for k in range(len(CTX)):
                out.append(symbolic("both%d-%d-%s-%d" % (la, lb, at[0], k), la, lb, at, both=1, ctxs=[k], time=600))
    return out
