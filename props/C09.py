"""Calling convention: random signatures, both directions, against clang's lowering of the same calls."""
import random
from tv import Fn, scenario, cmp_val, is_struct
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"signatures": "seeded random signatures of 1 to 12 parameters over all scalar types and 44 struct/union shapes (1 to 40 bytes), each entered by a clang-compiled caller and forwarded, permuted, to a clang-compiled callee; indirect calls, K&R definitions, hidden return pointers",
          "inputs": "every byte of every argument and of every returned value is symbolic", "options": "-O0, -O1, -fPIC"}
ASSUMPTIONS = ["the reference lowering is clang 18's for x86_64 Linux", "padding bytes of aggregates are not compared"]
SC = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "long double"]
SHAPES = [
    ("char a;", [("a", "char")]), ("short a; char b;", [("a", "short"), ("b", "char")]), ("int a;", [("a", "int")]), ("float a;", [("a", "float")]), ("double a;", [("a", "double")]),
    ("int a; float b;", [("a", "int"), ("b", "float")]), ("float a, b;", [("a", "float"), ("b", "float")]), ("float a, b, c;", [("a", "float"), ("b", "float"), ("c", "float")]),
    ("float a, b, c, d;", [(x, "float") for x in "abcd"]), ("double a, b;", [("a", "double"), ("b", "double")]), ("long a; double b;", [("a", "long"), ("b", "double")]),
    ("double a; long b;", [("a", "double"), ("b", "long")]), ("double a; float b;", [("a", "double"), ("b", "float")]), ("float a; double b;", [("a", "float"), ("b", "double")]),
    ("char a[3];", "bytes"), ("char a[5];", "bytes"), ("char a[7];", "bytes"), ("char a[8];", "bytes"), ("char a[9];", "bytes"), ("char a[13];", "bytes"), ("char a[16];", "bytes"), ("char a[17];", "bytes"),
    ("int a, b, c;", "bytes"), ("long a, b, c;", "bytes"), ("double a, b, c;", [(x, "double") for x in "abc"]), ("long double a;", [("a", "long double")]), ("long double a; int b;", [("a", "long double"), ("b", "int")]),
    ("struct { float x; } a; struct { float y; int z; } b;", [("a.x", "float"), ("b.y", "float"), ("b.z", "int")]), ("float a[2]; int b[2];", [("a[0]", "float"), ("a[1]", "float"), ("b[0]", "int"), ("b[1]", "int")]),
    ("int a : 3; unsigned b : 7; int c : 20;", [("a", "int"), ("b", "int"), ("c", "int")]), ("long a; char b; short c;", [("a", "long"), ("b", "char"), ("c", "short")]), ("void *a; int b;", [("a", "void *"), ("b", "int")]),
    ("char a; int b : 30; float c;", [("a", "char"), ("b", "int"), ("c", "float")]), ("float a; char b[5]; int d;", [("a", "float"), ("b[0]", "char"), ("b[4]", "char"), ("d", "int")]),
    ("double a; struct { char x[3]; } b[2];", [("a", "double"), ("b[0].x[0]", "char"), ("b[1].x[2]", "char")]), ("struct { double x; } a[2];", [("a[0].x", "double"), ("a[1].x", "double")]),
    ("long a : 40, b : 40;", [("a", "long"), ("b", "long")]), ("int a : 20, b : 20; float c;", [("a", "int"), ("b", "int"), ("c", "float")]),
]
UNIONS = [("int a; float b;", "bytes"), ("double a; long b;", "bytes"), ("float a; double b;", [("b", "double")]), ("char a[12]; float b; int c;", "bytes"), ("double a[2]; char b;", [("a[0]", "double"), ("a[1]", "double")]), ("struct { float x, y; } a; double b[2];", [("b[0]", "double"), ("b[1]", "double")])]
DECL, FIELDS, AGG = [], {}, []
for i, (b, f) in enumerate(SHAPES):
    DECL.append("struct S%d { %s };" % (i, b)); FIELDS["struct S%d" % i] = f; AGG.append("struct S%d" % i)
for i, (b, f) in enumerate(UNIONS):
    DECL.append("union U%d { %s };" % (i, b)); FIELDS["union U%d" % i] = f; AGG.append("union U%d" % i)
DECL = "\n".join(DECL)
LD = ["struct S25", "struct S26"]


def sym_init(t, lhs, nm):
    from tv import in_scalar
    if t in LD:
        return "memset(&%s, 0, sizeof %s); { u64 v = IN(64, \"%s\"); double d; memcpy(&d, &v, 8); %s.a = d; }%s" % (lhs, lhs, nm, lhs, " %s.b = IN(32, \"%s\");" % (lhs, nm) if t == "struct S26" else "")
    return in_scalar(t, lhs, nm)


class Case:
    def __init__(self, k, r, nmax, agg=0.4, ret=None):
        self.k = k
        pick = lambda: r.choice(AGG) if r.random() < agg else r.choice(SC)
        n = r.randint(1, nmax)
        self.p = [pick() for _ in range(n)]
        self.ret = ret or (pick() if r.random() < .85 else "void")
        self.perm = list(range(n)); r.shuffle(self.perm)
        self.hp = [self.p[i] for i in self.perm]
        self.mode = r.choice(["direct", "ptr", "global", "deref"])

    def src(self):
        k, p = self.k, self.p
        sig = ", ".join("%s p%d" % (t, i) for i, t in enumerate(p))
        o = ["%s h%d(%s);" % (self.ret, k, ", ".join(self.hp))]
        o += ["struct { %s v; char canary[24]; } o%d_%d;" % (t, k, i) for i, t in enumerate(p)]
        args = ["p%d" % i for i in self.perm]
        body = "".join("o%d_%d.v = p%d; " % (k, i, i) for i in range(len(p)))
        if self.mode == "global":
            args = ["o%d_%d.v" % (k, i) for i in self.perm]
        if self.mode == "deref":
            body = "".join("%s *q%d = &p%d; " % (t, i, i) for i, t in enumerate(p)) + body
            args = ["*q%d" % i for i in self.perm]
        fn = "h%d" % k
        if self.mode == "ptr":
            body = "%s (*f)(%s) = h%d; " % (self.ret, ", ".join(self.hp), k) + body
            fn = r"(*f)" if k % 2 else "f"
        o.append("%s w%d(%s) { %s%s%s(%s); }" % (self.ret, k, sig, body, "" if self.ret == "void" else "return ", fn, ", ".join(args)))
        return "\n".join(o)

    def ext(self):
        k = self.k
        m = "struct H%d { %s int n; } H%d[2];" % (k, " ".join("%s a%d;" % (t, i) for i, t in enumerate(self.hp)), k)
        r = "" if self.ret == "void" else "static %s R%d; " % (self.ret, k)
        return m + "\n" + r + "\n%s h%d(%s) { %s H%d[d_side].n++; %s}" % (self.ret, k, ", ".join("%s a%d" % (t, i) for i, t in enumerate(self.hp)),
               " ".join("H%d[d_side].a%d = a%d;" % (k, i, i) for i in range(len(self.hp))), k, "" if self.ret == "void" else "return R%d; " % k)

    def fn(self):
        k = self.k
        init = "" if self.ret == "void" else sym_init(self.ret, "R%d" % k, "ret")
        for i, t in enumerate(self.p):
            if t in LD:
                init += " " + sym_init(t, "A.p%d" % i, "p%d" % i)
        chk = " ".join("d_eqmem(gl_o%d_%d + sizeof(%s), gr_o%d_%d + sizeof(%s), 24, \"w%d: bytes following object %d differ\");" % (k, i, t, k, i, t, k, i) for i, t in enumerate(self.p))
        chk += " sx_assert(H%d[0].n == H%d[1].n, \"w%d: number of calls differs\"); " % (k, k, k)
        chk += " ".join(cmp_val(t, "H%d[0].a%d" % (k, i), "H%d[1].a%d" % (k, i), "w%d: argument %d received by the callee differs" % (k, i), FIELDS) for i, t in enumerate(self.hp))
        return Fn("w%d" % k, self.ret, self.p, init=init, check=chk, globs=[("o%d_%d" % (k, i), t) for i, t in enumerate(self.p)])


KRF = '''
int k0(a, b, c) char a; float b; short c; { return a * 100000 + (b > 2.5f) * 10 + c; }
double k1(x, n) float x; unsigned char n; { return x * 2.0f + n; }
float k2(f) float f; { return f; }
'''
KR = '''
struct S { int a[5]; };
int k3(a, b, c) char a; short c; { return a * 100000 + b * 10 + c; }
double k4(x, n, p) double x; unsigned char n; struct S p; { return x * 2.0 + n + p.a[3]; }
long k5(a, b, c, d, e, f, g, h) _Bool a; long c; unsigned short d; int *f; long g; unsigned char h; { return a ^ b ^ c ^ d ^ e ^ *f ^ g ^ h; }
'''

SRET = '''
struct B { long a, b, c; };
struct B g;
struct B s0(long x) { struct B v; v.a = x; v.b = x + 1; v.c = 7; return v; }
struct B s1(struct B *p) { return *p; }
struct B s2(long x) { if (x) return s0(x); return g; }
struct L3 { long double x; int i; } s3(int i) { struct L3 v; v.x = i; v.i = i; return v; }
long s4(long x) { return s0(x).b + s2(x).a; }
'''


def sret_driver():
    d = []
    for i, (n, a) in enumerate([("s0", "A.x"), ("s1", "(long)&A.v"), ("s2", "A.x"), ("s3", "A.x"), ("s1", "(long)A.buf")]):
        d.append('static void u%d(void) { A.x = (long)IN(64, "x"); A.v[0] = (long)IN(64, "v"); A.fn = L("%s"); A.arg = %s; memset(A.buf, 0, sizeof A.buf); d_callL(call, &A);'
                 ' sx_cover("called"); sx_assert(A.ret == A.buf, "%s: the hidden pointer to the returned object is not handed back in %%rax"); }' % (i, n, a, n))
    from tv import cstr
    return '''#include "drv.h"
void *memcpy(void *, const void *, u64); void *memset(void *, int, u64);
static struct { void *fn; long x, arg; long v[3]; char *ret; char buf[64] __attribute__((aligned(16))); } A;
static int call(void *p) { A.ret = ((char *(*)(void *, long))A.fn)(A.buf, A.arg); return 0; }
static const char src[] = %s;
%s
void harness(void) { d_compile(src); switch (sx_choose(5, "fn")) { case 0: u0(); break; case 1: u1(); break; case 2: u2(); break; case 3: u3(); break; case 4: u4(); break; } }
''' % (cstr(SRET), "\n".join(d))


def scenarios(tier, seed):
    from sxlib import Scenario
    out = []
    quick = tier == "quick"
    r = random.Random(seed * 1000003 + 5)
    def add(name, cases, opts):
        src = DECL + "\n" + "\n".join(c.src() for c in cases)
        ext = "\n".join(c.ext() for c in cases)
        out.append(scenario(name, src, [c.fn() for c in cases], opts=opts, decls=DECL, externs=ext, fields=FIELDS, query_ms=5000, time=30 if quick else 120))
    optl = ["", "-O1", "-fPIC"]
    # every type alone as the first parameter and as the return value
    for g in range(0, len(AGG + SC), 13):
        cs = []
        for t in (AGG + SC)[g:g + 13]:
            c = Case(len(cs), r, 4); c.ret = t; c.p = [t] + c.p[:2]; c.perm = [1, 0][:len(c.p)] if len(c.p) < 3 else [2, 0, 1]
            c.hp = [c.p[i] for i in c.perm]; cs.append(c)
        for o in optl: add("each-%d" % (g // 13), cs, o)
    n = 30 if quick else 200
    for g in range(n):
        cs = [Case(i, r, [3, 6, 9, 12][g % 4], agg=[.3, .6, .15, .5][g // 4 % 4]) for i in range(12)]
        add("sig-%d" % g, cs, optl[g % 3])
    for o in optl[:2]:
        out.append(scenario("oldstyle-float", KRF, [Fn("k0", "int", ["int", "double", "int"], pre="p0 == (char)p0"), Fn("k1", "double", ["double", "int"]), Fn("k2", "float", ["double"])], opts=o, time=30))
        out.append(scenario("oldstyle", KR, [Fn("k3", "int", ["int", "int", "int"]), Fn("k4", "double", ["double", "int", "struct S"]), Fn("k5", "long", ["int", "int", "long", "int", "int", "int*1", "long", "int"], pre="p0 == 0 || p0 == 1")], refflags=["-std=c89"], decls="struct S { int a[5]; };", fields={"struct S": "bytes"}, opts=o, time=30))
        out.append(Scenario("sret", sret_driver(), opts=o))
    return out
