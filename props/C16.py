"""Addresses: array elements, members and pointer arithmetic are base + index * size + offset in 64-bit arithmetic."""
import random
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"element types": "char, short, int, long, double, pointers, structs of 3, 5, 12, 24 and 40 bytes, arrays of these up to three dimensions", "index types": "all ten integer types, all values (symbolic 64-bit pointers and indices, wrapping)",
          "objects": "parameters, locals, globals, statics, members, arrays of structs of arrays, pointers to arrays, array parameters; constant displacements up to +-2^40", "accesses": "loads and stores through symbolic in-bounds indices",
          "options": "-O0, -O1, -fPIC"}
ASSUMPTIONS = ["reference semantics: clang 18 IR of the same source", "addresses outside any object are computed but not accessed; both compilers wrap modulo 2^64"]
INT = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
DECL = '''
struct S3 { char a[3]; }; struct S5 { char a; short b[2]; char c; } ; struct S12 { int a, b; short c[2]; }; struct S24 { long a; char b; double c; };
struct T { short s[3]; int m[2][3]; char z; };
struct S40 { char c; struct T t; struct S12 *q; };
struct BIG { char c; struct T t[4]; struct S40 u[3]; struct BIG *next; int tail[5]; union { long l; char b[12]; int w[3]; } n; };
'''
EL = ["char", "short", "int", "long", "double", "char *", "struct S3", "struct S5", "struct S12", "struct S24", "struct S40"]


def arith(idx):
    """pointer +- index for every element type, fully symbolic"""
    src, fns = [DECL], []
    def f(ret, ps, body):
        n = "f%d" % len(fns)
        src.append("%s %s(%s) { %s }" % (ret, n, ", ".join("%s p%d" % (p, i) for i, p in enumerate(ps)), body)); fns.append(Fn(n, ret, ps))
    for t in EL:
        P = t + " *"
        f("void *", [P, idx], "return &p0[p1];")
        f("void *", [P, idx], "return p0 - p1;")
        f("void *", [P, idx, idx], "return (p1 + p0) + p2;")
        f("void *", [P, idx], "p0 += p1; return p0 + 1;")
        f("void *", [P, idx], "p0 -= p1; p0++; return --p0 - 2;")
    f("void *", ["int *", idx, idx], "int (*q)[7] = (int (*)[7])p0; return &q[p1][p2];")
    f("void *", ["int *", idx, idx], "short (*q)[3][5] = (short (*)[3][5])p0; return q[p1][p2] + p2;")
    f("void *", ["struct BIG *", idx], "return &p0[p1].t[p1].m[1][p1];")
    f("void *", ["struct BIG *", idx, idx], "return &p0->u[p1].t.m[p2][2];")
    f("void *", ["struct BIG *", idx, idx], "return &p1[p0].tail[p2];")
    f("void *", ["struct BIG *", idx], "return p0->n.w + p1;")
    f("void *", ["char *", idx], "return (&p0)[0] + p1 * 3;")
    f("void *", ["char *", idx], "return &p1[p0 + 5];")
    return src, fns


FIX = [  # constant displacements, differences, comparisons, conversions
 ("void *", ["%P"], "return &p0[5];"), ("void *", ["%P"], "return p0 + -3;"), ("void *", ["%P"], "return &p0[-1];"), ("void *", ["%P"], "return p0 - 2u + 1;"),
 ("void *", ["%P"], "return &(&(&p0[2])[3])[-7];"), ("void *", ["%P"], "return &p0[100000000];"), ("void *", ["%P"], "return &p0[2000000000];"), ("void *", ["%P"], "return p0 + 5000000000;"), ("void *", ["%P"], "return p0 - 3000000000u;"),
 ("long", ["%P", "%P"], "return p0 < p1;"), ("long", ["%P", "%P"], "return (p0 >= p1) + 2 * (p0 <= p1) + 4 * (p0 > p1) + 8 * (p0 == p1) + 16 * (p0 != p1);"),
 ("long", ["%P", "%P"], "if (p0 > p1) return 1; while (p0 == p1) return 2; return p0 + 1 <= p1 ? 3 : 4;"),
 ("long", ["%P"], "return (p0 + 7) - p0;"), ("long", ["%P", "int"], "return (p0 + p1) - (p0 - 1);"),
 ("long", ["%P", "%P"], "return p0 - p1;"), ("int", ["%P", "%P"], "return (int)(p0 - p1) - 1;"),
 ("int", ["%P"], "return (int)(long)p0 + !p0 + (p0 ? 10 : 20) + (p0 == 0) * 100;"), ("_Bool", ["%P"], "return p0;"), ("void *", ["long"], "return (%P)p0 + 1;"), ("void *", ["%P", "int", "%P"], "return p1 ? p0 : p2 + 1;"), ("void *", ["%P", "int"], "return p1 ? p0 : 0;"),
 ("void *", ["%P"], "%P q = p0++; %P *r = &p0; return *r + (*r - q);"), ("long", ["%P"], "%P q = p0; return (char *)++q - (char *)p0;"), ("void *", ["%P *1"], "return (*p0)++;"), ("void *", ["%P *1"], "*p0 += 3; return *p0 - 1;"), ("void *", ["%P *3", "int"], "return p0[p1 & 1] + p1;"),
]
MEM = '''
struct BIG g, ga[3]; static struct BIG sg; static int sa[4][5]; char gc[7]; struct S12 *gp[3]; int gi[2][3][4];
'''
GM = [
 ("long", "(char *)&g.t[%0].m[%1][%2] - (char *)&g"), ("long", "(char *)&ga[%0].u[%1].t.s[%2] - (char *)ga"), ("long", "(char *)&sg.u[2].t.m[%0] - (char *)&sg.t"), ("long", "(char *)(sa + %0) - (char *)sa"), ("long", "(char *)(sa[%0] + %1) - (char *)&sa[0][0]"),
 ("long", "(char *)&gi[%0][%1][%2] - (char *)gi"), ("long", "(char *)(*(*(gi + %0) + %1) + %2) - (char *)gi"), ("long", "(char *)(gc + %0) - gc"), ("long", "(char *)&gp[%0] - (char *)gp"), ("long", "(char *)&(&ga[1])[%0].next - (char *)ga"), ("long", "(char *)&ga[%0].n.b[%1] - (char *)&ga[%2]"), ("long", "&gi[1][%0][%1] - &gi[0][0][0]"), ("long", "(char *)&(*&g).tail[%0] - (char *)&g + (&g == ga)"),
 ("long", "(long)&((struct BIG *)0)->u[%0].t.m[1][%1]"), ("long", "(long)&((struct BIG *)0)[%0].tail[%1]"), ("long", "&g.t[%0] - g.t"), ("long", "sizeof(gi[%0]) + sizeof *gi[%1] + sizeof(ga[%0].t[0].m) + sizeof g.u->t"),
]
ACC = [  # in-bounds accesses; masks keep the index inside
 ("int", ["int *8", "%I", "int"], "p0[p1 & 7] = p2; return p0[(p1 + 1) & 7];"),
 ("long", ["long *4", "%I"], "p0[p1 & 3] += 5; return p0[3] ^ p0[0];"),
 ("char", ["char *8", "%I", "%I"], "p0[p1 & 7] = p0[p2 & 7]; return *(p0 + (p2 & 3));"),
 ("int", ["struct S12 *4", "%I", "int"], "struct S12 *q = &p0[p1 & 3]; q->b = p2; q->c[p1 & 1] = p2 + 1; return p0[p2 & 3].a;"),
 ("int", ["%I", "int", "%I"], "int a[4][3], i, j; for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) a[i][j] = i * 10 + j; a[p0 & 3][1] = p1; return a[p2 & 3][(p0 & 1) + 1];"),
 ("int", ["%I", "%I", "int"], "ga[p0 & 1].tail[p1 & 3] = p2; ga[1].u[p0 & 1].t.m[1][p1 & 1] = p2 + 1; return ga[p1 & 1].tail[p0 & 3];"),
 ("int", ["%I", "int"], "int v[3], *q[2]; v[0] = 1; v[1] = p1; v[2] = 3; q[0] = v; q[1] = v + 1; return q[p0 & 1][1] + *q[1] + q[1][-1];"),
 ("long", ["%I", "long"], "struct T t[2]; struct T *p = t + 1; p->s[2] = p1; p[-1].m[1][2] = 7; p->m[p0 & 1][2] = p1; t[0].s[2] = 9; p--; return p->s[2] * 100 + p->m[1][2] + p[1].m[p0 & 1][2] + t[1].s[2];"),
 ("int", ["struct BIG *2", "%I"], "p0->next = p0 + 1; p0[1].next = p0; p0->next->next->tail[p1 & 3] = 5; return p0->next->tail[1] + p0->next->next->tail[2];"),
 ("int", ["int *12", "%I", "%I"], "int (*q)[3] = (int (*)[3])p0; (*q)[p1 & 1] = 3; q[2][p2 & 1] = 4; return q[p1 & 3][2] + (*(q + 1))[1] + sizeof *q;"),
 ("int", ["%I"], "static short st[4] = {1, 2, 3, 4}; st[p0 & 3]++; return st[p0 & 3] + *(st + 1) + st[2 - (p0 & 1)];"),
 ("int", ["int *4", "%I"], "int *p = p0, *e = p0 + 4, s = 0; while (p < e) { if (p - p0 == (p1 & 3)) s += 100; s += *p++ & 7; } return s;"),
 ("int", ["char *6", "%I"], "char **pp; char *q[2]; q[0] = p0; q[1] = p0 + 3; pp = q + (p1 & 1); return *(*pp)++ + **pp + (q[0] - p0) + *++*pp;"),
 ("double", ["double *4", "%I", "double"], "p0[p1 & 3] = p2; return p0[1] + *(&p0[2]);"),
]
HUGE = '''
struct H { char pad[3000000000]; int x; long arr[300000000]; short y; };
void *f0(struct H *p) { return &p->x; }
void *f1(struct H *p) { return &p->y; }
void *f2(struct H *p, int i) { return &p->arr[i]; }
void *f3(struct H *p, long i) { return &p[i].y; }
long f4(void) { return (long)&((struct H *)0)->y; }
unsigned long f5(void) { return sizeof(struct H); }
void *f6(char (*p)[2147483648], int i) { return p[i]; }
void *f7(char (*p)[2147483648]) { return p + 1; }
void *f8(char *p) { return &p[2147483647] + 1; }
void *f9(char *p) { return p - 2147483648; }
void *f10(int (*p)[1000][1000][1000], short i) { return &p[i][0][i][1]; }
void *f11(struct H *p) { struct H *q = p; return &(*q).arr[299999999]; }
'''
HF = [Fn("f0", "void *", ["struct H *"]), Fn("f1", "void *", ["struct H *"]), Fn("f2", "void *", ["struct H *", "int"]), Fn("f3", "void *", ["struct H *", "long"]), Fn("f4", "long", []), Fn("f5", "unsigned long", []),
      Fn("f6", "void *", ["char *", "int"]), Fn("f7", "void *", ["char *"]), Fn("f8", "void *", ["char *"]), Fn("f9", "void *", ["char *"]), Fn("f10", "void *", ["int *", "short"]), Fn("f11", "void *", ["struct H *"])]
PAR = [
 ("void *", "int a[3][4], int i", ["int *", "int"], "return &a[i][3];"), ("void *", "int a[][4][2], long i", ["int *", "long"], "return a[i] + 1;"), ("void *", "char a[5], unsigned char i", ["char *", "unsigned char"], "a += i; return &a[1];"),
 ("void *", "struct S12 a[], short i", ["struct S12 *", "short"], "return &a[i].c[i];"), ("long", "int a[9]", ["int *"], "return sizeof a + sizeof *a;"),
]


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    r = random.Random(seed)
    kw = dict(decls=DECL, query_ms=5000, time=30 if quick else 120)
    optl = ["", "-O1", "-fPIC"]
    for k, t in enumerate(INT):
        src, fns = arith(t)
        for o in (optl if not quick else [optl[k & 1]]):
            out.append(scenario("index-" + t.replace(" ", "-"), "\n".join(src), fns, opts=o, **kw))
    for k, t in enumerate(EL):
        src, fns = [DECL], []
        for ret, ps, b in FIX:
            n = "c%d" % len(fns); ps = [p.replace("%P", t + " *") for p in ps]
            src.append("%s %s(%s) { %s }" % (ret, n, ", ".join("%s p%d" % (p.replace("*1", "*").replace("*3", "*"), i) for i, p in enumerate(ps)), b.replace("%P", t + " *")))
            pre = None
            if b.startswith("return p0 - p1") or "(p0 - p1) - 1" in b:
                sz = "sizeof(%s)" % t
                # any two pointers into the first 32 elements of one array
                src[-1] = "%s %s(%s p0, unsigned char x, unsigned char y) { %s p1 = p0 + (y & 31); p0 += x & 31; %s }" % (ret, n, t + " *", t + " *", b)
                ps = [t + " *", "unsigned char", "unsigned char"]
            elif "- p0" in b or "*r - q" in b or "- (p0" in b:
                src[-1] = src[-1].replace("int p1)", "short p1)"); ps = [p if p != "int" else "short" for p in ps]
            fns.append(Fn(n, ret, ps))
        for o in (optl[:2] if not quick else [optl[k & 1]]):
            out.append(scenario("const-%d" % k, "\n".join(src), fns, opts=o, **kw))
    for o in optl:
        src, fns = [DECL, MEM], []
        for ret, e in GM:
            for m in range(2 if quick else 5):
                ts = [r.choice(INT[1:]) for _ in range(3)]
                n = "g%d" % len(fns)
                for i in range(3): e2 = e.replace("%0", "a").replace("%1", "b").replace("%2", "c")
                src.append("%s %s(%s a, %s b, %s c) { return %s; }" % (ret, n, ts[0], ts[1], ts[2], e2)); 
                # differences of pointers divide: keep the byte distance small
                fns.append(Fn(n, ret, ts if "&gi[1]" not in e and "&g.t[%0] - g.t" not in e else ["short", "short", "short"]))
                if fns[-1].params != ts: src[-1] = "%s %s(short a, short b, short c) { return %s; }" % (ret, n, e2)
        out.append(scenario("globals", "\n".join(src), fns, opts=o, **kw))
        src, fns = [DECL, MEM], []
        for ret, ps, b in ACC:
            for t in (["int", "unsigned char"] if quick else INT):
                n = "m%d" % len(fns); p2 = [p.replace("%I", t) for p in ps]
                import re
                src.append("%s %s(%s) { %s }" % (ret, n, ", ".join("%s p%d" % (re.sub(r"\*\d+", "*", p), i) for i, p in enumerate(p2)), b)); fns.append(Fn(n, ret, p2))
        out.append(scenario("access", "\n".join(src), fns, opts=o, fields={"struct BIG": [("c", "char")] + [("tail[%d]" % i, "int") for i in range(5)]}, **kw))
        src, fns = [DECL], []
        for ret, sig, ps, b in PAR:
            n = "a%d" % len(fns); src.append("%s %s(%s) { %s }" % (ret, n, sig, b)); fns.append(Fn(n, ret, ps))
        out.append(scenario("huge", HUGE, HF, opts=o, decls="struct H { char pad[3000000000]; int x; long arr[300000000]; short y; };", **{k: v for k, v in kw.items() if k != "decls"}))
        out.append(scenario("arrayparam", "\n".join(src), fns, opts=o, **kw))
    return out
