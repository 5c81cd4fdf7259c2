"""Optimisation keeps results, memory and calls."""
import random
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"programs": "hand-written functions for each def-use, alias and branch pattern the optimizer distinguishes, and seeded random functions (<= 30 statements, nesting <= 3, loops of at most 2 turns) over scalars, structs, unions, arrays, bit-fields, escaped and unescaped locals, globals and pointers to all of them",
          "inputs": "all parameters and initial global values symbolic", "compared": "arguments and order of external calls, return value, contents of all globals and of the buffers passed in", "options": "-O1 (every program), -O0 (sampled)"}
ASSUMPTIONS = ["reference semantics: clang 18 unoptimised IR of the same source", "volatile accesses are compared only as far as the values they store are seen by a callee"]
PRE = '''void ev(long);
struct S { int x; char y[4]; long z; }; struct B { unsigned a : 3; int b : 9; unsigned c : 20; }; struct P { int *p; struct P *n; }; struct A { int *v[2]; }; struct L { long a, b, c, d; };
union U { long l; int i[2]; char c[8]; double d; struct { int x; struct { long p, q, r; } t; } o; struct { struct { long p, q, r; } t; int y; } n; };
int g1 = 3; long g2 = 5; int *gpi; long *gpl; struct S gs; struct S *gps; int ga[4];
void rd(void) { if (gpi) ev(*gpi); if (gpl) ev(*gpl); if (gps) { ev(gps->x); ev(gps->y[1]); ev(gps->z); } }
void wr(long v) { if (gpi) *gpi = v; if (gpl) *gpl = v + 1; if (gps) { gps->x = v + 2; gps->y[1] = v + 3; gps->z = v; } }
int id(int x) { return x; } long ld(long *p) { return *p; } int ldi(int *p) { return *p; } void sti(int *p, int v) { *p = v; } int sum(struct S s) { return s.x + s.y[0] + s.y[1] + s.z; }
int pp(struct P p) { return *p.p + *p.n->p; } int pa(struct A a) { return *a.v[0] + *a.v[1]; } int ppp(int **p) { return **p; }
struct S mk(int x, long z) { struct S s; s.x = x; s.y[0] = x + 1; s.y[1] = x + 2; s.y[2] = 0; s.y[3] = 9; s.z = z; return s; }
struct L rot(struct L *p) { struct L l; l.a = p->b; l.b = p->c; l.c = p->d; l.d = p->a; return l; }
'''
HAND = [
 "int x; x = u; gpi = &x; rd(); x = u + 1; rd(); x = 7; return 0;", "int x = u, y = u + 1; gpi = u ? &x : &y; x = 3; y = 4; rd(); x = 5; y = 6; wr(v); ev(x); ev(y); x = 1; return y;",
 "long x; x = v; ev(ld(&x)); x = v + 1; ev(ld(&x)); x = 9; return x;", "int x; sti(&x, u); return x;", "int x = 1, y; y = x; sti(&x, u); return y * 100 + x;", "int x = 5; int *p = &x; *p = u; return x;", "int x = 5; int *p = &x; x = u; return *p;",
 "int x = u; ((char *)&x)[0] = 1; return x;", "int x = u; *(char *)&x = v; return x;", "long x = v; *(int *)((char *)&x + 4) = u; return x;", "long x = v; ((short *)&x)[1] = u; ((short *)&x)[3] = 5; return x;", "short s[2]; int x = u; ((short *)&x)[1] = v; s[0] = x; s[1] = x >> 16; return s[0] * 3 + s[1];",
 "union U w; w.l = v; w.i[1] = u; return w.l;", "union U w; w.l = v; w.c[3] = u; w.i[0] = w.i[1]; return w.l;", "union U w; w.i[0] = u; w.i[1] = v; ev(w.l); w.l = 0; return w.c[0];",
 "void *p; p = &gpi; *(void **)p = p; ev(gpi == (int *)&gpi); gpi = 0; return 0;", "struct P a; struct P *p; a.n = &a; p = &a; p->n = p; p = p->n; ev(p == &a); return 0;", "long *p; p = &g2; *p = (long)p; ev(g2 == (long)&g2); g2 = v; return 0;",
 "struct L l; l.a = v; l.b = u; l.c = 3; l.d = 4; l = rot(&l); return l.a + 3 * l.b + 5 * l.c + 7 * l.d;", "struct S s; s = mk(u, v); return 1;", "struct S s, t; s = t = mk(u, v); return sum(t);", "struct S s = mk(u, v), t; t = s; s.x = 9; return sum(t) + s.x;",
 "int x; int *q[1]; struct A a; a.v[0] = a.v[1] = &x; x = u; ev(pa(a)); x = 3; return pa(a);", "int x, y; struct P a, b; a.p = &x; b.p = &y; a.n = &b; x = u; y = v; ev(pp(a)); y = 4; ev(pp(a)); x = 8; return 0;", "int x; int *p = &x; x = u; ev(ppp(&p)); x = v; return ppp(&p);",
 "long a[4]; int i; for (i = 0; i < 4; i++) a[i] = v + i; a[u & 3] = 1; return a[0] + 2 * a[1] + 3 * a[2] + 5 * a[3];", "int a[2]; int *p = a; a[0] = u; a[1] = v; p++; return *p;", "int a[2][2]; a[0][0] = u; a[1][1] = v; a[0][1] = a[1][0] = 3; return ldi(&a[u & 1][u & 1]);",
 "struct S s; s.x = u; s.z = v; s.y[0] = 1; s.y[1] = 2; gps = &s; rd(); s.x = 5; s.y[1] = 6; s.z = 7; wr(v); return sum(s);", "struct B b; b.a = u; b.b = v; b.c = 1; b.a = b.b; return b.a + b.b * 10 + b.c;", "struct B b; b.a = 1; b.b = 2; b.c = 3; b.b = u; return b.a + b.b + b.c;",
 "int x = u, y; y = x; x = y; y = x; return y;", "int x = 1; if (u) x = 2; return x;", "int x = 1; if (u) x = 2; else x = 3; return x;", "int x; if (u) x = 2; else x = v; x = x + 1; return x;", "int x = 0, i; for (i = 0; i < 3; i++) { if (i == u) x = v; } return x;",
 "int x = 0, y = 1, i; for (i = 0; i < 3; i++) { int t = x; x = y; y = t + y + u; } return x * 3 + y;", "int x = 5, i = 0; while (i < 2) { ev(x); x = u + i; i++; } return 0;", "int x = 5, i = 0; do { ev(x); x = i; i++; if (i == u) continue; x = 10; } while (i < 3); return i;",
 "int x = 1; goto b; a: return x; b: x = u; if (x > 3) goto a; x = 7; goto a;", "int x = 1, n = 0; l: x = x + n; n++; if (n < 3) { x = x + u; goto l; } return x;", "int x = 1; switch (u) { case 0: x = 2; case 1: ev(x); x = 3; break; case 2: x = 4; break; default: x = 5; } return x;",
 "int x; x = (u && v) ? 1 : 2; return x;", "int x = 3; x = u ? x : (x = 9, x + 1); return x;", "int x = u; int y = x++ + 1; int z = ++y; return x * 100 + y * 10 + z;", "int x = 1, y = 2, z = 3; x = y = z = u; ev(x); ev(y); return z;", "int x = 2; long y; char c; y = x = c = v; ev(x); ev(y); return c;",
 "unsigned char c; int x; c = v; x = c; c = u; return x + c;", "char c; c = v; v = c; return v;", "_Bool b; int x; b = v; x = b; return x;", "float f; double d; f = u; d = f; f = d; return (long)f;", "double d; d = v & 65535; d = d * 2; return (int)d;",
 "g1 = u; g1 = v; rd(); return g1;", "int x; g1 = x = u; x = g1 + 1; g1 = x; return x;", "static int s; s = u; ev(s); s = v; return 0;", "static int s; int r = s; s = u; return r;", "static long k[2]; k[u & 1] = v; ev(k[0]); ev(k[1]); k[0] = k[1] = 0; return 0;",
 "int x = u; int r; r = id(x); x = r; return id(x);", "int x; x = id(u); return 3;", "int x; x = id(u); x = id(v); return x;", "int (*f)(int); f = id; return f(u);", "int (*f)(int) = u ? id : id; int x = f(v); f = 0; return x;", "int x; long y; x = u; y = x; x = 0; return y;",
 "struct S s, *p = &s; p->x = u; p->z = v; p->y[0] = p->y[1] = 2; s.x += 1; return sum(*p);", "struct S s, t, *p; s = mk(1, 2); t = mk(3, 4); p = u ? &s : &t; p->x = v; return s.x * 10 + t.x;", "struct S a[2]; a[0] = mk(1, 2); a[1] = a[0]; a[u & 1].x = v; return a[0].x * 10 + a[1].x;",
 "union U w; struct { long p, q, r; } *z; w.o.t.p = v; w.o.t.q = u; w.o.t.r = 3; w.n.t.p = 0; return w.l;", "union U w; w.o.t.p = v; w.o.t.q = u; w.o.t.r = 3; { union U t; t = w; w = t; } return w.o.t.p + w.o.t.q + w.o.t.r;",
 "struct L a[2]; char *p = (char *)a; struct L t; a[0].a = v; a[0].b = u; a[0].c = 1; a[0].d = 2; a[1].a = 3; a[1].b = 4; a[1].c = 5; a[1].d = 6; t = *(struct L *)(p + 8); *(struct L *)(p + 16) = t; return a[0].c + 3 * a[0].d + 5 * a[1].a + 7 * a[1].b;",
 "struct L a[2]; char *p = (char *)a; struct L t; a[0].a = v; a[0].b = u; a[0].c = 1; a[0].d = 2; a[1].a = 3; a[1].b = 4; a[1].c = 5; a[1].d = 6; t = *(struct L *)(p + 16); *(struct L *)(p + 8) = t; return a[0].b + 3 * a[0].c + 5 * a[0].d + 7 * a[1].a;",
 "volatile int x; x = u; x = 3; gpi = (int *)&x; rd(); x = v; rd(); return x;", "int *volatile p = &g1; *p = u; p = &ga[1]; *p = v; return ga[1] + g1;",
 "int x = 1; { int y = u; gpi = &y; rd(); y = v; rd(); gpi = &x; } x = 4; rd(); return 0;", "int x = u; int *p, **q; p = &x; q = &p; **q = v; return x;", "int x = u, y = v; int *p = &x, **q = &p; *q = &y; *p = 5; return x * 10 + y;", "int n = (u & 1) + 1; int a[n]; a[0] = u; a[n - 1] = v; return a[0];",
 "long s = 0, i, j; for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { s = s * 2; if (i == j) s = s + u; else s = v; } return s;", "int x = 0; for (;;) { x = x + 1; if (x > (u & 3)) break; ev(x); } x = x; return x;", "int x = 0, y = 0; while (x < 2) { y = x; x = x + 1; } ev(y); y = 0; return x;",
 "int a, b, c, d; a = u; b = a; c = b; d = c; a = d; return a + b;", "int a = u, b = a + 1, c = b + 1; a = c; c = a; b = 0; return c;", "char b[8]; int i; long x = v; for (i = 0; i < 8; i++) b[i] = ((char *)&x)[i]; x = 0; ev(*(long *)b); return x;",
 "int x = u; int y = x; x = 3; ev(y); y = x; x = 4; ev(y); return x;", "int x = u; sti(&x, v); x = x; return x;", "int x = u; if ((x = v)) return x; return x + 1;", "int x = u; x += x = 3; return 0;", "long *p = &g2; long x; x = *p; *p = v; ev(x); x = *p; *p = u; return x;", "int i = u & 3, x; x = ga[i]; ga[i] = ga[3 - i]; ga[3 - i] = x; x = 0; return 0;",
 "long double x = u, y; y = x; x = y + 1; return (long)x;", "float f = u & 255, g; g = f; f = 2; return (int)(f * g);", "struct P a, b; a.n = &b; b.n = &a; a.p = &g1; b.p = a.n->n->p; *b.p = u; return pp(a);",
 "int x = u, y; y = x < v; x = y; return x;", "int y; y = !u; u = y; y = -u; u = ~y; return u;", "int c = 0; c += u == 1; c += v > 3; c = c == 2; return c;", "unsigned x = u, y; y = x / 3; x = y; y = x % 5; return x * 10 + y;", "int x, *p; p = &x; x = u; p = &g1; *p = 3; return x;",
]
BIG = "".join("int x%d = u + %d; " % (i, i) for i in range(70)) + "x3 = v; gpi = &x5; rd(); x5 = 1; rd(); " + "ev(%s); return x3;" % " + ".join("x%d" % i for i in range(0, 70, 3))
BIG63 = lambda n: "".join("int x%d = u; " % i for i in range(n)) + "x1 = v; x%d = 3; gpi = &x%d; x%d = 4; rd(); x0 = 9; ev(x1); return %s;" % (n - 1, n - 1, n - 1, " + ".join("x%d" % i for i in range(n)))
HAND += [BIG] + [BIG63(n) for n in (55, 58, 60, 61, 62, 63, 64)]


class G:
    def __init__(self, seed): self.r = random.Random(seed); self.n = 0; self.f = 0; self.l = 0; self.forks = 0

    INTL = ["a", "b", "s.x", "w.i[1]", "g1", "*pi", "ga[1]", "ga[a & 3]", "t.x", "bf.b", "gs.x", "q->x"]
    LONGL = ["c", "s.z", "arr[1]", "arr[a & 1]", "g2", "*pl", "t.z", "q->z", "w.l"]
    OTH = ["d", "e", "h", "s.y[1]", "bf.a", "((char *)&a)[1]", "*pc", "w.c[2]", "(*(short *)&c)", "((int *)&c)[1]", "q->y[1]"]

    def lv(self):
        r = self.r; k = r.random()
        return r.choice(["a", "b", "c", "a", "b", "d"]) if k < .4 else r.choice(self.INTL if k < .6 else self.LONGL if k < .8 else self.OTH)

    def ex(self, d=2):
        r = self.r; k = r.random()
        if d == 0 or k < .45: return r.choice([self.lv(), self.lv(), self.lv(), "u", "v", str(r.randint(-2, 9))])
        if k < .7: return "%s %s %s" % (self.at(d - 1), r.choice(["+", "-", "^", "&", "|"]), self.at(d - 1))
        if k < .76: return "%s %s %s" % (self.at(d - 1), r.choice(["<", "==", "!="]), self.at(d - 1))
        if k < .82: return "(%s)%s" % (r.choice(["int", "char", "long", "unsigned char", "short", "unsigned"]), self.at(d - 1))
        if k < .9: return r.choice(["id(%s)", "-(%s)", "~(%s)", "!(%s)"]) % self.ex(d - 1)
        return r.choice(["ldi(pi)", "ld(pl)", "sum(s)", "sum(*q)", "ldi(&a)", "ld(&c)", "ldi(&s.x)", "ldi(&arr2[1])"])

    def at(self, d): e = self.ex(d); return e if e.isalnum() else "(%s)" % e

    def st(self, d, loop):
        r = self.r; self.n += 1; k = r.random()
        if self.n > 30 and k > .4: k = r.random() * .4
        if k < .22: return "%s = %s;" % (self.lv(), self.ex())
        if k < .27: return "%s = %s = %s;" % (self.lv(), self.lv(), self.ex())
        if k < .33: return "%s %s= %s;" % (self.lv(), r.choice("+-^|&"), self.ex(1))
        if k < .37: return r.choice(["%s++;", "--%s;", "%s--;"]) % self.lv()
        if k < .40: return "ev(%s);" % self.ex()
        if k < .55: return r.choice(["pi = &a;", "pi = &b;", "pi = &s.x;", "pi = &g1;", "pi = &arr2[a & 1];", "pl = &c;", "pl = &arr[b & 1];", "pl = &s.z;", "pl = &g2;", "pc = (char *)&a;", "pc = (char *)&c + 3;", "pc = &s.y[2];", "q = &s;", "q = &t;", "q = &gs;", "gpi = &a;", "gpi = pi;", "gpl = &c;", "gpl = pl;", "gps = &t;", "gps = q;", "gpi = 0; gpl = 0; gps = 0;", "a = u; gpi = &a;", "b = v; pi = &b;"])
        if k < .64: return r.choice(["rd();", "wr(%s);" % self.ex(1), "sti(pi, %s);" % self.ex(1), "sti(&b, %s);" % self.ex(1), "rd();", "a = id(%s);" % self.ex(1), "id(a);"])
        if k < .72: return r.choice(["s = t;", "t = s;", "*q = s;", "t = *q;", "s = mk(a, c);", "*q = mk(u, v);", "gs = s;", "s = gs;", "s = t = *q;", "t = s; s.x = %s;" % self.ex(1), "w.l = c;", "w.d = 1.5;"])
        if k < .76 and self.forks < 5: self.forks += 1; return "%s = %s ? %s : %s;" % (self.lv(), self.cond(), self.ex(1), self.ex(1))
        if k < .80 and self.forks < 5: self.forks += 1; return "%s = %s %s %s;" % (r.choice("abcd"), self.cond(), r.choice(["&&", "||"]), self.ex(1))
        if d == 0: return "%s = %s;" % (r.choice("abcde"), self.ex())
        b = lambda lp=loop: "{ %s }" % " ".join(self.st(d - 1, lp) for _ in range(r.randint(1, 3)))
        if k < .90 and self.forks < 5:
            self.forks += 1
            if loop and r.random() < .2: return "if (%s) { %s break; }" % (self.cond(), self.st(0, 0))
            return "if (%s) %s" % (self.cond(), b()) + (" else " + b() if r.random() < .5 else "")
        if k < .96:
            self.f += 1; f = "f%d" % self.f
            return "{ int %s = 0; while (%s++ < 2) %s }" % (f, f, b(1)) if r.random() < .6 else "{ int %s; for (%s = 0; %s < 2; %s++) %s }" % (f, f, f, f, b(1))
        if self.forks < 5:
            self.forks += 1; self.l += 1; l = "l%d" % self.l
            return "if (%s) goto %s; %s %s: ;" % (self.cond(), l, " ".join(self.st(0, loop) for _ in range(2)), l)
        return "b = a; a = c;"

    def cond(self): r = self.r; return r.choice(["u == %d" % r.randint(0, 3), "v > %d" % r.randint(-2, 2), "a < %d" % r.randint(0, 3), "b", "c == v", "!(%s)" % self.ex(1), "d & 1", "u & %d" % (1 << r.randint(0, 3))])

    def body(self):
        pre = "int a = u, b = %d, arr2[2] = {1, 2}; long c = v, arr[2] = {3, 4}; char d = u; unsigned char e = 1; short h = 2; struct S s = {1, {2, 3, 4, 5}, 6}, t = {7, {8, 9, 10, 11}, 12}, *q = &s; union U w = {5}; struct B bf = {1, 2, 3}; int *pi = &a; long *pl = &c; char *pc = (char *)&c; gpi = pi; gpl = 0; gps = 0; " % self.r.randint(0, 3)
        if self.r.random() < .5: pre = pre.replace("int *pi = &a", "int *pi = &g1").replace("long *pl = &c", "long *pl = &g2").replace("char *pc = (char *)&c", "char *pc = (char *)&ga").replace("*q = &s", "*q = &gs").replace("gpi = pi", "gpi = 0")
        s = " ".join(self.st(3, 0) for _ in range(self.r.randint(6, 12)))
        return pre + s + " gpi = 0; gpl = 0; gps = 0; return %s;" % self.r.choice(["a", "b", "c", "sum(s)", "sum(t)", "a + b", "0", "*pi", "arr[1]", "w.i[0]"])


GL = ["g1:4", "g2:8", "gs:16", "ga:16"]


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    def prog(bodies):
        return PRE + "\n".join("long f%d(int u, long v) { %s }" % (i, b) for i, b in enumerate(bodies)), [Fn("f%d" % i, "long", ["int", "long"], globs=()) for i in range(len(bodies))]
    def add(name, bodies, o):
        bodies = [b.replace("return ", "gpi = 0; gpl = 0; gps = 0; return ") if "rd()" in b or "gp" in b else b for b in bodies]
        src = PRE + "\n".join("long f%d(int u, long v) { %s }" % (i, b) for i, b in enumerate(bodies))
        src += "\nlong fin(void) { ev(g1); ev(g2); ev(gs.x); ev(gs.y[1]); ev(gs.z); ev(ga[0]); ev(ga[1]); ev(ga[2]); ev(ga[3]); return 0; }\n"
        src += "\n".join("long w%d(int u, long v, int *p) { long r; g1 = p[0]; g2 = p[1]; gs.x = p[2]; gs.y[1] = p[3]; gs.z = p[4]; ga[0] = p[5]; ga[1] = p[6]; ga[2] = p[7]; ga[3] = 1; r = f%d(u, v); fin(); return r; }" % (i, i) for i in range(len(bodies)))
        out.append(scenario(name, src, [Fn("w%d" % i, "long", ["int", "long", "int *8"]) for i in range(len(bodies))], opts=o, events=True, query_ms=4000, time=30 if quick else 90))
    n = 8
    for i in range(0, len(HAND), n):
        add("hand-%d" % (i // n), HAND[i:i + n], "-O1")
        if not quick: add("hand0-%d" % (i // n), HAND[i:i + n], "-O0")
    for k in range(60 if quick else 800):
        add("rand-%d" % k, [G(seed * 1000003 + k * 10 + j).body() for j in range(4)], "-O1" if k % 15 or quick else "-O0")
    return out
