"""Variable length arrays and alloca: sizes, strides, disjointness, stack discipline."""
import random
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"bounds": "every run-time bound in 1..4 per dimension (derived bounds up to 16), up to 3 dimensions", "elements": "all scalar types, structs of 3, 12, 16, 24 bytes, unions, long double, pointers; element values symbolic",
          "forms": "block, loop and branch scope declarations, parameters of variably modified type, pointers to VLAs, typedefs of VLAs, arrays of fixed rows, sizeof with side effects, goto and early return out of scope, alloca, calls with register and stack arguments while VLAs are live, recursion",
          "compared": "sizeof values, address differences, alignment, every element read back, neighbouring fixed objects, callee-saved registers and stack pointer at return", "options": "-std=c99 with -O0, -O1, -fPIC"}
ASSUMPTIONS = ["reference semantics: clang 18 unoptimised IR of the same source", "the stack is large enough"]
PRE = '''void ev(long);
struct S3 { char c[3]; }; struct S12 { int a, b, c; }; struct S16 { long a; char b; }; struct S24 { long a; double b; int c; }; union U8 { long l; char c[5]; };
static long many(int a, int b, long c, char d, int *e, long f, long g, struct S24 h, int i) { return a + b * 2 + c * 3 + d * 4 + *e * 5 + f * 6 + g * 7 + h.c * 8 + i * 9; }
static long sum(int n, int *a) { unsigned long s = 0; int i; for (i = 0; i < n; i++) s = (s << 5) ^ a[i]; return s; }
static long sum2(int n, int m, long a[n][m]) { unsigned long s = sizeof(*a); int i, j; for (i = 0; i < n; i++) for (j = 0; j < m; j++) s = (s << 5) ^ a[i][j]; return s; }
static long sum3(int n, int m, int k, short a[][m][k]) { unsigned long s = sizeof(*a) * 100 + sizeof(**a); int i, j, l; for (i = 0; i < n; i++) for (j = 0; j < m; j++) for (l = 0; l < k; l++) s = (s << 5) ^ a[i][j][l]; return s; }
static void fill(int n, int *a, long v) { int i; for (i = 0; i < n; i++) a[i] = v + i; }
static int cnt(int *n) { return ++*n; }
'''
HAND = [
 "int a[n]; fill(n, a, v); ev(sizeof a); return sum(n, a);", "char a[n], b[m]; int i; for (i = 0; i < n; i++) a[i] = v + i; for (i = 0; i < m; i++) b[i] = i; ev(sizeof a); ev(sizeof b); for (i = 0; i < n; i++) ev(a[i]); return b[m - 1];",
 "int x = 11, a[n], y = 22, b[m], z = 33; fill(n, a, v); fill(m, b, v + 9); ev(x); ev(y); ev(z); ev(sum(n, a)); return sum(m, b);", "long a[n][m]; int i, j; for (i = 0; i < n; i++) for (j = 0; j < m; j++) a[i][j] = v + i * 10 + j; ev(sizeof a); ev(sizeof a[0]); ev(sizeof a[0][0]); return sum2(n, m, a);",
 "short a[n][m][2]; int i; for (i = 0; i < n * m * 2; i++) (&a[0][0][0])[i] = v + i; ev((char *)&a[n - 1] - (char *)a); ev((char *)&a[0][m - 1] - (char *)a); return sum3(n, m, 2, a);", "short a[2][n][m]; int i; for (i = 0; i < n * m * 2; i++) (&a[0][0][0])[i] = v + i; return sum3(2, n, m, a);",
 "int a[n][3]; int i; for (i = 0; i < n; i++) { a[i][0] = v; a[i][1] = i; a[i][2] = 3; } ev(sizeof a); ev(&a[n] - a); return sum(n * 3, a[0]);", "int a[3][n]; int i; for (i = 0; i < 3 * n; i++) a[i / n][i % n] = v + i; ev(sizeof a); ev(sizeof *a); return sum(n * 3, *a);",
 "int k = n, a[k]; k = 99; fill(n, a, v); ev(sizeof a); ev(sizeof a / sizeof *a); return sum(n, a);", "int k = n; ev(sizeof(int[k++])); ev(k); ev(sizeof(int[++k][m])); return k;", "int k = n; typedef int T[k]; k = 50; { T a, b; fill(n, a, v); fill(n, b, 5); ev(sizeof(T)); ev(sizeof a); return sum(n, a) * 3 + sum(n, b); }",
 "int i; long s = 0; for (i = 1; i <= n; i++) { int a[i]; fill(i, a, v); s += sum(i, a); ev(sizeof a); } return s;", "int i = 0; again: { int a[i + 1]; fill(i + 1, a, v); ev(sum(i + 1, a)); if (++i < n) goto again; } return i;", "int i; for (i = 0; i < 3; i++) { int a[n]; fill(n, a, i); if (i == m) break; if (i == 0) continue; ev(sum(n, a)); } return i;",
 "if (n > 2) { int a[n]; fill(n, a, v); return sum(n, a); } else { long a[m]; a[m - 1] = v; ev(sizeof a); return a[m - 1]; }", "{ int a[n]; fill(n, a, v); ev(sum(n, a)); } { int b[m]; fill(m, b, v); ev(sum(m, b)); } return 0;",
 "int a[n]; struct S24 s; int x = 3; fill(n, a, v); s.a = 1; s.b = 2; s.c = 3; ev(many(1, 2, v, 4, &x, 6, 7, s, 9)); return sum(n, a);", "char a[n]; struct S24 s; int x = 3; a[0] = v; s.a = 1; s.b = 2; s.c = 3; ev(many(a[0], 2, v, 4, &x, 6, sizeof a, s, 9)); ev(((long)a) % 8 == 0 || 1); return a[0] + x;",
 "int (*p)[n]; int b[16]; fill(16, b, v); p = (int (*)[n])b; ev(sizeof *p); ev(p[1][0]); ev((*(p + 2))[n - 1]); ev(&p[3] - p); p++; ev(**p); return (int *)p - b;", "int (*p)[m]; int a[n][m]; fill(n * m, *a, v); p = a; ev((*p)[m - 1]); p += n - 1; ev(p - a); ev((*p)[0]); return sizeof *p;",
 "int b[16]; int (*q)[2][n]; fill(16, b, v); q = (int (*)[2][n])b; ev(sizeof *q); ev(sizeof **q); ev(q[0][1][0]); ev(q[1][1][n - 1]); return (*q)[1][0];", "long double a[n]; int i; for (i = 0; i < n; i++) a[i] = n + i; ev(sizeof a); ev((long)a & 15); return (long)(a[0] + a[n - 1]);",
 "struct S12 a[n]; int i; for (i = 0; i < n; i++) { a[i].a = v; a[i].b = i; a[i].c = v + i; } ev(sizeof a); ev((char *)&a[n - 1].c - (char *)a); a[0] = a[n - 1]; return a[0].a + a[0].b * 3 + a[0].c * 5;", "struct S3 a[n]; a[n - 1].c[2] = v; a[0].c[0] = 1; ev(sizeof a); return a[n - 1].c[2];",
 "struct S24 a[n], t; t.a = v; t.b = 3; t.c = n; a[n - 1] = t; a[0] = a[n - 1]; ev(a[0].a); ev((long)a[0].b); return a[0].c;", "int *p[n]; int x = v, y = 7, i; for (i = 0; i < n; i++) p[i] = i & 1 ? &y : &x; *p[n - 1] = 5; ev(sizeof p); return x * 10 + y;", "double a[n]; float b[m]; a[n - 1] = n; b[m - 1] = 0.5f; a[0] = a[n - 1] + b[m - 1]; return (long)(a[0] * 4);",
 "int *p = __builtin_alloca(n * sizeof(int)); int *q = __builtin_alloca(m * 4); fill(n, p, v); fill(m, q, 1); ev(sum(n, p)); return sum(m, q);", "char *p = __builtin_alloca(n), *q = __builtin_alloca(1), *r; int a[m]; p[n - 1] = v; q[0] = 3; r = __builtin_alloca(n * m); r[0] = 9; r[n * m - 1] = 8; fill(m, a, 2); ev(p[n - 1]); ev(q[0]); ev(sum(m, a)); ev(p != q); return r[n * m - 1];",
 "int i; char *p[4]; for (i = 0; i < n; i++) { p[i] = __builtin_alloca(m); p[i][0] = v + i; p[i][m - 1] = i; } for (i = 0; i < n; i++) ev(p[i][m - 1]); return 0;", "char *p = __builtin_alloca(n); struct S24 s; int x = 3; s.a = 1; s.b = 2; s.c = 3; p[0] = 4; ev(((long)p & 15)); ev(many(1, 2, v, *p, &x, 6, 7, s, 9)); return p[0];",
 "int a[n + m], b[n * m], c[(n << 1) | 1]; fill(n + m, a, v); fill(n * m, b, 3); fill((n << 1) | 1, c, 7); ev(sizeof a); ev(sizeof b); ev(sizeof c); return sum(n + m, a) + sum(n * m, b) + sum((n << 1) | 1, c);", "unsigned char k = n; short j = m; long l = n; int a[k], b[j], c[l]; fill(n, a, v); fill(m, b, 1); fill(n, c, 2); ev(sizeof a); ev(sizeof b); ev(sizeof c); return sum(n, a) + sum(m, b) + sum(n, c);",
 "int k = n - 1; int a[cnt(&k)][cnt(&k)]; ev(k); ev(sizeof a); ev(sizeof a[0]); return 0;", "int a[n]; int *p = a; int *q = &a[n]; fill(n, a, v); ev(q - p); while (q != p) ev(*--q); return &a[n - 1] - a;", "int a[n], i = 0; fill(n, a, 3); a[i++] = 5; a[n - 1] += v; a[0]++; ev(i); return a[0] + a[n - 1];",
 "const int k = 3; int a[k], b[n ? 2 : 3]; fill(3, a, v); b[0] = b[1] = 1; ev(sizeof a); ev(sizeof b); return sum(3, a);", "int a[n]; fill(n, a, v); { int a[m]; fill(m, a, 1); ev(sum(m, a)); ev(sizeof a); } ev(sizeof a); return sum(n, a);", "ev(sizeof(char[n][m])); ev(sizeof(struct S12[n])); ev(sizeof(int (*)[n])); ev(sizeof(long[m][2][n])); return 0;",
 "int a[n][m]; int (*p)[m] = a; int *q; fill(n * m, a[0], v); for (q = a[0]; q < a[n]; q += m) ev(*q); ev(p == a); ev(&a[1] - &a[0]); return *(*(a + n - 1) + m - 1);", "union U8 a[n]; a[n - 1].l = v; ev(a[n - 1].c[1]); return sizeof a;", "_Bool a[n]; a[n - 1] = v; a[0] = !a[n - 1]; return a[0] + sizeof a;",
 "int i, j; for (i = 1; i < 3; i++) { int a[i + n]; for (j = 1; j < 3; j++) { int b[j + m]; fill(j + m, b, v); a[0] = b[0]; a[i + n - 1] = b[j + m - 1]; ev(a[0]); ev(a[i + n - 1]); } } return 0;", "switch (n) { case 1: { int a[m]; fill(m, a, v); ev(sum(m, a)); break; } case 2: return 5; default: { int b[n]; b[n - 1] = v; return b[n - 1]; } } return 9;",
 "long r = n > 1 ? 10 : 20; int a[n]; fill(n, a, v); r = r + (a[0] > 3 ? a[n - 1] : m) * (m > 2 ? n : 2); return r;", "static int g; int a[n]; int *p = &g; g = v; fill(n, a, g); ev(*p); g++; return sum(n, a) + g;",
]
REC = "long rec(int n, long v) { int a[n + 1]; long r; fill(n + 1, a, v); r = n ? rec(n - 1, v + 1) : 0; return r * 3 + sum(n + 1, a) + sizeof a; }\n"
TY = [("char", 1), ("unsigned short", 2), ("int", 4), ("long", 8), ("struct S3", 3), ("struct S12", 12), ("struct S16", 16), ("unsigned", 4), ("signed char", 1), ("long", 8)]
LEAF = {"struct S3": ".c[1]", "struct S12": ".b", "struct S16": ".a"}


class G:
    def __init__(self, seed): self.r = random.Random(seed)

    def bound(self):
        return self.r.choice([("n", "n"), ("m", "m"), ("n + 1", "(n + 1)"), ("2", "2"), ("3", "3"), ("m - n + 4", "(m - n + 4)"), ("n & 1 ? 1 : m", "(n & 1 ? 1 : m)"), ("k", "k0"), ("n", "n"), ("m", "m")])

    def body(self):
        r = self.r; out = ["int k = n + 1, k0 = k, i, z0 = 101;"]; arrs = []
        out.append("long w[2] = {5, 6};")
        for j in range(r.randint(2, 3)):
            d = r.choice([1, 2, 2, 3]) if j else r.choice([1, 2])
            bs = [self.bound() for _ in range(d)]; t, sz = r.choice(TY)
            if all(b[0] in "23" for b in bs): bs[0] = ("n", "n")
            nm = "abc"[j]
            s = "%s %s%s;" % (t, nm, "".join("[%s]" % b[0] for b in bs))
            if r.random() < .25: s = "typedef %s T%d%s; %sT%d %s;" % (t, j, "".join("[%s]" % b[0] for b in bs), "k++; k--; ", j, nm)
            out.append(s); arrs.append((nm, t, sz, [b[1] for b in bs]))
            if r.random() < .4: out.append("int y%d = %d;" % (j, 70 + j)); out.append("(void)&y%d;" % j)
        out.append("k = 77;")
        for nm, t, sz, bs in arrs:
            n = " * ".join(bs); el = "((%s *)%s)[i]%s" % (t, nm, LEAF.get(t, ""))
            out.append("for (i = 0; i < %s; i++) %s = v + i * %d;" % (n, el, r.randint(1, 9)))
        for nm, t, sz, bs in arrs:
            ix = "".join("[%s]" % r.choice([b + " - 1", "0", "(u & 3) %% %s" % b if b not in "123" else "u & 1" if b != "3" else "2"]) for b in bs)
            out.append("ev(%s%s%s);" % (nm, ix, LEAF.get(t, "")))
            ix = "".join("[%s]" % r.choice([b + " - 1", "0"]) for b in bs)
            out.append(r.choice(["%s%s%s = v;", "%s%s%s ^= 5;", "%s%s%s++;"]) % (nm, ix, LEAF.get(t, "")))
            out.append("ev(sizeof %s); ev(sizeof %s[0]);" % (nm, nm))
            if len(bs) > 1:
                out.append("ev((char *)%s[%s - 1] - (char *)%s);" % (nm, bs[0], nm))
                out.append("{ %s (*p)%s = %s; p += %s - 1; ev((char *)p - (char *)%s); ev(sizeof *p); ev((char *)(*p + 1) - (char *)*p); }" % (t, "".join("[%s]" % b for b in bs[1:]), nm, bs[0], nm))
            else:
                out.append("{ %s *p = %s + %s; ev(p - %s); ev(&%s[%s] - p); }" % (t, nm, bs[0], nm, nm, bs[0]))
        if r.random() < .4: out.append("{ char *q = __builtin_alloca(n * m); for (i = 0; i < n * m; i++) q[i] = i; ev(q[n * m - 1]); }")
        if r.random() < .5: out.append("{ struct S24 s; s.a = s.b = 0; s.c = 4; ev(many(1, n, v, m, &z0, 6, 7, s, 9)); }")
        out.append("ev(z0); ev(w[0]); ev(w[1]);")
        for nm, t, sz, bs in arrs:
            out.append("for (i = 0; i < %s; i++) ev(((%s *)%s)[i]%s);" % (" * ".join(bs), t, nm, LEAF.get(t, "")))
        return " ".join(out) + " return k;"


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    pre = "p0 >= 1 && p0 <= 4 && p1 >= 1 && p1 <= 4"
    def add(name, bodies, o, extra="", efn=()):
        src = PRE + extra + "\n".join("long f%d(int n, int m, long v, int u) { %s }" % (i, b) for i, b in enumerate(bodies)) + "\n"
        out.append(scenario(name, src, [Fn("f%d" % i, "long", ["int", "int", "long", "int"], pre=pre, conc=(0, 1)) for i in range(len(bodies))] + list(efn), opts="-std=c99 " + o, events=True, query_ms=4000, time=40 if quick else 120))
    for i in range(0, len(HAND), 6):
        for o in ["", "-O1"] if not quick else ["-O1" if i % 12 else ""]:
            add("hand-%d" % (i // 6), HAND[i:i + 6], o)
    add("rec", ["return n;"], "", REC, [Fn("rec", "long", ["int", "long"], pre="p0 >= 0 && p0 <= 4", conc=(0,))])
    for k in range(14 if quick else 250):
        add("rand-%d" % k, [G(seed * 1000003 + k * 10 + j).body() for j in range(2)], ["", "-O1", "-fPIC"][k % 3])
    return out
