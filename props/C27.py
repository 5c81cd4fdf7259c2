"""Aggregate copies: assignment, passing, returning, ?: and comma transfer every byte, to exactly the destination."""
import random
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"types": "byte arrays in a struct of every size 1..40, 56, 64, 127, 128, 200, 300; every power-of-two member alignment; structs and unions mixing all scalar types and nested aggregates", "contents": "all bytes symbolic, surrounding bytes too (symbolic guard zones)",
          "forms": "assignment between locals, globals, statics, pointees, array elements (symbolic index), members, chained assignment, self and overlapping assignment, ?:, comma, by-value parameters, returned values, nested calls, initialisation from another object", "options": "-O0, -O1, -fPIC"}
ASSUMPTIONS = ["reference semantics: clang 18 IR of the same source", "all bytes of the objects are compared where the type has no padding; member by member otherwise"]


def sized(n, al):
    if al == 1: return "struct { char a[%d]; }" % n
    t = {2: "short", 4: "int", 8: "long"}[al]
    return "struct { %s a[%d]; }" % (t, n // al)


FORMS = [  # (ret, params, body), T = the type
 ("void", ["T *1", "T *1"], "*p0 = *p1;"),
 ("void", ["T *3", "int"], "p0[1] = p0[p1 & 1 ? 0 : 2];"),
 ("void", ["T *3", "T *1"], "T v; v = *p1; p0[1] = v;"),
 ("void", ["T *3", "T *1"], "T v = *p1, w; w = v; p0[0] = w; p0[2] = v;"),
 ("void", ["T *3"], "g1 = p0[0]; p0[1] = g1; g1 = p0[2];"),
 ("void", ["T *3"], "static T s; s = p0[1]; p0[0] = s; p0[2] = s;"),
 ("void", ["T *3", "T"], "p0[1] = p1;"),
 ("void", ["T *3", "T", "T"], "p0[1] = p2; p1 = p0[0]; p2 = p1; p0[2] = p2;"),
 ("void", ["T *3"], "p0[0] = p0[1] = p0[2];"),
 ("void", ["T *3", "int"], "p0[1] = p1 ? p0[0] : p0[2];"),
 ("void", ["T *3", "int"], "T a = p0[0], b = p0[2]; p0[1] = (p1++, p1 > 3 ? a : b);"),
 ("void", ["T *3"], "p0[1] = (p0[2] = p0[0], p0[2]);"),
 ("T", ["T *1"], "return *p0;"), ("T", ["T"], "return p0;"), ("T", ["T *1"], "T v; v = *p0; return v;"), ("T", ["T", "T", "int"], "return p2 ? p0 : p1;"), ("T", ["T *2", "int"], "T *q = p0; return p1 < 0 ? q[1] : *q;"), ("T", ["T *1"], "g1 = *p0; return g1;"),
 ("T", ["T *2"], "return *p0 = p0[1];"),
 ("void", ["T *3"], "p0[1] = id(p0[0]);"), ("void", ["T *3"], "p0[1] = id(id(p0[2]));"), ("T", ["T *1"], "return id(*p0);"), ("void", ["T *3"], "T v = id(p0[0]); id(v); p0[1] = pick(1, v, p0[2]); p0[2] = pick(0, id(p0[0]), id(v));"),
 ("void", ["T *2"], "*p0 = *p0; p0[1] = p0[1];"),
 ("void", ["T *3"], "struct { char c; T m; char d; T n[2]; } x, y; x.c = 1; x.d = 2; x.m = p0[0]; x.n[1] = p0[2]; y = x; p0[1] = y.m; p0[0] = y.n[1]; if (y.c != 1 || y.d != 2) p0[2] = p0[1];"),
 ("void", ["T *4", "int"], "T v[2], *q = v; v[0] = p0[0]; v[1] = p0[1]; q[p1 & 1] = p0[2]; p0[3] = v[0]; p0[2] = v[1];"),
 ("void", ["T *3"], "T *q = p0; *q++ = p0[2]; *q = *(q + 1); *++q = g1;"),
 ("void", ["T *3"], "union { T m; char c[400]; } u; u.m = p0[0]; p0[1] = u.m;"),
 ("void", ["T *3", "T *1"], "T **pp = &p1; p0[1] = **pp; (*pp)[0] = p0[2];"),
 ("void", ["T *3"], "swap(p0, p0 + 2);"),
 ("void", ["T *3"], "p0[1] = via(p0);"),
 ("char", ["T *2"], "return ((char *)&(*p0 = p0[1], p0)[1])[0] + p0->a[0];"), ("long", ["T *2"], "return id(p0[1]).a[0];"), ("long", ["T *2", "int"], "return (p1 ? p0[0] : p0[1]).a[0];"), ("long", ["T *2"], "return (p0[0] = p0[1]).a[0];"),
]
# returned object overlaps an argument or is read by the callee
ALIAS = [
 ("void", ["T *2"], "p0[0] = rot(p0, p0 + 1);"), ("void", ["T *1"], "*p0 = mod(p0);"), ("void", ["T *1"], "T v = *p0; v = mod(&v); *p0 = v;"), ("void", ["T *1"], "g1 = *p0; g1 = modg(); *p0 = g1;"),
 ("void", ["T *2"], "T v; v = p0[0]; v = rot(&v, p0 + 1); p0[1] = v;"), ("void", ["T *1"], "T v[2]; v[0] = *p0; v[1] = mod(&v[0]); v[0] = mod(&v[1]); *p0 = v[0];"),
]
HELP = '''
static T id(T x) { return x; }
static T pick(int c, T x, T y) { if (c) return x; return y; }
static void swap(T *a, T *b) { T t = *a; *a = *b; *b = t; }
static T via(T *p) { T *q = p + 2; if (p == q) return *p; return *q; }
static T rot(T *a, T *b) { T r = *b; r.a[0] = a->a[0]; a->a[0]++; return r; }
static T mod(T *a) { T r; r = *a; r.a[0] = 7; a->a[0] = 9; return r; }
static T modg(void) { T r; r = g1; g1.a[0] += 3; r.a[0] += g1.a[0]; return r; }
'''
MIX = [
 ("struct M0", "struct M0 { char a[1]; short b; int c; long d; };", [("a[0]", "char"), ("b", "short"), ("c", "int"), ("d", "long")]),
 ("struct M1", "struct M1 { float a[1]; double b; };", [("a[0]", "float"), ("b", "double")]),
 ("struct M2", "struct M2 { double a[2]; float c; };", [("a[0]", "double"), ("a[1]", "double"), ("c", "float")]),
 ("struct M3", "struct M3 { long a[1]; struct { char x; short y[3]; } b[2]; char *p; };", [("a[0]", "long"), ("p", "char *")] + [("b[%d].%s" % (i, m), t) for i in range(2) for m, t in (("x", "char"), ("y[0]", "short"), ("y[1]", "short"), ("y[2]", "short"))]),
 ("union M4", "union M4 { char a[9]; int b; long c[2]; };", "bytes"),
 ("union M5", "union M5 { unsigned char a[3]; short b; };", "bytes"),
 ("struct M6", "struct M6 { int a[3]; float f; };", "bytes"),
 ("struct M7", "struct M7 { struct { float x; } a1; float a[3]; };", None),
 ("struct M8", "struct M8 { char a[5]; long double x; int c; };", [("a[0]", "char"), ("a[4]", "char"), ("c", "int"), ("x", "long double")]),
 ("struct M9", "struct M9 { unsigned a[1]; unsigned b : 7, c : 12; int d : 13; };", "bytes"),
]


def build(td, fns_only=None, alias=True):
    src = [td, "T g1;", HELP]; fns = []
    for ret, ps, b in FORMS + (ALIAS if alias else []):
        n = "f%d" % len(fns)
        src.append("%s %s(%s) { %s }" % (ret, n, ", ".join("%s p%d" % (p.split("*")[0].strip() + " *" if "*" in p else p, i) for i, p in enumerate(ps)), b))
        fns.append((n, ret, ps))
    return "\n".join(src), fns


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    optl = ["", "-O1", "-fPIC"]
    sizes = list(range(1, 41)) + [48, 56, 64, 127, 128, 200, 300]
    k = 0
    for n in sizes:
        for al in (1, 2, 4, 8):
            if n % al or (quick and al > 1 and n > 24 and n % 16 and al != 8): continue
            if quick and al == 2 and n % 4 == 0 and n > 8: continue
            td = "typedef struct TT { %s a[%d]; } T;" % ({1: "char", 2: "short", 4: "int", 8: "long"}[al], n // al)
            src, fns = build(td)
            fl = [Fn(f, r.replace("T", "struct TT"), [p.replace("T", "struct TT") for p in ps], check='d_eqmem(gl_g1, gr_g1, sizeof(struct TT), "%s: g1 differs");' % f, globs=[("g1", n)]) for f, r, ps in fns]
            k += 1
            for o in ([optl[k % 3]] if quick and n > 20 else [optl[k % 3], optl[(k + 1) % 3]] if quick else optl):
                out.append(scenario("size-%d-%d" % (n, al), src, fl, opts=o, decls=td, fields={"struct TT": "bytes"}, query_ms=4000, time=25 if quick else 90))
    for name, d, flds in MIX:
        td = d + " typedef %s T;" % name
        if flds is None: flds = [("a1.x", "float")] + [("a[%d]" % i, "float") for i in range(3)]
        src, fns = build(td)
        fl = [Fn(f, r.replace("T", name), [p.replace("T", name) for p in ps], globs=[("g1", name)], init='sx_make_symbolic(gl_g1, sizeof(%s), "g1"); memcpy(gr_g1, gl_g1, sizeof(%s));' % (name, name) if name != "struct M8" else "") for f, r, ps in fns]
        for o in optl:
            out.append(scenario("mix-" + name.split()[1], src, fl, opts=o, decls=td, fields={name: flds}, query_ms=4000, time=25 if quick else 90))
    return out
