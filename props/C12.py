"""Initialization: designated elements hold their values, everything else is zero."""
import random
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"objects": "automatic, static, global and compound-literal objects of seeded random types: structs, unions, arrays (up to 3 dimensions, unknown bound), bit-fields, pointers, enums, all scalar types, anonymous members",
          "initializers": "random mixes of full braces, elided braces, member and index designators, nested designators, out-of-order and overriding designators, string literals (short, exact, braced), scalars in braces, whole-aggregate expressions, address constants; seeded",
          "values": "all initializer values of automatic objects symbolic; the stack below the frame holds symbolic bytes", "compared": "every scalar leaf (of unions: the active member), sizeof arrays of unknown bound", "options": "-O0, -O1, -std=c11, -fPIC"}
ASSUMPTIONS = ["reference: clang 18 IR of the same source", "initializer values have no side effects (their order is unspecified)"]
SC = ["char", "unsigned char", "short", "int", "unsigned int", "long", "unsigned long", "float", "double", "_Bool", "char *", "int (*)(int)", "signed char", "unsigned short", "long double", "int *"]
BFT = {"int": 32, "unsigned int": 32, "long": 64, "unsigned char": 8, "short": 16, "_Bool": 1, "unsigned long": 64}
PRE = '''void ev(long); void evd(double);
int arr[8]; char carr[8]; int fa(int x) { return x + 1; } static int fb(int x) { return x + 2; }
static void rdp(char *p) { if (!p) ev(0); else if (p >= carr && p <= carr + 8) ev(p - carr + 1000); else { ev(p[0]); if (p[0]) ev(p[1]); } }
static void rdi(int *p) { if (!p) ev(0); else ev(p - arr + 1000); }
static void rdf(int (*f)(int)) { if (!f) ev(0); else ev(f(10)); }
enum EN { EA, EB = 3, EC = -7 };
'''
VARS = [("long", "v0"), ("int", "v1"), ("double", "v2"), ("unsigned char", "v3")]


class T:
    def __init__(s, kind, **k): s.kind = kind; s.__dict__.update(k)


class G:
    def __init__(s, seed, c11, static):
        s.r = random.Random(seed); s.n = 0; s.c11 = c11; s.static = static; s.decls = []; s.nt = 0; s.tag = "S%d" % seed

    def nm(s, p="m"):
        s.n += 1
        return "%s%d" % (p, s.n)

    def scalar(s):
        r = s.r
        t = r.choice(SC if r.random() < .5 else SC[:7])
        return T("scalar", t=t)

    def type(s, d):
        r = s.r; q = r.random()
        if d == 0 or q < .35: return s.scalar()
        if q < .62:
            e = s.type(d - 1) if r.random() < .6 else s.scalar()
            return T("array", e=e, n=r.choice([1, 2, 2, 3, 4]))
        if q < .68: return T("array", e=T("scalar", t=r.choice(["char", "unsigned char", "signed char"])), n=r.choice([1, 3, 4, 6, 9, 17]))
        return s.record(d, r.random() < .2)

    def record(s, d, union):
        r = s.r; ms = []
        for _ in range(r.randint(1, 4)):
            q = r.random()
            if q < .25:
                for _ in range(r.randint(1, 3)):
                    t = r.choice(list(BFT)); w = r.randint(1, BFT[t])
                    ms.append((s.nm(), T("field", t=t, w=w)))
                if r.random() < .2: ms.append((None, T("pad", t="int", w=r.choice([0, 3, 9]))))
            elif q < .35 and s.c11 and d: ms.append((None, s.record(d - 1, r.random() < .5)))
            else: ms.append((s.nm(), s.type(d - 1)))
        if not any(t.kind not in ("pad", "record") for _, t in ms): ms.append((s.nm(), s.scalar()))
        if ms[0][1].kind == "pad": ms = ms[1:] + ms[:1]
        s.nt += 1
        return T("record", union=union, ms=ms, tag="%s_%d" % (s.tag, s.nt))

    def decl(s, t, name):
        if t.kind == "scalar":
            return "int (*%s)(int)" % name if "(*)" in t.t else "%s %s" % (t.t, name)
        if t.kind in ("field", "pad"): return "%s %s : %d" % (t.t, name or "", t.w)
        if t.kind == "array": return s.decl(t.e, "%s[%s]" % (name, t.n if t.n else ""))
        if name and not t.__dict__.get("done"): s.define(t)
        if not name: return "%s { %s }" % ("union" if t.union else "struct", " ".join(s.decl(m, n) + ";" for n, m in t.ms))
        return "%s %s %s" % ("union" if t.union else "struct", t.tag, name)

    def define(s, t):
        t.done = 1
        b = " ".join(s.decl(m, n) + ";" for n, m in t.ms)
        s.decls.append("%s %s { %s };" % ("union" if t.union else "struct", t.tag, b))

    # values
    def value(s, t):
        r = s.r; k = t.t
        if k == "char *":
            return r.choice(["0", '"ab"', '"x"', '""', "carr", "carr + 3", "&carr[2]", "(char *)0", '"ab" + 1', "&carr[7] - 2"])
        if k == "int *": return r.choice(["0", "arr", "&arr[3]", "arr + 1", "(void *)0", "&*(arr + 2)", "(int *)arr"] + ([] if s.static else ["arr + (v1 & 7)"]))
        if "(*)" in k: return r.choice(["fa", "&fa", "fb", "0", "*fa"])
        c = r.choice(["1", "-1", "0", "'x'", "300", "65537", "-70000", "1.5", "2.75f", "EB", "EC", "sizeof(int)", "(char)200", "(short)70000", "5000000000L", "3 * 7 - 1", "1 ? 8 : 9", "~0", "!0", "4294967295u", "-3.25", "(unsigned char)-1", "0x7fffffff"])
        if k in ("unsigned int", "unsigned long", "unsigned char", "unsigned short") and c in ("-3.25",): c = "7"
        if k in ("char", "unsigned char", "signed char", "_Bool", "short", "unsigned short") and t.kind == "scalar" and "." in c: c = "3.5"
        if not s.static and r.random() < .6:
            v = r.choice(["v0", "v1", "v3", "(char)v1", "v0 + 1", "-v1", "v1 & 15", "v0 ^ v1", "v1 > 3"])
            if k in ("float", "double", "long double"): v = r.choice(["v2", "(float)v2", "v1", "v3", "-v2"])
            return v
        return c

    def scal(s, t): return t.kind in ("scalar", "field")

    def setact(s, act, path):
        for k in [k for k in act if k.startswith(path)]: del act[k]

    def chararr(s, t): return t.kind == "array" and t.e.kind == "scalar" and t.e.t in ("char", "unsigned char", "signed char")

    def string(s, n):
        k = s.r.randint(0, n)
        return '"' + "".join(s.r.choice(["a", "B", "0", "\\n", "\\377", "\\0", " ", "\\x41\" \""]) for _ in range(k)) + '"'

    def init(s, t, path, act, brace=True):
        """initializer text for an object of type t at path; act[path of union] = active member index"""
        r = s.r
        if s.scal(t):
            v = s.value(t)
            return "{ %s }" % v if r.random() < .06 and brace else v
        if s.chararr(t) and r.random() < .6:
            v = s.string(t.n); return "{ %s }" % v if r.random() < .2 else v
        s.setact(act, path)
        return "{ " + ", ".join(s.items(t, path, act)) + r.choice([" }", ", }"])

    def members(s, t):
        """(designator, name path, type) of named members in order; anonymous ones as their record"""
        return [(("." + n) if n else "", m) for n, m in t.ms if m.kind != "pad"]

    def flat(s, t, path, act):
        """elided form: all scalars in order"""
        if s.scal(t): return [s.value(t)]
        if s.chararr(t) and s.r.random() < .5: return [s.string(t.n)]
        if t.kind == "array": return [x for i in range(t.n) for x in s.flat(t.e, path + "[%d]" % i, act)]
        ms = s.members(t)
        if t.union:
            s.setact(act, path); act[path + "/"] = 0
            return s.flat(ms[0][1], path + ms[0][0] + ("" if ms[0][0] else "?0"), act)
        return [x for k, (d, m) in enumerate(ms) for x in s.flat(m, path + (d or "?%d" % k), act)]

    def named(s, t):
        """designators reaching members, through anonymous records: (designator, path suffix, type, [(union path suffix, idx)])"""
        out = []
        for k, (d, m) in enumerate(s.members(t)):
            if d: out.append((d, d, m, [("/", k)] if t.union else []))
            else:
                for d2, p2, m2, u2 in s.named(m): out.append((d2, "?%d" % k + p2, m2, ([("/", k)] if t.union else []) + [("?%d" % k + a, b) for a, b in u2]))
        return out

    def elems(s, t):
        if t.kind == "array": return [("[%d]" % i, "[%d]" % i, t.e, []) for i in range(t.n)]
        return s.named(t)

    def activate(s, path, us, act, whole):
        for u, k in us:
            p = path + u
            if act.get(p, 0 if whole else None) != k:
                s.setact(act, p[:-1])
            act[p] = k

    def items(s, t, path, act):
        r = s.r; out = []
        form = r.random()
        if t.kind == "record" and t.union:
            ms = s.members(t)
            if form < .5:
                act[path + "/"] = 0
                sub = path + (ms[0][0] or "?0")
                return [s.elem(ms[0][1], sub, act)]
            d, p, m, us = r.choice(s.named(t))
            s.activate(path, us, act, False)
            return ["%s = %s" % (d, s.init(m, path + p, act))]
        if t.kind == "array": pos = [("[%d]" % i, t.e) for i in range(t.n)]
        else: pos = [(d or "?%d" % k, m) for k, (d, m) in enumerate(s.members(t))]
        if form < .55:  # positional prefix
            k = len(pos) if r.random() < .5 else r.randint(1, len(pos))
            for p, m in pos[:k]: out += s.elemlist(m, path + p, act)
            if form > .35: out += s.desig(t, path, act)
            return out
        return s.desig(t, path, act)

    def elem(s, m, path, act):
        x = s.elemlist(m, path, act)
        return ", ".join(x)

    def elemlist(s, m, path, act):
        if s.scal(m): return [s.init(m, path, act)]
        if s.r.random() < .3: return s.flat(m, path, act)
        return [s.init(m, path, act)]

    def desig(s, t, path, act):
        """designated items; each may be a nested designator, and positional ones may follow"""
        r = s.r; out = []
        for _ in range(r.randint(1, 4)):
            d, p, m, us = r.choice(s.elems(t)); cur, cp, cm = d, path + p, m
            s.activate(path, us, act, True)
            while not s.scal(cm) and r.random() < .4 and not (cm.kind == "record" and cm.union and 0):
                d, p, m2, us = r.choice(s.elems(cm))
                s.activate(cp, us, act, True)
                cur += d; cp += p; cm = m2
            out.append("%s = %s" % (cur, s.init(cm, cp, act)))
            # continue positionally within the top level
            if t.kind == "array" and cur.count("[") == 1 and "." not in cur and r.random() < .4:
                i = int(cur[1:-1]) + 1
                if i < t.n: out += s.elemlist(t.e, path + "[%d]" % i, act)
        return out

    # reading back
    def read(s, t, path, acc, act, out):
        if t.kind == "pad": return
        if t.kind == "scalar":
            k = t.t
            if k == "char *": out.append("rdp(%s);" % acc)
            elif k == "int *": out.append("rdi(%s);" % acc)
            elif "(*)" in k: out.append("rdf(%s);" % acc)
            elif k in ("float", "double", "long double"): out.append("evd(%s);" % acc)
            else: out.append("ev(%s);" % acc)
        elif t.kind == "field": out.append("ev(%s);" % acc)
        elif t.kind == "array":
            for i in range(t.n): s.read(t.e, path + "[%d]" % i, acc + "[%d]" % i, act, out)
        else:
            ms = s.members(t)
            if t.union: ms_ = [(act.get(path + "/", 0), ms[act.get(path + "/", 0)])]
            else: ms_ = list(enumerate(ms))
            for k, (d, m) in ms_: s.read(m, path + (d or "?%d" % k), acc + d, act, out)


def case(seed, k, c11, st):
    """one initialised object: (source, fn)"""
    g = G(seed, c11, st in ("global", "static"))
    r = g.r
    while True:
        t = g.type(3)
        if t.kind != "scalar": break
        g.decls = []
    unk = t.kind == "array" and r.random() < .25 and not g.chararr(t)
    act = {}
    txt = g.init(t, "", act)
    if g.chararr(t) and r.random() < .3:
        d = "char x[]"; txt = g.string(9)
        return "", "void f%d(long v0, int v1, double v2, unsigned char v3) { %s%s = %s; int i; ev(sizeof x); for (i = 0; i < (int)sizeof x; i++) ev(x[i]); }" % (k, "static " if g.static else "", d, txt)
    d = g.decl(t, "x" if st != "global" else "x%d" % k)
    n = "x" if st != "global" else "x%d" % k
    rd = []
    if unk:
        # unknown bound: the number of elements follows from the initializer, so read by a loop over whole elements
        d = d.replace("%s[%d]" % (n, t.n), "%s[]" % n, 1)
        one = []; 
        g.read(t.e, "?", n + "[i]", {}, one) if not has_union(t.e) else None
        rd = ["ev(sizeof %s);" % n, "{ int i; for (i = 0; i < (int)(sizeof %s / sizeof %s[0]); i++) { %s } }" % (n, n, " ".join(one))]
    else: g.read(t, "", n, act, rd)
    if len(rd) > 70: return None
    top = "\n".join(g.decls) + "\n"
    dirty = "" if g.static else ""
    if st == "global": return top + r.choice(["static ", "", "const " if "(*" not in d else ""]) + "%s = %s;\n" % (d, txt), "void f%d(long v0, int v1, double v2, unsigned char v3) { %s }" % (k, " ".join(rd))
    if st == "static": return top, "void f%d(long v0, int v1, double v2, unsigned char v3) { static %s = %s; %s }" % (k, d, txt, " ".join(rd))
    if st == "literal" and not unk and t.kind == "record":
        ty = "%s %s" % ("union" if t.union else "struct", t.tag)
        w = " ".join(rd).replace("x.", "p->").replace("x[", "p[")
        return top, "void f%d(long v0, int v1, double v2, unsigned char v3) { %s *p = &(%s) %s; %s }" % (k, ty, ty, txt, w)
    return top, "void f%d(long v0, int v1, double v2, unsigned char v3) { %s = %s; %s }" % (k, d, txt, " ".join(rd))


def has_union(t):
    if t.kind == "array": return has_union(t.e)
    return t.kind == "record" and (t.union or any(has_union(m) for _, m in t.ms))


HAND = [
 "struct P { int x, y; }; struct Q { struct P a, b; int c; };",
 "void f0(int v) { struct P p = { v, v + 1 }; struct Q q = { .b = p, .a.y = 3, .b.x = 7 }; ev(q.a.x); ev(q.a.y); ev(q.b.x); ev(q.b.y); ev(q.c); }",
 "void f1(int v) { struct P p = { v, 2 }; struct Q q = { p, { 3 }, 5 }; ev(q.a.x); ev(q.a.y); ev(q.b.x); ev(q.b.y); ev(q.c); }",
 "void f2(int v) { struct P p = { v, 2 }; struct Q q = { p, p, v }; ev(q.a.x); ev(q.b.x); ev(q.b.y); ev(q.c); }",
 "void f3(int v) { struct P p = { v, 2 }; struct Q a[3] = { [1] = { p, 4, v }, [0].b = p, [2] = { .c = 1 } }; int i; for (i = 0; i < 3; i++) { ev(a[i].a.x); ev(a[i].a.y); ev(a[i].b.x); ev(a[i].b.y); ev(a[i].c); } }",
 "void f4(int v) { int a[5] = { [3] = v, 1, [0] = 9, 8 }; int i; for (i = 0; i < 5; i++) ev(a[i]); }",
 "void f5(int v) { int a[100] = { [50] = v }; int i; for (i = 0; i < 100; i++) ev(a[i]); }",
 "void f6(int v) { char s[12] = \"hi\", t[3] = \"abc\", u[] = { 'a', v, 0 }; int i; for (i = 0; i < 12; i++) ev(s[i]); for (i = 0; i < 3; i++) { ev(t[i]); ev(u[i]); } ev(sizeof u); }",
 "void f7(int v) { int m[2][3] = { 1, v, 3, 4 }; int i; for (i = 0; i < 6; i++) ev(m[i / 3][i % 3]); }",
 "void f8(int v) { int m[2][2][2] = { { { v }, { 2 } }, { 3, 4, 5 } }; int i; for (i = 0; i < 8; i++) ev(m[i / 4][i / 2 % 2][i % 2]); }",
 "struct F { int n : 3, : 5, m : 9; unsigned char c : 4; char d; }; void f9(int v) { struct F f = { v, v, v, v }; ev(f.n); ev(f.m); ev(f.c); ev(f.d); }",
 "void f10(int v) { static struct F f[2] = { { 1, -2, 15, 'x' }, { .c = 7, .n = -4 } }; ev(f[0].n); ev(f[0].m); ev(f[0].c); ev(f[0].d); ev(f[1].n); ev(f[1].m); ev(f[1].c); ev(f[1].d); f[1].m = v; }",
 "void f11(int v) { int a[] = { v, [4] = 1, 2 }; ev(sizeof a); ev(a[0]); ev(a[3]); ev(a[5]); }",
 "void f12(int v) { struct { char c[3]; struct P p[2]; } z = { \"ab\", 1, 2, v }; ev(z.c[0]); ev(z.c[1]); ev(z.c[2]); ev(z.p[0].x); ev(z.p[0].y); ev(z.p[1].x); ev(z.p[1].y); }",
 "void f13(int v) { struct P *p = (struct P[]) { { v, 2 }, { 3 } }; ev(p[0].x); ev(p[1].x); ev(p[1].y); }",
 "static int *ip = (int[]) { 4, 5, 6 }; void f14(int v) { ev(ip[v & 1]); ip[1] = v; }",
 "void f15(int v) { int i; for (i = 0; i < 2; i++) { struct P p = { i }; int a[3] = { 0 }; ev(p.y); ev(a[2]); p.y = v; a[2] = v; } }",
 "void f16(int v) { union { struct { char a, b; } s; int i; } u = { { v, 2 } }; ev(u.s.a); ev(u.s.b); }",
 "void f17(int v) { union { char c; long l; } u = { .l = v }; ev(u.l); }",
 "static char *names[] = { \"a\", \"bc\", 0, [5] = \"x\" }; void f18(int v) { ev(sizeof names); ev(names[1][1]); ev(!names[2]); ev(!names[4]); ev(names[5][0]); }",
 "static char grid[3][4] = { \"ab\", { 'c' }, \"wxyz\" }; void f19(int v) { int i; for (i = 0; i < 12; i++) ev(grid[i / 4][i % 4]); }",
 "static struct { char *s; char b[4]; int (*f)(int); long off; } tab[] = { { \"q\", \"rs\", 0, (long)&((struct Q *)0)->b }, { .b = { 1, 2 }, .off = sizeof tab[0] } }; void f20(int v) { ev(tab[0].s[0]); ev(tab[0].b[1]); ev(tab[0].b[3]); ev(tab[0].off); ev(tab[1].b[1]); ev(tab[1].off); ev(sizeof tab); }",
 "void f21(int v) { float f = v; double d[2] = { v, 1 }; long double l = { v }; evd(f); evd(d[0]); evd(d[1]); evd(l); }",
 "void f22(int v) { const int k = v, *p = &k; int q = *p, r = { v }; ev(q); ev(r); }",
 "void f23(int v) { struct { int a; struct { int b, c; } d; int e[2]; } s = { .d.c = v, .e = { 1 }, .d = { 2 } }; ev(s.a); ev(s.d.b); ev(s.d.c); ev(s.e[0]); ev(s.e[1]); }",
 "static double gd[] = { 1, 2.5f, 'a' }; static float gf = 1; static long double gl = 3; static unsigned char gc = 257; static _Bool gb = 5; void f24(int v) { evd(gd[0]); evd(gd[1]); evd(gd[2]); evd(gf); evd(gl); ev(gc); ev(gb); gf = v; }",
 "struct G { struct { int a, b; } u; long c; }; static struct G gg = { 1, 2, 3 }, gh = { .u.b = 5 }; void f25(int v) { ev(gg.u.a); ev(gg.u.b); ev(gg.c); ev(gh.u.a); ev(gh.u.b); ev(gh.c); gh.c = v; }",
 "static int tent; static int tent; int tarr[4]; void f26(int v) { ev(tent); ev(tarr[3]); tent = v; tarr[3] = v; }",
 "void f27(int v) { char s[2][3] = { { \"ab\" }, \"c\" }; int i; for (i = 0; i < 6; i++) ev(s[i / 3][i % 3]); ev(sizeof(\"abc\")); ev((\"xyz\")[v & 3]); }",
 "void f28(int v) { int a[3][2] = { [1] = { 1, 2 }, [1][0] = v, [2][1] = 7, [0] = { [1] = 3 } }; int i; for (i = 0; i < 6; i++) ev(a[i / 2][i % 2]); }",
 "void f29(int v) { struct { unsigned a : 4, b : 28; unsigned long c : 40, d : 24; } s = { v, v, -1L, v }; ev(s.a); ev(s.b); ev(s.c); ev(s.d); }",
]
C11 = [
 "struct A { int a; union { struct { int b, c; }; long d; }; int e; };",
 "void f0(int v) { struct A x = { 1, 2, 3, v }; struct A y = { 1, { { 2, v } }, 4 }; struct A z = { .c = v, .e = 5 }; ev(x.a); ev(x.b); ev(x.c); ev(x.e); ev(y.b); ev(y.c); ev(y.e); ev(z.a); ev(z.c); ev(z.e); }",
 "void f1(int v) { static struct A x = { 1, 2, 3, 4 }, y = { .d = 0x123456789L, 9 }, z = { .e = 7, .b = 4 }; ev(x.b); ev(x.c); ev(x.e); ev(y.d); ev(y.e); ev(z.b); ev(z.c); ev(z.e); y.d = v; }",
 "struct B { struct { char p; struct { short q; }; }; int r; }; void f2(int v) { struct B b = { v, 2, 3 }, c = { .q = v, 4 }; ev(b.p); ev(b.q); ev(b.r); ev(c.p); ev(c.q); ev(c.r); }",
 "union U { struct { int a, b; }; long c; }; void f3(int v) { union U u = { v, 2 }, w = { .c = v }, z = { .b = v }; ev(u.a); ev(u.b); ev(w.c); ev(z.b); }",
 "struct C { int n; union U u; int m; }; void f4(int v) { struct C c = { 1, v, 2, 3 }, d = { 1, { .c = v }, 3 }; ev(c.u.a); ev(c.u.b); ev(c.m); ev(d.u.c); ev(d.m); }",
 "void f5(int v) { struct { union { int a; char b; }; struct { union { long c; short d; }; int e; }; } s = { v, 2, 3 }; ev(s.a); ev(s.c); ev(s.e); }",
]


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    kw = dict(events=True, query_ms=4000, time=30 if quick else 90)
    import re
    for o in ["", "-O1", "-fPIC"]:
        src = PRE + "\n".join(HAND)
        out.append(scenario("hand", src, [Fn("f%d" % i, "void", ["int"]) for i in range(30)], opts=o, **kw))
    for o in ["-std=c11", "-std=c11 -O1"]: out.append(scenario("anon", PRE + "\n".join(C11), [Fn("f%d" % i, "void", ["int"]) for i in range(6)], opts=o, **kw))
    P = ["long", "int", "double", "unsigned char"]
    n = 48 if quick else 500
    for k in range(n):
        c11 = k % 4 == 3
        src, fns = [PRE], []
        for i in range(12):
            st = ["auto", "static", "global", "auto", "literal"][(i + k) % 5]
            c = case((seed * 4001 + k) * 64 + i, i, c11, st)
            if not c: continue
            src += list(c); fns.append(Fn("f%d" % i, "void", P, pre="p2 > -100.0 && p2 < 100.0"))
        out.append(scenario("rand-%d" % k, "\n".join(src), fns, opts="-std=c11" if c11 else ["", "-O1", "-fPIC"][k % 3], **kw))
    return out
