"""Constant expressions: what the compiler computes for every operand value, in every context that needs a constant."""
import random
from sxlib import Scenario
from tv import cstr
LEVEL = "model_checking"
OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
CAST = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
BOUNDS = {"operand values": "all values of the operand types (symbolic numerals)", "operators": OPS + ["unary", "casts", "?:", "sizeof"], "operand types": "all ordered pairs of the ten integer types, float and double with integer and floating operands",
          "contexts": ["static initializer", "array dimension", "case label", "enumerator", "bit-field width", "_Static_assert", "folded in a function body", "condition of if/while/?:"],
          "shapes": "one operator per pair of types, seeded random trees of depth <= 3 (thorough: 4, more seeds)"}
ASSUMPTIONS = ["operands whose evaluation is undefined are excluded (shift counts, division by zero, signed overflow, out of range float conversions)", "reference semantics: clang 18 IR of the same expression over variables of the same types", "floating operands come from a finite list"]
REQUIRE = ["compiled", "compared"]


def lit(t, k):
    """numeral k as a constant of type t: (text for lacc, text for the reference, assumption)"""
    n, v = "%d" % (7700000 + k), "v%d" % k
    if t == "int":
        return n, "(int)%s" % v, "a.v[%d] <= 0x7ffffffful" % k
    if t == "unsigned int":
        return n + "u", "(unsigned)%s" % v, "a.v[%d] <= 0xfffffffful" % k
    if t == "long":
        return n + "L", "(long)%s" % v, "(long)a.v[%d] >= 0" % k
    if t == "unsigned long":
        return n + "UL", v, ""
    if t == "int-":
        return "(-%s - 1)" % n, "(int)(-(int)%s - 1)" % v, "a.v[%d] <= 0x7ffffffful" % k
    if t == "long-":
        return "(-%sL - 1)" % n, "(-(long)%s - 1)" % v, "(long)a.v[%d] >= 0" % k
    if t == "dec":      # type by value: int or long
        return n, "(long)%s" % v, "(long)a.v[%d] > 0x7fffffffl" % k
    if t == "hex":      # hexadecimal above INT_MAX: unsigned int
        return "0x" + n, "(unsigned)%s" % v, "(a.v[%d] > 0x7ffffffful) & (a.v[%d] <= 0xfffffffful)" % (k, k)
    if t == "hexl":
        return "0x" + n, v, "(long)a.v[%d] < 0" % k
    return "((%s)%sUL)" % (t, n), "((%s)%s)" % (t, v), ""


CTX = {
    "init": ("long r = %s;", "return (long)(%s);"),
    "size": ("int r = sizeof(char[(%s) == 7700009UL ? 2 : 1]);", "return (%s) == v9 ? 2 : 1;"),
    "dim": ("char arr[(%s) ? 3 : 5]; int r = sizeof arr;", "return (%s) ? 3 : 5;"),
    "enum": ("enum { K = (%s) == 7700009UL ? 7 : -1 }; int r = K;", "return (%s) == v9 ? 7 : -1;"),
    "enumv": ("enum { J = 4, K = (char)(%s), M }; long r = (long)K * 1000 + M;", "return (long)(int)(char)(%s) * 1000 + ((int)(char)(%s) + 1);"),
    "bits": ("struct { unsigned a : (%s) ? 3 : 9, b : 14; unsigned c : 16; } s; int r = sizeof s;", "return (%s) ? 8 : 8;"),
}


def item(ctx, pp, ref, pre, t="long"):
    if ctx == "init":
        return "long r = %s;\n" % pp, "return (long)(%s);" % ref, pre, "long"
    if ctx == "bool":
        return "_Bool r = %s;\n" % pp, "return (_Bool)(%s);" % ref, pre, "_Bool"
    if ctx in ("size", "dim", "enum", "enumv", "bits"):
        a, b = CTX[ctx]
        return a.replace("%s", pp) + "\n", b.replace("%s", ref), pre, "long" if ctx == "enumv" else "int"
    if ctx == "dbl":
        return "double r = %s;\n" % pp, "return (double)(%s);" % ref, pre, "double"
    if ctx == "flt":
        return "float r = %s;\n" % pp, "return (float)(%s);" % ref, pre, "float"
    if ctx == "ret":
        return "long r(void) { return %s; }\n" % pp, "return (long)(%s);" % ref, pre, "f"
    if ctx == "case":
        return "long r(void) { switch (%s) { case %s: return 1; default: return 2; } }\n" % ("(unsigned char)7700009UL", "(unsigned char)(%s)" % pp), "return (unsigned char)v9 == (unsigned char)(%s) ? 1 : 2;" % ref, pre, "f"
    if ctx == "if":
        return "long r(void) { long n = 0; if (%s) n = 1; else n = 2; return n + ((%s) ? 4 : 8); }\n" % (pp, pp), "return (%s) ? 5 : 10;" % ref, pre, "f"
    if ctx == "while":
        return "long r(void) { long n = 0; while (!(%s)) { if (n++ == 3) break; } do n += 2; while (0 && (%s)); for (; n < 9 && (%s);) n += 3; return n; }\n" % (pp, pp, pp), "long n = 0; while (!(%s)) { if (n++ == 3) break; } n += 2; for (; n < 9 && (%s);) n += 3; return n;" % (ref, ref), pre, "f"
    if ctx == "assert":
        return "_Static_assert(((%s) == 7700009UL) + 1, \"no\"); _Static_assert(!(%s) || 1, \"no\"); int r = 1;\n" % (pp, pp), "return (%s) ? 1 : 1;" % ref, pre, "int"
    raise KeyError(ctx)


def drv(items):
    o = ['#include "drv.h"', "static struct A { unsigned long v[10]; long r; double d; float f; } a; static void *fnp; static int mode;",
         "static int cr(struct A *x) { if (mode == 1) x->d = ((double (*)(unsigned long *))fnp)(x->v); else if (mode == 2) x->f = ((float (*)(unsigned long *))fnp)(x->v); else x->r = ((long (*)(unsigned long *))fnp)(x->v); return 0; }",
         "static int cl(struct A *x) { x->r = ((long (*)(void))fnp)(); return 0; }"]
    o.append("static const char *const srcs[] = {\n%s };" % ",\n".join(cstr(s) for s, _, _, _ in items))
    o.append("void harness(void) { int k, j = sx_choose(%d, \"expr\"), ok; char *r; char nm[5]; long want; double wd; float wf; for (k = 0; k < 10; k++) a.v[k] = sx_magic(k);" % len(items))
    o.append(" switch (j) {")
    for i, (_, _, pre, t) in enumerate(items):
        o.append(" case %d: %s mode = %d; break;" % (i, "sx_assume(%s);" % pre if pre else "", {"double": 1, "float": 2}.get(t, 0)))
    o.append(" }")
    o.append(" nm[0] = 'r'; nm[1] = '0' + j / 100; nm[2] = '0' + j / 10 % 10; nm[3] = '0' + j % 10; nm[4] = 0;")
    o.append(" fnp = R(nm); d_callR(cr, &a); want = a.r; wd = a.d; wf = a.f; sx_cover(\"reference\");")
    o.append(" d_compile(srcs[j]); r = L(\"r\"); switch (j) {")
    for i, (_, _, _, t) in enumerate(items):
        if t == "f":
            o.append(" case %d: fnp = r; d_callL(cl, &a); ok = a.r == want; break;" % i)
        elif t == "double":
            o.append(" case %d: ok = d_feq64(*(u64 *)r, *(u64 *)&wd); break;" % i)
        elif t == "float":
            o.append(" case %d: ok = d_feq32(*(u32 *)r, *(u32 *)&wf); break;" % i)
        else:
            o.append(" case %d: ok = *(%s *)r == (%s)want; break;" % (i, t, t))
    o.append(" default: ok = 0; } sx_cover(\"compared\"); sx_assert(ok, \"wrong value of a constant expression\"); }")
    ref = []
    for i, (_, b, _, t) in enumerate(items):
        rt = t if t in ("double", "float") else "long"
        ref.append("%s r%03d(unsigned long *v) { unsigned long v0 = v[0], v1 = v[1], v2 = v[2], v3 = v[3], v4 = v[4], v5 = v[5], v9 = v[9]; %s }" % (rt, i, b))
    return "\n".join(o), "\n".join(ref)


def pack(name, items, n, **kw):
    out = []
    for i in range(0, len(items), n):
        d, ref = drv(items[i:i + n])
        out.append(Scenario("%s-%d" % (name, i // n), d, ref, opts=kw.get("opts", ""), ubsan=True, refflags=["-fsanitize=signed-integer-overflow", "-fno-wrapv", "-fsanitize-trap=all"], query_ms=kw.get("query_ms", 3000), time=kw.get("time", 20)))
    return out


FL = ["0.0", "1.0", "-1.0", "0.5", "1.5f", "3.25", "-2.75f", "16777217.0", "2147483648.0", "4294967296.0f", "1e18", "1e300", "0.1", "0.1f", "1.0L", "2.5L", "1e-30f", "255.0", "-128.0f"]


def rexpr(r, d, pres, depth0=True):
    if d == 0 or r.random() < 0.1:
        x = r.random()
        if x < 0.18:
            c = r.choice(["0", "1", "2", "-1", "3u", "255", "65536L", "'a'", "'\\377'", "2147483647", "0xffffffff", "sizeof(int)", "1UL", "017"])
            return c, c.replace("'a'", "(int)97").replace("'\\377'", "(int)-1")
        t = r.choice(["int", "int", "int-", "unsigned int", "long", "long-", "unsigned long", "hex", "dec", "hexl"] + CAST)
        k = r.randint(0, 5)
        while k in pres and pres[k][0] != t:
            t = pres[k][0]
        a, b, p = lit(t, k)
        pres[k] = (t, p)
        return a, b
    k = r.random()
    e = lambda: rexpr(r, d - 1, pres)
    if k < 0.55:
        op = r.choice(OPS)
        a, b = e(), e()
        if op in ("<<", ">>"):
            b = ("(%s & 15)" % b[0], "(%s & 15)" % b[1])
        if op == "*":
            b = tuple(["(%s)" % r.choice(["3", "-5L", "255u", "10"])] * 2)
        return "(%s %s %s)" % (a[0], op, b[0]), "(%s %s %s)" % (a[1], op, b[1])
    if k < 0.7:
        a, b, c = e(), e(), e()
        return "(%s ? %s : %s)" % (a[0], b[0], c[0]), "(%s ? %s : %s)" % (a[1], b[1], c[1])
    if k < 0.85:
        t = r.choice(CAST)
        a = e()
        return "((%s)%s)" % (t, a[0]), "((%s)%s)" % (t, a[1])
    o = r.choice(["-", "~", "!", "+"])
    a = e()
    return "(%s%s)" % (o, a[0]), "(%s%s)" % (o, a[1])


def scenarios(tier, seed):
    out, r = [], random.Random(seed * 104729 + 2)
    th = tier == "thorough"
    types = ["_Bool", "char", "unsigned char", "short", "unsigned short", "int", "int-", "unsigned int", "hex", "long", "long-", "dec", "unsigned long", "hexl", "signed char"]
    ctxs = ["init"] * 6 + ["size", "dim", "enum", "enumv", "ret", "ret", "ret", "case", "if", "while", "bool", "dbl", "assert", "bits"]
    items = []
    for op in OPS:
        for ta in types:
            for tb in types:
                if not th and r.random() < 0.7:
                    continue
                a, b = lit(ta, 0), lit(tb, 1)
                pre = " & ".join("(%s)" % x for x in (a[2], b[2]) if x)
                items.append(item(r.choice(ctxs), "%s %s %s" % (a[0], op, b[0]), "%s %s %s" % (a[1], op, b[1]), pre))
                if th:
                    items.append(item(r.choice(ctxs), "%s %s %s" % (a[0], op, b[0]), "%s %s %s" % (a[1], op, b[1]), pre))
    r.shuffle(items)
    out += pack("binary", items, 30 if not th else 24)
    items = []
    for ta in types:
        a = lit(ta, 0)
        for un in ("-", "~", "!", "+"):
            items.append(item(r.choice(["init", "ret", "if", "enumv"]), un + " " + a[0], un + " " + a[1], a[2]))
            items.append(item(r.choice(["init", "size", "dbl", "while"]), un + " " + a[0], un + " " + a[1], a[2]))
        for ct in CAST:
            items.append(item(r.choice(["init", "ret", "if", "enum", "dim", "dbl"]), "(%s)%s" % (ct, a[0]), "(%s)%s" % (ct, a[1]), a[2]))
        for ct in ("float", "double"):
            items.append(item("flt" if ct == "float" else "dbl", "(%s)%s" % (ct, a[0]), "(%s)%s" % (ct, a[1]), a[2]))
            items.append(item("ret", "(%s)%s < 3" % (ct, a[0]), "(%s)%s < 3" % (ct, a[1]), a[2]))
            items.append(item("ret", "!(%s)%s" % (ct, a[0]), "!(%s)%s" % (ct, a[1]), a[2]))
        for f in r.sample(FL, 4):
            op = r.choice(["+", "-", "*", "/"])
            items.append(item("dbl", "%s %s %s" % (f, op, a[0]), "%s %s %s" % (f, op, a[1]), a[2]))
            op = r.choice(["<", ">", "<=", ">=", "==", "!="])
            items.append(item(r.choice(["init", "ret", "if"]), "%s %s %s" % (a[0], op, f), "%s %s %s" % (a[1], op, f), a[2]))
            items.append(item(r.choice(["init", "ret"]), "%s ? %s : 2" % (f, a[0]), "%s ? %s : 2" % (f, a[1]), a[2]))
    for f in FL:
        for g in r.sample(FL, 5):
            op = r.choice(["+", "-", "*", "/"])
            items.append(item(r.choice(["dbl", "flt"]), "%s %s %s" % (f, op, g), "%s %s %s" % (f, op, g), ""))
            op = r.choice(["<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            items.append(item(r.choice(["init", "ret", "if", "dim"]) if "&" not in op and "|" not in op else "ret", "%s %s %s" % (f, op, g), "%s %s %s" % (f, op, g), ""))
        for ct in ("int", "long", "unsigned int", "unsigned char", "_Bool", "unsigned long", "short"):
            items.append(item(r.choice(["init", "ret"]), "(%s)%s" % (ct, f), "(%s)%s" % (ct, f), ""))
    r.shuffle(items)
    out += pack("unary", items, 40)
    items = []
    for _ in range(700 if th else 170):
        pres = {}
        a, b = rexpr(r, 4 if th else 3, pres)
        items.append(item(r.choice(ctxs), a, b, " & ".join("(%s)" % p for _, p in pres.values() if p)))
    out += pack("random", items, 20)
    return out
