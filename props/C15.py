"""Floating point: every operator over float, double, long double and integer operands."""
import itertools
from tv import Fn, scenario
from cgen import INT
import random
LEVEL = "model_checking"
FT = ["float", "double", "long double"]
ALL = FT + ["int", "unsigned int", "long", "unsigned long", "signed char", "unsigned short", "_Bool"]
BOUNDS = {"program families": "every arithmetic, comparison, logical, conditional, conversion, compound assignment and increment operator over each pair of float/double/long double and {float,double,long double,int,unsigned,long,unsigned long,signed char,unsigned short,_Bool}; fixed list of constant expressions; seeded composite expressions",
          "inputs": "all operand values (long double operands: every value of a double, widened), NaN results compared as NaN", "options": "-O0 and -O1", "query": "5 s per solver query (quick), 40 s (thorough); undecided assertions are counted, never reported"}
ASSUMPTIONS = ["floating point to integer conversions out of range are undefined and excluded", "round to nearest even", "NaN payloads and signs are not compared"]
REQUIRE = ["compiled", "called"]
tn = lambda t: t.replace(" ", "-")

def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    def add(name, items, n=14, os=("", "-O1")):
        """items: (declaration text, ret, params); split into scenarios of n functions"""
        for g in range(0, len(items), n):
            src, fns = [], []
            for text, ret, params in items[g:g + n]:
                i = len(fns)
                src.append(text.replace("@", "f%d" % i)); fns.append(Fn("f%d" % i, ret, params))
            for o in os:
                out.append(scenario("%s-%d" % (name, g // n), "\n".join(src), fns, opts=o, query_ms=4000 if quick else 40000, time=20 if quick else 150))
    for a in FT:
        it, cm, cv, ex, ng = [], [], [], [], []
        for b in ALL:
            rt = max((t for t in (a, b) if t in FT), key=FT.index)
            for op in ["+", "-", "*", "/"]:
                for x, y in ((a, b), (b, a)) if a != b else ((a, b),):
                    it.append(("%s @(%s a, %s b) { return a %s b; }" % (rt, x, y, op), rt, [x, y]))
            for op in ["<", ">", "<=", ">=", "==", "!=", "&&", "||"]:
                cm.append(("int @(%s a, %s b) { return a %s b; }" % (a, b, op), "int", [a, b]))
                cm.append(("int @(%s b, %s a) { if (b %s a) return 3; return 4; }" % (b, a, op), "int", [b, a]))
                ng.append(("int @(%s a, %s b) { return !(a %s b) + 2 * !!(b %s a); }" % (a, b, op, op), "int", [a, b]))
                ng.append(("int @(%s a, %s b, int c) { int n = 0; if (!(b %s a)) n = 1; while (!(a %s b)) { n += 2; if (n > 3) break; } return !(a %s b) && c ? n + 8 : n; }" % (a, b, op, op, op), "int", [a, b, "int"]))
            cm.append(("int @(%s b, %s a) { int n = 0; while (b < a) { n++; if (n > 1) break; } return !(b < a) ? n + 4 : -n; }" % (b, a), "int", [b, a]))
            cm.append(("int @(%s a, %s b, int c) { return (c ? a : b) == a; }" % (a, b), "int", [a, b, "int"]))
            cv += [("%s @(%s a) { return a; }" % (b, a), b, [a]), ("%s @(%s a) { return (%s)a; }" % (b, a, b), b, [a]), ("%s @(%s a) { return a; }" % (a, b), a, [b]),
                   ("%s @(%s a) { return a + 1; }" % (a, b), a, [b]), ("%s @(%s *p, %s *q) { *p = *q; return p[1] = q[1]; }" % (a, a, b), a, [a + "*2", b + "*2"]),
                   ("%s @(%s *p, %s *q) { *p = *q; return p[1] = q[1]; }" % (b, b, a), b, [b + "*2", a + "*2"]),
                   ("%s @(%s a, %s b, int c) { return c ? a : b; }" % (rt, a, b), rt, [a, b, "int"])]
            for op in ["+=", "-=", "*=", "/="]:
                cv.append(("%s @(%s a, %s b) { a %s b; return a; }" % (a, a, b, op), a, [a, b]))
                if b in FT or op in ("+=", "-="):
                    cv.append(("%s @(%s b, %s a) { b %s a; return b; }" % (b, b, a, op), b, [b, a]))
        for e in ["-a", "+a", "a++", "++a", "a--", "--a", "-(-a)", "a + 1", "1 - a", "a * 2.5", "0.0 - a", "-a * 3.0f", "a / 4", "(float)a", "(double)a", "(float)(a + 1)", "(double)(float)a", "1.0f + a", "a - 1e10", "(a, a + 1)", "0", "-0.0", "1.5f", "1e300", "3.25L", "a ? a : 1", "!a ? 2 : a", "-0.0L", "-0.0f", "1.0 / 3", "1.0f / 3", "1 / 3.0L", "(float)0.1", "(float)16777217", "(double)18446744073709551615UL", "(float)-1L", "9007199254740993L + 0.0", "1e308 * 10 - 1e308 * 10 == 0 ? 1 : 2"]:
            ex.append(("%s @(%s a) { return %s; }" % (a, a, e), a, [a]))
        for e in ["!a", "a ? 1 : 2", "!!a", "a && 1", "a || 0", "a == a", "a != a", "a == 0", "0 < a", "a > 1.5", "-1.5f <= a", "(_Bool)a", "sizeof(a + 1.0f)", "(int)1.9", "(int)-1.9f", "(unsigned char)200.5", "1.5 == 1.5f", "0.1 == 0.1f", "(_Bool)0.1", "(_Bool)-0.0", "0.5 ? 3 : 4", "!0.25", "-0.0 == 0.0", "-0.0 ? 3 : 4", "(0.0 / 0.0) != (0.0 / 0.0)", "1.0 / 0.0 > 1e308", "(long)9007199254740993.0"]:
            ex.append(("int @(%s a) { return %s; }" % (a, e), "int", [a]))
        add("arith-" + tn(a), it, 40)
        add("expr-" + tn(a), ex, 35)
        add("cmp-" + tn(a), cm, 20)
        add("not-" + tn(a), ng, 20)
        add("conv-" + tn(a), cv, 20)
    # composite expressions
    r = random.Random(seed * 31 + 7)
    def gen(d, vs):
        if d == 0: return r.choice(vs + ["1.5", "2", "0.25f", "3L"])
        k = r.random()
        if k < .6: return "(%s %s %s)" % (gen(d - 1, vs), r.choice("+-*"), gen(d - 1, vs))
        if k < .75: return "(%s)%s" % (r.choice(FT), gen(d - 1, vs))
        if k < .85: return "(-%s)" % gen(d - 1, vs)
        return "(%s %s %s ? %s : %s)" % (r.choice(vs), r.choice(["<", ">="]), r.choice(vs), gen(d - 1, vs), gen(d - 1, vs))
    items = []
    for i in range(24 if quick else 160):
        ts = [r.choice(ALL) for _ in range(3)]; rt = r.choice(FT)
        items.append(("%s @(%s x, %s y, %s z) { return %s; }" % (rt, ts[0], ts[1], ts[2], gen(2 + i % 2, ["x", "y", "z"])), rt, ts))
    add("composite", items, 12)
    return out
