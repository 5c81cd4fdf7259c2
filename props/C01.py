"""Integer expressions: every operator, every pair of operand types, all operand values."""
import itertools
from tv import Fn, scenario
from cgen import Gen, INT, CONSTS
LEVEL = "model_checking"
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
ASG = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "="]
BOUNDS = {"operand values": "all (full width, symbolic)", "type pairs": "all ordered pairs of the ten integer types", "operators": BIN + ASG + ["unary - ~ ! +", "++/-- pre/post", "casts", "?:", ","],
          "expression shapes": "one operator over parameters, constants on either side, globals, pointees, array elements, members; seeded random trees of depth <= 4 (quick) / 5 (thorough)", "optimisation": "-O0 and -O1"}
ASSUMPTIONS = ["operand values with undefined behaviour (shift count out of range, division by zero) are excluded; signed overflow wraps as in the reference translation", "reference semantics: clang 18 IR of the same source"]
REQUIRE = ["compiled", "called"]
tn = lambda t: t.replace(" ", "-")


def scenarios(tier, seed):
    out = []
    opts = ["", "-O1"]

    def add(name, src, fns, os=opts, **kw):
        for o in os:
            out.append(scenario(name, "\n".join(src) if isinstance(src, list) else src, fns, opts=o, **kw))
    for a in INT:
        src, fns = [], []
        for i, (b, op) in enumerate(itertools.product(INT, BIN)):
            src.append("long f%d(%s a, %s b) { return a %s b; }" % (i, a, b, op))
            fns.append(Fn("f%d" % i, "long", [a, b]))
        add("bin-" + tn(a), src, fns)
        src, fns = [], []
        for i, (b, op) in enumerate(itertools.product(INT, ASG)):
            src.append("%s f%d(%s a, %s b) { a %s b; return a; }" % (a, i, a, b, op))
            fns.append(Fn("f%d" % i, a, [a, b]))
        add("assign-" + tn(a), src, fns)
        src, fns = [], []
        for b in INT:
            src.append("%s k%d(%s a) { return (%s)a; }" % (b, len(fns), a, b)); fns.append(Fn("k%d" % len(fns), b, [a]))
            src.append("long k%d(%s a) { return (%s)a; }" % (len(fns), a, b)); fns.append(Fn("k%d" % len(fns), "long", [a]))
            src.append("long k%d(%s a, %s b, int c) { return c ? a : b; }" % (len(fns), a, b)); fns.append(Fn("k%d" % len(fns), "long", [a, b, "int"]))
            src.append("unsigned long k%d(%s a, %s b, long c) { return c < 0 ? (b, a) : b + 1; }" % (len(fns), a, b)); fns.append(Fn("k%d" % len(fns), "unsigned long", [a, b, "long"]))
        for u in ["-a", "~a", "!a", "+a", "++a", "--a", "a++", "a--", "!!a", "-(a < 3)", "(++a, a)", "(a--, a)", "a++ + 1", "sizeof(+a)", "sizeof a + (a > 0)"]:
            src.append("long k%d(%s a) { return %s; }" % (len(fns), a, u)); fns.append(Fn("k%d" % len(fns), "long", [a]))
        for s in ["if (a) return 1; return 2;", "if (!a) return 1; return 2;", "while (a) { a = 0; n++; } return n;", "return a && n ? 3 : 4;", "n = a; return n;", "return n + (a ? 1 : 2);"]:
            src.append("long k%d(%s a) { long n = 0; %s }" % (len(fns), a, s)); fns.append(Fn("k%d" % len(fns), "long", [a]))
        add("unary-" + tn(a), src, fns)
    # constant operands
    cs = CONSTS if tier == "thorough" else ["0", "1", "2", "-1", "127", "255", "65535", "2147483647", "(-2147483647-1)", "4294967295u", "2147483648L", "-1L", "4294967296L", "(-9223372036854775807L-1)", "18446744073709551615UL", "1u"]
    for a in INT:
        src, fns = [], []
        for c in cs:
            for op in BIN:
                if op in ("/", "%") and c.startswith("0"):
                    continue
                if op in ("<<", ">>") and c not in ("0", "1", "2", "1u"):
                    pass
                else:
                    src.append("long c%d(%s a) { return a %s %s; }" % (len(fns), a, op, c)); fns.append(Fn("c%d" % len(fns), "long", [a]))
                src.append("long c%d(%s a) { return %s %s a; }" % (len(fns), a, c, op)); fns.append(Fn("c%d" % len(fns), "long", [a]))
                if op in ("<", "==", ">=", "&&", "-", "&"):
                    src.append("int c%d(%s a) { if (a %s %s) return 5; return 6; }" % (len(fns), a, op, c)); fns.append(Fn("c%d" % len(fns), "int", [a]))
        add("const-" + tn(a), src, fns)
    # storage forms
    for a in INT:
        src = ["struct S { char pad; %s m; char t; %s arr[3]; };" % (a, a), "%s g; static %s sg; %s ga[4];" % (a, a, a)]
        fns = []
        for op in ASG:
            for lv, pre in (("g", ""), ("ga[2]", ""), ("*p", ""), ("p[1]", ""), ("s->m", "struct S *s = q;"), ("s->arr[2]", "struct S *s = q;"), ("v", "%s v = x;" % a), ("v[1]", "%s v[2]; v[0] = x; v[1] = y;" % a), ("sg", "sg = x;"), ("t.m", "struct S t; t.m = x;"), ("*r", "%s v = x; %s *r = &v;" % (a, a))):
                i = len(fns)
                if lv == "s->m" or lv == "s->arr[2]":
                    src.append("long s%d(struct S *q, %s y) { %s return %s %s y; }" % (i, a, pre, lv, op)); fns.append(Fn("s%d" % i, "long", ["struct S*1", a]))
                elif lv in ("*p", "p[1]"):
                    src.append("long s%d(%s *p, %s y) { %s return %s %s y; }" % (i, a, a, pre, lv, op)); fns.append(Fn("s%d" % i, "long", [a + "*2", a]))
                else:
                    src.append("long s%d(%s x, %s y) { %s return %s %s y; }" % (i, a, a, pre, lv, op)); fns.append(Fn("s%d" % i, "long", [a, a]))
        for k, e in enumerate(["p[0]++ + p[1]", "--p[1] - ++p[0]", "*p++ + *p", "(*p)-- + y", "-*p", "!p[1]", "~p[0] & y"]):
            i = len(fns)
            src.append("long s%d(%s *p, %s y) { return %s; }" % (i, a, a, e)); fns.append(Fn("s%d" % i, "long", [a + "*2", a]))
        if a == "_Bool":
            fns = [f for f in fns]
        init = None
        size = {"_Bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4}.get(a, 8)
        globs = [] if a == "_Bool" else [("g", size), ("ga", 4 * size)]
        if a == "_Bool":
            src = [x for x in src]
            fns = [f for f in fns if not f.params[0].startswith("struct")]
        add("lvalue-" + tn(a), src, fns, decls="struct S { char pad; %s m; char t; %s arr[3]; };" % (a, a), globs=globs)
    # random trees
    n, depth = (24, 4) if tier == "quick" else (400, 5)
    for k in range(n):
        g = Gen(seed * 100003 + k)
        src, fns = [], []
        for i in range(12):
            ts = [g.r.choice(INT) for _ in range(g.r.randint(2, 4))]
            rt = g.r.choice(INT)
            leaves = ["p%d" % j for j in range(len(ts))]
            src.append("%s r%d(%s) { return %s; }" % (rt, i, ", ".join("%s p%d" % (t, j) for j, t in enumerate(ts)), g.expr(depth, leaves)))
            fns.append(Fn("r%d" % i, rt, ts))
        add("tree-%d" % k, src, fns, os=[opts[k & 1]] if tier == "quick" else opts, time=40, query_ms=4000)
    return out
