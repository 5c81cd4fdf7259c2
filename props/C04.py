"""Preprocessor conditions: the group selected by #if/#elif chains for every operand value."""
import random
from sxlib import Scenario
from tv import cstr
LEVEL = "model_checking"
OPS = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
BOUNDS = {"operand values": "all 64-bit values (symbolic numerals: strtoul's result is a solver variable)", "operators": OPS + ["unary + - ~ !", "?:", "defined", "parentheses"],
          "expression shapes": "every pair and every ordered triple of operators without parentheses, all signedness pairs, seeded random trees of up to 7 operands (thorough: more seeds)",
          "chains": "random nests of #if/#ifdef/#ifndef/#elif/#else of depth <= 3, symbolic conditions, garbage in the groups that are skipped"}
ASSUMPTIONS = ["conditions whose evaluation is undefined or a constraint violation (shift count out of range, signed overflow, division by zero in an evaluated operand) are excluded",
               "decimal numerals without u suffix are at most LONG_MAX", "reference semantics: clang 18 IR of the same expression over long and unsigned long"]
REQUIRE = ["compiled", "compared"]


class E:
    """an expression as text for the preprocessor and as text for the reference"""
    def __init__(self, pp, ref, sup="", pre=""):
        self.pp, self.ref, self.sup, self.pre = pp, ref, sup, pre


KIND = {"s": ("%d", "long"), "sl": ("%dL", "long"), "ll": ("%dll", "long"), "u": ("%du", "unsigned long"), "ul": ("%dUL", "unsigned long"), "lu": ("%dlu", "unsigned long"),
        "hs": ("0x%d", "long"), "hu": ("0x%d", "unsigned long"), "hU": ("0X%dU", "unsigned long")}


def operand(kind, k):
    t, ct = KIND[kind]
    return t % (7700000 + k), "(%s)v%d" % (ct, k)


def drv(items):
    """items: list of (source text, reference body computing the expected marker from v0..v9, assumption)"""
    o = ['#include "drv.h"', "struct A { unsigned long v[10]; int r; };", "static struct A a;", "static u64 rd(int k) { return sx_magic(k); }",
         "static int cr(struct A *x) { int (*f)(unsigned long *) = 0; f = (int (*)(unsigned long *))fnp; x->r = f(x->v); return 0; }"]
    o[4] = "static void *fnp; " + o[4]
    o.append("static const char *const srcs[] = {\n%s };" % ",\n".join(cstr(s) for s, _, _ in items))
    o.append("static char nm[10];")
    o.append("void harness(void) { int k, j = sx_choose(%d, \"expr\"), *r; for (k = 0; k < 10; k++) a.v[k] = rd(k);" % len(items))
    o.append(" switch (j) {")
    for i, (_, _, pre) in enumerate(items):
        if pre:
            o.append(" case %d: sx_assume(%s); break;" % (i, pre))
    o.append(" }")
    o.append(" nm[0] = 'r'; nm[1] = '0' + j / 100; nm[2] = '0' + j / 10 % 10; nm[3] = '0' + j % 10; nm[4] = 0;")
    o.append(" fnp = R(nm); d_callR(cr, &a); sx_cover(\"reference\");")
    o.append(" d_compile(srcs[j]); r = L(\"r\"); sx_cover(\"compared\"); sx_assert(*r == a.r, \"wrong group selected by a preprocessor condition\"); }")
    ref = ["#define V unsigned long *v"]
    for i, (_, b, _) in enumerate(items):
        ref.append("int r%03d(unsigned long *v) { unsigned long v0 = v[0], v1 = v[1], v2 = v[2], v3 = v[3], v4 = v[4], v5 = v[5], v6 = v[6], v7 = v[7], v8 = v[8], v9 = v[9]; %s }" % (i, b))
    return "\n".join(o), "\n".join(ref)


def assumption(kinds):
    c = []
    for k, kd in kinds:
        if kd in ("s", "sl", "ll", "hs"):
            c.append("(long)a.v[%d] >= 0" % k)
        elif kd == "hu":
            c.append("(long)a.v[%d] < 0" % k)
    return " & ".join("(%s)" % x for x in c)


def value_item(pp, ref, kinds, pro=""):
    """equality with an unknown number: decides the whole value"""
    return (pro + "#if (%s) == 7700009u\nint r = 1;\n#else\nint r = 2;\n#endif\n" % pp, "return (unsigned long)(%s) == v9 ? 1 : 2;" % ref, assumption(kinds))


def sign_item(pp, ref, kinds, pro=""):
    return (pro + "#if ((%s) & 0) - 1 < 0\nint r = 1;\n#else\nint r = 2;\n#endif\n" % pp, "return ((%s) & 0) - 1 < 0 ? 1 : 2;" % ref, assumption(kinds))


def truth_item(pp, ref, kinds, pro=""):
    return (pro + "#if %s\nint r = 1;\n#else\nint r = 2;\n#endif\n" % pp, "return (%s) ? 1 : 2;" % ref, assumption(kinds))




def cexpr(toks):
    """reference text: results of comparisons are promoted to long by casting each operand only; int results behave like long for all later operators"""
    return " ".join(toks)


def rtree(r, d):
    """random operator string without redundant parentheses; returns (pp tokens, ref tokens, kinds)"""
    n = r.randint(2, d)
    pp, ref, kinds = [], [], []
    for i in range(n):
        un = "".join(r.choice(["", "", "", "", "-", "~", "!", "+"]) for _ in range(r.choice([1, 1, 2])))
        un = " ".join(un)
        kd = r.choice(["s", "s", "u", "sl", "ul", "hs", "hu", "hU", "ll", "lu"])
        x = r.random()
        if x < 0.72:
            a, b = operand(kd, i)
            kinds.append((i, kd))
        elif x < 0.80:
            a = r.choice(["0", "1", "2", "3", "7", "63", "'a'", "'\\0'", "'\\377'", "'\\x7f'"])
            b = a if a[0] != "'" else "(long)" + a
            b = b if a[0] == "'" else a + "L"
        elif x < 0.88:
            a, b = r.choice([("NOTDEF", "0L"), ("int", "0L"), ("defined M1", "1L"), ("defined(M0)", "1L"), ("defined NOTDEF", "0L"), ("defined ( M1 )", "1L")])
        else:
            a, b = r.choice([("M1", "1L"), ("M0", "0L"), ("SQ(3)", "3L*3L"), ("PICK(7700008, 5)", "(long)v8"), ("MX(2)", "(2L)+1L")])
            if "v8" in b:
                kinds.append((8, "s"))
        pp.append((un + " " + a).strip())
        ref.append((un + " " + b).strip())
    def build(lo, hi):
        if hi - lo == 1:
            return pp[lo], ref[lo]
        if r.random() < 0.3 and hi - lo > 2:
            m = r.randint(lo + 1, hi - 1)
            a, b = build(lo, m)
            c, e = build(m, hi)
            if r.random() < 0.5 and m + 1 < hi:
                q = r.randint(m + 1, hi)
                if q < hi:
                    c, e = build(m, q)
                    g, h = build(q, hi)
                    return "%s ? %s : %s" % (a, c, g), "%s ? %s : %s" % (b, e, h)
            op = r.choice(OPS)
            return "(%s) %s (%s)" % (a, op, c), "(%s) %s (%s)" % (b, op, e)
        op = r.choice(OPS)
        m = r.randint(lo + 1, hi - 1)
        a, b = build(lo, m)
        c, e = build(m, hi)
        if op in ("<<", ">>") and r.random() < 0.8:
            c, e = "(%s & 31)" % c, "((%s) & 31)" % e
            c = "((%s) & 31)" % c
        return "%s %s %s" % (a, op, c), "%s %s %s" % (b, op, e)
    a, b = build(0, n)
    return a, b, kinds


PRO = "#define M1 1\n#define M0 0\n#define SQ(x) x * x\n#define PICK(a,b) a\n#define MX(q) (q) \\\n + M1\n"
GARBAGE = ["this is @ not ` C\n", "#error not reached\n", "#include \"no/such/file.h\"\n", "#define M1 2\n#undef M0\n", "#if 1 / 0\n#elif (\n#endif\n", "#ifdef Z9\n#else\n#endif\n", "#if M1(\n)\n#endif\n", "#bogus directive\n", "#define SQ(x) (x)\n", "/* comment\n#endif\n*/\n", "#\n", "  # if 0 // \n # endif\n",
           "#if garbage ) ( 1\nint r = 77;\n#else\nint r = 78;\n#endif\n"]


def nest(r, d, leaf, ks):
    """(pp text, C text): a conditional whose groups set r"""
    def cond():
        k = r.choice(ks)
        x = r.random()
        if x < 0.75:
            c = r.choice(["%s", "!%s", "%s == 3", "%s > 1000", "%s & 8", "%s - 1", "%s %% 7 == 2", "~%s"])
            return c % (7700000 + k), (c % ("(long)v%d" % k)), True
        if x < 0.9:
            return r.choice([("defined M1", "1", True), ("defined (NOPE)", "0", True), ("M1 && !defined(M0)", "0", True)])
        return r.choice([("M1", "1", False), ("NOPE", "0", False)])
    def group(dead):
        g, c = "", ""
        if dead and r.random() < 0.8:
            g += "".join(r.choice(GARBAGE) for _ in range(r.randint(1, 2)))
        if d > 0 and r.random() < 0.55:
            a, b = nest(r, d - 1, leaf, ks)
            return g + a, b
        leaf[0] += 1
        return g + "int r = %d;\n" % leaf[0], "return %d;" % leaf[0]
    pp, cc = "", ""
    a, b, full = cond()
    neg = r.random() < 0.3 and not full
    taken_const = None
    head = "#if %s\n" % a if full else ("#ifndef %s\n" if neg else "#ifdef %s\n") % a
    cexp = b if full else ("!(%s)" % b if neg else b)
    alive_const = {"1": True, "0": False, "!(1)": False, "!(0)": True}.get(cexp)
    g, c = group(alive_const is False)
    pp += head + g
    cc += "if (%s) { %s }" % (cexp, c)
    dead_rest = alive_const is True
    for _ in range(r.choice([0, 1, 1, 2])):
        a, b, full = cond()
        while not full:
            a, b, full = cond()
        if dead_rest:
            a, b = r.choice([("1 / 0", "1"), ("(", "1"), ("F(1,", "1"), (a, b)])
        k = {"1": True, "0": False}.get(b)
        g, c = group(dead_rest or k is False)
        pp += r.choice(["#elif %s\n", "# elif\t%s\n"]) % a + g
        cc += " else if (%s) { %s }" % (b, c)
        dead_rest = dead_rest or k is True
    g, c = group(dead_rest)
    pp += "#else\n" + g + r.choice(["#endif\n", "# endif /* x */\n", "#endif // y\n"])
    cc += " else { %s }" % c
    return pp, cc


def pack(name, items, n, **kw):
    out = []
    for i in range(0, len(items), n):
        d, ref = drv(items[i:i + n])
        out.append(Scenario("%s-%d" % (name, i // n), d, ref, ubsan=True, refflags=["-fsanitize=signed-integer-overflow", "-fno-wrapv", "-fsanitize-trap=all"], query_ms=kw.get("query_ms", 3000), time=kw.get("time", 25)))
    return out


def scenarios(tier, seed):
    out, r = [], random.Random(seed * 7919 + 4)
    th = tier == "thorough"
    items = []
    kinds = ["s", "u", "hs", "hu", "sl", "ul"] if th else ["s", "u", "hu"]
    for op in OPS:
        for ka in kinds:
            for kb in kinds:
                a, ra = operand(ka, 0)
                b, rb = operand(kb, 1)
                k = [(0, ka), (1, kb)]
                items.append(value_item("%s %s %s" % (a, op, b), "%s %s %s" % (ra, op, rb), k))
                if ka in "su" and kb in "su":
                    items.append(sign_item("%s %s %s" % (a, op, b), "%s %s %s" % (ra, op, rb), k))
    for ka in ("s", "u", "hu"):
        for un in ("-", "~", "!", "+", "- -", "! !", "~ -", "- ~", "- !"):
            a, ra = operand(ka, 0)
            items.append(value_item("%s %s" % (un, a), "%s %s" % (un, ra), [(0, ka)]))
            items.append(sign_item("%s %s" % (un, a), "%s %s" % (un, ra), [(0, ka)]))
        for kb in ("s", "u"):
            a, ra = operand(ka, 0); b, rb = operand(kb, 1); c, rc = operand("s", 2)
            for f in ("%s ? %s : %s", "%s ? (%s) : -%s", "!%s ? %s : %s"):
                items.append(value_item(f % (c, a, b), f % (rc, ra, rb), [(0, ka), (1, kb), (2, "s")]))
                items.append(sign_item(f % (c, a, b), f % (rc, ra, rb), [(0, ka), (1, kb), (2, "s")]))
    out += pack("binary", items, 24)
    items = []
    for o1 in OPS:
        for o2 in OPS:
            if not th and (o1 in ("/", "%", "*") and o2 in ("/", "%", "*") or r.random() < 0.45):
                continue
            ks = [(0, "s"), (1, "s"), (2, "s")]
            ops = [operand(k, i) for i, k in ks]
            def sh(op, t, x):
                return x
            a, b, c = ops
            items.append(truth_item("%s %s %s %s %s" % (a[0], o1, b[0], o2, c[0]), "%s %s %s %s %s" % (a[1], o1, b[1], o2, c[1]), ks))
    out += pack("precedence", items, 24)
    items = []
    for _ in range(400 if th else 72):
        a, b, k = rtree(r, 7 if th else 5)
        items.append(truth_item(a, b, k, PRO))
        items.append(value_item(a, b, k, PRO))
    out += pack("random", items, 24)
    items = []
    for _ in range(300 if th else 60):
        pp, cc = nest(r, 3, [0], [0, 1, 2])
        items.append((PRO + pp, cc + " return -1;", assumption([(0, "s"), (1, "s"), (2, "s")])))
    out += pack("chain", items, 15)
    return out
