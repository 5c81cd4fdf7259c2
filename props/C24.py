"""Variadic functions: every argument arrives, in both directions, and va_list is interchangeable with clang's."""
import random
from tv import repo_header, Fn, scenario, cmp_val
from C09 import AGG, DECL, FIELDS, sym_init, LD
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"signatures": "seeded random variadic signatures: 1 to 9 named and 0 to 12 unnamed arguments over every promoted scalar type and 44 struct/union shapes; variadic functions compiled by lacc and called from clang code, and clang variadic functions called from lacc code",
          "va_list": "read directly, copied midway (va_copy), passed to another lacc function, passed to and received from clang code, through a pointer, inside a struct",
          "inputs": "every byte of every argument is symbolic", "options": "-O0, -O1, -fPIC"}
ASSUMPTIONS = ["the reference lowering is clang 18's for x86_64 Linux", "padding bytes of aggregates are not compared", "va_arg is only used with the promoted type of the argument"]
PRO = ["int", "unsigned int", "long", "unsigned long", "double", "long double", "char *"]
NARROW = {"_Bool": "int", "char": "int", "signed char": "int", "unsigned char": "int", "short": "int", "unsigned short": "int", "float": "double"}
FIXED = ["char", "short", "int", "unsigned int", "long", "double", "float", "long double", "_Bool"]
TDEF = "typedef __builtin_va_list va_list;\n"
REFDEF = "#define va_start __builtin_va_start\n#define va_arg __builtin_va_arg\n#define va_end(x)\n"
SRCDEF = "#include \"stdarg.h\"\n"


class V:
    """lacc-defined variadic function"""
    MODES = ["plain", "copy", "pass", "extern", "ptr", "struct", "cond", "two"]

    def __init__(self, k, r, nf, nv, agg, mode=None, types=None):
        self.k, self.mode = k, mode or r.choice(self.MODES)
        pick = lambda l: r.choice(AGG) if r.random() < agg else r.choice(l)
        self.f = [pick(FIXED) for _ in range(nf - 1)] + [r.choice(["int", "long", "double", "struct S6"])]
        self.v = types or [pick(PRO) for _ in range(nv)]
        self.ret = r.choice(["int", "double", "void"] + AGG[:24:5])
        self.n1 = r.randint(0, len(self.v))

    def src(self):
        k, n = self.k, len(self.f)
        o = ["struct { %s v; char canary[24]; } o%d_%d;" % (t, k, i) for i, t in enumerate(self.f + self.v)]
        sig = ", ".join(["%s p%d" % (t, i) for i, t in enumerate(self.f)] + ["..."])
        body = "".join("o%d_%d.v = p%d; " % (k, i, i) for i in range(n))
        rd = lambda ap, a, b, pre="o%d_%d.v": "".join((pre + " = va_arg(%s, %s); ") % (k, n + i, ap, self.v[i]) for i in range(a, b))
        N, h = len(self.v), self.n1
        decl, m = "va_list ap; ", self.mode
        st = "va_start(ap, p%d); " % (n - 1)
        if m == "plain":
            body += st + rd("ap", 0, N)
        elif m == "copy":
            decl += "va_list aq; "; body += st + rd("ap", 0, h) + "va_copy(aq, ap); " + rd("aq", h, N) + "".join("(void)va_arg(ap, %s); " % t for t in self.v[h:N][:1]) + rd("ap", h + 1, N)
        elif m == "pass":
            o.append("static void g%d(va_list ap) { %s}" % (k, rd("ap", h, N))); body += st + rd("ap", 0, h) + "g%d(ap); " % k
        elif m == "extern":
            o.append("void vh%d(va_list);" % k); body += st + rd("ap", 0, h) + "vh%d(ap); " % k
        elif m == "ptr":
            o.append("static void g%d(va_list *ap) { %s}" % (k, rd("*ap", h, N))); body += st + rd("ap", 0, h) + "g%d(&ap); " % k
        elif m == "struct":
            decl = "struct { long x; va_list ap; } s; "; body += "va_start(s.ap, p%d); " % (n - 1) + rd("s.ap", 0, N)
        elif m == "cond":
            o.append("int c%d;" % k)
            body += st + "if (c%d) { %s} else { %s}" % (k, rd("ap", 0, N), rd("ap", 0, h))
        elif m == "two":
            body += st + rd("ap", 0, h) + "va_end(ap); " + st + rd("ap", 0, N)
        ret = ""
        if self.ret != "void":
            ret = "static %s r; return r; " % self.ret if not self.ret.startswith(("struct", "union")) else "return rr%d; " % k
            if self.ret.startswith(("struct", "union")):
                o.append("%s rr%d;" % (self.ret, k))
            else:
                ret = "return 1 + (c ? 2 : 3); "; decl += "int c = %d; " % (k & 1)
        o.append("%s v%d(%s) { %s%s%s}" % (self.ret, k, sig, decl, body, ret))
        return "\n".join(o)

    def ext(self):
        if self.mode != "extern":
            return ""
        k, n, h = self.k, len(self.f), self.n1
        m = "static struct { %s int n; } H%d[2];\n" % (" ".join("%s a%d;" % (t, i) for i, t in enumerate(self.v)), k)
        return m + "void vh%d(va_list ap) { H%d[d_side].n++; %s}" % (k, k, " ".join("H%d[d_side].a%d = va_arg(ap, %s);" % (k, i, self.v[i]) for i in range(h, len(self.v))))

    def fn(self):
        k = self.k
        ps = self.f + self.v
        init, chk = "", ""
        for i, t in enumerate(ps):
            if t in LD:
                init += " " + sym_init(t, "A.p%d" % i, "p%d" % i)
        if self.mode == "extern":
            chk = "sx_assert(H%d[0].n == H%d[1].n, \"v%d: calls differ\"); " % (k, k, k) + " ".join(cmp_val(self.v[i], "H%d[0].a%d" % (k, i), "H%d[1].a%d" % (k, i), "v%d: argument %d read by another compiler's code differs" % (k, i), FIELDS) for i in range(self.n1, len(self.v)))
        chk += " ".join("d_eqmem(gl_o%d_%d + sizeof(%s), gr_o%d_%d + sizeof(%s), 24, \"v%d: bytes following object %d differ\");" % (k, i, t, k, i, t, k, i) for i, t in enumerate(ps))
        g = [("o%d_%d" % (k, i), t) for i, t in enumerate(ps)]
        if self.mode == "cond":
            g.append(("c%d" % k, 4))
        if self.ret.startswith(("struct", "union")):
            g.append(("rr%d" % k, self.ret))
        return Fn("v%d" % k, self.ret, ps, vararg_fixed=len(self.f), init=init, check=chk, globs=g)


class W:
    """lacc-compiled caller of a clang variadic function"""

    def __init__(self, k, r, nf, nv, agg):
        self.k = k
        pick = lambda l: r.choice(AGG) if r.random() < agg else r.choice(l)
        self.f = [pick(FIXED) for _ in range(nf - 1)] + [r.choice(["int", "double"])]
        self.v = [pick(PRO + sorted(NARROW)) for _ in range(nv)]
        self.ret = r.choice(["int", "double", "void", "struct S6", "struct S21"])
        self.mode = r.choice(["direct", "ptr", "loc"])

    def src(self):
        k, ps = self.k, self.f + self.v
        o = ["%s h%d(%s, ...);" % (self.ret, k, ", ".join(self.f))]
        a = ", ".join("p%d" % i for i in range(len(ps)))
        pre, fn = "", "h%d" % k
        if self.mode == "ptr":
            pre, fn = "%s (*f)(%s, ...) = h%d; " % (self.ret, ", ".join(self.f), k), "f"
        if self.mode == "loc":
            pre = "".join("%s q%d = p%d; " % (t, i, i) for i, t in enumerate(ps)); a = a.replace("p", "q")
        o.append("%s w%d(%s) { %s%s%s(%s); }" % (self.ret, k, ", ".join("%s p%d" % (t, i) for i, t in enumerate(ps)), pre, "" if self.ret == "void" else "return ", fn, a))
        return "\n".join(o)

    def ext(self):
        k, n = self.k, len(self.f)
        vt = [NARROW.get(t, t) for t in self.v]
        self.all = self.f + vt
        m = "static struct { %s int n; } H%d[2];\n%s" % (" ".join("%s a%d;" % (t, i) for i, t in enumerate(self.all)), k, "" if self.ret == "void" else "static %s R%d;\n" % (self.ret, k))
        return m + "%s h%d(%s, ...) { va_list ap; va_start(ap, a%d); H%d[d_side].n++; %s %s %s}" % (self.ret, k, ", ".join("%s a%d" % (t, i) for i, t in enumerate(self.f)), n - 1, k,
               " ".join("H%d[d_side].a%d = a%d;" % (k, i, i) for i in range(n)), " ".join("H%d[d_side].a%d = va_arg(ap, %s);" % (k, n + i, t) for i, t in enumerate(vt)), "" if self.ret == "void" else "return R%d; " % k)

    def fn(self):
        k, ps = self.k, self.f + self.v
        init = "" if self.ret == "void" else sym_init(self.ret, "R%d" % k, "ret")
        for i, t in enumerate(ps):
            if t in LD:
                init += " " + sym_init(t, "A.p%d" % i, "p%d" % i)
        chk = "sx_assert(H%d[0].n == H%d[1].n, \"w%d: calls differ\"); " % (k, k, k) + " ".join(cmp_val(t, "H%d[0].a%d" % (k, i), "H%d[1].a%d" % (k, i), "w%d: argument %d received by the variadic callee differs" % (k, i), FIELDS) for i, t in enumerate(self.all))
        return Fn("w%d" % k, self.ret, ps, init=init, check=chk)


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    r = random.Random(seed * 7919 + 24)

    def add(name, cases, opts):
        src = DECL + "\n" + "\n".join(c.src() for c in cases)
        ext = REFDEF + TDEF + "\n".join(c.ext() for c in cases)
        out.append(scenario(name, SRCDEF + src, [c.fn() for c in cases], ref=REFDEF + TDEF + "#define va_copy __builtin_va_copy\n" + src, opts=opts, files={"stdarg.h": repo_header("stdarg.h")}, decls=DECL, externs=ext, fields=FIELDS, query_ms=5000, time=30 if quick else 120))
    optl = ["", "-O1", "-fPIC"]
    # every type after a few int and double arguments
    types = PRO + AGG
    for g in range(0, len(types), 13):
        add("each-%d" % (g // 13), [V(i, r, 1 + i % 3, 3, .2, "plain", [t, "int", t, "double", t]) for i, t in enumerate(types[g:g + 13])], optl[g // 13 % 3])
    for g in range(16 if quick else 120):
        add("def-%d" % g, [V(i, r, r.randint(1, [2, 4, 9, 6][g % 4]), r.randint(0, [4, 8, 12, 6][g % 4]), [.15, .4, .25, .6][g // 4 % 4], V.MODES[(i + g) % 8]) for i in range(10)], optl[g % 3])
    for g in range(12 if quick else 100):
        add("call-%d" % g, [W(i, r, r.randint(1, [2, 4, 9][g % 3]), r.randint(0, [4, 8, 12][g % 3]), [.1, .4, .25, .6][g // 3 % 4]) for i in range(10)], optl[g % 3])
    return out
