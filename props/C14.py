"""Control flow: the sequence of side effects equals the abstract machine's, for all controlling values."""
import random, re
from tv import Fn, scenario
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"programs": "hand-written nests of every statement form, and seeded random functions (nesting depth <= 4, <= 40 statements) of if/while/do/for/switch/goto/break/continue/return with conditional, short-circuit and comma operators",
          "inputs": "all values of every controlling parameter (symbolic, full width)", "loops": "each random loop is bounded by a fuel counter of at most 3 to 6 turns",
          "options": "-O0, -O1, -fPIC"}
ASSUMPTIONS = ["reference semantics: clang 18 IR of the same source", "observable events: calls of an external function with their argument, and the returned value"]
EXT = ""
DECL = "void ev(long);\n"

HAND = [
 # (ret, params, body)
 ("int", ["int"], "if (p0) ; else ev(1); if (!p0) ev(2); else ; return 3;"),
 ("int", ["int", "int"], "if (p0) if (p1) ev(1); else ev(2); return 0;"),
 ("int", ["int", "int"], "if (p0) { if (p1) ev(1); } else ev(2); return 0;"),
 ("int", ["int"], "switch (p0) { } ev(1); return 0;"),
 ("int", ["int"], "switch (p0) { default: ev(1); } return 0;"),
 ("int", ["int"], "switch (p0) { ev(9); case 1: ev(1); case 2: ev(2); break; ev(8); default: ev(3); case -1: ev(4); } return 0;"),
 ("int", ["int"], "switch (p0) case 3: ev(1); ev(2); return 0;"),
 ("int", ["int", "int"], "switch (p0) { case 0: while (p1--) { ev(1); if (p1 & 2) break; case 1: ev(2); if (p1 & 4) continue; case 2: ev(3); if (p1 > 3) return 1; p1 &= 7; } } return 0;"),
 ("int", ["unsigned char"], "int n = 0; switch (p0) { case 0: n++; case 127: n += 2; case 128: n += 4; break; case 255: n += 8; case 256: n += 16; } return n;"),
 ("int", ["signed char"], "int n = 0; switch (p0) { case 0: n++; case 127: n += 2; case -128: n += 4; break; case -1: n += 8; case 255: n += 16; } return n;"),
 ("int", ["unsigned int"], "switch (p0) { case 0: return 1; case 2147483648u: return 2; case -1: return 3; case 5: return 4; } return 0;"),
 ("int", ["long"], "switch (p0) { case 0: return 1; case 4294967296: return 2; case -1: return 3; case 4294967295: return 4; case (-9223372036854775807L-1): return 5; case 9223372036854775807L: return 6; case 2147483648: return 7; case -2147483649L: return 8; } return 0;"),
 ("int", ["unsigned long"], "switch (p0) { case 0: return 1; case 4294967296: return 2; case -1: return 3; case 4294967295: return 4; case 1ul << 63: return 5; case 2147483648u: return 6; } return 0;"),
 ("int", ["short"], "switch (p0 + 1) { case 32768: return 1; case -32767: return 2; case 0: return 3; } return 0;"),
 ("int", ["_Bool"], "switch (p0) { case 0: ev(0); break; case 1: ev(1); break; default: ev(2); } return 0;"),
 ("int", ["int"], "enum E { A = -2, B, C = 7, D } e = (enum E)p0; switch (e) { case A: return 1; case B: return 2; case C: return 3; case D: return 4; } return 0;"),
 ("int", ["int", "int"], "switch (p0) { case 1: switch (p1) { case 1: ev(1); break; default: ev(2); case 3: ev(3); } ev(4); case 2: ev(5); break; default: switch (p1) default: ev(6); } return 7;"),
 ("int", ["int", "int"], "int i; for (i = 0; i < 3; i++) { switch (p0 + i) { case 1: continue; case 2: break; case 3: goto out; case 4: return 9; default: ev(i); } ev(10 + i); if (p1 == i) break; } ev(20); out: ev(21); return i;"),
 ("int", ["int"], "int n = 0; p0 &= 7; do { n++; if (n == 3) continue; ev(n); if (n == 5) break; } while (n < p0); return n;"),
 ("int", ["int"], "do ev(1); while (0); while (0) ev(2); for (; 0;) ev(3); for (;;) { if (p0) break; ev(4); break; } do { ev(5); if (p0) continue; ev(6); } while (0); return 0;"),
 ("int", ["int"], "while (1) { ev(1); if (p0 & 1) return 1; if (p0 & 2) break; if (p0 & 4) { p0 = 1; continue; } goto end; } ev(2); end: return p0;"),
 ("int", ["int"], "if (0) { ev(1); in: ev(2); } else ev(3); if (p0-- == 5) goto in; return 0;"),
 ("int", ["int"], "if (1) { ev(1); } else { ev(2); in: ev(3); } if (p0-- == 5) goto in; return 0;"),
 ("int", ["int"], "while (0) { in: ev(1); if (p0 == 7) { p0 = 0; continue; } if (p0 == 8) break; ev(2); } if (p0 == 1 || p0 == 7 || p0 == 8) { p0 = p0 == 1 ? 9 : p0; goto in2; } return 3; in2: if (p0 == 9) { p0 = 2; goto in; } return 4;"),
 ("int", ["int", "int"], "goto b; a: ev(1); if (p0) goto c; goto d; b: ev(2); goto a; c: ev(3); d: ev(4); if (p1 > 0) { p1 = 0; goto b; } return 5;"),
 ("int", ["int", "int", "int"], "return p0 ? p1 ? 1 : 2 : p2 ? 3 : 4;"),
 ("int", ["int", "int", "int"], "return (p0 && (ev(1), p1)) || (p2 && (ev(2), p0)) ? (ev(3), 5) : (ev(4), 6);"),
 ("int", ["int", "int", "int"], "int x = p0 && p1 || p2; int y = p0 || p1 && p2; int z = !(p0 && p1); return x * 100 + y * 10 + z;"),
 ("int", ["int", "int"], "if (p0 && (ev(1), p1)) ev(2); if (p0 || (ev(3), p1)) ev(4); if (!(p0 || (ev(5), p1)) && (ev(6), 1)) ev(7); while (p0 && (ev(8), p1)) { p0 = 0; } return 0;"),
 ("int", ["int", "int"], "int i = 0, j = 0; for (i = 0, j = 3; i < j && (p0 || p1); i++, j--) { ev(i * 10 + j); if (p0 == i) continue; if (p1 == j) break; } return i * 10 + j;"),
 ("int", ["int"], "(p0 ? ev(1) : ev(2)); p0 && (ev(3), 0); p0 || (ev(4), 0); return p0 ? (ev(5), p0) : (ev(6), 7);"),
 ("int", ["double", "float"], "if (p0) ev(1); if (!p1) ev(2); while (p0) { ev(3); p0 = 0; } return (p0 && p1) + (p1 ? 2 : 4) + !p0 * 8;"),
 ("int", ["int *1"], "char *p = (char *)p0; if (p) ev(1); if (!p) ev(2); return (p && *p0) + (p ? 2 : 4) + !p * 8;"),
 ("void", ["int"], "if (p0 == 1) return; ev(1); if (p0 == 2) { ev(2); return; } for (;;) { ev(3); return; }"),
 ("int", ["int", "int"], "int n = (p0 & 7) + 1, k = 0, it = ((p0 & 15) + 7) / 8; if ((p0 & 15) == 0) return 0; switch ((p0 & 15) % 8) { case 0: do { k++; ev(0); case 7: k++; case 6: k++; ev(6); case 5: k++; case 4: k++; case 3: k++; ev(3); case 2: k++; case 1: k++; } while (--it > 0); } return k;"),
 ("int", ["int"], "{ goto x; { int y; ev(1); x: y = p0; if (y) { ev(y); } } } { ; ; ; } return 1;"),
 ("int", ["int"], "int r = 0; l1: l2: l3: r++; if (r < 3 && p0) goto l2; switch (p0) { case 1: case 2: m: case 3: r += 10; } if (r == 13) goto m; return r;"),
 ("int", ["int"], "const int c = 5; enum { Z = 3 }; switch (p0) { case Z + 2: return 1; case (int)sizeof(long) * 2: return 2; case 'a': return 3; case 1 ? 9 : 10: return 4; case -Z: return 5; } return c;"),
 ("long", ["int", "long"], "long s = 0; int i; for (i = p0 & 3; i; i--) for (;;) { s += p1; if (s & 1) break; s++; if (!(s & 3)) goto nxt; break; nxt: ; } return s;"),
 ("int", ["int"], "int i = 0; { int i = 5; if (p0) { int i = 7; ev(i); } ev(i); } for (i = 1; i < 3; i++) { int i = 9; ev(i); } return i;"),
 ("int", ["int"], "for (int i = 0, n = p0 & 3; i < n; ++i) { for (int i = 0; i < 2; i++) ev(i); ev(i + 10); } return 0;"),
 ("int", ["int"], "int a = 1; while (a) { a = p0; while (a > 2) { a = a - p0 + 1; if (a == 0) goto z; break; } if (a < 0) break; a = 0; } ev(a); z: return a;"),
 ("int", ["unsigned int"], "unsigned i, n = 0; for (i = p0 & 3; i-- > 0; ) n = n * 10 + i + 1; return n;"),
 ("int", ["int", "int"], "return p0 == 3 && p1 != 4 ? ev(1), p0 : (p1 > 7 || p0 < 2) && ((p0 & 1) ? p1 & 2 : p1 & 4);"),
 ("int", ["int", "int"], "int x; if ((x = p0) && (x += p1) && (x -= 3)) return x; return x + 1000;"),
 ("int", ["int", "int"], "int x = 0; (p0 > 0 ? (x = 1) : (x = 2)); x = (p0 < 5 && (x = 7)) ? x : (p1 || (x = 9), x); return x;"),
 ("int", ["int"], "if (p0 > 0 && p0 < 10 && p0 != 5) return 1; if (p0 < -10 || p0 > 100 || !(p0 - 50)) return 2; return 3;"),
 ("_Bool", ["int", "long"], "return p0 && p1;"),
 ("long", ["long", "long"], "while (p0 > 0 ? p1 > 0 : p1 < 0) { ev(p0 & 1); p1 = 0; } return p0 > p1 ? p0 : p1;"),
]


class G:
    """random function body"""
    def __init__(self, seed):
        self.r = random.Random(seed); self.k = 0; self.lab = 0; self.labels = []; self.fuel = 0; self.n = 0

    def evt(self):
        self.k += 1
        return "ev(%d);" % self.k

    def val(self):
        r = self.r
        return r.choice(["a", "b", "c", "d", "x", "y", "x", "y"])

    def cond(self, d=2):
        r = self.r; q = r.random()
        if d == 0 or q < .35:
            v = self.val()
            return r.choice(["%s" % v, "!%s" % v, "%s %s %d" % (v, r.choice(["<", ">", "==", "!=", "<=", ">="]), r.randint(-3, 6)), "(%s & %d)" % (v, 1 << r.randint(0, 4)), "%s %s %s" % (v, r.choice(["<", "==", ">="]), self.val())])
        if q < .5:
            return "(%s) && (%s)" % (self.cond(d - 1), self.cond(d - 1))
        if q < .65:
            return "(%s) || (%s)" % (self.cond(d - 1), self.cond(d - 1))
        if q < .75:
            return "(%s) ? (%s) : (%s)" % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        if q < .83:
            return "(%s, %s)" % (self.evt()[:-1], self.cond(d - 1))
        if q < .9:
            return "!(%s)" % self.cond(d - 1)
        if q < .94:
            return r.choice(["0", "1"])
        if q < .97:
            return "(%s = (%s))" % (r.choice("xy"), self.cond(d - 1))
        return "(%s) %s (%s)" % (self.cond(d - 1), r.choice(["==", "!=", "<", "^", "|", "&"]), self.cond(d - 1))

    def blk(self, d, loop, sw):
        return "{ %s }" % " ".join(self.stmt(d, loop, sw) for _ in range(self.r.randint(1, 3)))

    def stmt(self, d, loop, sw):
        r = self.r; self.n += 1; q = r.random()
        if d == 0 or self.n > 40 or q < .22:
            o = [self.evt(), self.evt(), "%s = %s %s %s;" % (r.choice("xy"), self.val(), r.choice("+-^&|"), r.choice([self.val(), "1", "3"])), "%s%s;" % (r.choice("xy"), r.choice(["++", "--"])), ";"]
            if loop: o += ["break;", "continue;", "if (%s) break;" % self.cond(1), "if (%s) continue;" % self.cond(1)]
            elif sw: o += ["break;"]
            if r.random() < .3: o += ["return %s;" % r.choice(["1", "x", "a + 3"]), "if (%s) return %d;" % (self.cond(1), r.randint(0, 99))]
            if r.random() < .3: o += [self.goto()]
            s = r.choice(o)
            if r.random() < .06: s = self.label() + s
            return s
        s = lambda lp=loop, w=sw: self.blk(d - 1, lp, w) if r.random() < .75 else self.stmt(d - 1, lp, w)
        if q < .45:
            t = s()
            return "if (%s) { %s } else %s" % (self.cond(), t, s()) if r.random() < .6 else "if (%s) %s" % (self.cond(), s() if "if" not in t else "{ %s }" % t)
        if q < .68:
            self.fuel += 1; f = "f%d" % self.fuel; n = r.randint(2, 4)
            c = "(%s++ < %d && (%s))" % (f, n, self.cond(1)) if r.random() < .7 else "%s++ < %d" % (f, n)
            k = r.randint(0, 3)
            if k == 0: return "%s = 0; while (%s) %s" % (f, c, s(True, False))
            if k == 1: return "%s = 0; do %s while (%s);" % (f, self.blk(d - 1, True, False), c)
            if k == 2: return "%s = 0; for (%s; %s; %s) %s" % (f, r.choice(["", "x = 0", "y = a, x = b"]), c, r.choice(["", "x++", "y--, x++", self.evt()[:-1]]), s(True, False))
            return "%s = 0; for (;;) { if (!(%s)) break; %s }" % (f, c, self.stmt(d - 1, True, False))
        if q < .88:
            cs = r.sample([-2147483648, -129, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 100, 127, 128, 255, 256, 65536, 2147483647], r.randint(1, 5)); out = []
            dflt = r.randint(-2, len(cs))
            for i, c in enumerate(cs + [None]):
                if i == dflt: out.append("default: " + " ".join(self.stmt(d - 1, loop, True) for _ in range(r.randint(1, 2))) + (" break;" if r.random() < .6 else ""))
                if c is None: break
                if c == -2147483648: c = "(-2147483647 - 1)"
                out.append("case %s: " % c + (" ".join(self.stmt(d - 1, loop, True) for _ in range(r.randint(1, 2))) if r.random() < .85 else ";") + (" break;" if r.random() < .6 else ""))
            return "switch (%s) { %s }" % (r.choice([self.val(), self.val() + " & 7", "(%s) + %s" % (self.cond(1), self.val()), "(char)%s" % self.val(), "(unsigned char)%s" % self.val()]), " ".join(out))
        if q < .94:
            return self.blk(d - 1, loop, sw)
        return self.label() + s()

    def label(self):
        self.lab += 1; self.labels.append(self.lab)
        return "L%d: " % self.lab

    def goto(self):
        return "if (gf++ < 2) goto @%d@;" % self.r.randint(0, 99)

    def fn(self, name):
        r = self.r
        ts = [r.choice(["int", "int", "long", "unsigned int", "short", "unsigned char", "signed char", "unsigned long", "_Bool"]) for _ in range(4)]
        body = " ".join(self.stmt(r.randint(3, 4), False, False) for _ in range(r.randint(2, 4)))
        self.labels = [int(x) for x in re.findall(r"L(\d+):", body)]
        if not self.labels:
            body += " " + self.label() + ";"
        body = re.sub(r"@(\d+)@", lambda m: "L%d" % self.labels[int(m.group(1)) % len(self.labels)], body)
        loc = "int gf = 0%s; %s x = 0, y = 1;" % ("".join(", f%d = 0" % (i + 1) for i in range(self.fuel)), r.choice(["int", "long", "unsigned int", "short"]))
        return "%s %s(%s) { %s %s return x + y; }" % ("long", name, ", ".join("%s %s" % (t, v) for t, v in zip(ts, "abcd")), loc, body), Fn(name, "long", ts)


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    for o in ["", "-O1", "-fPIC"]:
        for g in range(0, len(HAND), 12):
            if o == "-fPIC" and quick and g: continue
            src, fns = [DECL], []
            for i, (rt, ps, b) in enumerate(HAND[g:g + 12]):
                n = "h%d" % (g + i)
                src.append("%s %s(%s) { %s }" % (rt, n, ", ".join("%s p%d" % (p.replace("*1", "*"), j) for j, p in enumerate(ps)), b))
                fns.append(Fn(n, rt, ps))
            out.append(scenario("hand-%d" % (g // 12), "\n".join(src), fns, opts=o, events=True, query_ms=4000, time=30 if quick else 90))
    n = 40 if quick else 400
    for k in range(n):
        src, fns = [DECL], []
        for i in range(6 if quick else 8):
            s, f = G(seed * 7777777 + k * 100 + i).fn("r%d" % i)
            src.append(s); fns.append(f)
        for o in ([["", "-O1"][k & 1]] if quick else ["", "-O1"]):
            out.append(scenario("rand-%d" % k, "\n".join(src), fns, opts=o, events=True, query_ms=3000, time=25 if quick else 120))
    return out
