"""Bit-fields: a store changes exactly the field's bits, a load returns them extended, an assignment has the field's value."""
import random
from tv import Fn, scenario
from structgen import SG, PRE, BF
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"fields": "every declared integer type x widths 1..64 x the positions the ABI gives them in seeded random structs and unions (mixed with ordinary members, nested structs, arrays and unnamed fields), plus hand-written dense layouts",
          "contents": "all prior bytes of the object, and the stored values, symbolic; every byte of the object (padding included) is compared afterwards",
          "uses": "plain, compound, chained and conditional assignment, ++ and -- in both positions, as condition, switch operand, argument, operand of every arithmetic operator, through pointers, locals, statics, array elements, unions and returned structs", "options": "-O0, -O1"}
ASSUMPTIONS = ["layout and semantics reference: clang 18 IR of the same source", "fields of type long are converted to long before arithmetic (the type of a field wider than int is implementation-defined)"]
OPS = ["+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>="]
HAND = [
 ("struct H0", "struct H0 { unsigned int a : 1, b : 2, c : 3, d : 4, e : 5, f : 6, g : 7; };", "abcdefg", "unsigned int", [1, 2, 3, 4, 5, 6, 7]),
 ("struct H1", "struct H1 { int a : 1, b : 2, c : 3, d : 4, e : 5, f : 6, g : 11; };", "abcdefg", "int", [1, 2, 3, 4, 5, 6, 11]),
 ("struct H2", "struct H2 { long a : 1, b : 31, c : 32; char x; long d : 33, e : 31; char y; long f : 64; char z; long g : 63; };", "abcdefg", "long", [1, 31, 32, 33, 31, 64, 63]),
 ("struct H3", "struct H3 { unsigned long a : 3, b : 40, c : 21, d : 57, e : 8, f : 17, g : 47; };", "abcdefg", "unsigned long", [3, 40, 21, 57, 8, 17, 47]),
 ("struct H4", "struct H4 { unsigned char a : 3, b : 5, c : 8, d : 7, e : 1, f : 6, g : 2; };", "abcdefg", "unsigned char", [3, 5, 8, 7, 1, 6, 2]),
 ("struct H5", "struct H5 { short a : 9, b : 7, c : 16, d : 1, e : 15, f : 12, g : 4; };", "abcdefg", "short", [9, 7, 16, 1, 15, 12, 4]),
 ("struct H6", "struct H6 { _Bool a : 1, b : 1; signed char z : 6; _Bool c : 1, d : 1, e, f : 1, g : 1; };", "abcdfg", "_Bool", [1] * 6),
 ("struct H7", "struct H7 { unsigned int a : 32, b : 31, c : 30, d : 29, e : 1, f : 17, g : 15; };", "abcdefg", "unsigned int", [32, 31, 30, 29, 1, 17, 15]),
]


def L(x, t):
    return "(long)(%s)" % x


def ops(r, tag, f, t, w, other):
    """statements over p (struct *), v (long), u (int) for one field path"""
    lg = "long" in t
    x = "p->" + f
    n = L(x, t) if lg else x  # arithmetic operand
    k = r.choice(["3", "-1", "0", "1", "127", "65535", "-32769", "v", "u", "(char)v", "(unsigned)v"])
    o = ["%s = v; ev(%s);" % (x, L(x, t)), "ev(%s);" % L("%s = v" % x, t), "ev(%s);" % L(x, t), "%s = %s; ev(%s = u);" % (x, k, n if not lg else "(%s)" % x)]
    op = r.choice(OPS)
    rhs = {"<<=": "(u & 7)", ">>=": "(u & 7)", "*=": "(v & 255)"}.get(op, k)
    o.append("ev(%s);" % L("%s %s %s" % (x, op, rhs), t))
    op = r.choice(OPS[:6] if t != "_Bool" else ["+=", "|=", "&=", "^="])
    o.append("%s %s %s;" % (x, op, "3" if op == "*=" else k))
    if w < 63:
        o += ["ev(%s);" % L("++" + x, t), "ev(%s);" % L(x + "++", t)] if t == "_Bool" else ["ev(%s);" % L(r.choice(["++", "--"]) + x, t), "ev(%s);" % L(x + r.choice(["++", "--"]), t), x + r.choice(["++;", "--;"])]
    o += ["if (%s) ev(1); else ev(2);" % x, "ev(!%s); ev(%s && u);" % (x, x), "ev(%s ? u : v);" % x, "while (%s) { ev(9); %s = 0; }" % (x, x)]
    if not lg:
        o += ["ev(-%s); ev(~%s);" % (x, x), "ev(%s - 5 < 0); ev(%s > -1);" % (x, x), "ev(%s + %s); ev(%s * 2); ev(%s %s %s);" % (x, x, x, x, r.choice(["==", "<", ">=", "!="]), r.choice(["u", "1", "-1", "0u"])), "ev(%s << 3); ev(%s >> 1);" % (x, x), "ev(%s | %s);" % (x, k),
              "switch (%s) { case 0: ev(10); break; case 1: ev(11); case -1: ev(12); break; default: ev(13); }" % x]
    else:
        o += ["ev(%s + 1); ev(%s < v); ev(%s == 3);" % (n, n, n)]
    # the same operators on a field of a local and of a static object
    q = "q." + f; m = q if not lg else "(long)" + q
    us = ["ev(%s * 10); ev(7 * %s); ev(%s * u); ev(v * %s);" % (m, m, m, m), "ev(%s + 1); ev(3 - %s); ev(u + %s); ev(%s - v);" % (m, m, m, m), "ev(%s < 3); ev(5 >= %s); ev(%s == u); ev(u != %s); ev(%s > v);" % (m, m, m, m, m), "ev(%s ? u : v); ev(!%s); if (%s && u) ev(3);" % (q, q, q),
          "ev(%s & 6); ev(u | %s); ev(%s ^ %s);" % (m, m, m, m), "ev((long)((long double)%s + 0.5L)); ev((long)((double)%s * 2)); ev((long)(float)(%s & 255));" % (q, q, m), "int k = %s; long j = %s; char c = %s; ev(k); ev(j); ev(c);" % (q, q, q), "ev(take(%s)); ev(taken(%s, %s));" % (m, q, m), "long b[2]; b[0] = u; b[1] = v; ev(b[%s & 1]);" % m,
          "%s = %s * 3 + 1; ev(%s);" % (q, m, m), "long k = v; k += %s; ev(k); k *= %s; ev(k); k -= %s; ev(k); k ^= %s; ev(k);" % (m, m, m, m)]
    if w < 31 and t != "_Bool": us += ["ev((u & 63) / (%s | 1)); ev((u & 63) %% (%s | 1)); ev(%s / 3); ev(%s %% 3);" % (m, m, m, m), "ev(u >> (%s & 7)); ev(3 << (%s & 7)); ev(%s >> 1);" % (m, m, m), "if (%s) ev(90 / %s);" % (q, m)]
    us = [r.choice(us), r.choice(us), r.choice(us)]
    o += ["%s q = *p; %s" % (tag, u) for u in us[:2]] + ["static %s q; q = *p; %s" % (tag, us[2])]
    if other:
        y = "p->" + other[0]
        o += ["%s = %s = v; ev(%s);" % (x, y, L(y, other[2])), "%s = %s; ev(%s);" % (x, y, L(x, t)), "u ? (%s = v) : (%s = 1);" % (x, y), "%s = u, %s = v;" % (x, y), "%s ^= %s;" % (x, L(y, other[2])), "ev(%s);" % L("(%s = u, %s)" % (y, x), t)]
    o += ["%s q = *p; q.%s = v; *p = q; ev(%s);" % (tag, f, L("q." + f, t)), "%s q = *p; ev(%s); q.%s = u; ev(%s); *p = q;" % (tag, L("q.%s = v" % f, t), f, L("q." + f, t)), "static %s q; q = *p; q.%s = v; *p = q; ev(%s);" % (tag, f, L("q." + f, t)),
          "%s q[2]; q[1] = q[0] = *p; q[u & 1].%s = v; *p = q[1]; ev(%s);" % (tag, f, L("q[0]." + f, t)), "ev(take(%s)); ev(taken(u, %s));" % (L(x, t), L(x, t)), "%s q; q = mk(p); ev(%s);" % (tag, L("q." + f, t)), "ev(%s);" % L("mk(p)." + f, t), "%s = %s;" % (x, r.choice(["u > 3", "!v", "u ? 5 : -2", "(char)v", "take(v)"])),
          "struct W { char c; %s s; char d; } w; w.c = 1; w.d = 2; w.s = *p; w.s.%s = v; ev(w.c); ev(w.d); *p = w.s;" % (tag, f)]
    if t != "_Bool": o.append("%s = p->%s + 1; ev(%s);" % (x, f, L(x, t)))
    return o


def funcs(r, types, per):
    src, fns = [PRE, "void ev(long);", "static long take(long x) { return x; }\nstatic long taken(int a, long x) { return a ? x : 1; }"], []
    decl = PRE; j = 0
    for tag, d, mem in types:
        decl += d + "\n"; src.append(d)
        fl = [m for m in mem if m[1] == "field"]
        if not fl: continue
        body = []
        for m in r.sample(fl, min(len(fl), 3)):
            oth = [x for x in fl if x[0] != m[0]]
            al = ops(r, tag, m[0], m[2], m[3], r.choice(oth) if oth else None)
            body += r.sample(al, min(per, len(al)))
        src.append("static %s mk%s(%s *p) { return *p; }" % (tag, tag.split()[1], tag))
        body = [b.replace("mk(", "mk%s(" % tag.split()[1]) for b in body]
        for b in body:
            n = "f%d" % j; j += 1
            src.append("void %s(%s *p, long v, int u) { { %s } }" % (n, tag, b)); fns.append(Fn(n, "void", [tag + " *1", "long", "int"]))
    return "\n".join(src), fns, decl


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    def add(name, r, types, per, opts):
        src, fns, decl = funcs(r, types, per)
        if fns: out.append(scenario(name, src, fns, opts=opts, decls=decl, events=True, query_ms=4000, time=30 if quick else 90))
    for o in ["", "-O1"]:
        for i, (tag, d, nm, t, ws) in enumerate(HAND):
            r = random.Random(seed * 77 + i)
            add("hand-%d" % i, r, [(tag, d, [(c, "field", t, w) for c, w in zip(nm, ws)])], 99 if not quick else 16, o)
    for k in range(40 if quick else 500):
        r = random.Random(seed * 555557 + k)
        types = []
        for i in range(3):
            g = SG(seed * 2000003 + k * 31 + i, fields=[.5, .75, .95][(k + i) % 3], ld=0, fp=False)
            types.append(g.struct("T%d" % i, 4))
        add("rand-%d" % k, r, types, 5, ["", "-O1"][k & 1])
    return out
