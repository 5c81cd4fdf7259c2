"""Layout: sizes, alignments, offsets and bit positions equal the platform ABI's."""
import random
from tv import Fn, scenario
from structgen import SG, PRE, BF
LEVEL = "model_checking"
REQUIRE = ["compiled", "called"]
BOUNDS = {"types": "seeded random structs and unions (nesting <= 3, <= 7 members per level, arrays of up to two dimensions, bit-fields of every integer type and width, unnamed and zero-width fields, anonymous members, enums, pointers, long double, flexible arrays)",
          "contents": "every member is read from two adjacent objects whose bytes are all symbolic: a member at another place or of another width gives another value", "constants": "sizeof, _Alignof and member offsets, folded and stored in static tables", "options": "-O0, -O1, -std=c11"}
ASSUMPTIONS = ["the reference layout is clang 18's for x86_64 Linux", "enumeration members are compared converted to int"]
HAND = [
 "struct H0 { char a; int b : 8; float c; };", "struct H1 { char a; int b : 8; };", "struct H2 { float a; char b[5]; int c : 20; };", "struct H3 { char a; long b : 40; int c : 3; };", "struct H4 { char a; _Bool b : 1; unsigned c : 7; };", "struct H5 { int a : 20; short b : 10; char c : 2; };",
 "struct H6 { short a : 10; int b : 20; char c; };", "struct H7 { long a : 60; int b : 3; char c : 3; };", "struct H8 { int a : 4; int : 0; char b; };", "struct H9 { char a; int : 0; char b; };", "struct HA { char a : 4; char : 0; char b : 4; short : 0; int c : 1; };", "struct HB { long : 0; char a; int : 12; char b; };", "struct HC { char a; int : 25; char b; long : 33; char c; };",
 "union HD { int a : 20; char b; };", "union HE { char a[5]; short b; };", "union HF { long a : 3; long double b; };", "struct HG { long a : 64; int b : 32; char c : 8; };", "struct HH { int n; char f[]; };", "struct HI { char a; long double b; char c; };", "struct HJ { struct { char a; } x[3]; short b; };", "struct HK { _Bool a, b; _Bool c : 1, d : 1; char e; };", "struct HL { char a; struct { int x : 3; char y; } b; int c : 5; };", "struct HM { unsigned a : 1; unsigned long b : 63; };", "struct HN { unsigned a : 31; unsigned long b : 33; int c : 1; };",
]
ANON = ["struct A0 { char a; struct { char b; int c; }; char d; };", "struct A1 { char x; union { char a[5]; int b; }; char c; };", "union A2 { struct { int a : 3; int b : 5; }; char c; };", "struct A3 { short s; struct { char a; union { long b; char c; }; int d : 7; }; int e : 5; };", "struct A4 { union { struct { char a, b; }; struct { short c; int d; }; }; char e; };"]
import re


def members_of(d):
    out = []
    for t, m, dim, w in re.findall(r"(\w[\w ]*?)\s+(\w+)((?:\[\w*\])*)\s*(?::\s*(\d+))?\s*[;,]", d[d.index("{") + 1:]):
        pass
    return out


def reader(tag, mem, fn, table):
    """events for every member of p[0] and p[1]"""
    o = ["ev(sizeof(%s)); ev(sizeof *p); ev((char *)(p + 1) - (char *)p);" % tag]
    for path, kind, t, w in mem:
        if kind == "scalar":
            o.append("ev((long)&((%s *)0)->%s); ev(sizeof p->%s);" % (tag, path, path))
    for i in (0, 1):
        for path, kind, t, w in mem:
            x = "p[%d].%s" % (i, path)
            if t == "float": o.append("ev(*(int *)&%s);" % x)
            elif t == "double": o.append("ev(*(long *)&%s);" % x)
            elif t == "long double": o.append("ev(*(long *)&%s);" % x)
            elif t == "enum EN": o.append("ev((int)%s);" % x)
            elif t == "_Bool" and kind == "scalar": o.append("ev(*(char *)&%s);" % x)
            else: o.append("ev((long)%s);" % x)
    o2 = ["ev(%s[%d]);" % (table, k) for k in range(1 + len([m for m in mem if m[1] == "scalar"]))]
    tab = "unsigned long %s[] = { sizeof(%s)%s };" % (table, tag, "".join(", (unsigned long)&((%s *)0)->%s" % (tag, m[0]) for m in mem if m[1] == "scalar"))
    return "%s\nvoid %s(%s *p) { %s %s }" % (tab, fn, tag, " ".join(o), " ".join(o2))


def parse(d):
    """members of a hand-written flat type, nested one level"""
    kw, tag, body = re.match(r"(\w+) (\w+) \{(.*)\};$", d).groups()
    mem = []
    def items(b, pre):
        i = 0
        while i < len(b):
            m = re.match(r"\s*(struct|union) \{", b[i:])
            if m:
                depth, j = 1, i + m.end()
                while depth:
                    depth += {"{": 1, "}": -1}.get(b[j], 0); j += 1
                inner = b[i + m.end():j - 1]; e = b.index(";", j); decl = b[j:e].strip(); i = e + 1
                if not decl: items(inner, pre)
                else:
                    nm = re.match(r"(\w+)((?:\[\d+\])*)", decl); items(inner, pre + nm.group(1) + re.sub(r"\d+", lambda x: str(int(x.group()) - 1), nm.group(2)) + ".")
                continue
            e = b.index(";", i) if ";" in b[i:] else len(b)
            st = b[i:e].strip(); i = e + 1
            if not st: continue
            m = re.match(r"((?:unsigned |signed )?(?:long double|\w+) ?\*?)\s*(.*)$", st)
            t, ds = m.group(1).strip(), m.group(2)
            if t == "unsigned": t = "unsigned int"
            for dd in ds.split(","):
                x = re.match(r"\s*(\w*)((?:\[\d*\])*)\s*(?::\s*(\d+))?", dd)
                n, dim, w = x.groups()
                if not n: continue
                if w: mem.append((pre + n, "field", t, int(w)))
                elif dim == "[]": mem.append((pre + n + "[1]", "scalar", t, 0))
                else: mem.append((pre + n + re.sub(r"\d+", lambda y: str(int(y.group()) - 1), dim), "scalar", t, 0))
    items(body, "")
    return kw + " " + tag, mem


def scenarios(tier, seed):
    out = []
    quick = tier == "quick"
    def add(name, types, opts, ref=()):
        src, fns, decl = [PRE, "void ev(long);"], [], PRE
        for k, (tag, d, mem) in enumerate(types):
            src.append(d); decl += d + "\n"
            src.append(reader(tag, mem, "r%d" % k, "t%d" % k)); fns.append(Fn("r%d" % k, "void", [tag + " *2"]))
            if "c11" in opts:
                src.append("int al%d(void) { return _Alignof(%s); }" % (k, tag)); fns.append(Fn("al%d" % k, "int", []))
        out.append(scenario(name, "\n".join(src), fns, opts=opts, decls=decl, events=True, query_ms=4000, time=30 if quick else 90))
    for o in ["", "-O1"]:
        for g in range(0, len(HAND), 8):
            add("hand-%d" % (g // 8), [(parse(d)[0], d, parse(d)[1]) for d in HAND[g:g + 8] if "[]" not in d], o)
    add("anon", [(parse(d)[0], d, parse(d)[1]) for d in ANON], "-std=c11")
    n = 60 if quick else 600
    for k in range(n):
        c11 = k % 3 == 2
        types = []
        for i in range(8):
            g = SG(seed * 1000003 + k * 31 + i, fields=[.25, .5, .75, 0][(k + i) % 4], anon=.4 if c11 else 0)
            types.append(g.struct("T%d" % i, 7))
        add("rand-%d" % k, types, "-std=c11" if c11 else ["", "-O1"][k & 1])
    return out
