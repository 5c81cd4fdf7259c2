"""Seeded generator of struct and union types."""
import random
SC = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "long double", "char *", "_Bool", "enum EN"]
BF = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "signed int": 32, "long": 64, "unsigned long": 64, "_Bool": 1}
PRE = "enum EN { ENA = -1, ENB = 5 };\n"


class SG:
    """members: list of (access path, kind, type): kind scalar | field"""

    def __init__(self, seed, fields=.3, nested=.25, anon=0.0, ld=.04, fp=True):
        self.r = random.Random(seed); self.k = 0; self.n = 0
        self.fields, self.nested, self.anon, self.ld, self.fp = fields, nested, anon, ld, fp

    def name(self):
        self.k += 1
        return "m%d" % self.k

    def body(self, d, union=False, maxm=7, top=True):
        r = self.r; out = []; mem = []
        n = r.randint(1, maxm)
        for i in range(n):
            q = r.random()
            if q < self.fields:
                for _ in range(r.randint(1, 4)):
                    t = r.choice(list(BF)); w = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, r.randint(1, 64)])
                    w = min(w, BF[t])
                    x = r.random()
                    if x < .08: out.append("%s : 0;" % r.choice([t for t in BF]))
                    elif x < .16: out.append("%s : %d;" % (t, w))
                    else:
                        m = self.name(); out.append("%s %s : %d;" % (t, m, w)); mem.append((m, "field", t, w))
            elif q < self.fields + self.nested and d:
                u = r.random() < .35
                anon = r.random() < self.anon
                b, mm = self.body(d - 1, u, 4, False)
                if anon:
                    out.append("%s { %s };" % ("union" if u else "struct", b)); mem += mm
                else:
                    m = self.name()
                    dim = r.choice(["", "", "[2]", "[3]"])
                    out.append("%s { %s } %s%s;" % ("union" if u else "struct", b, m, dim))
                    ix = "" if not dim else "[%d]" % r.randrange(int(dim[1]))
                    mem += [(m + ix + "." + p[0],) + p[1:] for p in mm]
            else:
                t = r.choice(SC)
                if t == "long double" and r.random() > self.ld * 10: t = "int"
                if not self.fp and t in ("float", "double", "long double"): t = "int"
                m = self.name(); dim = r.choice(["", "", "", "[3]", "[2][2]", "[5]"])
                out.append("%s %s%s;" % (t, m, dim))
                ix = "" if not dim else {"[3]": "[2]", "[2][2]": "[1][0]", "[5]": "[4]"}[dim]
                mem.append((m + ix, "scalar", t, 0))
        if not any(True for m in mem):
            m = self.name(); out.append("int %s;" % m); mem.append((m, "scalar", "int", 0))
        return " ".join(out), mem

    def struct(self, tag, maxm=7, union=None):
        u = self.r.random() < .15 if union is None else union
        b, mem = self.body(2, u, maxm)
        kw = "union" if u else "struct"
        return "%s %s" % (kw, tag), "%s %s { %s };" % (kw, tag, b), mem
