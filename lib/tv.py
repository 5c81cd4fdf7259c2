"""Translation validation scenarios: the same C source compiled by lacc (machine code) and
by clang (unoptimised IR) is executed on the same symbolic inputs."""
import re
from sxlib import Scenario

BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "_Bool": 1, "float": 32, "double": 64, "long double": 80, "long long": 64, "unsigned long long": 64}


def cstr(s):
    out = []
    for line in s.split("\n"):
        out.append('"' + line.replace("\\", "\\\\").replace('"', '\\"').replace("?", "\\?") + '\\n"')
    return "\n".join(out)


class Fn:
    """ret/params: C types; 'T*n' is a pointer to a private buffer of n symbolic T.
    pre: C condition over p0.. assumed. cmp: {type: [member,...]} is taken from the scenario."""

    def __init__(self, name, ret, params, pre=None, vararg_fixed=None, init=None, check=None, globs=(), conc=()):
        self.name, self.ret, self.params, self.pre, self.vararg_fixed, self.init, self.check, self.globs, self.conc = name, ret, params, pre, vararg_fixed, init, check, globs, conc


def is_struct(t):
    return t.startswith("struct ") or t.startswith("union ")


def in_scalar(t, lhs, nm):
    if t == "float":
        return "{ u32 v = (u32)IN(32, \"%s\"); memcpy(&%s, &v, 4); }" % (nm, lhs)
    if t == "double":
        return "{ u64 v = IN(64, \"%s\"); memcpy(&%s, &v, 8); }" % (nm, lhs)
    if t == "long double":  # value of a double, widened: the 80-bit formats that are not valid numbers are left out
        return "{ u64 v = IN(64, \"%s\"); double d; memcpy(&d, &v, 8); %s = d; }" % (nm, lhs)
    if is_struct(t):
        return "sx_make_symbolic(&%s, sizeof(%s), \"%s\");" % (lhs, t, nm)
    if t == "_Bool":
        return "%s = (_Bool)IN(1, \"%s\");" % (lhs, nm)
    return "%s = (%s)IN(%d, \"%s\");" % (lhs, t, 64 if t.endswith("*") else BITS[t], nm)


def cmp_val(t, a, b, msg, fields):
    if t == "void":
        return ""
    if t == "float":
        return "{ u32 x, y; memcpy(&x, &%s, 4); memcpy(&y, &%s, 4); sx_assert(d_feq32(x, y), \"%s\"); }" % (a, b, msg)
    if t == "double":
        return "{ u64 x, y; memcpy(&x, &%s, 8); memcpy(&y, &%s, 8); sx_assert(d_feq64(x, y), \"%s\"); }" % (a, b, msg)
    if t == "long double":
        return "sx_assert(d_feqld(&%s, &%s), \"%s\");" % (a, b, msg)
    if is_struct(t):
        if fields.get(t) == "bytes" or t not in fields:
            return "d_eqmem(&%s, &%s, sizeof(%s), \"%s\");" % (a, b, t, msg)
        return " ".join(cmp_val(ft, "(%s).%s" % (a, f), "(%s).%s" % (b, f), msg, fields) for f, ft in fields[t])
    return "sx_assert(%s == %s, \"%s\");" % (a, b, msg)


def driver(src, fns, decls="", fields=None, globs=(), events=False, externs="", choose=True, helpers="", post="", files=None):
    fields = fields or {}
    o = ['#include "drv.h"', "void *memcpy(void *, const void *, u64); void *memset(void *, int, u64);", decls, helpers, externs, "static const char src[] =\n" + cstr(src) + ";"]
    for i, f in enumerate(fns):
        ps, body, call, cmps, mem = [], [], [], [], []
        for k, p in enumerate(f.params):
            m = re.match(r"(.*)\*(\d+)$", p)
            if m:
                t, n = m.group(1).strip(), int(m.group(2))
                mem.append("%s b%d[%d];" % (t, k, n))
                ps.append(t + " *")
                call.append("a->b%d" % k)
                if t == "long double":
                    body.append("{ int k; for (k = 0; k < %d; k++) { %s } }" % (n, in_scalar(t, "A.b%d[k]" % k, "b%d" % k)))
                elif t == "_Bool":
                    body.append("{ int k; for (k = 0; k < %d; k++) A.b%d[k] = (_Bool)IN(1, \"b%d\"); }" % (n, k, k))
                else:
                    body.append("sx_make_symbolic(A.b%d, sizeof A.b%d, \"b%d\");" % (k, k, k))
                if is_struct(t) and t in fields and fields[t] != "bytes" or t in ("float", "double", "long double"):
                    cmps.append("{ int k; for (k = 0; k < %d; k++) { %s } }" % (n, cmp_val(t, "A.b%d[k]" % k, "B.b%d[k]" % k, "%s: memory behind argument %d differs" % (f.name, k), fields)))
                else:
                    cmps.append("d_eqmem(A.b%d, B.b%d, sizeof A.b%d, \"%s: memory behind argument %d differs\");" % (k, k, k, f.name, k))
            else:
                mem.append("%s p%d;" % (p, k))
                ps.append(p)
                call.append("a->p%d" % k)
                body.append(in_scalar(p, "A.p%d" % k, "p%d" % k))
        sig = ", ".join(ps) if f.vararg_fixed is None else ", ".join(ps[:f.vararg_fixed] + ["..."])
        o.append("struct a%d { void *fn; %s %s };" % (i, " ".join(mem), "" if f.ret == "void" else f.ret + " ret;"))
        c = "((%s (*)(%s))a->fn)(%s)" % (f.ret, sig or "void", ", ".join(call))
        o.append("static int c%d(struct a%d *a) { %s; return 0; }" % (i, i, c if f.ret == "void" else "a->ret = " + c))
        o.append("static void t%d(void) {\n static struct a%d A, B;" % (i, i))
        G = list(globs) + list(f.globs)
        for g, n in G:
            o.append(" char *gl_%s = L(\"%s\"), *gr_%s = R(\"%s\");" % (g, g, g, g))
        o += [" " + b for b in body]
        if f.init:
            o.append(" " + f.init)
        if f.pre:
            pre = re.sub(r"\bp(\d+)\b", r"A.p\1", f.pre)
            pre = re.sub(r"\bb(\d+)\b", r"A.b\1", pre)
            o.append(" sx_assume(%s);" % pre)
        for k in f.conc:
            o.append(" A.p%d = sx_concretize(A.p%d);" % (k, k))
        for g, n in G:
            if isinstance(n, int):
                o.append(" sx_make_symbolic(gl_%s, %d, \"g_%s\"); memcpy(gr_%s, gl_%s, %d);" % (g, n, g, g, g, n))
        o.append(" memcpy(&B, &A, sizeof A); d_ev_reset();")
        o.append(" B.fn = R(\"%s\"); d_callR(c%d, &B); A.fn = L(\"%s\"); d_callL(c%d, &A);" % (f.name, i, f.name, i))
        o.append(" sx_cover(\"called\");")
        if f.ret != "void":
            o.append(" " + cmp_val(f.ret, "A.ret", "B.ret", f.name + ": returned value differs", fields))
        o += [" " + c for c in cmps]
        for g, n in G:
            if isinstance(n, str):
                o.append(" " + cmp_val(n, "*(%s *)gl_%s" % (n, g), "*(%s *)gr_%s" % (n, g), "%s: object %s differs" % (f.name, g), fields))
            else:
                o.append(" d_eqmem(gl_%s, gr_%s, %d, \"%s: global %s differs\");" % (g, g, n, f.name, g))
        if f.check:
            o.append(" " + f.check)
        if events:
            o.append(" d_ev_check(\"%s: observable events differ\");" % f.name)
        o.append("}")
    put = "".join(" d_put(\"%s\", %s);\n" % (n, cstr(t)) for n, t in (files or {}).items())
    o.append("void harness(void) {\n%s d_compile(src);" % put)
    o.append(" switch (sx_choose(%d, \"fn\")) {" % len(fns))
    for i in range(len(fns)):
        o.append(" case %d: t%d(); break;" % (i, i))
    o.append(" }\n %s}" % post)
    return "\n".join(o)


def scenario(name, src, fns, ref=None, **kw):
    dk = {k: kw.pop(k) for k in ("decls", "fields", "globs", "events", "externs", "helpers", "post", "files") if k in kw}
    return Scenario(name, driver(src, fns, **dk), ref=src if ref is None else ref, **kw)


def repo_header(name):
    import os
    from sxlib import REPO
    return open(os.path.join(REPO, "lib/lacc/include", name)).read()
