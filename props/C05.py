"""Macro expansion: -E output against a reference preprocessor, on source text with symbolic bytes."""
from sxlib import Scenario
from tv import cstr

LEVEL = "model_checking"
BOUNDS = {"source": "35 sets of macro definitions and invocations, each with 2 to 5 symbolic bytes (names, parameters, parentheses, commas, #, white space, quotes, operators, digits, new-lines) in definitions, argument lists and following text; every combination is explored; thorough adds generated sets with 4 symbolic bytes",
          "compared": "the -E output, tokenized by maximal munch, with the token sequence of a reference preprocessor running on the same symbolic text (lib/refpp.h); exit status; redefinitions",
          "size": "at most 160 tokens and 24 macros"}
ASSUMPTIONS = ["texts with behaviour that is undefined or unspecified (order of # and ##, nested or not, directives inside arguments, invalid pastes and string literals) are left out",
               "constraint violations in definitions are only checked for redefinitions", "the GNU comma extension, digraphs, trigraphs, multi-character constants are left out", "__LINE__ and __FILE__ are covered by C21"]
REQUIRE = ["compared"]

DRV = r'''#include "drv.h"
u64 strlen(const char *);
#include "refpp.h"
static char src[3000]; static PT want[2 * RP_MAX], got[2 * RP_MAX];
static const char *const tmpl[] = { %(tmpl)s };
static const char *const alpha[] = { %(alpha)s };
static int pick(const char *a, int eq) { int c, ok = 0; const char *p; c = sx_var(8, "byte"); for (p = a; *p; p++) ok |= c == (u8)*p; sx_assume(ok); return c; }
void harness(void) {
  int k = sx_choose(%(n)d, "template"), i, n, nw, ng, rc; u64 len; char *d; const char *p = tmpl[k];
  for (n = 0; *p; p++) { if (*p == '\1') { p++; src[n++] = pick(alpha[*p - '0'], 0); } else src[n++] = *p; }
  src[n] = 0;
  d_put("p.c", src);
  nw = p_run(src, want);
  rc = d_lacc("%(opts)s -E -o out.i p.c");
  if (rc >= 1000) d_fail("the preprocessor did not terminate normally");
  sx_cover("ran");
  if (rp_bad == 2 && %(reject)d) { sx_assert(rc == 1, "an invalid macro redefinition was accepted"); return; }
  if (rp_bad) { sx_cover("excluded"); return; }
  if (rc) d_fail("a valid macro definition or invocation was rejected");
  d = vf_data("out.i", &len);
  if (!d) d_fail("no output");
  { int sv = pn; rp_bad = 0; ng = p_lex(d, d + len, got); if (rp_bad) d_fail("output cannot be tokenized"); }
  sx_assert(ng == nw, "number of tokens in the expansion");
  for (i = 0; i < nw; i++) sx_assert(p_same(got[i], want[i]), "token in the expansion");
  sx_cover("compared");
}
'''
AL = {"a": "fgxy(),1 #", }


def scn(name, tmpls, alphas, opts="-std=c99", reject=0, **kw):
    """\1d in a template is a symbolic byte of alphabet d"""
    return Scenario(name, DRV % {"reject": reject, "tmpl": ", ".join(cstr(t) for t in tmpls), "alpha": ", ".join('"' + a.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"' for a in alphas), "n": len(tmpls), "opts": opts}, **kw)


def T(s, subst="?"):
    """?0..?9 -> symbolic byte of that alphabet"""
    return s.replace("?", "\1")


def groups():
    G = []
    add = lambda name, alphas, *t, **kw: G.append((name, [T(x) for x in t], alphas, kw))
    add("function", ["fgxy(),1 #", "fgxy1 +"], "#define g(y) <y>\n#define f(x) ?0?0?0\nf(?1) g(1) ?1\n")
    add("object", ["ab +1(", "ab1"], "#define a ?0?0\n#define b ?0?0\na b\n", "#define a ?0b?0\n#define b a?0\n?1 b a?1\n")
    add("mutual", ["fg(1)", "fg1"], "#define f(x) x g ?0\n#define g(y) f ?0 y\nf(g)(?0)(1) ?0(2)\n", "#define f(x) ?0 x\n#define g(y) f(y?0)\n#define h f(?1) g\nh(?1)(2)\n")
    add("paste", ["ab1+ ", "ab,1"], "#define c(x,y) x##y\n#define xc(x,y) c(x,y)\n#define ab ?0?0\n#define a ?0\nxc(?1,?1) c(?1,b)\n", "#define ab ?0\n#define a ?0\n#define p(x) a##x x##b ?0##x##?0\np(?1) p(b)\n")
    add("paste-number", ["1e.+-x_"], "#define c(x,y) x##y\n#define x a\nc(?0?0,?0) c(?0,?0)\n")
    add("paste-punct1", ["+-<>=&|!.#^*"], "#define c(x,y) x##y\nc(?0,?0) c(?0,=)\n")
    add("paste-punct2", ["+-<>=&|.#"], "#define c(x,y) x##y\nc(=?0,?0=)\n", "#define c(x,y) x##y\nc(<?0,?0) c(.,?0) c(1,?0)\n")
    add("stringify", ["xab +", "ab\" \\"], "#define s(x) #x\n#define xs(x) s(x)\n#define m(x) ?0x?0\n#define a 1?0\nxs(m(?1) ?1) s(?1 m(1))\n")
    add("stringify-text", ["\"\\'a \tn(,)"], "#define s(x) #x\ns(?0?0?0) s(a?0b)\n", "#define s(x,y) #y#x\ns(?0 ,\"?0\") s( a  b?0, '\\?0')\n")
    add("variadic", [",fx ()", ",x1 #", "x1,()"], "#define f(x,y) y x\n#define v(x,...) ?0 __VA_ARGS__ ?0\nv(?2,?2,?2)\n", "#define f(x,y) [y x]\n#define w(...) f(__VA_ARGS__)\nw(?2?2?2,?2)\n", "#define s(...) #__VA_ARGS__ <__VA_ARGS__>\ns(?2 ,?2?2) s()\n")
    add("lines", ["\n fx,()", "\n "], "#define f(x) [x]\n#define g f\nf?1(?0?0?0?1)?1 1\n", "#define f(x,y) y+x\n#define g f\ng?1(?0?0\n,?0\n)?1(1)\n")
    add("redefine", ["xy1 +(", "x "], "#define a ?0?0\n#define a ?0?0\na\n", "#define f(x) x?0?1\n#define f(x) x?0?1\nf(1)\n", "#define f(?0) x?0\n#define f(x) x?0\nf(1)\n", "#define a?0x) ?0\n#define a?0x) ?0\na(2)\n", reject=1)
    add("undef", ["fgx1 ("], "#define f(x) ?0x\n#undef f\nf(1) g\n#define f ?0?0\n#define g f ?0\n#undef ?0\nf(1) g(f)\n")
    add("arguments", ["x,()1", "x1 (),"], "#define f(x,y,z) [x|y|z]\nf(?0,?0?0,) f(,,)\n", "#define f(x,y) y(x)\n#define g(x) f x\nf((?0,?1),(?1)) g((?1,?0)) \n", "#define e\n#define f(x) <x>\n#define g() 1\nf(?1)f(e?1)g(?1)f(g?1)f(f)(?1)\n")
    add("separate", ["+->=&.1e#/\"", "+-<=|.1a/*"], "#define p(x) ?1x\n#define e\n#define q(x)x e x\n?1p(?0)q(?1)\n", "#define e\n#define d .\n#define n 1\nn?0 a?0e?0 d?0\n", "#define e\n#define w(x) x\nw(?0)w(?0)1e?0\n")
    add("blue", ["fgx(1)", "fg"], "#define f(x) x(?0\n#define g f ?0\n#define h g)\nf(?1)1) h 2)\n", "#define x (x?0)\n#define f(y) y x ?1\nf(f(?0)x)(?1)\n", "#define NIL(x) x\n#define f(x) NIL(?1)(x ?0)\n#define g(x) NIL(?1 NIL(f)(?0))\nf(1) g(2)\n")
    add("builtin", ["Lab", "1a "], "#define L __STDC__\n#define a(x) x L\n#define b __STDC__\n#define s(x) #x\n#define xs(x) s(x)\nxs(__STDC__) s(b) a(?0) ?0\n", "#define __a?1 ?1\n__a __a1 __STDC_VERSION__ __STDC__\n".replace("__STDC_VERSION__", "b"))
    return G


def generated(seed, n):
    import random
    R = random.Random(seed)
    out = []
    for k in range(n):
        ps = {nm: R.choice(["", "", "(x)", "(x)", "(x,y)", "()", "(x,...)"]) for nm in "fgh"}
        body = lambda p: "".join(R.choice(["x", "x", "f", "g", "h", "(x)", "#x" if "x" in p else "y", "##", "1", "+", " ", "(", ")", ",", "__VA_ARGS__" if "..." in p else "y"]) for _ in range(R.randrange(1, 6))).strip("#")
        t = "".join("#define %s%s %s%s\n" % (nm, ps[nm], body(ps[nm]), R.choice(["?0", ""])) for nm in "fgh")
        call = {nm: {"": nm, "()": nm + "()", "(x)": nm + "(?1)", "(x,y)": nm + "(?1,1)", "(x,...)": nm + "(1,?1)"}[ps[nm]] for nm in "fgh"}
        order = list("fgh"); R.shuffle(order)
        t += " ".join(call[o] for o in order) + R.choice(["(f)", "(1)(2)", ")", ""]) + "\n"
        while t.count("?") > 5:
            t = t.replace("?1", R.choice("fgx1"), 1) if "?1" in t else t.replace("?0", R.choice("fgx1"), 1)
        out.append(scn("generated%d" % k, [T(t)], ["fghx(),1# ", "fgh1()"], time=300))
    return out


def scenarios(tier, seed):
    if tier == "thorough":
        return scenarios("quick", seed) + generated(seed, 120)
    return [scn(n if len(ts) == 1 else "%s-%d" % (n, i + 1), [t], a, **kw) for n, ts, a, kw in groups() for i, t in enumerate(ts)]
