"""C26: inline assembly. The reference is plain C stating what the instructions do."""
from tv import Fn, scenario

LEVEL = "model_checking"
BOUNDS = {"operands": "every integer type, pointers, float and double, in locals, parameters, globals, statics, members, bit-fields, array elements with run-time index, through pointers, constants and expressions; operand values symbolic at full width",
          "constraints": "r, m, rm, a b c d S D, with = and +, symbolic operand names, clobbers of every integer register, memory, cc, xmm registers",
          "statements": "up to three per function, in loops, switch and VLA functions, asm goto with up to two labels",
          "instructions": "mov add sub and or xor not shl shr sar mul div idiv cdq lea push pop jmp movslq movss/sd addss/sd, register, memory and immediate forms of each width"}
ASSUMPTIONS = ["the C model of each statement states what its instructions do", "operands have the width the instruction names; conditional jumps and setcc are not accepted by lacc in templates and left out"]
REQUIRE = ["called"]
TECHNIQUE = "symbolic execution of the machine code lacc generates for inline assembly against a C model of the instructions compiled by clang, SMT (bit-vectors)"

H = "long ext(long); int exti(int);\n"


def pair(name, lacc_src, ref_src, fns, **kw):
    return scenario(name, lacc_src, fns, ref=ref_src, **kw)


def scenarios(tier, seed):
    out = []
    deep = tier != "quick"

    # 1. every integer type, register and memory operands
    a, r, f = [], [], []
    T = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long"]
    for i, t in enumerate(T):
        for j, (o, n) in enumerate((("=r", "r"), ("=m", "r"), ("=r", "m"), ("=rm", "r"), ("=r", "rm"))):
            nm = "f%d_%d" % (i, j)
            a.append("%s %s(%s x, %s y) { %s z = y; __asm__ (\"mov %%1, %%0\" : \"%s\" (z) : \"%s\" (x)); return z; }" % (t, nm, t, t, t, o, n))
            r.append("%s %s(%s x, %s y) { return x; }" % (t, nm, t, t))
            f.append(Fn(nm, t, [t, t]))
        for j, (o, n) in enumerate((("+r", "r"), ("+m", "r"), ("+r", "m"), ("+rm", "r"))):
            nm = "g%d_%d" % (i, j)
            a.append("%s %s(%s x, %s y) { %s k = 7, z = y; __asm__ (\"add %%1, %%0\" : \"%s\" (z) : \"%s\" (x)); return z ^ k; }" % (t, nm, t, t, t, o, n))
            r.append("%s %s(%s x, %s y) { return (%s) ((unsigned long) y + (unsigned long) x) ^ 7; }" % (t, nm, t, t, t))
            f.append(Fn(nm, t, [t, t]))
        for j, (reg, s) in enumerate((("a", ("al", "ax", "eax", "rax")), ("b", ("bl", "bx", "ebx", "rbx")), ("c", ("cl", "cx", "ecx", "rcx")),
                                      ("d", ("dl", "dx", "edx", "rdx")), ("S", ("sil", "si", "esi", "rsi")), ("D", ("dil", "di", "edi", "rdi")))):
            w = {"c": 0, "s": 1, "i": 2, "u": 2, "l": 3}[t.split()[-1][0]]
            nm = "h%d_%d" % (i, j)
            a.append("%s %s(%s x, %s y, %s v) { __asm__ (\"add %%%%%s, %%%%%s\" : \"+%s\" (y) : \"%s\" (x), \"r\" (v)); return y - v; }"
                     % (t, nm, t, t, t, s[w], ("cl", "cx", "ecx", "rcx")[w] if reg != "c" else ("al", "ax", "eax", "rax")[w], "c" if reg != "c" else "a", reg))
            r.append("%s %s(%s x, %s y, %s v) { return (%s) ((unsigned long) y + (unsigned long) x - (unsigned long) v); }" % (t, nm, t, t, t, t))
            f.append(Fn(nm, t, [t, t, t]))
    out.append(pair("types", "\n".join(a), "\n".join(r), f))

    # 2. output and input operands in every kind of lvalue
    pre = ("struct s { char c; int m; long l; short q[3]; int b1 : 5; unsigned b2 : 11; long b3 : 33; };\n"
           "int gi; static long gl; struct s gs; int ga[4]; int *gp = &ga[1];\n")
    L = [  # name, parameters (C, python), lvalue, type letter, extra return
        ("param", "int x, int y", ["int", "int"], "y", "int", "y"),
        ("global", "int x, int y", ["int", "int"], "gi", "int", "gi"),
        ("glong", "long x, long y", ["long", "long"], "gl", "long", "gl"),
        ("member", "int x, struct s *p", ["int", "struct s*1"], "p->m", "int", "p->m"),
        ("lmem", "long x, struct s *p", ["long", "struct s*1"], "p->l", "long", "p->l"),
        ("sarr", "short x, struct s *p, long i", ["short", "struct s*1", "long"], "p->q[i]", "short", "p->q[i]"),
        ("gmem", "int x, int y", ["int", "int"], "gs.m", "int", "gs.m"),
        ("garr", "int x, long i", ["int", "long"], "ga[i]", "int", "ga[i]"),
        ("gconst", "int x, long i", ["int", "long"], "ga[2]", "int", "ga[2]"),
        ("gptr", "int x, long i", ["int", "long"], "*gp", "int", "*gp"),
        ("deref", "int x, int *p", ["int", "int*2"], "*p", "int", "p[0] + p[1]"),
        ("elem", "char x, char *p, long i", ["char", "char*4", "long"], "p[i]", "char", "p[i]"),
        ("pp", "long x, long *p", ["long", "long*3"], "*(p + 2)", "long", "*p"),
        ("uref", "unsigned x, unsigned *p", ["unsigned", "unsigned*2"], "p[1]", "unsigned", "p[0] + p[1]"),
    ]
    a, r, f = [pre], [pre], []
    for nm, ps, pp, lv, t, ret in L:
        pc = "p2 >= 0 && p2 < 3" if "long i" in ps and len(pp) == 3 else "p1 >= 0 && p1 < 4" if nm == "garr" else None
        G = []
        for j, o in enumerate(("=r", "=m", "=rm", "=a", "=c", "=b", "=D")):
            reg = {"=a": "a", "=c": "c", "=b": "b", "=D": "di"}.get(o)
            w = {"char": 0, "short": 1, "int": 2, "unsigned": 2, "long": 3}[t]
            rn = None if reg is None else "%%" + ((reg + "l", reg + "x" if reg != "di" else "di", "e" + reg + ("x" if reg != "di" else ""), "r" + reg + ("x" if reg != "di" else ""))[w] if reg != "di" else ("dil", "di", "edi", "rdi")[w])
            a.append("%s %s%d(%s) { __asm__ (\"mov %%1, %s\" : \"%s\" (%s) : \"r\" (x)); return %s; }" % (t, nm, j, ps, rn or "%0", o, lv, ret))
            r.append("%s %s%d(%s) { %s = x; return %s; }" % (t, nm, j, ps, lv, ret))
            f.append(Fn("%s%d" % (nm, j), t, pp, pre=pc))
        for j, o in enumerate(("+r", "+m", "+rm")):
            a.append("%s %su%d(%s) { __asm__ (\"add %%1, %%0\\n not %%0\" : \"%s\" (%s) : \"r\" (x) : \"cc\"); return %s; }" % (t, nm, j, ps, o, lv, ret) if o != "+m" and o != "+rm" else
                     "%s %su%d(%s) { __asm__ (\"add %%1, %%0\" : \"%s\" (%s) : \"r\" (x) : \"cc\"); return %s; }" % (t, nm, j, ps, o, lv, ret))
            e = "(unsigned long) %s + (unsigned long) x" % lv
            r.append("%s %su%d(%s) { %s = (%s) %s; return %s; }" % (t, nm, j, ps, lv, t, "~(%s)" % e if o == "+r" else "(%s)" % e, ret))
            f.append(Fn("%su%d" % (nm, j), t, pp, pre=pc))
        for j, o in enumerate(("r", "m", "rm")):
            a.append("%s %si%d(%s) { %s z; __asm__ (\"mov %%1, %%0\" : \"=r\" (z) : \"%s\" (%s)); return z; }" % (t, nm, j, ps, t, o, lv))
            r.append("%s %si%d(%s) { return %s; }" % (t, nm, j, ps, lv))
            f.append(Fn("%si%d" % (nm, j), t, pp, pre=pc))
    decl = "struct s { char c; int m; long l; short q[3]; int b1 : 5; unsigned b2 : 11; long b3 : 33; };"
    out.append(pair("lvalues", "\n".join(a), "\n".join(r), f, decls=decl, fields={"struct s": "bytes"}, globs=[("gi", 4), ("gs", 32), ("ga", 16)]))

    # 3. clobbers, values live across the statement, several statements
    regs = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
    a, r, f = [H], [H], []

    def two(nm, sig, la, rb, params, ret="long", **kw):
        a.append("%s %s(%s) { %s }" % (ret, nm, sig, la)); r.append("%s %s(%s) { %s }" % (ret, nm, sig, rb)); f.append(Fn(nm, ret, params, **kw))

    for k, g in enumerate(regs):
        n32 = {"rax": "eax", "rbx": "ebx", "rcx": "ecx", "rdx": "edx", "rsi": "esi", "rdi": "edi"}.get(g, g + "d")
        two("cl%d" % k, "long x, long y, long v", "long z = x ^ v; __asm__ (\"movq $77, %%%%%s\\n addq %%1, %%0\" : \"+r\" (z) : \"r\" (y) : \"%s\", \"cc\"); return z ^ x ^ v;" % (g, g if k % 2 else "%" + g),
            "long z = x ^ v; z = (unsigned long) z + y; return z ^ x ^ v;", ["long"] * 3)
        two("cn%d" % k, "long x, long y", "__asm__ (\"movq $77, %%%%%s\\n\" : : : \"%s\"); return x - y;" % (g, n32), "return (unsigned long) x - y;", ["long"] * 2)
        two("cm%d" % k, "long x, long y, long *p", "__asm__ (\"movq $77, %%%%%s\\n movq %%1, %%%%%s\\n movq %%%%%s, %%0\" : \"=m\" (p[1]) : \"m\" (*p) : \"%s\"); return x - y;" % (g, g, g, g), "p[1] = *p; return (unsigned long) x - y;", ["long", "long", "long*2"])
    two("all", "long x, long y, int z", "long a = x ^ 5, b = y + 3; __asm__ volatile (\"" + "\\n".join("movq $%d, %%%%%s" % (i, g) for i, g in enumerate(regs) if g[0:2] != "r1" or g in ("r10", "r11")) + "\" : : : \"memory\", \"cc\", " + ", ".join('"%s"' % g for g in regs if g[0:2] != "r1" or g in ("r10", "r11")) + "); return a ^ b ^ z ^ x ^ y;",
        "return (x ^ 5) ^ (long) ((unsigned long) y + 3) ^ z ^ x ^ y;", ["long", "long", "int"])
    two("callee", "long x, long y", "__asm__ (\"movq $1, %%r12\\n movq $2, %%r13\\n movq $3, %%r14\\n movq $4, %%r15\\n movq $5, %%rbx\" : : : \"rbx\", \"r12\", \"r13\", \"r14\", \"r15\"); return x ^ y;", "return x ^ y;", ["long", "long"])
    two("out12", "long x", "long z; __asm__ (\"movq %1, %%r12\\n add %%r12, %%r12\\n mov %%r12, %0\" : \"=r\" (z) : \"r\" (x) : \"r12\"); return z;", "return 2 * (unsigned long) x;", ["long"])
    two("five", "long a, long b, long c, long d, long e", "__asm__ (\"add %1, %0\\n add %2, %0\\n add %3, %0\\n add %4, %0\" : \"+r\" (a) : \"r\" (b), \"r\" (c), \"r\" (d), \"r\" (e)); return a;", "return (unsigned long) a + b + c + d + e;", ["long"] * 5)
    two("two", "long a, long b", "long t; __asm__ (\"mov %1, %0\\n add $3, %0\" : \"=r\" (t) : \"r\" (a)); a = t ^ b; __asm__ (\"mov %1, %0\\n sub %2, %0\" : \"=r\" (t) : \"r\" (a), \"rm\" (b)); __asm__ (\"not %0\" : \"+r\" (t)); return t ^ a;",
        "long t = (unsigned long) a + 3; a = t ^ b; t = (unsigned long) a - b; return ~t ^ a;", ["long"] * 2)
    two("loop", "unsigned long n, long b", "long t = b; while (n) { __asm__ (\"add %1, %0\" : \"+r\" (t) : \"r\" (n)); n >>= 7; } return t;", "long t = b; while (n) { t = (unsigned long) t + n; n >>= 7; } return t;", ["unsigned long", "long"], pre="p0 < 2000000")
    two("calls", "long x, long y", "long t = ext(x), u; __asm__ (\"mov %1, %0\\n add %2, %0\" : \"=r\" (u) : \"r\" (ext(y)), \"r\" (t)); return ext(u) ^ t;", "long t = ext(x), v = ext(y), u = (unsigned long) v + t; return ext(u) ^ t;", ["long", "long"])
    two("expr", "int x, int y", "int u; __asm__ (\"mov %1, %0\\n add %2, %0\" : \"=r\" (u) : \"r\" (x > y ? x : y), \"r\" (x && y)); return u;", "return (unsigned) (x > y ? x : y) + (x && y);", ["int", "int"], "int")
    two("cexp", "long x, long y", "long u; __asm__ (\"mov %1, %0\\n add %2, %0\\n add %%rcx, %0\" : \"=a\" (u) : \"r\" (x + y), \"r\" (x ^ y), \"c\" (x & y)); return u;".replace("%0", "%%rax"), "return (unsigned long) x + y + (x ^ y) + (x & y);", ["long", "long"])
    two("consts", "int x", "int u; __asm__ (\"mov %1, %0\\n add %2, %0\\n add %%ecx, %0\" : \"=r\" (u) : \"r\" (1000), \"r\" (x), \"c\" (77)); return u;", "return (unsigned) x + 1077;", ["int"], "int")
    two("consta", "long x", "long u; __asm__ (\"mov %%rax, %0\\n add %%rdx, %0\\n add %%rbx, %0\" : \"=r\" (u) : \"a\" (0x123456789abL), \"d\" (-2L), \"b\" (x)); return u;", "return (unsigned long) x + 0x123456789abL - 2;", ["long"])
    two("arr", "int x, int *p", "int q[3]; int u; q[0] = x; q[1] = p[1]; q[2] = 9; __asm__ (\"mov 4(%1), %0\\n add 4(%2), %0\\n add (%1), %0\" : \"=r\" (u) : \"r\" (q), \"r\" (p)); return u;", "return (unsigned) p[1] + p[1] + x;", ["int", "int*2"], "int")
    two("index", "int x, unsigned char i, int *p", "int u; __asm__ (\"movq %1, %%rax\\n movq %2, %%rcx\\n movl -4(%%rax,%%rcx,4), %0\\n leaq 8(,%%rcx,8), %%rdx\\n add %%edx, %0\" : \"=r\" (u) : \"r\" (p), \"r\" ((long) i) : \"rax\", \"rcx\", \"rdx\"); return u;",
        "return (unsigned) p[i - 1] + 8 + 8 * i;", ["int", "unsigned char", "int*3"], "int", pre="p1 >= 1 && p1 <= 3")
    two("names", "long one, long two", "long res; __asm__ (\"mov %[a], %[r]\\n sub %[b], %[r]\" : [r] \"=r\" (res) : [a] \"r\" (one), [b] \"m\" (two)); return res;", "return (unsigned long) one - two;", ["long", "long"])
    two("wb", "int x, int *p, int *q", "__asm__ (\"mov %2, %0\\n not %2\\n mov %2, %1\" : \"=r\" (*p), \"=r\" (q[p[1] & 1]), \"+r\" (x)); return x;", "int i = p[1] & 1; int y = x; x = ~x; q[i] = x; *p = y; return x;", ["int", "int*2", "int*2"], "int")
    two("swap", "long x, long y", "__asm__ (\"mov %0, %%rdx\\n mov %1, %0\\n mov %%rdx, %1\" : \"+r\" (x), \"+r\" (y) : : \"rdx\"); return x - 2 * y;", "return (unsigned long) y - 2 * (unsigned long) x;", ["long", "long"])
    two("exout", "long x, long y, long *p", "__asm__ (\"mov %%rax, %%rcx\\n mov %%rdi, %%rax\" : \"=c\" (p[0]), \"+a\" (p[1]) : \"D\" (y)); return x;", "long o = p[1]; p[0] = o; p[1] = y; return x;", ["long", "long", "long*2"])
    two("mem", "int x, int *p", "int t = *p; __asm__ volatile (\"movl %0, (%1)\" : : \"r\" (x), \"r\" (p) : \"memory\"); return t ^ *p;", "int t = *p; *p = x; return t ^ *p;", ["int", "int*2"], "int")
    two("vla", "int n, long x", "long v[n], s; v[0] = x; v[n - 1] = 3; __asm__ (\"mov (%1), %0\" : \"=r\" (s) : \"r\" (v)); return s ^ v[n - 1];", "long v[n], s; v[0] = x; v[n - 1] = 3; s = v[0]; return s ^ v[n - 1];", ["int", "long"], pre="p0 >= 1 && p0 <= 3", conc=(0,))
    two("sw", "int k, long x", "switch (k) { case 1: __asm__ (\"add $5, %0\" : \"+r\" (x)); break; case 2: __asm__ (\"not %0\" : \"+rm\" (x)); default: __asm__ (\"sub $1, %0\" : \"+r\" (x)); } return x;",
        "switch (k) { case 1: return (unsigned long) x + 5; case 2: x = ~x; default: return (unsigned long) x - 1; }", ["int", "long"])
    two("pushpop", "long x, long y", "long t; __asm__ (\"push %1\\n pop %0\" : \"=r\" (t) : \"r\" (x)); return t ^ y;", "return x ^ y;", ["long", "long"])
    out.append(pair("clobber", "\n".join(a), "\n".join(r), f, opts="-std=c99", events=True, externs="long ext(long v) { ev(v); return v + 12345; }"))

    # 4. bit-fields, floating point, pointers behind float operands
    a, r, f = [pre], [pre], []
    for k, (b, t, s) in enumerate((("b1", "int", ""), ("b2", "unsigned", ""), ("b3", "long", ""))):
        two("bf%d" % k, "%s x, struct s *p" % t, "__asm__ (\"mov %%1, %%0\" : \"=r\" (p->%s) : \"r\" (x)); return p->%s;" % (b, b), "p->%s = x; return p->%s;" % (b, b), [t, "struct s*1"], t)
        two("bu%d" % k, "%s x, struct s *p" % t, "__asm__ (\"add %%1, %%0\" : \"+r\" (p->%s) : \"r\" (x)); return p->%s;" % (b, b), "p->%s = (unsigned long) p->%s + x; return p->%s;" % (b, b, b), [t, "struct s*1"], t)
        reg = "%%ecx" if t != "long" else "%%rcx"
        two("be%d" % k, "%s x, struct s *p" % t, "__asm__ (\"mov %%1, %s\" : \"=c\" (p->%s) : \"r\" (x)); return p->%s;" % (reg, b, b), "p->%s = x; return p->%s;" % (b, b), [t, "struct s*1"], t)
        two("bx%d" % k, "%s x, struct s *p" % t, "__asm__ (\"mov %%2, %%%%eax\\n mov %%2, %%%%ecx\\n mov %%2, %%%%edx\" : \"=a\" (p->%s), \"=c\" (p->m) : \"r\" (p->m ^ 3) : \"edx\"); return p->m;" % b,
            "unsigned v = p->m ^ 3; p->%s = v; p->m = v; return p->m;" % b, [t, "struct s*1"], "int")
    for t, mv, ad in (("float", "movss", "addss"), ("double", "movsd", "addsd")):
        two("%s1" % t, "%s x, %s y" % (t, t), "%s z; __asm__ (\"%s %%1, %%%%xmm1\\n %s %%2, %%%%xmm1\\n %s %%%%xmm1, %%0\" : \"=m\" (z) : \"m\" (x), \"m\" (y) : \"xmm1\"); return z;" % (t, mv, ad, mv), "return x + y;", [t, t], t)
        two("%s2" % t, "%s x, %s *p" % (t, t), "__asm__ (\"%s %%0, %%%%xmm9\\n %s %%1, %%%%xmm9\\n %s %%%%xmm9, %%0\" : \"+m\" (*p) : \"m\" (x) : \"xmm9\"); return x;" % (mv, ad, mv), "*p += x; return x;", [t, "%s*2" % t], t)
        two("%s3" % t, "%s *p, %s *q" % (t, t), "__asm__ (\"%s %%1, %%%%xmm0\\n %s %%%%xmm0, %%0\" : \"=m\" (p[1]) : \"m\" (*q)); return *p;" % (mv, mv), "p[1] = *q; return *p;", ["%s*2" % t, "%s*1" % t], t)
        two("%s5" % t, "%s *p, %s x" % (t, t), "__asm__ (\"%s %%1, %%%%xmm0\\n %s %%%%xmm0, (%%0)\" : : \"r\" (p), \"m\" (x) : \"memory\"); return x;" % (mv, mv), "*p = x; return x;", ["%s*2" % t, t], t)
    two("flr", "float x, float y", "float z; __asm__ (\"movss %1, %%xmm0\\n addss %2, %%xmm0\\n movss %%xmm0, %0\" : \"=r\" (z) : \"r\" (x), \"r\" (y)); return z;", "return x + y;", ["float", "float"], "float")
    two("ptr", "int **p, int *q", "__asm__ (\"mov %1, %0\" : \"=r\" (*p) : \"r\" (q)); return **p;", "*p = q; return **p;", ["long*1", "int*1"], "int", init=None) if False else None
    out.append(pair("fields", "\n".join(a), "\n".join(r), f, decls=decl, fields={"struct s": "bytes"}, globs=[("gi", 4), ("gs", 32), ("ga", 16)]))

    # 5. asm goto
    a, r, f = [H], [H], []
    two("jmp", "int x", "__asm__ goto (\"jmp %l1\" : : : : a, b); a: return 1; b: return x;", "return x;", ["int"], "int")
    two("back", "unsigned x", "int n = 0; top: x >>= 1; n++; if (x < 9) return n; __asm__ goto (\"jmp %l[top]\" : : \"r\" (x) : : top); return -n;".replace("%l[top]", "%l1"), "int n = 0; do { x >>= 1; n++; } while (x >= 9); return n;", ["unsigned"], "int", pre="p0 < 300")
    two("body", "int x, int y", "if (x > y) { __asm__ goto (\"jmp %l1\" : : \"m\" (x) : \"memory\" : l2); y = 5; } else { __asm__ goto (\"jmp %l0\" : : : : l1); y = 6; } l1: return y; l2: return -y;",
        "return x > y ? -(unsigned) y : y;", ["int", "int"], "int")
    out.append(pair("goto", "\n".join(a), "\n".join(r), f))

    # 6. every instruction form the assembler accepts, with operands of each width
    a, r, f = [], [], []
    ops = {"add": "a + b", "sub": "a - b", "and": "a & b", "or": "a | b", "xor": "a ^ b", "mov": "b"}
    W = [("b", "unsigned char", "al", "cl"), ("w", "unsigned short", "ax", "cx"), ("l", "unsigned", "eax", "ecx"), ("q", "unsigned long", "rax", "rcx")]
    for op, e in ops.items():
        for sfx, t, ra, rc in W:
            s2 = "" if op in ("and", "or", "xor", "sub") else sfx
            nm = "%s_%s" % (op, sfx)
            two(nm + "rr", "%s a, %s b" % (t, t), "__asm__ (\"%s %%1, %%0\" : \"+r\" (a) : \"r\" (b)); return a;" % (op + s2), "return %s;" % e, [t, t], t)
            two(nm + "mr", "%s a, %s b" % (t, t), "__asm__ (\"%s %%1, %%0\" : \"+r\" (a) : \"m\" (b)); return a;" % (op + s2), "return %s;" % e, [t, t], t)
            two(nm + "rm", "%s a, %s b" % (t, t), "__asm__ (\"%s %%1, %%0\" : \"+m\" (a) : \"r\" (b)); return a;" % (op + s2), "return %s;" % e, [t, t], t)
            for k, imm in enumerate((1, 100, 127, 128, 200, 255, 256, 1000, 40000, 65535, 70000, 2000000000, 2147483647)):
                if imm >= {"b": 256, "w": 65536}.get(sfx, 1 << 31):
                    continue
                ee = e.replace("b", "((%s) %dUL)" % (t, imm))
                two(nm + "ir%d" % k, "%s a" % t, "__asm__ (\"%s $%d, %%0\" : \"+r\" (a)); return a;" % (op + s2, imm), "return %s;" % ee, [t], t)
                two(nm + "ia%d" % k, "%s a" % t, "__asm__ (\"%s $%d, %%%%%s\" : \"+a\" (a)); return a;" % (op + s2, imm, ra), "return %s;" % ee, [t], t)
                two(nm + "im%d" % k, "%s a" % t, "__asm__ (\"%s $%d, %%0\" : \"+m\" (a)); return a;" % (op + s2, imm), "return %s;" % ee, [t], t)
    for sfx, t, ra, rc in W:
        n = {"b": 8, "w": 16, "l": 32, "q": 64}[sfx]
        st = {"b": "signed char", "w": "short", "l": "int", "q": "long"}[sfx]
        two("not" + sfx, "%s a" % t, "__asm__ (\"not %0\" : \"+r\" (a)); return a;", "return ~a;", [t], t)
        two("notm" + sfx, "%s a" % t, "__asm__ (\"not %0\" : \"+m\" (a)); return a;", "return ~a;", [t], t)
        for op, ty in (("shl", t), ("shr", t), ("sar", st)):
            cop = "<<" if op == "shl" else ">>"
            for k in (1, 3, n - 1):
                two("%s%s%d" % (op, sfx, k), "%s a" % ty, "__asm__ (\"%s $%d, %%0\" : \"+r\" (a)); return a;" % (op, k), "return a %s %d;" % (cop, k) if op != "shl" else "return (%s) ((unsigned long) a << %d);" % (t, k), [ty], ty)
            two("%s%sc" % (op, sfx), "%s a, unsigned char c" % ty, "__asm__ (\"%s %%%%cl, %%0\" : \"+r\" (a) : \"c\" (c)); return a;" % op, "return a %s c;" % cop if op != "shl" else "return (%s) ((unsigned long) a << c);" % t, [ty, "unsigned char"], ty, pre="p1 < %d" % n)
        if sfx in "lq":
            w2 = "unsigned long" if sfx == "l" else "unsigned __int128"
            two("mul" + sfx, "%s a, %s b, %s *h" % (t, t, t), "%s lo, hi; __asm__ (\"mul %%3\" : \"=a\" (lo), \"=d\" (hi) : \"a\" (a), \"r\" (b)); *h = hi; return lo;" % t, "%s p = (%s) a * b; *h = p >> %d; return p;" % (w2, w2, n), [t, t, t + "*1"], t)
            if sfx == "l":
                two("div" + sfx, "%s a, %s b, %s *h" % (t, t, t), "%s q, m; __asm__ (\"div %%3\" : \"=a\" (q), \"=d\" (m) : \"a\" (a), \"r\" (b), \"d\" (0)); *h = m; return q;" % t, "*h = a %% b; return a / b;".replace("%%", "%"), [t, t, t + "*1"], t, pre="p1 != 0")
                two("idiv" + sfx, "int a, int b, int *h", "int q, m; __asm__ (\"cdq\\n idiv %3\" : \"=a\" (q), \"=d\" (m) : \"a\" (a), \"r\" (b)); *h = m; return q;", "*h = a % b; return a / b;", ["int", "int", "int*1"], "int", pre="p1 != 0 && !(p1 == -1 && p0 == -2147483647 - 1)")
    for src, dst, mn in (("int", "long", "movslq"),):
        for k, c in enumerate(("r", "m")):
            two("x%s%d" % (mn, k), "%s a" % src, "%s z; __asm__ (\"%s %%1, %%0\" : \"=r\" (z) : \"%s\" (a)); return z;" % (dst, mn, c), "return a;", [src], dst)
    for k in range(0, len(f), 60):
        out.append(pair("insns%d" % (k // 60), "\n".join(a[k:k + 60]), "\n".join(r[k:k + 60]), f[k:k + 60]))
    return out
