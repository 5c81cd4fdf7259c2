"""Families of small programs for C18: a template with slots, each slot a list of alternatives."""

HEAD = """struct S { int a; const int k; int b : 3; int r[2]; } s, *ps;
struct T { int a; } t; union U { int i; double d; } u; struct I *pi; enum E { A } e;
int i; const int ci = 1; char c; unsigned char uc; long l; _Bool b; float f; double d; long double ld;
int *p; const int *pc; char *pch; void *pv; const void *pcv; int **pp; int (*pa)[3]; int a3[3]; int (*pf)(int); void (*pfv)(void);
int fn(int); void vf(void); struct S fs(void); extern int ia[]; const struct T ct = {1}; int va(int, ...); int old();
"""

EXPR = "i|ci|c|l|b|f|ld|p|pc|pch|pv|pcv|pp|pa|a3|pf|fn|s|t|ct|u|e|ps|pi|*pi|0|1|2.5|(void *)0|\"x\"|vf()|s.b|s.k|s.r|fs().a|*pv|ia|A".split("|")
OPERAND = [x for x in EXPR if x not in ("ci", "c", "l", "pcv", "e", "s.k", "fs().a", "1", "A", "u")]
BINARY = "*|/|%|+|-|<<|>>|<|>=|==|!=|&|^|\\||&&|\\|\\||,".replace("\\|", "\0").split("|")
BINARY = [x.replace("\0", "|") for x in BINARY]
COMPOUND = "*= /= %= += -= <<= >>= &= ^= |=".split()
TYPES = ["int", "char", "_Bool", "double", "long double", "int *", "const int *", "void *", "const void *", "char *", "int **", "struct S", "struct T", "struct T *", "struct I", "struct I *", "union U", "enum E", "void", "int (*)(int)", "void (*)(void)", "int (*)[3]", "int [3]", "int (int)", "const int", "const struct T", "int []", "int * restrict"]


def named(t, n):
    for a in ("(*)", "[", "(int)"):
        if a in t:
            if a == "(*)":
                return t.replace("(*)", "(*%s)" % n)
            return t.replace(a, n + a, 1)
    return t + " " + n


# group: (text before, list of slot lists, text after); one program is before + concatenation of one alternative per slot + after
G = {}


def stmt(name, *slots, **k):
    """one statement in a function body"""
    G[name] = dict(head=HEAD, pre=k.get("pre", "int x(void) { "), slots=slots, post=k.get("post", " return 0; }\n"), std=k.get("std", "c99"), line=True, ren=k.get("ren", "x("))


def decl(name, *slots, **k):
    G[name] = dict(head=k.get("head", ""), pre="", slots=slots, post=k.get("post", "\n"), std=k.get("std", "c99"), line=k.get("line", False), ren=None)


def sp(xs, a="", b=""):
    return [a + x + b for x in xs]


# expressions
stmt("binary", OPERAND, sp(BINARY, " ", " "), sp(OPERAND, "", ";"))
stmt("compound", EXPR, sp(COMPOUND, " ", " "), sp(["i", "b", "d", "p", "pv", "a3", "s", "fn", "0", "2.5", "vf()", "s.b", "pi"], "", ";"))
stmt("assign", EXPR, [" = "], sp(EXPR, "", ";"))
stmt("init", sp([named(t, "o") for t in TYPES]), [" = "], sp(EXPR, "", ";"))
stmt("argument", sp([named(t, "o") for t in TYPES], "extern void g(", "); g("), sp(EXPR, "", ");"))
stmt("braces", sp([named(t, "o") for t in TYPES] + ["int o[2][2]", "char o[4]", "struct S o[2]"]), [" = "], sp(["{ 0 }", "{ 1, 2 }", "{ 1, 2, 3, 4 }", "{ { 1 }, { 2 } }", "{ .a = 1 }", "{ [1] = 1 }", "{ .z = 1 }", "{ [9] = 1 }", "{ s }", "{ \"ab\" }", "\"abcdef\"", "{ .r = { 1 }, 2 }", "{ [-1] = 1 }", "{ .r[1] = 1 }"], "", ";"))
stmt("unary", ["-", "+", "~", "!", "*", "&", "++", "--", "sizeof ", "(void) ", "* &", "& *", "-*", "(int) -"], sp(EXPR, "", ";"))
stmt("postfix", EXPR, ["++;", "--;", "[0];", "[i];", "[p];", "[2.5];", "[s];", ".a;", ".z;", ".b;", "->a;", "->z;", "->b;", "();", "(1);", "(1, 2);", "(s);", "(p);", "(vf());", "[0][0];", "(1)(1);", "(1).a;"])
stmt("lvalue", ["i++", "-i", "(i)", "i + 1", "(int) i", "(i, i)", "i ? i : i", "*p", "p[1]", "fs().a", "fs()", "&i", "\"a\"[0]", "(int[]){ 1 }[0]", "(struct T){ 1 }", "(struct T){ 1 }.a", "s.r[0]", "ps->k", "*&i", "&*p", "a3[1]", "fn(1)", "sizeof i", "i = i", "A", "1", "'a'", "ct.a", "x", "i++ + i", "!i", "(*pf)", "*a3", "*pc", "pc[0]", "s.b"], [" = 1;", "++;", " += 2;", " = s;", "[0];"])
stmt("address", ["&"], sp(["i++", "-i", "(i)", "i + 1", "(int) i", "(i, i)", "i ? i : i", "p[1]", "fs().a", "fs()", "\"a\"", "\"a\"[0]", "(int[]){ 1 }", "(struct T){ 1 }.a", "s.r", "s.r[0]", "ps->k", "*&i", "fn(1)", "i = i", "A", "1", "x", "*pf", "*fn", "s.b", "ps->b", "(s.b)", "*p++", "reg", "rs.a", "ra", "ra[0]"], "", ";"), pre="int x(void) { register int reg = 1; register struct T rs; register int ra[2]; ")
stmt("cast", sp(TYPES, "(", ") "), sp(EXPR, "", ";"))
stmt("conditional", EXPR[:], [" ? 1 : 2;", " ? p : 0;"])
stmt("alternatives", ["i ? "], sp(OPERAND, "", " : "), sp(OPERAND, "", ";"))
stmt("condition", ["if (", "while (", "do ; while (", "for (; ", "switch ("], EXPR)
for k in ("condition",):
    G[k]["close"] = [") ;", ") ;", ");", "; ) ;", ") ;"]
stmt("sizeof", ["sizeof(", "(void) _Alignof("], sp(TYPES + ["struct N", "struct I[2]", "void[2]", "int[-1]", "int(void)", "int()[2]", "int[][2]", "int[2][]", "void()()", "int x", "x", "static int", "i", "*pi"], "", ");"), std="c11")
stmt("return", sp(EXPR, "return ", "; }\n"), post="")
G["return"]["pre"] = None
G["return"]["slots"] = (sp([named(t, "x").replace("x", "x(void)", 1) if "x[" not in named(t, "x") else "int x(void)" for t in TYPES if "(*)" not in t and t not in ("int (int)", "int [3]", "int []")], "", " { "), sp(EXPR + [""], "return ", "; }\n"))

stmt("callargs", ["fn(", "vf(", "va(", "old(", "pf(", "(*pf)(", "fs(", "pfv(", "(*pfv)(", "i(", "(fn)(", "(&fn)("], sp(["", "1", "1, 2", "1, 2, 3", "s", "p", "2.5", "vf()", "pi", "*pi", "1, s", "1, vf()", "a3", "fn", "ci", "(void) 1", "1, 2.5, p", ","], "", ");"))
stmt("complit", sp(TYPES + ["int[2]", "struct I[2]", "char[]", "void ()"], "(", ") "), ["{ 0 };", "{ 1, 2 };", "{ s };", "{ \"a\" };", "{ .a = 1 };"])
stmt("vaarg", sp(["ap", "i", "p", "&ap", "s"], "__builtin_va_arg(", ", "), sp(TYPES + ["struct N", "x"], "", ");"), pre="int x(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); ")

# statements
stmt("jumps", ["", "L: ", "case 1: ", "default: ", "L: L: ", "L: M: ", "switch (i) { case 1: ", "while (1) { L: ", "do { ", "{ L: ", "for (;;) ", "switch (i) ", "if (i) ", "else "], ["break; ", "continue; ", "goto L; ", "goto M; ", "return; ", "return 1; ", "; ", "L: ; ", "case 1: ; ", "default: ; ", "int y; ", "{ } "], ["", "} ", "} while (1); ", "L: ; ", "else ; ", "case 2: ; ", "default: ; "])
stmt("cases", ["switch (i) {", "switch (l) {", "switch (c) {", "while (i) {", "{"], sp(["1", "1 + 1", "i", "ci", "A", "2.5", "(int) 2.5", "\"a\"", "'a'", "p", "&i", "sizeof s", "1 / 0", "fn(1)", "0x100000001", "1, 2", "", "(char) 258", "i = 1", "1 ? 2 : 3"], " case ", ": "), sp(["1", "2", "97", "A", "4294967297", "'b'"], " case ", ": ; }"))
stmt("forinit", ["for ("], ["int j = 0", "static int j = 0", "extern int j", "typedef int j", "int j, k = 1", "struct Q { int a; } q", "j = 0", "i = 0", "int j()", "enum { B } z", "register int j = 0", "", "i", "int", "vf()"], ["; i < 9; ", "; ; ", ";; i++;", "; p; i++", "; s; ", "; vf(); ", "; j; j++", ": i"], [") ;", ") int y;", ") { int j; }", ")"])
stmt("local", ["int ", "static int ", "extern int ", "register int ", "typedef int ", "auto int ", "inline int ", "static const ", "extern void ", "struct I ", "void ", "const "], ["y", "y = 1", "y = i", "y[2]", "y[i]", "y[i] = { 0 }", "y[]", "y[] = { 1 }", "y[0]", "y[-1]", "y[2.5]", "y(void)", "y(void) { }", "*y", "(*y)[i]", "y : 3", "y, y", "y, *y", "y()[2]", "y[2]()", "y(int (void))", "y[static 2]", "y[const 2]", "y[*]", "", "i = i", "*y = { 0 }", "y = { 1, 2 }", "x"], [";"])

# declarations
SPEC = ["int", "char", "short", "long", "signed", "unsigned", "float", "double", "void", "_Bool", "const", "volatile", "static", "extern", "typedef", "register", "auto", "inline", "struct T", "enum E", "T0", ""]
decl("specifiers", sp(SPEC, "", " "), sp(SPEC, "", " "), sp(SPEC, "", " "), ["y;"], head="struct T { int a; }; enum E { A }; typedef int T0;\n", line=True)
G["specifiers"]["ren"] = "y;"
decl("qualified", ["const", "volatile", "restrict", "static", "inline", "_Noreturn", "_Alignas(16)", "register", ""], sp(["int y", "int *y", "int * restrict y", "int * const y", "int y(void)", "int y[2]", "void y(void)", "int restrict y", "int * static y", "int y(int [static 2])", "int y(int [const 2])", "int y(int [restrict 2])", "int y(static int)", "int y(register int)", "int y(extern int)", "int y(void, int)", "int y(int, void)", "int y(void v)", "int y(...)", "int y(int, ...)", "int y(int, ..., int)", "int y(const void)", "int y(int a, int a)", "int y(int a, char b)", "int y[static 2]", "int y(a)", "int y(a, b)", "int y(int a[*])", "int y(int a[])", "int y(int n, int a[n])", "int y[][2]", "int y[2][]", "int y(void)[2]", "int y(void)(void)", "int y[2](void)", "void y", "void *y", "void y[2]"], " ", ";"), std="c11")
DECLS = ["int y", "extern int y", "static int y", "int y = 1", "extern int y = 1", "static int y = 1", "char y", "const int y", "unsigned y", "long y", "int *y", "int *const y", "int y[2]", "int y[3]", "extern int y[]", "int y[] = {1, 2}", "int y(void)", "int y()", "int y(int)", "int y(char)", "static int y(void)", "inline int y(void)", "extern int y(void)", "char y(void)", "int y(int, ...)", "int y(const int)", "int y(int []), *z", "int y(int *), *z", "typedef int y", "typedef char y", "enum { y }", "enum { y = 1 } z", "struct y { int a; }", "struct y { int b; }", "struct y", "union y", "union y { int a; }", "enum y { yy }", "enum y { yy = 1 }", "struct y { int a; } y", "int y(int (*)(int))", "int y(int (int))", "int y(int (*)(char))", "int y(void) { return 0; }", "static int y(void) { return 1; }", "int y(a) int a; { return a; }", "_Bool y", "double y", "struct { int a; } y", "struct { int a; } *y"]
def semi(x):
    return x if x.endswith("}") and "(" in x.split("{")[0] and "{" in x else x + ";"
decl("redeclare", sp(map(semi, DECLS), "", "\n"), sp(map(semi, DECLS), "", "\n"))
BLOCK = [semi(x) for x in DECLS if not (x.endswith("}") and "(" in x)]
BLOCK = [x for x in BLOCK if "return" not in x]
decl("block", sp(BLOCK, "void x(void) { ", " "), sp(BLOCK, "", " }\n"))
decl("inner", sp(BLOCK, "", " "), sp(BLOCK, "void x(void) { ", " }\n"))
decl("parameter", sp(["int y", "char y[2]", "int y(void)", "const int y", "register int y"], "void x(", ") { "), sp(BLOCK, "", " }\n"))
MEMBER = ["int a;", "int a, a;", "int a; char a;", "int : 3;", "int : 0;", "int a : 0;", "int a : 33;", "int a : 32;", "char a : 9;", "_Bool a : 1;", "_Bool a : 2;", "long a : 40;", "double a : 3;", "int *a : 3;", "int a : -1;", "int a : 1 + 1;", "int a : n;", "int a[2];", "int a[];", "int a[0];", "int a[-1];", "int a[n];", "int a(void);", "void a;", "void *a;", "struct Q q;", "struct Q *q;", "struct R { int a; } q;", "struct R { int a; };", "struct { int a; };", "union { int a; char b; };", "struct { int a; } a;", "int;", "struct N q;", "enum { B } z;", "static int a;", "typedef int a;", "const int a;", "int a = 1;", "int (*a)(void);", "int a : 3, b : 4;", "unsigned a : 3, : 0, b;", "", ";", "int a", "float : 3;", "enum E a : 2;", "int a[2] : 3;", "int const : 2;"]
decl("members", ["struct Q { ", "union Q { "], sp(MEMBER, "", " "), sp(["", "int z;", "int a;", "char b;", "int : 0;", "int a[];", "struct { int z; };"], "", " };\n"), head="int n; enum E { A };\n", std="c11")
decl("enums", ["enum X { ", "enum { ", "enum X "], ["A", "A = 1", "A, B", "A = B", "A, B = A", "A, A", "A = 1, B = 1", "A = 2.5", "A = n", "A = sizeof(int)", "A = 2147483647, B", "A = 2147483648", "A = -1", "A = 'a'", "", "A = (int) 2.5", "A = 1, 2", "n", "X", "A = &n", "A,", ",A", "A = 1 / 0", "A B", "int A", "{ A", "A; B"], [" };", " } n;", " } ; enum X y;", " } x, *y;"], head="extern int n;\n", post="\n")
decl("functions", ["int ", "void ", "static ", "inline int ", "struct I ", "typedef int ", "register int ", "extern int ", "", "int *", "char ", "_Bool ", "auto int "], sp(["x(void)", "x()", "x(int a)", "x(int)", "x(a)", "x(a) int a;", "x(a) int b;", "x(a, a)", "x(a) char a, *b;", "x(int a, b)", "x(void a)", "x(void, int a)", "x(struct I a)", "x(struct I *a)", "x(int a, int a)", "x(int a, ...)", "x(...)", "x(static int a)", "x(register int a)", "x(int a[])", "x(int a[static 2])", "x(int a(void))", "x[2]", "x", "(*x)(void)", "(x)(int a)", "x(a) int a = 1;", "x(a, b) int a;", "x(T)", "x(int T)", "x(a) register int a;", "x(a) static int a;", "x(a) struct I a;", "x(void)(void)", "x(int a) int a;", "x, y(void)", "*x(void)"], "", " "), ["{ return 0; }\n", "{ }\n", "{ return; }\n", "{ int a; }\n", "{ return a; }\n", "{ int T; }\n", "= 1;\n"], head="struct I; typedef int T;\n")
decl("static-init", sp(["int", "char", "long", "double", "int *", "char *", "void *", "_Bool", "struct T", "unsigned", "int (*"], "static ", " "), ["y = ", "y[2] = "], sp(["1", "2.5", "n", "&n", "&n + 1", "&ar[1]", "ar", "ar[1]", "fn", "&fn", "fn(1)", "\"a\"", "*&n", "(long) &n", "(int) 2.5", "{ 1 }", "{ n }", "{ 1, 2, 3 }", "cn", "A", "-&n", "&n - &n", "&ar[1] - ar", "&*p", "p", "p + 1", "1 / 0", "sizeof n", "n ? 1 : 2", "1 ? 2 : n", "(1, 2)", "n = 1", "n++", "(void *) 0", "0", "&t.a", "t.a", "&t", "t", "(struct T){ 1 }", "&(struct T){ 1 }", "\"a\"[0]", "!&n", "&n == 0", "(char) &n", "ar + n", "{ }", "-1", "3.5f * 2", "~1"], "", ";\n"), head="int n, ar[3], *p; const int cn = 1; int fn(int); enum { A }; struct T { int a; } t;\n", line=True)
G["static-init"]["slots"] = (G["static-init"]["slots"][0][:-1],) + G["static-init"]["slots"][1:]
G["static-init"]["ren"] = "y"
decl("asserts", ["_Static_assert(", "int x(void) { _Static_assert(", "struct Q { int a; _Static_assert("], ["1", "0", "1 > 2", "n", "sizeof(int) == 4", "2.5", "(int) 2.5", "", "\"a\"", "A", "1 / 0", "&n", "cn", "1, 2", "!&n", "-1"], [", \"m\")", ")", ", m)", ", 1)", ", \"m\" \"n\")", ", )"], [";", ""], head="int n; const int cn = 1; enum { A = 1 };\n", std="c11")
G["asserts"]["close"] = ["\n", " }\n", " };\n"]
decl("toplevel", ["", ";", "int", "int;", "x;", "x = 1;", "int x", "int x,", "int ,x", "int x y", "int x;;", "{ }", "}", "int x = ;", "int x = { ;", "int 1;", "int x[;", "int x[2;", "int x(;", "int x(int;", "int (x;", "int *;", "int **x;", "int * int x;", "struct;", "struct {};", "struct T", "enum E;", "enum;", "typedef;", "typedef int;", "typedef x;", "static;", "return 1;", "if (1) ;", "goto x;", "x: ;", "int x = 1, = 2;", "int x = 1 2;", "int x(void) { return 1 }", "int x(void) { return (1; }", "int x(void) { 1 + ; }", "int x(void) { int }", "int x(void) { i; }", "int x(void) { ", "int x(void) { } }", "int x(void) ;{ }", "int x = (1;", "int x = 1);", "int x = y;", "T x;", "struct N x;", "const x;", "unsigned x;", "int x = 'a;", "char *x = \"a;", "int x = '';", "int x = 0x;", "int x = 08;", "int x = 1e;", "int x = 1lul;", "int x = @;", "int x = 1 ? 2;", "int x = ? 2 : 3;", "int x = 1 ? : 3;", "int x = sizeof;", "int x = sizeof();", "int x = (int);", "int x = ();", "int x = 1,;", "int x[] = {,};", "int x[] = { 1,, 2 };", "int x[2] = { [1] 1 };", "int x[2] = { [1] = };", "int x[2] = { [] = 1 };", "struct { int a } x;", "struct { int a; } x = { . = 1 };", "struct { int a; } x = { .a 1 };", "enum { A B } x;", "int x(void) { do ; }", "int x(void) { do ; while (1) }", "int x(void) { for (;) ; }", "int x(void) { for (1;1) ; }", "int x(void) { if 1 ; }", "int x(void) { while () ; }", "int x(void) { switch () ; }", "int x(void) { else ; }", "int x(void) { case : ; }", "int x(void) { goto ; }", "int x(void) { goto 1; }", "int x(void) { return return; }", "int x(void) { 1 = 2; }", "int x(void) { .a; }", "int x(void) { ->a; }", "int x(void) { a.; }", "int x(void) { [1]; }", "int x(void) { (1)(2); }", "int x(void) { ++; }", "int x(void) { 1++; }", "int x(void) { struct { } ; }", "int x(void) { int int y; }", "int x(void) { static y; }", "int x(void) { label: }", "int x(void) { asm; }", "int x(void) { _Pragma; }", "int x __attribute__", "int x asm"], ["\n", "\nint z;\n", " int w;\n"])
# directives
decl("directives", ["#define", "#undef", "#if", "#ifdef", "#ifndef", "#elif", "#else", "#endif", "#include", "#line", "#error", "#pragma", "#foo", "#", "#if 1\n#elif", "#if 0\n#elif", "#if 1\n#else", "#ifdef X\n#else\n#else", "#if 1\n#else\n#elif"], sp(["", "X", "X 1", "X(", "X()", "X(a", "X(a)", "X(a,)", "X(a,a) a", "X(a) #a", "X(a) #b", "X(a) a ##", "X(a) ## a", "X ## X", "X(...) __VA_ARGS__", "X(a, ...) __VA_ARGS__", "X(a) __VA_ARGS__", "X(..., a)", "X(1)", "1", "0", "defined", "defined X", "defined(X", "defined(X) X", "1 +", "(1", "1)", "1 / 0", "1.5", "\"a\"", "'a'", "'a", "\"a.h\" 1", "<a.h", "\"nosuch.h\"", "<nosuch.h>", "1 \"a\"", "1 \"a\" 2", "-1", "0x1", "1a", "X X", "+", "1 ? 2", "1 == ", "1, 2", "defined 1", "!", "__VA_ARGS__", "__LINE__", "defined X 1", "X-Y", "1 = 1"], " ", "\n"), ["int z;\n", "#endif\nint z;\n"])
decl("macros", ["#define X", "#define X(a)", "#define X(a, b)", "#define X()", "#define X(a, ...)", "#define X(...)"], sp(["", "1", "a", "#a", "a ## a", "(a)", "a b"], " ", "\n"), ["", "#undef X\n", "#define X\n", "#define X 1\n", "#define X  1 \n", "#define X(a) a\n", "#define X(b) b\n", "#define X(a) 1\n", "#define X() 1\n", "#define X(a, ...) 1\n", "#define X(a) #a\n", "#define X(a) # a\n"], ["int z;\n", "int y = X;\n", "int y = X();\n", "int y = X(1);\n", "int y = X(1, 2);\n", "int y = X(1\n", "int y = X(+);\n"])


# not judged: GNU extensions lacc shares with gcc, features it does not claim to support, behaviour that is undefined rather than
# a constraint, and constant expressions the standard lets an implementation refuse (6.6p10)
MASK = {
    "binary": r"\*pi ,", "unary": r"{ (\(void\) )?\*( &\*)?pi;", "cast": r"\(void\) \*pi", "vaarg": r"int \[3\]", "forinit": r"int j\(\)",
    "local": r"\[0\]", "qualified": r"_Alignas", "redeclare": r"^int y\(int, \.\.\.\);\nint y\(a\)|^int y\(a\).*\nint y\(int, \.\.\.\)",
    "members": r"\[0\]", "enums": r"} n;", "static-init": r"cn|\"a\"\[0\]|!&n|&n == 0|&n - &n|&ar\[1\] - ar|_Bool .*(&|ar|fn|\"a\")",
    "toplevel": r"^\s*$", "directives": r"__VA_ARGS__", "macros": r"#define X\(a, \.\.\.\)[^y]*y = X\([^,]*$",
}


def size(name):
    n = 1
    for s in G[name]["slots"]:
        n *= len(s)
    return n


def program(name, k):
    """text of program k of the group (without the head) and its choice of alternatives"""
    g = G[name]
    ch = []
    for s in reversed(g["slots"]):
        ch.append(k % len(s))
        k //= len(s)
    ch.reverse()
    t = (g["pre"] or "") + "".join(s[c] for s, c in zip(g["slots"], ch))
    if g.get("close"):
        t += g["close"][ch[0]]
    return t + g["post"], ch
