"""Seeded generator of small well-typed C functions for translation validation."""
import random
INT = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long"]
NARROW = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short"]
CONSTS = ["0", "1", "2", "3", "5", "7", "8", "31", "63", "100", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "-1", "-2", "-128", "(-2147483647-1)",
          "0u", "1u", "4294967295u", "2147483648u", "0L", "1L", "-1L", "2147483648L", "4294967295L", "4294967296L", "9223372036854775807L", "(-9223372036854775807L-1)",
          "1UL", "18446744073709551615UL", "9223372036854775808UL", "'a'", "'\\377'"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def expr(self, d, leaves, div=True):
        r = self.r
        if d == 0 or r.random() < 0.12:
            if r.random() < 0.25:
                return r.choice(CONSTS)
            return r.choice(leaves)
        k = r.random()
        e = lambda: self.expr(d - 1, leaves, div)
        if k < 0.42:
            op = r.choice(["+", "-", "&", "|", "^", "+", "-", "*"])
            if op == "*":
                return "(%s * %s)" % (e(), r.choice(["3", "-7", "10", "255", "4097"] + leaves))
            return "(%s %s %s)" % (e(), op, e())
        if k < 0.52:
            return "(%s %s %s)" % (e(), r.choice(["<", ">", "<=", ">=", "==", "!="]), e())
        if k < 0.60:
            return "(%s %s (%s & %d))" % (e(), r.choice(["<<", ">>"]), e(), r.choice([7, 15, 31]))
        if k < 0.67:
            return "(%s %s %s)" % (e(), r.choice(["&&", "||"]), e())
        if k < 0.75:
            return "(%s ? %s : %s)" % (e(), e(), e())
        if k < 0.87:
            return "((%s)%s)" % (r.choice(INT), e())
        if k < 0.90 and div:
            return "(%s %s %s)" % (r.choice(leaves), r.choice(["/", "%"]), r.choice(["3", "7", "10", "-5", "16u", "1000"] + leaves))
        if k < 0.93:
            return "(%s, %s)" % (e(), e())
        return "(%s %s)" % (r.choice(["-", "~", "!", "+"]), e())
