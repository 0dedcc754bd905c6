"""P02: comparisons and boolean logic."""
import itertools
from .common import *

BOUNDS = ("all literals and initial scores symbolic over int32; boolean "
          "expression shapes: all comparisons of two operands in every "
          "operand kind, ==/!= of booleans of every pair of kinds, sampled formulas with up to 4 comparison leaves, "
          "chained comparisons of up to 4 operands, hand templates")
OUTSIDE = "formulas with more than 4 leaves outside the templates"
ASSUMPTIONS = ass_arith()

KINDS = ["v", "l", "e"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.L = Lits()

    def operand(self, k=None):
        k = k or self.r.choice("vvvlle")
        if k == "v":
            return self.r.choice("abc")
        if k == "l":
            return self.L.new() if self.L.n < 3 else self.r.choice("abc")
        return self.r.choice(["a + b", "b * 2", "a - c", "-c", "c + 1",
                              "(a + b * 2 - c * 3)", "(b * c - a + 1)",
                              "(c - (a + b) * 2)"])

    def cmp(self):
        n = 2 if self.r.random() < .85 else 3
        s = self.operand()
        for _ in range(n - 1):
            s += " %s %s" % (self.r.choice(CMPS), self.operand())
        return s

    def leaf(self):
        k = self.r.random()
        if k < .62:
            return "(" + self.cmp() + ")"
        if k < .85:
            return self.r.choice("pq")
        if k < .92:
            return self.r.choice(["True", "False"])
        return "(p %s q)" % self.r.choice(["==", "!="])

    def form(self, n):
        if n <= 1:
            x = self.leaf()
        else:
            k = self.r.randrange(1, n)
            op = self.r.choice(["and", "or"])
            if n >= 3 and self.r.random() < .4:
                x = "(%s %s %s %s %s)" % (self.form(n - 2), op, self.form(1),
                                          op, self.form(1))
            else:
                x = "(%s %s %s)" % (self.form(k), op, self.form(n - k))
        if n > 1 and self.r.random() < .07:
            x = "(%s %s %s)" % (x, self.r.choice(["==", "!="]), self.leaf())
        if self.r.random() < .25:
            x = "(not %s)" % x
        return x


# operands of `==` and `!=` between bools
BKINDS = ["p", "(not q)", "True", "False", "(a > K0)", "(b == c)",
          "(a != K0)", "(a > K0 and b < c)", "(not (a > K1 and q))",
          "(p or b > c)", "(p == q)"]


class RangeGen(Gen):
    """Nested formulas bounding few variables by literals."""

    def __init__(self, r):
        super().__init__(r)
        self.lits = 4
        self.vars = r.choice(["aab", "aaab", "a", "ab"])

    def leaf(self):
        v = self.r.choice(self.vars)
        op = self.r.choice(CMPS[2:] if self.r.random() < .8 else CMPS)
        if self.L.n < self.lits and self.r.random() < .9:
            k = self.L.new()
        else:
            k = str(self.r.choice([0, 5, 3, 4]))
        if self.r.random() < .12:
            v = self.r.choice(["(a + b * 2 - 1)", "(b - (a + 1) * 3)",
                               "(a * b + c)"])
        if self.r.random() < .12:
            k2 = self.r.choice(["3", "7"])
            return "(%s %s %s %s %s)" % (k, op, v, op, k2)
        return "(%s %s %s)" % ((v, op, k) if self.r.random() < .7
                               else (k, op, v))

    def form(self, n):
        if n <= 1:
            x = self.leaf()
        else:
            k = self.r.randrange(1, n)
            op = "and" if self.r.random() < .75 else "or"
            x = "(%s %s %s)" % (self.form(k), op, self.form(n - k))
        if self.r.random() < .15:
            x = "(not %s)" % x
        return x


PQ = "p := a > b\nq := b != c\n"
CTX = [
    ("var", "x := {e}\nr = int(x)"),
    ("int", "r = int({e})"),
    ("if", "if {e}:\n    r = 1\nelse:\n    r = 2"),
    ("elif", "if a == 7:\n    r = 1\nelif {e}:\n    r = 2\nelse:\n    r = 3"),
    ("assign", "p = {e}\nr = int(p)"),
    ("assign2", "q = {e}\nr = int(q) + 2 * int(p)"),
    ("notif", "if not ({e}):\n    r = 1"),
    ("cmd", "if {e}:\n    /say hi"),
    ("cmp", "x := ({e}) == p\nr = int(x)"),
    ("arg", "def f(z: bool) -> int:\n    result int(z) + 1\nr = f({e})"),
    ("while", "while ({e}) and r < 0:\n    r = 1"),
    ("new", "x: bool = {e}\nif x:\n    r = a\nelse:\n    r = b"),
]

HAND = {
    "chain4": "r = int(a < b <= c < K0)",
    "chain-lits": "r = int(K0 < a <= K1)\ns = int(K1 >= b > K0)",
    "chain-mixed": "r = int(a < K0 > b != c)",
    "chain-eq": "r = int(a == b == c)\ns = int(a != b != c)",
    "chain-expr": "r = int(a + 1 < b * 2 <= c - 3)",
    "range-and": "r = int(a > K0 and a < K1)\ns = int(a >= K0 and a <= K1)",
    "range-and3": "r = int(a > K0 and a < K1 and a != K2)",
    "range-and-eq": "r = int(a == K0 and a == K1)\ns = int(a == K0 and a > K1)",
    "range-ne": "r = int(a != K0 and a != K1)",
    "range-lt2": "r = int(a < K0 and a < K1 and b < K0)",
    "range-gt2": "r = int(a > K0 and a >= K1 and b > K1)",
    "range-or": "r = int(a < K0 or a > K1)\ns = int(a <= K0 or a >= K1)",
    "range-nested": "r = int((a > K0 and b > K1) and (a < K2 and b < K1))",
    "range-not": "r = int(not (a > K0) and not (a < K1))",
    "range-not-and": "r = int(not (a > K0 and a < K1))",
    "range-contra": "r = int(a > 5 and a < 3)\ns = int(a >= 4 and a <= 4)",
    "range-contra-if": "if a > K0 and a < K1:\n    r = 1\nelse:\n    r = 0",
    "extreme": "r = int(a > int.MAX) + int(a >= int.MAX) * 2\n"
               "s = int(a < int.MIN) + int(a <= int.MIN) * 2",
    "extreme2": "r = int(a >= int.MIN) + int(a <= int.MAX) * 2\n"
                "s = int(a == int.MIN) + int(a != int.MAX) * 2",
    "extreme-flip": "r = int(int.MAX < a) + int(int.MIN > b) * 2\n"
                    "s = int(int.MAX >= a) + int(int.MIN <= b) * 2",
    "extreme-and": "r = int(a > int.MAX and b > K0)\n"
                   "s = int(a < int.MIN or b < K0)",
    "lit-lit": "r = int(K0 < K1) + int(K0 == K1) * 2 + int(K0 >= K1) * 4",
    "lit-var": "r = int(K0 < a) + int(K0 == a) * 2 + int(K0 >= b) * 4",
    "const-short": "r = int(True and a > b)\ns = int(False or a > b)",
    "const-short2": "r = int(False and a > b)\ns = int(True or a > b)",
    "const-bool": "const T = K0 > K1\nr = int(T and a > b)\n"
                  "s = int(T or a > b)\na = int(not T)",
    "self-ref": "p := a > b\np = not p\nr = int(p)\np = p and b > c\n"
                "s = int(p)",
    "self-ref-or": "p := a > b\nq := b > c\np = p or q\nq = q and not p\n"
                   "r = int(p) + 2 * int(q)",
    "self-ref-2": "p := a > b\nq := b > c\np = q and (p or a == c)\n"
                  "q = (p or q) and not (p and q)\nr = int(p) + 2 * int(q)",
    "swap-bool": "p := a > b\nq := b > c\nswap(p, q)\nr = int(p) + 2*int(q)",
    "bool-eq": "p := a > b\nq := b > c\nr = int(p == q)\ns = int(p != q)",
    "bool-eq-lit": "p := a > b\nr = int(p == True) + 2 * int(p != True) + "
                   "4 * int(False == p) + 8 * int(False != p)",
    "bool-eq-expr": "r = int((a > b) == (b > c))\ns = int((a > b) != (c > 0))",
    "bool-eq-const": "const T = K0 > 0\nr = int((a > b) == T)\n"
                     "s = int(T != (a > b))",
    "not-not": "r = int(not not (a > b))\ns = int(not (not (a > b) and b > c))",
    "demorgan": "r = int(not (a > b or b > c or c > a))\n"
                "s = int(not (a > b and b > c and c > a))",
    "or-of-and": "r = int((a > b and b > c) or (c > a and a > K0))",
    "and-of-or": "r = int((a > b or b > c) and (c > a or a > K0))",
    "deep": "r = int((a > b and (b > c or (c > a and (a > K0 or b < K0)))))",
    "int-of-eq": "r = int(a == K0) - int(b != K0)",
    "func-result": "def f(x: int) -> bool:\n    result x > K0\n"
                   "r = int(f(a) and f(b))\ns = int(f(a) == f(b))",
    "func-result-not": "def f(x: int) -> bool:\n    result not x > K0\n"
                       "if not f(a):\n    r = 1\nif f(a) or f(b):\n    s = 1",
    "bool-arg-neg": "def f(p: bool) -> bool:\n    result not p\n"
                    "r = int(f(a > b))\ns = int(f(not (a > b)))",
    "var-copy": "p := a > b\nq := p\np = not q\nr = int(p) + 2 * int(q)",
    "expr-cmp": "r = int(a + b > c)\ns = int(a * b == c - K0)",
    "expr-cmp-lit": "r = int(a + b > K0)\ns = int(K1 != a - b)",
    "group-both": "r = int((a + b) * c >= (a - b) * c)",
    "cmp-self": "r = int(a == a) + int(b < b) + int(c >= c)",
    "many-and": "r = int(a > 0 and b > 0 and c > 0 and a > b and b > c)",
    "many-or": "r = int(a > 0 or b > 0 or c > 0 or a > b or b > c)",
    "long-deps": "r = int(a * 2 + b - c + 1 > K0 and a > K1)\n"
                 "s = int(b - (a + c) * 2 <= K0 or b < K1)",
    "long-deps2": "r = int(K0 < a + b * 3 - c <= K1 and c + a * 2 > b)",
    "mixed-int": "r = int(a > b) + int(b > c)\ns = int(r == 2)",
}


def jobs(tier, seed):
    r = rng(seed, "p02")
    out = [tv("hand-" + n, b) for n, b in HAND.items()]
    i = 0
    for op in CMPS:
        for x, y in itertools.product(KINDS, repeat=2):
            g = Gen(r)
            e = "%s %s %s" % (g.operand(x), op, g.operand(y))
            ctxs = CTX[:4] + CTX[6:8] if tier == "thorough" else \
                [CTX[i % 4], CTX[6 + i % 2]]
            for cn, c in ctxs:
                out.append(tv("cmp-%s %s" % (cn, e), PQ + c.format(e=e)))
            i += 1
    i = 0
    for x, y in itertools.product(BKINDS, repeat=2):
        for op in ["==", "!="]:
            i += 1
            if tier == "quick" and (i + i // 2) % 2:
                continue
            e = "%s %s %s" % (x, op, y)
            cn, c = CTX[i % len(CTX)]
            out.append(tv("booleq-%s %s" % (cn, e), PQ + c.format(e=e), K=3))
    n = 180 if tier == "quick" else 3000
    for i in range(n):
        g = RangeGen(r)
        e = g.form(r.choice([2, 3, 3, 4, 4, 5]))
        cn, c = CTX[i % len(CTX)]
        out.append(tv("range%d-%s %s" % (i, cn, e), PQ + c.format(e=e), K=3))
    n = 350 if tier == "quick" else 3000
    for i in range(n):
        g = Gen(r)
        e = g.form(r.choice([2, 2, 3, 3, 4]))
        if e.startswith("(") and r.random() < .5:
            e = e
        cn, c = CTX[i % len(CTX)]
        out.append(tv("form%d-%s %s" % (i, cn, e), PQ + c.format(e=e), K=3))
    return out
