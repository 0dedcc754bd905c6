"""P01: runtime integer arithmetic."""
import itertools
from .common import *

BOUNDS = ("all literals symbolic over int32, all initial variable values "
          "symbolic over int32; expression shapes: every tree of up to 2 "
          "operators over {+,-,*,/,%} with variable/literal leaves, sampled "
          "trees of 3 (quick) / all trees of 3 (thorough) operators, plus "
          "hand-written templates")
OUTSIDE = ("expressions with more than 3 binary operators outside the "
           "templates; runtime division by zero")
ASSUMPTIONS = ass_arith()

TARGETS = ["r = {}", "x := {}\nr = x", "x: int = {}\nr = x", "a = {}",
           "a += {}", "a -= {}", "a *= {}", "b /= {}", "b %= {}"]


def expr_jobs(n, leafsets, r, count=None, tag="e"):
    jobs = []
    allc = []
    for t in trees(n):
        for ops in itertools.product(OPS, repeat=n):
            for ls in itertools.product("vl", repeat=n + 1):
                allc.append((t, ops, ls))
    if count is not None and count < len(allc):
        # mostly-literal trees are the subject of P07
        allc = [x for x in allc if x[2].count("l") <= n - 1]
        allc = r.sample(allc, count)
    for i, (t, ops, ls) in enumerate(allc):
        L = Lits()
        vs = itertools.cycle(r.sample(["a", "b", "c", "a"], 4))
        leaves = iter([next(vs) if x == "v" else L.new() for x in ls])
        e = fill(t, iter(ops), leaves)
        if e.startswith("("):
            e = e[1:-1]
        tg = TARGETS[r.randrange(len(TARGETS))]
        jobs.append(tv("%s%d-%d %s" % (tag, n, i, tg.format(e).replace(
            "\n", "; ")), tg.format(e)))
    return jobs


HAND = {
    "unary": "r = -a\ns = -(-b)\na = -(a + K0)\nb = +b - -c",
    "unary-const": "r = -K0\ns = -(-K1)",
    "aug-self": "a += a\nb *= b\nc -= c\nr += r * r",
    "aug-alias": "a -= b - a\nb = a - b\nc = K0 - c",
    "chain": "r = a\nr += b\nr *= c\nr -= a\ns = r",
    "swap": "swap(a, b)\nr = a - b",
    "swap-self": "swap(a, a)\nx := b\nswap(x, c)\nr = x",
    "new-group": "x := a + b\ny := x * x\nz := x - y\nr = z + x",
    "group-left-right": "r = (a + b) - (a - b)\ns = (a * b) / (c + K0)",
    "group-nested": "r = a - (b - (c - (a - (b - c))))",
    "group-nested-lit": "r = K0 - (K1 - (a - (K2 - b)))",
    "same-target": "a = b - a\nb = b - (a - b)\nc = (c + c) * (c - c)",
    "aug-group": "a += b * c\nb -= a + K0\nc *= a - b\nr /= K1 + b",
    "mod-group": "r %= a - b\ns = (a % b) % c",
    "int-bool": "r = int(a > b) + int(b > c) * K0",
    "int-bool-group": "r = K0 - int(a == b)\ns = int(not (a < b and b < c))",
    "const-mix": "const A = K0, B = K1\nr = A + a * B\ns = A - b",
    "const-fold-mix": "r = (K0 + K1) + a\ns = a * (K0 - K1)",
    "const-reuse": "r = a * K0\ns = b * K0 + c / K1\na = c % K1",
    "minint": "r = a * int.MIN\ns = b - int.MIN",
    "maxint": "r = int.MAX - a\ns = int.MIN + int.MAX + b",
    "long": "r = a + b + c + K0 + a + K1 - b - K2 - c",
    "long-mul": "r = a * b + c * a - b * c",
    "reuse-tmp": "r = (a + b) * (b + c)\ns = (a - b) * (b - c)\n"
                 "a = (r + s) * (r - s)",
    "three-groups": "r = (a + b) * ((b + c) * (a + c))",
    "assign-chain": "x := a\ny := x\nx += K0\nr = x\ns = y",
    "var-decl-late": "x: int\nx = a + b\nr = x",
    "paren-lit": "r = (K0)\ns = ((a)) - ((K1))",
    "zero-one": "r = a * 0 + b * 1\ns = a + 0 - 0",
    "neg-lit": "r = a + -K0\ns = a - -K1\nb = b * -K2",
    "div-lit": "r = a / K0\ns = K1 / a\nb %= K2",
    "self-div": "a = a / b\nb = c / b\nr = r % r + s",
    "swap-group": "x := a + K0\ny := b - K1\nswap(x, y)\nr = x\ns = y",
    "aug-lit": "a += K0\nb -= K1\nc *= K2\nr /= K3\ns %= K4",
    "repeat": "a = a + a + a\nb = b - b - b\nc = c * c * c",
    "sub-self-group": "a = (a - b) - a\nb = c - (b + b)\nr = a * (a + r)",
    "func-operand": "def f(x: int) -> int:\n    result x * K0\n"
                    "r = f(a) - f(b)\ns = f(a) * (f(b) + c)",
    "struct-operand": "struct P:\n    x: int\n    y: int\n"
                      "p := P(x=a, y=b)\np.x += p.y\nr = p.x * p.y - K0",
    "aug-scb": "scb(\"a\", \"in\") += K0\nscb(\"b\", \"in\") *= a",
}


def jobs(tier, seed):
    r = rng(seed, "p01")
    out = [tv("hand-" + n, b) for n, b in HAND.items()]
    out += [tv("hand-noopt-" + n, b, cfg={"optimizer": False})
            for n, b in HAND.items() if n.startswith(("func", "group"))]
    out += expr_jobs(1, None, r)
    out += expr_jobs(2, None, r, None if tier == "thorough" else 180)
    out += expr_jobs(3, None, r, None if tier == "thorough" else 70)
    return out
