"""P07: constant folding."""
import itertools
from .common import *
from .progen import PG

BOUNDS = ("all literals symbolic over int32; every tree of up to 2 int "
          "operators (with unary minus) over literals in every context, "
          "sampled trees of 3-4 operators, constant comparisons and boolean "
          "formulas of up to 4 leaves, const functions computing them")
OUTSIDE = "constant expressions with more than 4 operators; float constants"
ASSUMPTIONS = ass_arith()

CTX = [
    ("var", "x := {e}\nr = x"),
    ("assign", "r = {e}"),
    ("const", "const A = {e}\nr = A\ns = A"),
    ("const2", "const A = {e}, B = A\nr = B - a"),
    ("cmd", "/say ${{{e}}}"),
    ("inline", "inline def f(const n: int) -> int:\n    result n\nr = f({e})"),
    ("inlineres", "inline def f() -> const int:\n    result {e}\n"
     "const A = f()\nr = A + a"),
    ("ct", "const def f() -> int:\n    result {e}\nr = f()"),
    ("ctvar", "const def f() -> int:\n    x := {e}\n    x += 0\n"
     "    result x\nr = f()"),
    ("aug", "r += {e}"),
    ("augm", "r *= {e}"),
    ("cmp", "r = int({e} == 7)\ns = int(a < {e})"),
    ("arg", "def f(n: int) -> int:\n    result n + a\nr = f({e})"),
    ("default", "def f(n={e}) -> int:\n    result n + a\nr = f()"),
    ("field", "struct S:\n    x: int\nt := S(x={e})\nr = t.x"),
    ("list", "for i in {{1, {e}, 2}}:\n    r += i"),
    ("if", "if a > {e}:\n    r = 1\nelse:\n    r = 2"),
]
BCTX = [
    ("var", "x := {e}\nr = int(x)"),
    ("int", "r = int({e})"),
    ("if", "if {e}:\n    r = 1\nelse:\n    r = 2"),
    ("const", "const T = {e}\nr = int(T)\nif T and a > b:\n    s = 1"),
    ("mix", "r = int({e} and a > b)\ns = int(a > b or {e})"),
    ("ct", "const def f() -> int:\n    if {e}:\n        result 1\n"
     "    else:\n        result 2\nr = f()"),
    ("ctb", "const def f() -> bool:\n    result {e}\nr = int(f())"),
    ("ctarg", "const def f(x: bool) -> bool:\n    result not x\n"
     "r = int(f({e}))"),
    ("elif", "if a > b:\n    r = 1\nelif {e}:\n    r = 2\nelse:\n    r = 3"),
    ("while", "while {e} and r < 0:\n    r = 0"),
]

HAND = {
    "float": "/say ${2 * 0.75} ${1.5 + 3} ${4 - 2.5} ${2.5 - 4} ${1.5 * 1.5}"
             "\nr = K0\n",
    "float-div": "/say ${1 / 2.0} ${3.0 / 4} ${7 / -4.0} ${-5.0 / 8}\n",
    "float-mod": "/say ${7 % 2.5} ${7.5 % 2} ${1.75 % 0.5}\n",
    "float-neg": "const x = -1.5, y = +2.25\n/say ${-x} ${x + y} ${y - x} "
                 "${x * y} ${y - 3} ${3 - y}\n",
    "float-ct": "const def f(x: float, y: int) -> float:\n    x *= 2\n"
                "    z := 9 / x\n    z -= y\n    result z + x\n"
                "/say ${f(2.25, 1)}\n",
    "float-zero": "r = a\nconst x = 1 / 0.0\n",
    "float-zero-2": "r = a\nconst x = 1.5 % 0\n",
    "neg": "r = -K0\ns = -(-K0)",
    "neg-expr": "r = -(K0 + K1)\ns = -(K0 * 2)",
    "pos": "r = +K0 - +K1",
    "minmax": "r = int.MAX + K0",
    "minmax2": "r = int.MIN - K0",
    "minmax3": "r = K0 - int.MIN",
    "minmax4": "r = int.MIN / K0\ns = int.MIN % K1",
    "div-signs": "r = K0 / K1\ns = K0 % K1",
    "divmod": "r = (K0 / K1) * K1 + K0 % K1",
    "mod-var": "r = a % K0\ns = b / K0",
    "ct-aug": "const def f(x: int, y: int) -> int:\n    x += y\n    x *= 2\n"
              "    x -= y\n    result x\nr = f(K0, K1)",
    "ct-aug-div": "const def f(x: int, y: int) -> int:\n    x /= y\n"
                  "    x %= 7\n    result x\nr = f(K0, K1)",
    "ct-cond": "const def f(x: int, y: int) -> int:\n    if x > y:\n"
               "        result x - y\n    elif x == y:\n        result 0\n"
               "    else:\n        result y - x\nr = f(K0, K1)",
    "ct-bool": "const def f(x: int, y: int) -> bool:\n"
               "    result x > y and not (x == 0 or y < 0)\n"
               "r = int(f(K0, K1))",
    "ct-chain": "const def f(x: int, y: int, z: int) -> bool:\n"
                "    result x < y <= z\nr = int(f(K0, K1, K2))",
    "ct-nested": "const def g(x: int) -> int:\n    result x * x\n"
                 "const def f(x: int) -> int:\n    result g(x) - g(x - 1)\n"
                 "r = f(K0)",
    "ct-overflow-unused": "const def f(x: int) -> int:\n    y := x * 2\n"
                          "    result x\nr = f(K0)",
    "const-chain": "const A = K0\nconst B = A + K1\nconst C = B * 2 - A\n"
                   "r = C",
    "const-unused": "const A = K0 + K1\nr = 1",
    "const-cond-unused": "if K0 > 0:\n    const A = K0 + 1\n    r = A\n",
    "short-and": "r = int(K0 > 0 and 10 / K0 > 1)",
    "compare-all": "r = int(K0 < K1) + 2 * int(K0 <= K1) + 4 * int(K0 > K1)"
                   " + 8 * int(K0 >= K1) + 16 * int(K0 == K1) + 32 * "
                   "int(K0 != K1)",
    "compare-bool": "r = int((K0 > 0) == (K1 > 0)) + 2 * int((K0 > 0) != "
                    "(K1 > 0))",
    "compare-bool-lit": "r = int(True == (K0 > 0)) + 2 * int((K0 > 0) == "
                        "False) + 4 * int(True != False)",
    "not-lit": "r = int(not (K0 > K1)) + 2 * int(not not (K0 > K1))",
    "mixed-left": "r = K0 + K1 + a\ns = a + K0 + K1",
    "mixed-prec": "r = K0 + K1 * a\ns = (K0 - K1) * a",
    "int-of-const": "r = int(K0 > 3) * K1",
    "pow": "from math import pow\nr = pow(K0, 2)\ns = pow(a, 3)",
    "str-fmt": "const A = K0 - K1\n/say ${A} and ${K0 * 2}",
    "range-ends": "r = int(a > K0 + 1)\ns = int(a <= K0 - 1)",
    "eq-const": "r = int(a == K0 * 2)\ns = int(a != -K0)",
    "while-const": "while K0 == K1 and a < 3:\n    a += 1",
    "swap-lit": "x := K0\ny := K1\nswap(x, y)\nr = x\ns = y",
}
UN = ["{}", "{}", "{}", "-{}", "-(-{})"]


def jobs(tier, seed):
    r = rng(seed, "p07")
    out = [tv("hand-" + n, b) for n, b in HAND.items() if n != "pow"]
    allc = []
    for n in (1, 2):
        for t in trees(n):
            for ops in itertools.product(OPS, repeat=n):
                allc.append((t, ops, n))
    for n in (3, 4):
        c = [(t, ops, n) for t in trees(n)
             for ops in itertools.product(OPS, repeat=n)]
        allc += r.sample(c, 20 if tier == "quick" else 400)
    q = 0
    for t, ops, n in allc:
        ctxs = CTX if tier == "thorough" or n == 1 else r.sample(CTX, 1)
        if n > 2:
            ctxs = ctxs[:1] if tier == "quick" else ctxs[:4]
        for cn, c in ctxs:
            L = Lits()
            hard = sum(o in "*/%" for o in ops)
            nsym = max(1, 3 - hard) if n > 1 and tier == "quick" else 3
            sym = set(r.sample(range(n + 1), min(nsym, n + 1)))
            leaves = [r.choice(UN).format(L.new() if j in sym else str(
                r.choice([2, 3, 7, 1000000, 65536]))) for j in range(n + 1)]
            e = fill(t, iter(ops), iter(leaves))
            out.append(tv("e%d-%s %s" % (q, cn, e), c.format(e=e)))
            q += 1

    def bform(n):
        if n <= 1:
            k = r.random()
            if k < .75:
                x = "(%s %s %s)" % (leaf(), r.choice(CMPS), leaf())
            elif k < .85:
                x = r.choice(["True", "False"])
            else:
                x = "(%s %s %s %s %s)" % (leaf(), r.choice(CMPS), leaf(),
                                          r.choice(CMPS), leaf())
        else:
            k = r.randrange(1, n)
            x = "(%s %s %s)" % (bform(k), r.choice(["and", "or", "==", "!="]),
                                bform(n - k))
        return "(not %s)" % x if r.random() < .2 else x

    def leaf():
        if L.n < 3:
            return L.new()
        return r.choice(["K0", "K1", "K2", "0", "K0 - 1"])
    for i in range(80 if tier == "quick" else 1500):
        L = Lits()
        e = bform(r.choice([1, 2, 2, 3, 4]))
        cn, c = BCTX[i % len(BCTX)]
        out.append(tv("b%d-%s %s" % (i, cn, e), c.format(e=e)))
    if tier == "quick":
        for j in out:
            j["case"].update(timeout=1200, feas_ms=800, fork_s=4, case_s=5)
        r.shuffle(out)
    return out
