"""P23: the math module."""
from .common import *

BOUNDS = ("every constant and run-time argument symbolic over int32 (constant "
          "pow bases -2000..2000 with exponents -1..4, run-time exponents 0..9, "
          "constant exponents of run-time bases up to 20; up to 5 arguments "
          "of min/max); results in every position an expression can appear")
OUTSIDE = ("run-time exponents above 9; negative run-time exponents (documented "
           "as undefined); run-time division by zero and INT_MIN / -1")
ASSUMPTIONS = ass_arith(["scoreboard random draws any value of its range"])

M = "import math\n"

HAND = {}
for f in ("mod", "floordiv"):
    for n, (x, y) in {"vv": ("a", "b"), "kv": ("K0", "b"), "vk": ("a", "K0"),
                      "kk": ("K0", "K1"), "ev": ("a - b", "c"),
                      "ve": ("a", "b + K0"), "same": ("a", "a"),
                      "three": ("a", "3"), "mthree": ("a", "-3"),
                      "kmthree": ("K0", "-7"), "kthree": ("K0", "7"),
                      "three-v": ("-3", "b")}.items():
        HAND["%s-%s" % (f, n)] = "r = math.%s(%s, %s)" % (f, x, y)
    HAND["%s-keep" % f] = "r = math.%s(a, b)\ns = a - b" % f
    HAND["%s-kw" % f] = "r = math.%s(y=a, x=b)\ns = math.%s(a, y=b)" % (f, f)
    HAND["%s-target" % f] = "a = math.%s(a, b)\nb = math.%s(c, b)" % (f, f)
    HAND["%s-cond" % f] = "if math.%s(a, b) < K0:\n    r = 1" % f
    HAND["%s-two" % f] = "r = math.%s(a, 5) - math.%s(b, -6)" % (f, f)
HAND["mod-floordiv"] = "r = math.floordiv(a, b) * b + math.mod(a, b)"
HAND["mod-of-floordiv"] = "r = math.mod(math.floordiv(a, 10), 10)"
HAND["mod-in-func"] = ("def f(x: int, y: int) -> int:\n"
                       "    result math.mod(x, y) + x\n"
                       "r = f(a, 7)\ns = f(b, -7)")

for f in ("min", "max"):
    for n, xs in {"v": "a", "k": "K0", "vv": "a, b", "vk": "a, K0",
                  "kv": "K0, a", "kk": "K0, K1", "kkk": "K0, K1, K2",
                  "vvv": "a, b, c", "vkv": "a, K0, b", "kvk": "K0, a, K1",
                  "vvk": "a, b, K0", "e": "a + b, K0", "ee": "a - b, b - c",
                  "ve": "a, b * 2", "eee": "a + 1, b + 1, c + 1",
                  "vmax": "a, int.MAX", "vmin": "a, int.MIN",
                  "vvv-kk": "a, K0, b, K1, c", "same": "a, a",
                  "neste": "a, (b - c) * (c - b)",
                  "prod": "(a - b) * (a + b), a"}.items():
        HAND["%s-%s" % (f, n)] = "r = math.%s(%s)" % (f, xs)
    HAND["%s-keep" % f] = "r = math.%s(a, b, K0)\ns = a - b" % f
    HAND["%s-target" % f] = "a = math.%s(a, K0)" % f
    HAND["%s-target2" % f] = "a = math.%s(b, a)" % f
    HAND["%s-target3" % f] = "a = math.%s(b, c + a, a * 2)" % f
    HAND["%s-none" % f] = "r = math.%s()" % f
    HAND["%s-bool" % f] = "r = math.%s(a > b, 1)" % f
    HAND["%s-cond" % f] = "if math.%s(a, b) == c:\n    r = 1" % f
    HAND["%s-twice" % f] = "x := math.%s(a, b)\nr = x\na = K0\ns = x" % f
    HAND["%s-arith" % f] = "r = math.%s(a, b) - math.%s(b, c) * 2" % (f, f)
    HAND["%s-plus" % f] = "r = c - math.%s(a, b)\nr += math.%s(c, K0)" % (f, f)
    HAND["%s-while" % f] = ("while r < 2:\n    r += 1\n"
                            "    s = math.%s(s, a - r)" % f)
HAND["clamp"] = "r = math.max(K0, math.min(a, K1))"
HAND["clamp2"] = "r = math.min(K1, math.max(a, b, K0), c)"
HAND["median"] = ("r = math.max(math.min(a, b), math.min(math.max(a, b), c))")
HAND["minmax-func"] = ("def f(x: int, y: int) -> int:\n"
                       "    result math.max(x, y) - math.min(x, y)\n"
                       "r = f(a, b)\ns = f(b, c)")
HAND["min-call"] = ("def f(x: int) -> int:\n    result x * 2\n"
                    "r = math.min(f(a), f(b), c)")
HAND["min-struct"] = ("struct P:\n    x: int\n    y: int\np := P(x=a, y=b)\n"
                      "p.x = math.min(p.x, p.y)\np.y = math.max(p.x, p.y)\n"
                      "r = p.x\ns = p.y")
HAND["inline-min"] = ("inline def f(x: int, const n) -> int:\n"
                      "    result math.min(x, n)\nr = f(a, K0)\ns = f(b, 5)")
for e in range(1, 10):
    HAND["pow-rt%d" % e] = "b = %d\nr = math.pow(a, b)\ns = a" % e
for e in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 20):
    HAND["pow-v%d" % e] = "r = math.pow(a, %d)" % e
    HAND["pow-e%d" % e] = "r = math.pow(a + b, %d)\ns = a" % e
for n, t in {"vk": "r = math.pow(a, K0)", "kk": "r = math.pow(K1, K0)",
             "vv": "r = math.pow(a, b)",
             "ev": "b = 5\nr = math.pow(a - c, b)\ns = a",
             "kv3": "b = 3\nr = math.pow(K1, b)",
             "kv0": "b = 0\nr = math.pow(K1, b)",
             "ve3": "b = 3\nr = math.pow(a, b + 1)",
             "twice": "c = 3\nr = math.pow(a, c)\ns = math.pow(b, c)",
             "in-func": "def f(x: int, n: int) -> int:\n"
                        "    result math.pow(x, n) - x\n"
                        "c = 3\nr = f(a, c)\ns = f(b, 2)",
             "loop": "i := 0\nwhile i < 4:\n    r += math.pow(a, i)\n"
                     "    i += 1",
             "keep": "b = 6\nr = math.pow(a, b)\ns = a - b",
             "kw": "r = math.pow(exp=2, base=a)",
             "target": "a = math.pow(a, 3)", "target6": "a = math.pow(a, 6)",
             "self": "b = 4\nb = math.pow(a, b)",
             "sum": "r = math.pow(a, 2) + math.pow(b, 2)",
             "sum3": "r = math.pow(a, 3) - math.pow(b, 5)",
             "neste": "r = math.pow(math.pow(a, 3), 3)",
             "prod": "r = b * math.pow(a, 3)",
             "cond": "if math.pow(a, 3) > b:\n    r = 1",
             "cond6": "if math.pow(a, 6) == math.pow(b, 3):\n    r = 1",
             "neg": "r = math.pow(a, -1)", "zero": "r = math.pow(0, 0)",
             "zero-v": "r = math.pow(0, b)", "one": "r = math.pow(1, K0)",
             "arg": "def f(x: int, y: int) -> int:\n    result x - y\n"
                    "r = f(math.pow(a, 3), math.pow(a, 5))"}.items():
    HAND["pow-" + n] = t
for n, t in {"kk": "r = math.randint(K0, K1)", "eq": "r = math.randint(5, 5)",
             "bad": "r = math.randint(3, 2)",
             "expr": "r = math.randint(K0, K1) + a\ns = a",
             "full": "r = math.randint(int.MIN, int.MAX)",
             "var": "x := math.randint(1, 6)\nr = x\ns = x",
             "two": "r = math.randint(1, 6)\ns = math.randint(K0, K1)",
             "dice": "r = math.randint(1, 6) + math.randint(1, 6)",
             "cond": "if math.randint(0, 99) < K0:\n    r = 1",
             "arg": "def f(x: int) -> int:\n    result x + x\n"
                    "r = f(math.randint(K0, K1))",
             "nonconst": "r = math.randint(a, 5)",
             "kw": "r = math.randint(max=K0, min=1)",
             "min": "r = math.min(math.randint(K0, K1), a)",
             "bool": "x := math.randint(0, 1) == 1\nr = int(x)\n"
                     "s = int(not x)",
             "target": "a = a - math.randint(1, 3)"}.items():
    HAND["rand-" + n] = t


def jobs(tier, seed):
    out = []
    for n, b in HAND.items():
        kw = {}
        if n.startswith("pow"):
            kw["ranges"] = {"K0": [-1, 4], "K1": [-2000, 2000]}
            kw["K"] = 5
        out.append(tv(n, M + b, **kw))
        if tier != "quick" or not n.startswith("pow"):
            out.append(tv("noopt-" + n, M + b, cfg={"optimizer": False}, **kw))
    return out
