"""P04: functions called at run time."""
from .common import *
from .progen import PG

BOUNDS = ("all literals and initial scores symbolic over int32; while loops "
          "unrolled 3 times; seeded program shapes with 1-4 functions of up "
          "to 4 arguments (int/bool, defaults, keyword calls, nested calls) "
          "plus hand templates")
OUTSIDE = "loops of more than 3 iterations; recursion (the language has none)"
ASSUMPTIONS = ass_arith()

HAND = {
    "basic": "def f(x: int, y: int) -> int:\n    result x - y\nr = f(a, b)\n"
             "s = f(b, a)",
    "kw": "def f(x: int, y: int) -> int:\n    result x - y\n"
          "r = f(y=a, x=b)\ns = f(a, y=K0)",
    "default": "def f(x: int, y=K0, z: int = K1) -> int:\n"
               "    result x - y * z\nr = f(a)\ns = f(a, b)\nc = f(a, z=b)",
    "arg-modified": "def f(x: int) -> int:\n    x += 1\n    result x\n"
                    "r = f(a)\ns = f(a)\nb = a",
    "arg-default-modified": "def f(x=K0) -> int:\n    x += 1\n    result x\n"
                            "r = f()\ns = f()",
    "arg-order": "def f(x: int, y: int):\n    r = x\n    s = y\n"
                 "def g(x: int, y: int):\n    f(y, x)\ng(a, b)",
    "nested-call": "def f(x: int) -> int:\n    result x + K0\n"
                   "r = f(f(f(a)))\ns = f(a + f(b))",
    "two-results": "def f(x: int) -> int:\n    result x * 2\n"
                   "r = f(a) + f(b)\ns = f(a) - f(b) * f(c)",
    "result-shared": "def f(x: int) -> int:\n    result x\nx := f(a)\n"
                     "y := f(b)\nr = x\ns = y",
    "result-in-arg": "def f(x: int, y: int) -> int:\n    result x - y\n"
                     "r = f(f(a, b), f(b, c))",
    "result-bool": "def f(x: int) -> bool:\n    result x > K0\n"
                   "if f(a):\n    r = 1\nif not f(b):\n    s = 1",
    "result-bool-two": "def f(x: int) -> bool:\n    result x > K0\n"
                       "p := f(a)\nq := f(b)\nif p and not q:\n    r = 1\n"
                       "if f(a) or f(c):\n    s = 1",
    "result-bool-expr": "def f(x: int) -> bool:\n    result x > K0 and x < b\n"
                        "r = int(f(a)) + int(f(c))",
    "no-result": "def f(x: int):\n    r += x\nf(a)\nf(b)\nf(K0)",
    "globals": "x := 5\ndef f():\n    x += a\nf()\nf()\nr = x",
    "local-shadow": "x := a\ndef f() -> int:\n    x := b\n    x += 1\n"
                    "    result x\nr = f()\ns = x",
    "arg-shadow": "x := a\ndef f(x: int) -> int:\n    x += 1\n    result x\n"
                  "r = f(b)\ns = x",
    "local-state": "def f(n: int) -> int:\n    t := 0\n    t += n\n"
                   "    result t\nr = f(a)\ns = f(b)",
    "g-calls-f-args": "def f(x: int) -> int:\n    y := x * 2\n    result y\n"
                      "def g(x: int) -> int:\n    y := f(x + 1)\n"
                      "    z := f(x)\n    result y - z + x\n"
                      "r = g(a)\ns = g(b)",
    "call-in-while": "def f(x: int) -> int:\n    result x + a\ni := 0\n"
                     "while i < 2:\n    r = f(r)\n    i += 1",
    "call-in-if": "def f(x: int) -> int:\n    if x > K0:\n        r += 1\n"
                  "    result x\nif a > b:\n    s = f(a)\nelse:\n"
                  "    s = f(b)",
    "call-cond": "def f(x: int) -> int:\n    result x - K0\n"
                 "if f(a) > f(b):\n    r = 1\nelif f(a) == c:\n    r = 2",
    "conditional-result": "def f(x: int) -> int:\n    result 0\n"
                          "    if x > K0:\n        result x\nr = f(a)\ns = f(b)",
    "result-then-more": "def f(x: int) -> int:\n    result x\n    s = x + 1\n"
                        "r = f(a)",
    "result-expr-of-result": "def f(x: int) -> int:\n    result x\n"
                             "    x += 1\n    r = x\ns = f(a)",
    "function-alias": "def f(x: int) -> int:\n    result x + 1\n"
                      "const g = f\nr = g(a)\ns = f(b)",
    "impure-twice": "def f() -> int:\n    a += K0\n    result a * 2\n"
                    "r = f() - f()\ns = f() * 10 + f()",
    "impure-twice-var": "def f() -> int:\n    a += 1\n    result a\n"
                        "x := f()\ny := f()\nr = x - y\ns = x + f() * 0",
    "impure-twice-bool": "def f() -> bool:\n    a += 1\n"
                         "    result a > K0\nif f() and not f():\n"
                         "    r = 1\nif f() or f():\n    s = 1",
    "impure-cmp": "def f() -> int:\n    a += b\n    result a\n"
                  "if f() < f():\n    r = 1\nelse:\n    r = 2",
    "impure-arg": "def f() -> int:\n    a += b\n    result a\n"
                  "def g(x: int, y: int) -> int:\n    result x - y\n"
                  "r = g(f(), f())\ns = g(y=f(), x=f())",
    "impure-two": "def f() -> int:\n    a += b\n    result a\n"
                  "def g(x: int) -> int:\n    a -= x\n    result a * 3\n"
                  "r = f() - g(K0) + f()\ns = g(1) - g(2)",
    "impure-struct": "struct P:\n    x: int\ndef f() -> P:\n    a += 1\n"
                     "    result P(x=a)\nr = f().x - f().x * 2\n"
                     "p := f()\nq := f()\ns = p.x - q.x",
    "func-in-func": "def f(x: int) -> int:\n    def g(y: int) -> int:\n"
                    "        result y * 2\n    result g(x) + g(x + 1)\n"
                    "r = f(a)",
    "inner-captures": "def f(x: int) -> int:\n    def g(y: int) -> int:\n"
                      "        result y + x\n    result g(a) - g(b)\n"
                      "r = f(c)\ns = f(K0)",
    "cmd-in-func": "def f():\n    /say x\n    /say y\nf()\nif a > b:\n    f()",
    "one-cmd-func": "def f():\n    /say x\nf()\nif a > b:\n    f()\n"
                    "while a < 1:\n    f()\n    a += 1",
    "empty-func": "def f():\n    pass\nf()\nif a > b:\n    f()\nr = 1",
    "empty-func-arg": "def f(x: int):\n    pass\nf(a)\nr = a",
    "swap-args": "def f(x: int, y: int) -> int:\n    swap(x, y)\n"
                 "    result x - y\nr = f(a, b)\ns = a - b",
    "aug-call": "def f(x: int) -> int:\n    result x * x\nr += f(a)\n"
                "s -= f(b)\na *= f(c)",
    "bool-arg": "def f(p: bool, q: bool) -> bool:\n    result p and not q\n"
                "x := f(a > b, b > c)\nr = int(x)\ns = int(f(False, True))",
    "bool-default": "def f(x: int, p=True) -> int:\n    if p:\n"
                    "        result x\n    else:\n        result -x\n"
                    "r = f(a)\ns = f(a, p=b > c)",
    "many-args": "def f(v: int, w: int, x: int, y: int) -> int:\n"
                 "    result v - (w - (x - y))\nr = f(a, b, c, K0)\n"
                 "s = f(y=a, x=b, w=c, v=K1)",
    "call-same-arg-twice": "def f(x: int, y: int) -> int:\n    x += 1\n"
                           "    result x * y\nr = f(a, a)\ns = a",
    "arg-expr-temp": "def f(x: int, y: int) -> int:\n    result x * y\n"
                     "r = f(a + b, a - b)\ns = f((a + b) * c, K0 - (a - b))",
    "unused-func": "def f(x: int) -> int:\n    result x\ndef g():\n"
                   "    r = 9\nr = a",
    "late-global": "def f() -> int:\n    result a * K0\na = 5\nr = f()\n"
                   "a = b\ns = f()",
    "typed-none": "def f(x: int) -> None:\n    r = x\nf(a)",
    "result-const": "def f(x: int) -> int:\n    result K0\nr = f(a)\n"
                    "s = f(b) + K1",
    "interface-call": "def f(x: int) -> int:\n    result x + 1\n"
                      "interface go:\n    r = f(a)\n    s += f(r)",
}


def jobs(tier, seed):
    r = rng(seed, "p04")
    out = []
    for n, b in HAND.items():
        kw = {}
        if n == "interface-call":
            kw["entry"] = ["main", "go", "go"]
        out.append(tv("hand-" + n, b, **kw))
        out.append(tv("hand-noopt-" + n, b, cfg={"optimizer": False}, **kw))
    n = 110 if tier == "quick" else 1500
    for i in range(n):
        pre, body = PG(r, size=r.choice([3, 4, 5]), depth=2, maxk=2, div=.02,
                       mul=.04, loops=i % 3 == 0,
                       funcs=r.choice([1, 2, 3, 4])).program()
        out.append(tv("prog%d" % i, body, pre=pre + PRE,
                      cfg={"optimizer": i % 4 != 3}, max_paths=60))
    return out
