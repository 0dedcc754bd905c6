"""P05: inline functions, references and compile-time functions."""
from .common import *
from .progen import PG
from .ctgen import CG

BOUNDS = ("all literals and initial scores symbolic over int32 (loop bounds "
          "inside const functions over a small symbolic range); seeded "
          "program shapes mixing inline and normal functions with by-value, "
          "by-reference and const ports, programs of const functions calling "
          "each other (references, loops, lists, defaults; two inputs symbolic "
          "over [-4, 6]), plus hand templates")
OUTSIDE = ("recursive inline functions (no termination); const functions "
           "with more than 60 loop iterations")
ASSUMPTIONS = ass_arith()

CTR = {"K0": (-4, 6), "K1": (-4, 6)}
HAND = {
    "ct-caller-var": ("const def dec(n: int) -> int:\n    n = n - 1\n"
                      "    result n\n"
                      "const def g(n: int) -> int:\n    m := dec(n)\n"
                      "    result n * 10 + m\n"
                      "r = g(K0)\ns = g(K1)", CTR),
    "ct-result-by-value": ("const def g(n: int) -> int:\n    x := n + 1\n"
                           "    result x\n    x = 100\n"
                           "r = g(K0)\ns = g(K1)", CTR),
    "ct-fact": ("const def fact(n: int) -> int:\n    x := 1\n"
                "    for i in range(n):\n        x *= i + 1\n    result x\n"
                "const def g(n: int) -> int:\n    k := n\n"
                "    y := fact(k)\n    result y + k\n"
                "r = g(K0)\ns = fact(K1)", CTR),
    "ct-list-shared": ("const def add(l: list, v: int):\n    l.append(v)\n"
                       "const def g(n: int) -> int:\n    l := {n}\n"
                       "    add(l, n * 2)\n    add(l, 7)\n"
                       "    result l[1] + l.size()\n"
                       "r = g(K0)\ns = g(K1)", CTR),
    "value": "inline def f(x: int) -> int:\n    x += 1\n    result x * 2\n"
             "r = f(a)\ns = f(f(b))",
    "value-aliased": "inline def f(x: int):\n    x = 7\n    r = x\nf(a)\n"
                     "s = a",
    "ref": "inline def f(&x: int):\n    x += K0\nf(a)\nf(a)\nf(b)\nr = a\ns = b",
    "ref-two-same": "inline def f(&x: int, &y: int):\n    x += 1\n    y *= 2\n"
                    "f(a, a)\nf(a, b)",
    "ref-swap": "inline def f(&x: int, &y: int):\n    t := x\n    x = y\n"
                "    y = t\nf(a, b)\nf(b, c)",
    "ref-value-mix": "inline def f(&x: int, y: int):\n    x = 1\n    r = y\n"
                     "f(a, a)",
    "ref-field": "struct S:\n    x: int\ninline def f(&x: int):\n    x += a\n"
                 "t := S(x=b)\nf(t.x)\nr = t.x",
    "const": "inline def f(const n: int, x: int) -> int:\n    result x * n\n"
             "r = f(K0, a)\ns = f(n=3, x=b)",
    "const-cond": "inline def f(const n, x: int) -> int:\n    if n > 0:\n"
                  "        result x\n    else:\n        result -x\n"
                  "r = f(K0, a)",
    "const-loop": "inline def f(const xs) -> int:\n    t := 0\n"
                  "    for i in xs:\n        t = t * a + i\n    result t\n"
                  "r = f({K0, 2, K1})",
    "default": "inline def f(x: int, const n=K0) -> int:\n"
               "    result x + n\nr = f(a)\ns = f(a, n=K1)",
    "default-ref": "inline def f(&x=b):\n    x += 1\nf()\nf(a)\nf()",
    "result-ref": "inline def f(&x: int) -> &int:\n    x += 1\n    result x\n"
                  "f(a) += 5\nr = f(b)\nf(f(c)) = 3",
    "result-ref-bind": "inline def f() -> &int:\n    result a\n&x = f()\n"
                       "x += K0\nr = a",
    "result-const": "inline def f(const n) -> const int:\n    result n + 1\n"
                    "const A = f(K0)\nr = a * A",
    "result-const-struct": "inline def f(const n) -> const Any:\n"
                           "    result {n, n}\nfor i in f(K0):\n    r += i",
    "no-result": "inline def f(x: int):\n    r += x\nf(a)\nf(K0)",
    "nested": "inline def g(x: int) -> int:\n    result x * 2\n"
              "inline def f(x: int) -> int:\n    result g(x) + g(x + 1)\n"
              "r = f(a)\ns = f(g(b))",
    "calls-normal": "def g(x: int) -> int:\n    result x + a\n"
                    "inline def f(x: int) -> int:\n    result g(x) - g(b)\n"
                    "r = f(c)",
    "normal-calls-inline": "inline def g(x: int) -> int:\n    x += 1\n"
                           "    result x\n"
                           "def f(x: int) -> int:\n    result g(x) * g(a)\n"
                           "r = f(b)\ns = f(c)",
    "locals-separate": "inline def f(x: int) -> int:\n    t := x\n    t += 1\n"
                       "    result t\nu := f(a)\nv := f(b)\nr = u\ns = v",
    "result-alias": "inline def f(x: int) -> int:\n    result x\nu := f(a)\n"
                    "a = 5\nr = u",
    "result-after-change": "inline def f(x: int) -> int:\n    result x\n"
                           "    x += 1\n    r = x\ns = f(a)",
    "result-cond": "inline def f(x: int) -> int:\n    result 1\n"
                   "    if x > K0:\n        result 2\nr = f(a)\ns = f(b)",
    "result-in-branches": "inline def f(x: int) -> int:\n    if x > K0:\n"
                          "        result x\n    elif x == 0:\n"
                          "        result 5\n    else:\n        result -x\n"
                          "r = f(a) + f(b)",
    "in-if": "inline def f(&x: int):\n    if x > 0:\n        x = 0\n"
             "    else:\n        x = 1\nif a > b:\n    f(a)\nelse:\n    f(b)",
    "in-while": "inline def f(&x: int):\n    x += 1\nwhile a < 2:\n    f(a)\n"
                "    f(r)",
    "ref-bool": "inline def f(&p: bool):\n    p = not p\np := a > b\nf(p)\n"
                "r = int(p)\nf(p)\ns = int(p)",
    "ref-struct": "struct S:\n    x: int\n    y: int\ninline def f(&t: S):\n"
                  "    swap(t.x, t.y)\nt := S(x=a, y=b)\nf(t)\nr = t.x\n"
                  "s = t.y",
    "ref-of-ref": "&x = a\n&y = x\ny += 1\nr = x\nx = K0\ns = a",
    "ref-in-func": "def f():\n    &x = a\n    x += b\nf()\nf()\nr = a",
    "ref-scope": "inline def f(&x: int):\n    &y = x\n    y += 1\nf(a)\nf(b)",
    "shadow": "x := a\ninline def f(x: int) -> int:\n    x += 1\n    result x\n"
              "r = f(b)\ns = x",
    "static-scope": "x := a\ninline def f() -> int:\n    result x\n"
                    "def g() -> int:\n    x := b\n    result f() + x\n"
                    "r = g()",
    "func-arg": "inline def ap(const f, x: int) -> int:\n    result f(f(x))\n"
                "def g(x: int) -> int:\n    result x + K0\n"
                "inline def h(x: int) -> int:\n    result x * 2\n"
                "r = ap(g, a)\ns = ap(h, b)",
    "str-arg": "inline def say(const t):\n    /say ${t}\nsay(\"hi\")\n"
               "say(\"x\" + \"y\")",
    "str-arg-int": "inline def say(const t):\n    /say n=${t};\nsay(K0)\n"
                   "say(K0 + 1)",
    "cmd-each": "inline def f(const n):\n    /say ${n}\n    r += n\n"
                "for i in {1, 2, K0}:\n    f(i)",
    "group-arg": "inline def f(x: int, y: int) -> int:\n    result y - x\n"
                 "r = f(a + b, a * b)\ns = f(K0 - a, -(b - c))",
    "bool-arg": "inline def f(p: bool) -> int:\n    if p:\n        p = False\n"
                "        result 1\n    else:\n        p = True\n"
                "        result 2\nr = f(a > b)\ns = f(not (a > b and b > c))",
    # compile-time functions
    "ct-fact": ("const def fact(x: int) -> int:\n    res := 1\n"
                "    while x > 1:\n        res *= x\n        x -= 1\n"
                "    result res\nr = fact(K0) + a\ns = fact(3)",
                {"K0": (-2, 13)}),
    "ct-if": "const def f(x: int, y: int) -> int:\n    if x > y:\n"
             "        result x\n    elif x == y:\n        result 0\n"
             "    else:\n        result y\nr = f(K0, K1)",
    "ct-arith": "const def f(x: int, y: int) -> int:\n"
                "    z := x * y\n    z -= x\n    result z + y\n"
                "r = f(K0, K1)",
    "ct-div": ("const def f(x: int, y: int) -> int:\n    z := x\n"
               "    z /= y\n    result z * 100 + x % y\nr = f(K0, K1)",
               {"K0": (-40, 40), "K1": (-5, 5)}),
    "ct-list": ("const def f(n: int) -> list:\n    xs := {}\n"
                "    i := 0\n    while i < n:\n        xs.append(i * i)\n"
                "        i += 1\n    result xs\nfor i in f(K0):\n"
                "    r = r * 3 + i\nfor j in f(2):\n    s += j",
                {"K0": (0, 5)}),
    "ct-swapvars": "const def f(x: int, y: int) -> int:\n    t := x\n"
                   "    x = y\n    y = t\n    result x - y\nr = f(K0, K1)",
    "ct-ref": "const def f(x: int) -> int:\n    &y = x\n    y += 1\n"
              "    result x\nr = f(K0)",
    "ct-cond-chain": "const def f(x: int) -> bool:\n"
                     "    result 0 <= x < 10 and x != 5 or x == K1\n"
                     "if f(K0):\n    r = 1\nelse:\n    r = 2",
    "ct-str": "const def f(n: int) -> Any:\n    result \"v${n}\" + \"x\"\n"
              "const T = f(K0)\n/say ${T}",
    "ct-default": "const def f(x: int, y=K0) -> int:\n    result x - y\n"
                  "r = f(K1)\ns = f(K1, y=2)",
    "ct-args-unchanged": "const A = K0\nconst def f(x: int) -> int:\n"
                         "    x += 1\n    result x\nr = f(A)\ns = A",
    "ct-list-args-unchanged": "const A = {1, K0}\n"
                              "const def f(x) -> int:\n"
                              "    y := x.copy()\n    y.append(5)\n"
                              "    result y.size()\n"
                              "r = f(A)\nfor i in A:\n    s = s * 10 + i",
    "ct-for": "const def f(xs) -> int:\n    t := 0\n    for x in xs:\n"
              "        t = t * 2 + x\n    result t\nr = f({K0, K1, 3})",
    "ct-map": ("const def f(n: int) -> int:\n    m := {1: K1, 2: 20}\n"
               "    m[1] += n\n    result m.get(n, 7)\nr = f(K0)",
               {"K0": (0, 4)}),
    "ct-global-const": "const A = K0, B = A * 2\n"
                       "const def f(x: int) -> int:\n    result x + A - B\n"
                       "r = f(K1)",
    "ct-nested-call": "const def g(x: int) -> int:\n    result x * 2\n"
                      "const def f(x: int) -> int:\n"
                      "    result g(x + 1) - g(3)\nr = f(K0)",
    "ct-not-const-arg": "const def f(x: int) -> int:\n    result x\nr = f(a)",
    "ct-no-runtime-var": "const def f() -> int:\n    result a\nr = f()",
    "ct-list-frozen": "const def f(xs) -> int:\n    xs.append(1)\n"
                      "    result xs.size()\nr = f({1})",
    "ct-range-frozen": "const def f() -> int:\n    xs := list.range(3)\n"
                       "    xs[0] = 1\n    result xs.size()\nr = f()",
    "ct-copy-list": "const def f(xs) -> list:\n    ys := xs.copy()\n"
                    "    ys[0] = K0\n    ys.reverse()\n    ys.insert(1, 9)\n"
                    "    result ys\nconst A = {1, 2, 3}\n"
                    "for i in f(A):\n    r = r * 3 + i\n"
                    "for i in A:\n    s = s * 3 + i",
    "bad-no-result": "inline def f(x: int) -> int:\n    pass\nr = f(a)",
    "two-const": "inline def f() -> const int:\n    result 1\n"
                 "    if a > 2:\n        result 2\nr = f()",
    "two-const-else": "inline def f() -> const int:\n    if a > 2:\n"
                      "        result 1\n    else:\n        result 2\n"
                      "r = f()",
    "two-const-same": "inline def f() -> const int:\n    result K0\n"
                      "    result K0\nr = f()",
    "two-ref": "inline def f() -> &int:\n    result a\n    result b\n"
               "r = f()",
    "two-ref-cond": "inline def f() -> &int:\n    if c > 2:\n"
                    "        result a\n    else:\n        result b\n"
                    "f() += 1\nr = a\ns = b",
    "two-ref-loop": "inline def f() -> &int:\n    for i in {1, 2}:\n"
                    "        result a\nr = f()",
    "one-const-cond": "inline def f() -> const int:\n    if a > 2:\n"
                      "        result 1\nr = f()\ns = f() * K0",
    "one-const-loop": "inline def f() -> const int:\n    for i in {1}:\n"
                      "        result i + K0\nr = f()",
    "one-const-while": "inline def f() -> const int:\n    i := 0\n"
                       "    while i < 2:\n        i += 1\n"
                       "        result 3\nr = f()",
    "two-value": "inline def f() -> int:\n    result 1\n    if a > 2:\n"
                 "        result a\n    s += 1\nr = f()",
    "two-value-loop": "inline def f() -> int:\n    for i in {1, 2}:\n"
                      "        if a > i:\n            result i\n"
                      "    if a < 2:\n        result K0\nr = f()",
    "no-const": "inline def f() -> const int:\n    s = 1\nr = f()",
    "no-ref": "inline def f() -> &int:\n    s = 1\nr = f()",
    "no-value-inline": "inline def f() -> int:\n    s = 1\nr = f()",
    "const-in-nested": "inline def f(const n) -> const int:\n"
                       "    inline def g(const m) -> const int:\n"
                       "        result m * 2\n    result g(n) + 1\n"
                       "r = f(K0 / 1000) + f(3)",
    "result-after-call": "inline def f() -> const int:\n"
                         "    inline def g() -> const int:\n"
                         "        result 4\n    x := g()\n    r = x\n"
                         "    result 5\ns = f() + f()",
    "bad-result-none": "inline def f(x: int):\n    result x\nf(a)",
    "bad-ref-literal": "inline def f(&x: int):\n    x = 1\nf(K0)",
    "bad-ref-expr": "inline def f(&x: int):\n    x = 1\nf(a + b)",
    "bad-const-var": "inline def f(const x: int) -> int:\n    result x\n"
                     "r = f(a)",
    "bad-const-result": "inline def f(x: int) -> const int:\n    result x\n"
                        "r = f(a)",
    "bad-ref-result": "inline def f(x: int) -> &int:\n    result x + 1\n"
                      "r = f(a)",
    "bad-two-ref-results": "inline def f() -> &int:\n    result a\n"
                           "    result b\nr = f()",
    "bad-type": "inline def f(const x: int) -> int:\n    result x\n"
                "r = f(True)",
    "bad-assign-const": "inline def f(const x: int):\n    x = 1\nf(K0)",
    "bad-ref-wrong-type": "inline def f(&x: bool):\n    x = True\nf(a)",
    "bad-result-type": "inline def f(x: int) -> bool:\n    result x\n"
                       "f(a)",
    "bad-ct-result-type": "const def f(x: int) -> bool:\n    result x\n"
                          "f(K0)",
}


def jobs(tier, seed):
    r = rng(seed, "p05")
    out = []
    for n, b in HAND.items():
        kw = {}
        if isinstance(b, tuple):
            b, kw["ranges"] = b
        out.append(tv("hand-" + n, b, **kw))
    n = 130 if tier == "quick" else 1500
    for i in range(n):
        pre, body = PG(r, size=r.choice([2, 3, 4]), depth=2, maxk=2, div=.02,
                       mul=.04, loops=i % 4 == 0, inline=True,
                       structs=i % 5 == 0,
                       funcs=r.choice([2, 3, 4])).program()
        out.append(tv("prog%d" % i, body, pre=pre + PRE,
                      cfg={"optimizer": i % 4 != 3}, max_paths=60))
    for i in range(60 if tier == "quick" else 900):
        out.append(tv("ct%d" % i, CG(r, r.choice([2, 3, 4]),
                                     r.choice([3, 4, 5])).program(),
                      max_paths=40, ranges={"K0": (-4, 6), "K1": (-4, 6)}))
    return out
