"""P03: control flow."""
from .common import *
from .progen import PG

BOUNDS = ("while loops unrolled up to K=3 iterations (programs that loop "
          "longer are cut by assumption); all literals and initial scores "
          "symbolic over int32; seeded program shapes of up to ~25 "
          "statements, nesting depth 3, plus hand templates")
OUTSIDE = "loops of more than 3 iterations; deeper nesting"
ASSUMPTIONS = ass_arith()

HAND = {
    "if-assign-cond": "if a == K0:\n    a = b\nelif a == b:\n    r = 2\n"
                      "else:\n    r = 3",
    "if-cond-var": "p := a > b\nif p:\n    p = False\n    r = 1\nelse:\n"
                   "    r = 2\ns = int(p)",
    "if-cond-var-and": "p := a > b\nq := b > c\nif p and q:\n    p = False\n"
                       "    q = False\n    r = 1\nelif p or q:\n    r = 2\n"
                       "else:\n    r = 3\ns = int(p) + 2 * int(q)",
    "if-cond-not-var": "p := a > b\nif not p:\n    p = True\n    r = 1\n"
                       "else:\n    r = 2\ns = int(p)",
    "if-empty-then": "if a > b:\n    pass\nelse:\n    r = 1",
    "if-empty-else": "if a > b:\n    r = 1\nelse:\n    pass",
    "if-both-empty": "if a > b:\n    pass\nelse:\n    pass\nr = 4",
    "if-one-cmd": "if a > K0:\n    /say x\nelse:\n    /say y",
    "if-const": "if K0 > K1:\n    r = 1\nelif K0 == K1:\n    r = 2\nelse:\n"
                "    r = 3",
    "if-const-true": "if True:\n    r = a\nelse:\n    r = b",
    "if-and-many": "if a > b and b > c and c != K0:\n    a = K0\n    b = a\n"
                   "else:\n    c = a",
    "if-or-many": "if a > b or b > c or c == K0:\n    a = c\n    b = c\n"
                  "else:\n    c = b",
    "if-nested": "if a > b:\n    if b > c:\n        r = 1\n        a = c\n"
                 "    else:\n        r = 2\nelse:\n    if a == b:\n"
                 "        r = 3\n    s = 1",
    "if-swap-operands": "if a < b:\n    swap(a, b)\nif b < c:\n"
                        "    swap(b, c)\nif a < b:\n    swap(a, b)",
    "elif-chain": "if a == 0:\n    a = 1\nelif a == 1:\n    a = 2\n"
                  "elif a == 2:\n    a = 3\nelse:\n    a = 0",
    "elif-mutating": "if a > K0:\n    b = c\nelif b > K0:\n    a = K0 + 1\n"
                     "    b = 0\nelif c > K0:\n    c = 0\nelse:\n    r = 1",
    "if-in-if-cond-changed": "if a > 0:\n    a = 0\n    if b > 0:\n"
                             "        b = 0\n        r = 1\n    s = 1\n"
                             "r += a",
    "while-basic": "x := 0\nwhile x < 3:\n    x += 1\n    r += a",
    "while-sym": "x := a\nwhile x < b:\n    x += 1\n    r += x",
    "while-false": "while False:\n    r = 1\ns = 2",
    "while-const": "x := 0\nwhile K0 > K1 and x < 2:\n    x += 1\n    r += 1",
    "while-nested": "x := 0\nwhile x < 2:\n    y := 0\n    while y < 2:\n"
                    "        r += a + y\n        y += 1\n    x += 1",
    "while-cond-group": "while a + b < c:\n    a += 1\n    b += 1",
    "while-cond-func": "def f(x: int) -> bool:\n    result x < b\n"
                       "while f(a):\n    a += 1\n    r += 1",
    "while-cond-func-int": "def f(x: int) -> int:\n    result x * 2\n"
                           "while f(a) < b:\n    a += 1",
    "while-cond-and-func": "def f(x: int) -> bool:\n    result x < b\n"
                           "while f(a) and r < 2:\n    a += 1\n    r += 1",
    "while-long-cond": "while a * 2 + b * 2 < c:\n    a += 1\n    r += a",
    "while-long-cond2": "while a * 2 - b * 3 + r * 5 < c * K0:\n"
                        "    a += 1\n    r += b",
    "while-long-cond3": "while (a + b) * (a - c) != r and s < 2:\n"
                        "    a += 1\n    s += 1",
    "while-long-cond-group": "while a * b + c < r * b + s or s * 2 + a * 3 "
                             "== r:\n    a += 1\n    b -= 1",
    "while-two-long": "while a * 2 + b * 2 < c:\n    a += 1\n"
                      "while a * 2 + b * 2 < c + 4:\n    b += 1\nr = b",
    "if-long-cond": "if a * 2 + b * 2 < c * 3 - r:\n    a = 0\n    r = 1\n"
                    "elif a * 2 + b * 2 == c:\n    r = 2\n    b = a\n"
                    "else:\n    r = 3\n    a = 7",
    "elif-pass": "if a + b > c * 2:\n    pass\nelse:\n    r = 1\n"
                 "    a = b",
    "elif-pass2": "if a + b > c * 2:\n    pass\nelif a > K0:\n    pass\n"
                  "else:\n    r = 1\n    s = 2",
    "elif-pass3": "if a > b:\n    r = 1\n    a = 2\nelif a + c > b * 2:\n"
                  "    pass\nelse:\n    r = 4\n    b = 3\ns = a + b",
    "elif-pass4": "if a * 2 > b + c and c > K0:\n    pass\n"
                  "elif b * 2 > a + c or a == K1:\n    r = 1\n    s = 2\n"
                  "else:\n    pass",
    "while-empty": "def f() -> bool:\n    a += 1\n    result a < b\n"
                   "while f():\n    pass\nr = 1",
    "while-or": "while a < 1 or b < 1:\n    a += 1\n    b += 1",
    "while-var": "p := a > 0\nwhile p:\n    a -= 1\n    p = a > 0\n    r += 1",
    "while-not-var": "p := a > 0\nwhile not p:\n    a += 1\n    p = a > 0",
    "while-if": "x := 0\nwhile x < 3:\n    if x == a:\n        r = x\n"
                "    else:\n        s += 1\n    x += 1",
    "while-cmd": "x := 0\nwhile x < a:\n    /say hi\n    x += 1",
    "while-in-func": "def f(n: int) -> int:\n    t := 0\n    i := 0\n"
                     "    while i < n:\n        t += i\n        i += 1\n"
                     "    result t\nr = f(a)\ns = f(2)",
    "while-chain-cond": "while 0 <= a < b:\n    a += 1",
    "for-list": "for i in {K0, 2, K1}:\n    r = r * 2 + i",
    "for-list-vars": "for i in {1, 2}:\n    x := i * a\n    r += x",
    "for-nested": "for i in {1, 2}:\n    for j in {3, 4}:\n"
                  "        r += i * j * a",
    "for-if": "for i in {1, 2, 3}:\n    if a == i:\n        r = i\n"
              "    elif a > i:\n        s += i",
    "for-empty": "for i in {}:\n    r = 1\ns = a",
    "for-cmd": "for i in {1, 2}:\n    /say ${i}",
    "for-func": "def f(x: int) -> int:\n    result x + a\n"
                "for i in {1, K0}:\n    r += f(i)",
    "while-for": "x := 0\nwhile x < 2:\n    for i in {1, 2}:\n"
                 "        r += i * x\n    x += 1",
    "for-while": "for i in {1, 2}:\n    x := 0\n    while x < i:\n"
                 "        r += 1\n        x += 1",
    "if-while-same": "if a > 0:\n    while a > 0:\n        a -= 1\nelse:\n"
                     "    while a < 0:\n        a += 1\nr = a",
    "if-cond-expr-mutated": "if a + b > c:\n    a = 0\n    b = 0\n    c = 1\n"
                            "else:\n    a = 1\n    c = 0",
    "if-cond-copy": "p := a > b\nq := p\nif q:\n    p = not p\n    q = not q\n"
                    "else:\n    q = True\nr = int(p) + int(q) * 2",
    "if-in-func-result": "def f(x: int) -> int:\n    if x > K0:\n"
                         "        result 1\n    elif x == K0:\n"
                         "        result 2\n    else:\n        result 3\n"
                         "r = f(a)\ns = f(b)",
    "result-no-return": "def f(x: int) -> int:\n    result x\n    if x > 0:\n"
                        "        result x + 1\n    b = 7\nr = f(a)",
    "cond-bool-arg": "def f(p: bool):\n    if p:\n        p = False\n"
                     "        r = 1\n    else:\n        r = 2\nf(a > b)",

}


def jobs(tier, seed):
    r = rng(seed, "p03")
    out = [tv("hand-" + n, b) for n, b in HAND.items()]
    out += [tv("hand-noopt-" + n, b, cfg={"optimizer": False})
            for n, b in HAND.items()]
    n = 110 if tier == "quick" else 1500
    for i in range(n):
        pre, body = PG(r, size=r.choice([3, 4, 5, 6]), depth=3,
                       maxk=2, div=.03).program()
        out.append(tv("prog%d" % i, body, pre=pre + PRE,
                      cfg={"optimizer": i % 4 != 3}, max_paths=60))
    return out
