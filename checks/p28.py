"""P28: names resolve lexically; every scope is separate."""
from .common import *

BOUNDS = ("programs of up to 25 lines with up to 4 nested scopes (functions "
          "of all kinds, structs, branches, loops, interfaces); a pool of 3 "
          "names (own ones or those of builtins) declared, shadowed, assigned and read at random places; all "
          "values symbolic int32; loops up to 3 iterations")
OUTSIDE = "names of modules (P12); entity members (P16, P18)"
ASSUMPTIONS = ass_arith()

HAND = {
    "shadow-param": "x := a\ndef f(x: int) -> int:\n    x += 1\n    result x\n"
                    "r = f(b) * 10 + x\n",
    "shadow-local": "x := a\ndef f():\n    x := b\n    x += 1\nf()\nr = x\n",
    "global-assign": "x := a\ndef f():\n    x = b\nf()\nr = x\n",
    "local-late": "x := a\ndef f() -> int:\n    y := x\n    x := b\n"
                  "    x += 1\n    result x * 3 + y\nr = f() + x * 7\n",
    "decl-twice": "x := a\nx := b\n", "decl-twice2": "x: int\nx: int\n",
    "decl-func": "x := a\ndef x():\n    pass\n",
    "func-twice": "def f():\n    pass\ndef f():\n    pass\n",
    "param-twice": "def f(x: int, x: int):\n    pass\n",
    "param-decl": "def f(x: int):\n    x := 1\n",
    "undef": "r = nothing\n", "undef-call": "nothing()\n",
    "undef-assign": "nothing = 3\n",
    "undef-later": "r = y\ny := a\n",
    "undef-later-func": "def f() -> int:\n    result y\ny := a\nr = f()\n",
    "func-later": "r = f()\ndef f() -> int:\n    result a\n",
    "if-decl": "if a > b:\n    t := a\n    r = t\n",
    "if-decl-both": "if a > b:\n    t := a\n    r = t\nelse:\n    t := b\n"
                    "    r = t + 1\n",
    "if-shadow": "t := a\nif a > b:\n    t := b\n    t += 5\nr = t\n",
    "if-assign": "t := a\nif a > b:\n    t = b\n    t += 5\nr = t\n",
    "elif-decl": "if a > 5:\n    t := a\n    r = t\nelif a > b:\n    t := b\n"
                 "    r = t\nelse:\n    t := c\n    r = t\n",
    "while-decl": "i := 0\nwhile i < 2:\n    t := i * a\n    r += t\n"
                  "    i += 1\n",
    "while-decl-after": "i := 0\nwhile i < 2:\n    t := i\n    i += 1\n"
                        "r = t\n",
    "if-decl-again": "if a > b:\n    t := a\n    r = t\nt := b\n",
    "while-shadow": "t := a\ni := 0\nwhile i < 2:\n    t := b\n    t += 1\n"
                    "    i += 1\nr = t\n",
    "for-var": "i := a\nfor i in {1, 2}:\n    r += i\nr += i\n",
    "for-var-after": "for i in {1, 2}:\n    r += i\nr += i\n",
    "for-decl": "for i in {1, 2}:\n    t := i * a\n    r += t\n",
    "for-decl-after": "for i in {1, 2}:\n    t := i\nr = t\n",
    "for-shadow": "t := a\nfor i in {1, 2}:\n    t := b\n    t += i\nr = t\n",
    "for-nested": "for i in {1, 2}:\n    for i in {3, 4}:\n        r += i\n"
                  "    r += i * 100\n",
    "interface-local": "x := a\ninterface p:\n    x := b\n    r = x\ns = x\n",
    "interface-global": "x := a\ninterface p:\n    x += b\n    r = x\n",
    "interface-two": "interface p:\n    t := a\n    r = t\n"
                     "interface q:\n    t := b\n    s = t\n",
    "nested-func": "def f(x: int) -> int:\n    y := x * 2\n"
                   "    def g(z: int) -> int:\n        result z + y\n"
                   "    result g(x) + g(1)\nr = f(a)\n",
    "nested-shadow": "x := a\ndef f() -> int:\n    x := b\n"
                     "    def g() -> int:\n        x := c\n        x += 1\n"
                     "        result x\n    y := g()\n    result x + y * 3\n"
                     "r = f() + x\n",
    "nested-assign": "x := a\ndef f() -> int:\n    x := b\n"
                     "    def g():\n        x = c\n    g()\n    result x\n"
                     "r = f() + x * 5\n",
    "nested-escape": "def f():\n    def g():\n        pass\n    g()\nf()\n"
                     "g()\n",
    "inline-lexical": "x := a\ninline def f() -> int:\n    result x\n"
                      "def g(x: int) -> int:\n    result f() + x * 3\n"
                      "r = g(b)\n",
    "inline-local": "inline def f(n: int) -> int:\n    t := n * 2\n"
                    "    result t\nt := a\nr = f(b) + t\n",
    "inline-twice": "inline def f(n: int) -> int:\n    t := n\n    t += a\n"
                    "    result t\nr = f(1) + f(b) * 3\n",
    "inline-nested": "inline def f(n: int) -> int:\n"
                     "    inline def g(m: int) -> int:\n"
                     "        result m + n\n    result g(1) + g(n)\n"
                     "n := c\nr = f(a) + f(b) * 5 + n\n",
    "inline-param-shadow": "inline def f(x: int) -> int:\n"
                           "    inline def g(x: int) -> int:\n"
                           "        x += 1\n        result x\n"
                           "    y := g(x + 1)\n    result x + y * 3\n"
                           "r = f(a)\n",
    "inline-const-param": "inline def f(const x) -> int:\n"
                          "    result x + a\nconst x = 3\n"
                          "r = f(5) + x\n",
    "inline-ref-param": "x := a\ny := b\ninline def f(&x: int):\n"
                        "    x += 1\nf(y)\nr = x\ns = y\n",
    "const-def": "const x = 5\nconst def f(y: int) -> int:\n    x := y\n"
                 "    x += 1\n    result x\nr = f(3) + x\n",
    "const-def-if": "const def f(y: int) -> int:\n    t := 1\n"
                    "    if y > 2:\n        t := 9\n        t += 1\n"
                    "    result t\nr = f(3) + f(1)\n",
    "const-shadow": "const x = 5\ndef f() -> int:\n    const x = 7\n"
                    "    result x\nr = f() * 10 + x\n",
    "const-assign": "const x = 5\nx = 6\n",
    "const-redecl": "const x = 5\nconst x = 6\n",
    "ref-shadow": "x := a\ny := b\n&z = x\ndef f():\n    &z = y\n    z += 1\n"
                  "f()\nz += 10\nr = x\ns = y\n",
    "struct-scope": "x := a\nstruct S:\n    x: int\np := S(x=b)\n"
                    "r = p.x * 3 + x\n",
    "struct-later": "p := S()\nstruct S:\n    x: int\n",
    "struct-in-func": "def f(n: int) -> int:\n    struct S:\n"
                      "        x: int\n    p := S(x=n)\n    result p.x\n"
                      "r = f(a)\n",
    "struct-in-func-out": "def f():\n    struct S:\n        x: int\nf()\n"
                          "p := S()\n",
    "shadow-builtin": "def f() -> int:\n    int := 5\n    result a\n",
    "shadow-builtin-func": "def swap(x: int, y: int) -> int:\n"
                           "    result x * 10 + y\ndef f() -> int:\n"
                           "    result swap(a, b)\nr = f()\n",
    "shadow-builtin-deep": "list := a\ndef f() -> int:\n"
                           "    def g() -> int:\n        list += 1\n"
                           "        result list\n    result g() + list\n"
                           "r = f() * 3 + list\n",
    "shadow-builtin-mid": "def f() -> int:\n    map := a\n"
                          "    def g() -> int:\n        result map + 1\n"
                          "    result g()\nr = f()\n"
                          "const def h() -> int:\n    m := {1: 2}\n"
                          "    result map.from_keys({1, 2}, 5)[1]\n"
                          "s = h()\n",
    "shadow-builtin-inline": "Pos := a\ninline def f(n: int) -> int:\n"
                             "    Pos += n\n    result Pos\n"
                             "r = f(b)\ndef g() -> int:\n"
                             "    result f(2) + Pos\ns = g()\n",
    "shadow-builtin-const": "const list = 7\nconst def f() -> int:\n"
                            "    result list + 1\nr = f()\n",
    "shadow-builtin-const-local": "const def f() -> int:\n"
                                  "    list := {1, 2}\n"
                                  "    result list.size()\nr = f()\n",
    "shadow-builtin-const-def": "const def swap(x: int) -> int:\n"
                                "    result x + 1\n"
                                "const def f() -> int:\n"
                                "    result swap(4)\nr = f()\n",
    "shadow-builtin-iface": "scb := a\ninterface p:\n    r = scb\n"
                            "    scb += 1\n",
    "shadow-builtin-struct": "struct list:\n    x: int\n"
                             "def f(n: list) -> int:\n    result n.x\n"
                             "p := list(x=a)\nr = f(p)\n",
    "shadow-builtin-param": "def f(swap: int) -> int:\n"
                            "    if swap > 3:\n        swap += b\n"
                            "    result swap\nr = f(a)\nx := c\n"
                            "swap(r, x)\ns = x\n",
    "shadow-builtin-loop": "def f() -> int:\n    t := a\n"
                           "    for map in {1, 2}:\n        t += map\n"
                           "    result t\nr = f()\n",
    "shadow-builtin-module": "import math as swap\ndef f() -> int:\n"
                             "    result swap.max(a, b)\nr = f()\n",
    "shadow-builtin-from": "from math import min as list\n"
                           "def f() -> int:\n    result list(a, b)\n"
                           "r = f()\n",
    "builtin-still-there": "def f():\n    swap := 1\n    r += swap\n"
                           "f()\nx := a\nswap(x, s)\nr += x\n",
    "shadow-print": "print := a\nr = print + 1\n",
    "closure-early": "def f(x: int) -> int:\n    def g(n: int) -> int:\n"
                     "        x += n\n        result x\n    y := g(b)\n"
                     "    if a > 1:\n        y += g(c)\n"
                     "    result y + x * 5\nr = f(a)\n",
    "closure-early-global": "x := a\ndef f() -> int:\n"
                            "    def g() -> int:\n        x += 7\n"
                            "        result x\n    x := b\n"
                            "    y := g()\n    result x + y * 5\n"
                            "r = f() * 3 + x\n",
    "self-ref": "x := x\n",
    "self-ref-shadow": "x := a\ndef f() -> int:\n    x := x + 1\n"
                       "    result x\nr = f() + x\n",
    "default-scope": "x := a\ndef f(n: int, m=7) -> int:\n    x := n + m\n"
                     "    result x\nr = f(b) + x\n",
    "default-const": "const d = 7\ndef g() -> int:\n    const d = 9\n"
                     "    def f(m=d) -> int:\n        result m\n"
                     "    result f()\nr = g() + d\n",
    "call-args": "x := a\ndef f(y: int) -> int:\n    x := 3\n"
                 "    result y + x\nr = f(x) + f(y=x)\n",
    "kw-name": "y := a\ndef f(y: int, z: int) -> int:\n"
               "    result y - z\nr = f(z=y, y=b)\n",
}


def jobs(tier, seed):
    r = rng(seed, "p28")
    out = []
    for n, m in HAND.items():
        e = ["main", "p"] if "interface p" in m else ["main"]
        if "interface q" in m:
            e.append("q")
        out.append(tv(n, m, entry=e))
    for i in range(320 if tier == "quick" else 6000):
        bad = i % 5 == 4
        NAMES[:] = XYZ if bad or i % 2 else r.sample(BUILTINS, 3)
        m, e = randprog(r, bad)
        out.append(tv("prog%d" % i, m, entry=e, max_paths=40,
                      cfg={"optimizer": i % 3 != 2}))
    return out


XYZ = ["x", "y", "z"]
NAMES = list(XYZ)
# builtin names a program may use for its own things
BUILTINS = ["swap", "list", "map", "Pos", "scb", "upcast", "Rot", "Offset",
            "AbsPos", "Enfilter", "Engroup", "ExternEngroup", "Any"]


def randprog(r, bad):
    n = [0]
    paths = []
    # an inline function called after a branch that may have declared one of
    # its names would read a variable that may be unset
    inl = r.random() < .6

    def val(seen):
        v = [x for x in seen if seen[x] == "int"]
        if bad and r.random() < .06:
            return r.choice([x for x in NAMES if seen.get(x) != "maybe"]
                            or ["a"])
        c = r.choice(["a", "b", "c", str(r.randrange(9))] + v * 3)
        if r.random() < .3:
            return "%s %s %s" % (c, r.choice("+-"), r.choice(["1", "a", c]))
        return c

    def block(ind, outer, depth, fn, k=None, own=None, branch=False):
        """outer: visible names; own: names declared in this scope."""
        own = {} if own is None else own
        out = []
        fns = []
        for _ in range(k or r.choice([2, 3, 4])):
            seen = dict(outer, **own)
            c = r.randrange(14 if depth else 6)
            if c < 2:
                x = r.choice(NAMES)
                if branch and inl and x in seen or \
                        x in own and not (bad and r.random() < .1):
                    c = 2
                else:
                    out.append(ind + "%s := %s" % (x, val(seen)))
                    own[x] = "int"
            if c in (2, 3):
                v = [x for x in seen if seen[x] == "int"] or ["r"]
                if bad and r.random() < .1:
                    v = [x for x in NAMES if seen.get(x) != "maybe"] or v
                out.append(ind + "%s %s %s" % (r.choice(v), r.choice(
                    ["=", "+="]), val(seen)))
            elif c in (4, 5):
                out.append(ind + "%s += %s" % (r.choice("rs"), val(seen)))
            elif c in (6, 7):
                out.append(ind + "if %s > %s:" % (val(seen), val(seen)))
                # a branch shares the scope; what it declares may be unset
                # (and cannot be declared again) afterwards
                for word in ["", "else:"][:r.choice([1, 2])]:
                    if word:
                        out.append(ind + word)
                    o2 = dict(own)
                    out += block(ind + "    ", outer, depth - 1, fn, None,
                                 o2, True)
                    for x in o2:
                        own.setdefault(x, "maybe")
            elif c == 8:
                i = "i%d" % n[0] if r.random() < .5 else r.choice(NAMES)
                n[0] += 1
                out.append(ind + "for %s in {%d, %d}:" % (
                    i, r.randrange(5), r.randrange(5)))
                # (loop names are constants: readable, not assignable)
                s2 = dict(seen)
                s2[i] = "const"
                out += block(ind + "    ", s2, depth - 1, fn)
            elif c == 9 and not fn and depth == 3:
                p = "p%d" % len(paths)
                paths.append(p)
                out.append(ind + "interface %s:" % p)
                out += block(ind + "    ", seen, depth - 1, True)
                out.append(ind + "    r += 1")
            elif c >= 10:
                f = "f%d" % n[0]
                n[0] += 1
                kind = r.choice(["", "inline "] if inl else [""])
                p = r.choice(NAMES)
                out.append(ind + "%sdef %s(%s: int) -> int:" % (kind, f, p))
                s2 = {p: "int"}
                body = block(ind + "    ", seen, depth - 1, True, None, s2)
                s2 = dict(seen, **s2)
                body.append(ind + "    result %s" % val(s2))
                out += body
                fns.append(f)
            if fns and r.random() < .5:
                seen = dict(outer, **own)
                out.append(ind + "%s = %s(%s)" % (
                    r.choice(["r", "s"] + [x for x in seen
                                           if seen[x] == "int"]),
                    r.choice(fns), val(seen)))
        return out or [ind + "pass"]
    m = "\n".join(block("", {}, 3, False, r.choice([4, 5, 6]))) + "\n"
    return m, ["main"] + paths
