"""P16: entity variables and their attributes."""
from .common import *
from . import entgen

BOUNDS = ("programs of at most ~25 statements with up to 5 entity variables "
          "and 4 created entities, up to 2 entities already in the world; "
          "entity attributes, integer scores and conditions symbolic over "
          "int32, so every aliasing pattern reachable through them is "
          "covered")
OUTSIDE = ("reading an attribute never set, using an entity variable never "
           "assigned; entities that die or unload between commands; the "
           "order of attribute and score writes of different entities")
ASSUMPTIONS = ass_arith(["an entity stays where the program put it and "
                         "alive during the run"])

T = """entity T:
    v: int
    f: bool
"""
P0 = "const p = Pos(0, 64, 0)\n"
MK = T + P0 + 'x := T("cow", p)\ny := T("pig", p)\n'
U = """struct S:
    m: int
    n: bool
entity A:
    v: int
    new():
        new(type="cow", pos=Pos(0, 64, 0))
        self.v = 5
entity B extends A:
    w: int
    st: S
    new(k: int):
        A.new()
        self.w = k + self.v
        self.v += 1
"""
HAND = {
    "field": MK + "x.v = a\ny.v = b\nr = x.v - y.v",
    "field-expr": MK + "x.v = a * 2 + b\ny.v = x.v * x.v - K0\nr = y.v",
    "field-aug": MK + "x.v = a\nx.v += b\nx.v -= K0\ny.v = c\n"
                 "y.v *= x.v\nr = x.v\ns = y.v",
    "field-bool": MK + "x.f = a > b\ny.f = not x.f\nif x.f and not y.f:\n"
                  "    r = K0\nelse:\n    r = K1",
    "field-swap": MK + "x.v = a\ny.v = b\nswap(x.v, y.v)\nr = x.v\ns = y.v",
    "field-self": MK + "x.v = a\nx.v = x.v + x.v\nr = x.v",
    "alias": MK + "x.v = a\ny.v = b\nz := x\nz.v += K0\nx = y\n"
             "r = x.v\ns = z.v",
    "alias-cond": MK + "x.v = a\ny.v = b\nz := x\nif c > K0:\n    z = y\n"
                  "z.v += 1\nr = x.v\ns = y.v",
    "alias-loop": MK + "x.v = a\ny.v = b\ni := 0\nz := x\nwhile i < 2:\n"
                  "    t := x\n    x = y\n    y = t\n    x.v *= 3\n"
                  "    i += 1\nr = x.v\ns = y.v\nz.v = 0\nc = x.v",
    "self-alias": MK + "x.v = a\n&z = x\nx = z\nx.v += b\nr = z.v\nz = x\n"
                  "s = x.v",
    "self-upcast": U + "y := B(a)\n&z = upcast(y, A)\nx := A()\nx = z\n"
                   "r = x.v\nx = upcast(x, A)\nx.v += 1\ns = y.v",
    "self-upcast2": MK + "x.v = a\nx = upcast(x, T)\nr = x.v\n"
                    "if b > K0:\n    x = upcast(x, T)\n    x.v += 1\n"
                    "s = x.v",
    "self-inline": MK + "x.v = a\ninline def f(&e: T, g: T):\n    e = g\n"
                   "inline def h(&e: T, &g: T):\n    e = g\n"
                   "f(x, x)\nh(x, x)\nr = x.v\nh(x, y)\ny.v = b\ns = x.v",
    "self-inline-result": MK + "x.v = a\ninline def f(&e: T) -> &T:\n"
                          "    result e\nx = f(x)\nr = x.v\n"
                          "f(x) = f(x)\ns = x.v\ny.v = b\nf(x) = y\n"
                          "c = x.v",
    "self-result": MK + "x.v = a\ndef f(e: T) -> T:\n    result e\n"
                   "x = f(x)\nr = x.v\nx = f(f(x))\ns = x.v",
    "self-loop": MK + "x.v = a\ny.v = b\n&z = x\ni := 0\nwhile i < 2:\n"
                 "    x = z\n    x.v += 1\n    z = x\n    i += 1\nr = z.v",
    "swap-ents": MK + "x.v = a\ny.v = b\nswap(x, y)\nr = x.v\ns = y.v",
    "swap-ents-if": MK + "x.v = a\ny.v = b\nif a > c:\n    swap(x, y)\n"
                    "x.v += K0\nr = x.v\ns = y.v",
    "swap-ents-self": MK + "x.v = a\ny.v = b\nswap(x, x)\nr = x.v\ns = y.v",
    "swap-ents-alias": MK + "x.v = a\ny.v = b\nt := x\nswap(t, y)\n"
                       "r = x.v * 4 + y.v\ns = t.v",
    "swap-vars": MK + "x.v = a\ny.v = b\nt := x\nx = y\ny = t\nr = x.v\n"
                 "s = y.v",
    "self-assign": MK + "x.v = a\nx = x\nr = x.v\nz := x\nx = z\ns = x.v",
    "chain": MK + "z := x\nw := z\nx = y\nw.v = a\nx.v = b\nr = z.v\n"
             "s = y.v",
    "say": MK + "/say ${x} and ${y}\nz := x\nif a > 0:\n    z = y\n"
           "/effect ${z} speed 1\nx = y\n/kill ${x}",
    "declared": T + P0 + 'z: T\nz = T("cow", p)\nz.v = a\nr = z.v',
    "declared-cond": T + P0 + 'z: T\nif a > 0:\n    z = T("cow", p)\n'
                     '    z.v = 1\nelse:\n    z = T("pig", p)\n'
                     '    z.v = 2\nr = z.v\n/say ${z}',
    "new-twice": T + P0 + 'x := T("cow", p)\nx.v = a\ny := x\n'
                 'x = T("cow", p)\nx.v = b\nr = y.v\ns = x.v\n/say ${y}',
    "new-loop": T + P0 + 'x := T("cow", p)\nx.v = a\ni := 0\n'
                'while i < 2:\n    y := x\n    x = T("cow", p)\n'
                '    x.v = y.v + b\n    i += 1\nr = x.v',
    "new-arg": T + P0 + "def f(e: T, n: int) -> int:\n    e.v += n\n"
               "    result e.v\n"
               'x := T("cow", p)\nx.v = a\nr = f(x, b)\ns = x.v',
    "arg-alias": MK + "def f(e: T, g: T):\n    e.v += g.v\n    g.v *= 2\n"
                 "x.v = a\ny.v = b\nf(x, x)\nf(x, y)\nr = x.v\ns = y.v",
    "arg-rebind": MK + "def f(e: T, g: T):\n    e = g\n    e.v = K0\n"
                  "x.v = a\ny.v = b\nf(x, y)\nr = x.v\ns = y.v",
    "arg-inline-ref": MK + "inline def f(&e: T, g: T):\n    e = g\n"
                      "    e.v = K0\nx.v = a\ny.v = b\nf(x, y)\nr = x.v\n"
                      "s = y.v\nx.v = 3\nc = y.v",
    "result": MK + "def pick(k: int) -> T:\n    if k > K0:\n        result x\n"
              "    else:\n        result y\n"
              "x.v = a\ny.v = b\nz := pick(c)\nr = z.v\npick(1).v = 7\n"
              "pick(-1).v += 8\ns = x.v - y.v",
    "result-new": T + P0 + "def mk(k: int) -> T:\n"
                  '    e := T("cow", p)\n    e.v = k\n    result e\n'
                  "x := mk(a)\ny := mk(b)\nr = x.v\ns = y.v\n"
                  "c = mk(K0).v",
    "result-two": MK + "def id(e: T) -> T:\n    result e\n"
                  "x.v = a\ny.v = b\nr = id(x).v - id(y).v",
    "result-inline": MK + "inline def pick(k: int) -> T:\n"
                     "    if k > K0:\n        result x\n"
                     "    else:\n        result y\n"
                     "x.v = a\ny.v = b\nz := pick(c)\nz.v += 1\nr = x.v\n"
                     "s = y.v",
    "default-obj": MK + "x.v = a\ny.v = b\ndef f(e: T, n: int = K0):\n"
                   "    e.v += n\nf(x)\nf(y, n=a)\nr = x.v\ns = y.v",
    "new-methods": U + "x := A()\ny := B(a)\nr = x.v + y.v\ns = y.w",
    "new-method-inline": "entity A:\n    v: int\n    inline new(k: int):\n"
                         '        new(type="cow", pos=Pos(0, 64, 0))\n'
                         "        self.v = k * 2\n"
                         "x := A(a)\ny := A(K0)\nr = x.v\ns = y.v",
    "subtype": U + "y := B(a)\nx: A\nx = y\nx.v += b\nr = y.v\ny.w = x.v\n"
               "s = y.w",
    "subtype-arg": U + "def f(e: A) -> int:\n    e.v *= 2\n    result e.v\n"
                   "y := B(a)\nr = f(y)\nx := A()\ns = f(x) - y.v",
    "struct-field": U + "y := B(a)\ny.st.m = b\ny.st.n = a > b\n"
                    "t := y.st\nt.m += 1\nif y.st.n:\n    r = y.st.m\n"
                    "else:\n    r = t.m",
    "struct-assign": U + "y := B(a)\nz := B(b)\ny.st.m = c\ny.st.n = True\n"
                     "z.st = y.st\nz.st.m *= 2\nr = y.st.m\n"
                     "s = z.st.m\nif z.st.n:\n    s += 1",
    "two-structs": "struct S:\n    m: int\n    n: bool\nentity A:\n    p: S\n"
                   "    q: S\n    v: int\n" + P0 + 'x := A("cow", p)\n'
                   'y := A("pig", p)\nx.p.m = a\nx.q.m = b\nx.v = c\n'
                   "y.p.m = K0\ny.q = x.p\nx.p.n = a > b\nx.q.n = not "
                   "x.p.n\ny.q.n = x.q.n\nr = x.p.m * 3 + x.q.m\n"
                   "s = y.p.m - y.q.m\nif y.q.n:\n    c = x.v + 1",
    "struct-in-struct": "struct S:\n    m: int\nstruct R extends S:\n"
                        "    u: S\n    w: S\nentity A:\n    p: R\n    q: S\n"
                        "entity B extends A:\n    o: R\n" + P0
                        + 'x := B("cow", p)\nx.p.m = a\nx.p.u.m = b\n'
                        "x.p.w.m = c\nx.q.m = K0\nx.o.m = K1\n"
                        "x.o.u = x.p.w\nx.o.w = x.q\nx.p.w = x.o\n"
                        "r = x.p.m + x.p.u.m * 3 + x.p.w.m * 5\n"
                        "s = x.o.m + x.o.u.m * 7 + x.o.w.m * 11 + x.q.m",
    "struct-two-types": "struct S:\n    m: int\nentity A:\n    p: S\n"
                        "entity B:\n    p: S\n" + P0 + 'x := A("cow", p)\n'
                        'y := B("cow", p)\nx.p.m = a\ny.p.m = b\n'
                        "y.p.m += 1\nr = x.p.m\ns = y.p.m",
    "struct-of-entity": T + P0 + "struct H:\n    n: int\n    e: T\n"
                        'h := H()\nh.n = a\nh.e = T("cow", p)\nh.e.v = b\n'
                        'k := h\nk.e.v += 1\nk.e = T("pig", p)\n'
                        "k.e.v = c\nr = h.e.v\ns = k.e.v",
    "none-entity-field": "entity A:\n    v: int\n    new():\n"
                         '        new(type="cow", pos=Pos(1, 2, 3))\n'
                         "x := A()\nx.v = a\n&z = x\nz.v += 1\nr = x.v",
    "ref-var": MK + "x.v = a\ny.v = b\n&z = x\nz = y\nz.v += 1\nr = x.v\n"
               "s = y.v",
    "cond-field": MK + "x.v = a\ny.v = b\nif x.v > y.v:\n    r = x.v\n"
                  "elif x.v == y.v:\n    r = K0\nelse:\n    r = y.v\n"
                  "while x.v > 0 and x.v < 3:\n    x.v -= 1\n    s += 1",
    "print": "import print\n" + MK + "x.v = a\ny.v = b\n"
             'print.tell(print.format("%0 %1", x.v, y.v))\nx = y\nx.v += 1\n'
             'print.tell(print.format("%0", x.v), x)',
    "event": T + P0 + 'x := T("cow", p, event="e")\n'
             'y := T("minecraft:cow", p, name="n")\n'
             'z := T("cow", p, event="e", name="n m")\nx.v = a\n'
             "y.v = b\nz.v = c\nr = x.v + y.v + z.v",
    "pos-of": MK + 'z := T("cow", Pos(x).offset(y=2))\nz.v = a\nx.v = b\n'
              "r = z.v",
    "new-in-fn": T + 'x := T("pig", Pos(0, 0, 0))\nx.v = 9\n' "def f(n: int):\n"
                 '    e := T("cow", Pos(3, 0, 0))\n    e.v = n\n'
                 "    if n > K0:\n        x = e\n"
                 "f(a)\nf(b)\nr = x.v",
}
W = {"types": ["cow", "player"], "tags": ["red"], "objs": ["o"]}
WORLD = {
    "scores": MK + '&q = scb(x, "o")\nq = a\nx.v = q + 1\nr = x.v',
    "scores-alias": MK + 'scb(x, "o")\n&q = scb(x, "o")\nq = a\nz := x\n'
                    '&k = scb(z, "o")\nk += b\nr = q',
    "scores-move": MK + '&q = scb(x, "o")\nq = a\nx = y\nq = b\n'
                   '&k = scb(x, "o")\nk += 1\nr = q',
}


def jobs(tier, seed):
    out = []
    for n, b in HAND.items():
        out.append(tv(n, b, world={}, K=3))
    for n, b in WORLD.items():
        out.append(tv(n, b, world=W))
    for i in range(160 if tier == "quick" else 3000):
        g = entgen.Gen(seed, "p16-%d" % i)
        out.append(tv("gen%d" % i, g.program(3 + i % 6), world={}, K=2,
                      cfg={"optimizer": i % 5 != 4}))
    return out
