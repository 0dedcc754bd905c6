"""P18: which body a method call runs."""
from .common import *

BOUNDS = ("hierarchies of up to 5 templates (chains, trees, diamonds) with "
          "virtual, override, plain, static and inline methods of up to 2 "
          "arguments; receivers chosen among up to 4 created entities by "
          "symbolic conditions, arguments and attributes symbolic over int32")
OUTSIDE = ("recursive method calls; a non-virtual method of a template whose "
           "order of bases the language rejects")
ASSUMPTIONS = ass_arith(["entities stay alive during the run"])

P = "const p = Pos(0, 64, 0)\n"
AB = """entity A:
    v: int
    virtual def f(n: int) -> int:
        self.v += n
        result self.v
    def g(n: int) -> int:
        result self.f(n) * 10
entity B extends A:
    w: int
    override def f(n: int) -> int:
        self.v -= n
        self.w = n
        result self.v + K0
"""
MK = P + ('x := A("cow", p)\ny := B("pig", p)\nx.v = a\ny.v = b\ny.w = 1\n'
          'z: A\nz = y\nif c > K1:\n    z = x\n')
ABC = AB + """entity C extends B:
    override def f(n: int) -> int:
        result upcast(self, B).f(n) + upcast(self, A).f(n) * 2
entity D extends A:
    pass
"""
MK4 = P + ('x := A("cow", p)\ny := B("pig", p)\nu := C("cow", p)\n'
           'd := D("pig", p)\nx.v = a\ny.v = b\nu.v = c\nd.v = a - b\n'
           'y.w = 0\nu.w = 0\n'
           'z: A\nz = x\nif c == 1:\n    z = y\nelif c == 2:\n    z = u\n'
           'elif c == 3:\n    z = d\n')
HAND = {
    "virtual": AB + MK + "r = z.f(a)\ns = z.v",
    "virtual-known": AB + MK + "r = x.f(a)\ns = y.f(b)",
    "virtual-in-plain": AB + MK + "r = z.g(a)\ns = x.v - y.v",
    "virtual-known-sub": AB + MK + "r = y.g(a)\ns = x.g(b)",
    "virtual-twice": AB + MK + "r = z.f(a) - z.f(b)\ns = z.v",
    "virtual-nested": AB + MK + "r = z.f(z.f(a))\ns = z.v",
    "virtual-nested-2": AB + MK + "r = x.f(y.f(a) + z.f(b))\ns = y.w",
    "virtual-args": AB + MK + "r = z.f(a * b + c)\ns = z.f(z.v)",
    "virtual-arg-cond": AB + MK + "r = z.f(int(a > b) + int(b > c and a > "
                        "c))",
    "virtual-kw": AB + MK + "r = z.f(n=a)",
    "virtual-expr": AB + MK + "r = (a + b) * (c - z.f(a)) - (a - b) * z.f(b)",
    "virtual-stmt": AB + MK + "z.f(a)\nr = x.v\ns = y.v",
    "virtual-cond": AB + MK + "if z.f(a) > K2 and z.f(b) > c:\n    r = 1\n"
                    "s = z.v",
    "virtual-while": AB + MK + "i := 0\nwhile i < 2:\n    i += 1\n"
                     "    z.f(i)\n    z = x\nr = x.v\ns = y.v",
    "virtual-if": AB + MK + "if a > b:\n    r = z.f(b)\nelse:\n"
                  "    s = z.f(a)\nc = z.v",
    "virtual-fn": AB + MK + "def h(e: A, n: int) -> int:\n"
                  "    result e.f(n) + e.v\nr = h(z, a)\ns = h(y, b)",
    "virtual-result-recv": AB + MK + "def pick(n: int) -> A:\n"
                           "    if n > 0:\n        result x\n    else:\n"
                           "        result y\nr = pick(a).f(b)\ns = y.v",
    "virtual-none": """entity A:
    v: int
    virtual def f():
        self.v = a
entity B extends A:
    override def f():
        self.v = b
""" + MK.replace("y.w = 1\n", "") + "z.f()\nr = x.v\ns = y.v",
    "virtual-empty": """entity A:
    v: int
    virtual def f():
        pass
entity B extends A:
    override def f():
        self.v = K0
""" + MK.replace("y.w = 1\n", "") + "z.f()\nr = x.v\ns = y.v",
    "virtual-empty-2": """entity A:
    v: int
    virtual def f():
        self.v = K0
entity B extends A:
    override def f():
        pass
""" + MK.replace("y.w = 1\n", "") + "z.f()\nr = x.v\ns = y.v",
    "inline-override": """entity A:
    v: int
    virtual inline def f(n: int) -> int:
        self.v += n
        result self.v
entity B extends A:
    override inline def f(n: int) -> int:
        self.v = n
        result n * 2
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = z.v\nz.f(a + b)\n"
                                    "c = z.v",
    "inline-mixed": """entity A:
    v: int
    virtual def f(n: int) -> int:
        self.v += n
        result self.v
entity B extends A:
    override inline def f(n: int) -> int:
        self.v = n
        result n * 2
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = z.v\nz.f(a + b)\n"
                                    "c = z.v",
    "inline-mixed-2": """entity A:
    v: int
    virtual inline def f(n: int) -> int:
        self.v += n
        result self.v
entity B extends A:
    override def f(n: int) -> int:
        self.v = n
        result n * 2
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = z.v\nz.f(a + b)\n"
                                    "c = z.v",
    "inline-temps": """entity A:
    v: int
    virtual inline def f(n: int) -> int:
        self.v = (n + a) * (n - b) - (n + 1) * (c - n)
        result self.v - n
entity B extends A:
    override inline def f(n: int) -> int:
        n = (n + a) * (b - n) + n
        result n * 2
""" + MK.replace("y.w = 1\n", "") + "r = (a + b) * (c - K2) - z.f(a * b - c)\n"
                                    "s = (a - b) * (c + 1) + z.f(a)",
    "inline-temps-bool": """entity A:
    virtual inline def f(p: bool, n: int) -> bool:
        n = n * (n - a) - (n + b) * n
        result p and n > c
entity B extends A:
    override def f(p: bool, n: int) -> bool:
        result not p or n < a
""" + MK.replace("y.w = 1\n", "").replace("x.v = a\ny.v = b\n", "") +
        "q := z.f(a > b, a - b * c)\nr = int(q)\n"
        "if z.f(q and a > 3, K2) and not (a + b > c):\n    s = 1",
    "inline-calls-other": """entity G:
    u: int
    virtual def g(n: int) -> int:
        self.u += n
        result self.u * 2
entity H extends G:
    override inline def g(n: int) -> int:
        self.u -= n
        result self.u
w := G("cow", Pos(0, 0, 0))
w.u = c
if a > c:
    w = H("cow", Pos(0, 0, 0))
    w.u = 3
entity A:
    v: int
    virtual inline def f(n: int) -> int:
        self.v = w.g(n) + 1
        result self.v - w.g(b)
entity B extends A:
    override inline def f(n: int) -> int:
        w.g(n * 2)
        result n
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = z.v + w.u\nz.f(b)\n"
                                    "c = w.u",
    "inline-chain": """entity A:
    v: int
    virtual inline def f(n: int) -> int:
        self.v += n
        result self.g(self.v * 2) + n
    virtual inline def g(n: int) -> int:
        self.v -= n
        result self.v * n
entity B extends A:
    override inline def g(n: int) -> int:
        result n - self.v
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = z.v\nc = y.f(b)",
    "inline-print": """import print
entity A:
    v: int
    virtual inline def f(n: int):
        print.tell(print.format("A %0 %1", self.v * 2 - n, n))
        self.v += n
entity B extends A:
    override inline def f(n: int):
        print.tell(print.format("B %0", (n - self.v) * self.v))
""" + MK.replace("y.w = 1\n", "") + "z.f(a)\nz.f(b)\nr = z.v",
    "bool-result": """entity A:
    v: int
    virtual def f(n: int) -> bool:
        result self.v > n
entity B extends A:
    override def f(n: int) -> bool:
        result self.v == n
""" + MK.replace("y.w = 1\n", "") + "if z.f(a) and not z.f(b):\n    r = 1\n"
                                    "q := z.f(c)\ns = int(q)",
    "four": ABC + MK4 + "r = z.f(a)\ns = z.v",
    "four-known": ABC + MK4 + "r = u.f(a)\ns = d.f(b)\na = y.f(1)\n"
                  "b = x.f(2)",
    "four-mid": ABC + MK4 + "q: B\nq = y\nif a > K2:\n    q = u\n"
                "r = q.f(a)\ns = q.w",
    "four-plain": ABC + MK4 + "r = z.g(a)\ns = u.g(b)",
    "upcast": ABC + MK4 + "r = upcast(u, A).f(a)\ns = upcast(u, B).f(b)\n"
              "a = upcast(y, B).f(1)\nb = upcast(u, C).f(2)",
    "upcast-var": AB + MK + "q := upcast(y, A)\nr = q.f(a)\ns = y.v",
    "upcast-plain": """entity A:
    v: int
    def f(n: int) -> int:
        result self.v + n
entity B extends A:
    def f(n: int) -> int:
        result upcast(self, A).f(n) * 3
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = y.f(b)\n"
                                    "a = upcast(y, A).f(1)",
    "plain-static-type": """entity A:
    v: int
    def f(n: int) -> int:
        self.v += n
        result self.v
    def g(n: int) -> int:
        result self.f(n)
entity B extends A:
    def f(n: int) -> int:
        self.v -= n
        result self.v * 2
""" + MK.replace("y.w = 1\n", "") + "r = z.f(a)\ns = y.f(b)\na = y.g(1)",
    "static": """entity A:
    v: int
    static def f(n: int) -> int:
        result n + K0
    static inline def g(const n):
        /say g ${n}
    static const def h(n) -> int:
        result n * 2
entity B extends A:
    static def f(n: int) -> int:
        result n - K0
""" + MK.replace("y.w = 1\n", "") + "r = A.f(a) + B.f(b) * 3\n"
                                    "s = z.f(c) - y.f(a)\nA.g(K2)\nB.g(3)\n"
                                    "x.g(4)\na = B.h(5) + y.h(6)",
    "self-var": """entity A0:
    v: int
entity A extends A0:
    def f(o: A0) -> int:
        self.v += 1
        o.v += 2
        result self.v - o.v
""" + P + 'x := A("cow", p)\ny := A("cow", p)\nx.v = a\ny.v = b\n'
          "r = x.f(y)\ns = x.f(x)\nc = y.f(x)",
    "self-arg": """entity A0:
    v: int
    def g(o: Entity, n: int) -> int:
        self.v += n
        /say ${o} ${self}
        result n + self.v
entity A extends A0:
    def f(o: A0) -> int:
        result o.g(self, self.v) + self.v
""" + P + 'x := A("cow", p)\ny := A("cow", p)\nx.v = a\ny.v = b\n'
          "r = x.f(y)\ns = x.f(x)",
    "self-result": """entity A0:
    v: int
entity A extends A0:
    def me() -> A0:
        result self
    inline def me2() -> A0:
        result self
    inline def add(n: int) -> A0:
        self.v += n
        result self
""" + P + 'x := A("cow", p)\ny := A("cow", p)\nx.v = a\ny.v = b\n'
          "x.add(1).v += c\nx.add(K0)\nr = x.v\nz := y.me()\nz.v += 1\n"
          "s = y.me2().v + x.me().v",
    "self-say": """entity A:
    virtual def f():
        /say A ${self}
    inline def g():
        /say g ${self}
entity B extends A:
    override def f():
        /say B ${self}
""" + MK.replace("y.w = 1\n", "").replace("x.v = a\n", "").replace(
        "y.v = b\n", "") + "z.f()\nx.f()\ny.f()\nz.g()",
    "other-virtual": """entity A:
    v: int
    virtual def f(n: int) -> int:
        self.v += n
        result self.v
entity B extends A:
    override def f(n: int) -> int:
        t := x.f(n)
        self.v += t
        result self.v * 2
""" + 'x: A\n' + P.replace("", ""),
    "two-methods": """entity A:
    v: int
    virtual def f() -> int:
        result self.g() + 1
    virtual def g() -> int:
        result self.v
entity B extends A:
    override def g() -> int:
        result self.v * 2
entity C extends A:
    override def f() -> int:
        result self.g() - K0
""" + P + 'x := A("cow", p)\ny := B("pig", p)\nu := C("cow", p)\n'
          'x.v = a\ny.v = b\nu.v = c\nz: A\nz = x\nif a > b:\n    z = y\n'
          'elif a > c:\n    z = u\nr = z.f()\ns = z.g()',
    "diamond": """entity A:
    virtual def f() -> int:
        result K0
entity B extends A:
    pass
entity C extends A:
    override def f() -> int:
        result K1
entity D extends B, C:
    pass
entity E2 extends C, B:
    override def f() -> int:
        result upcast(self, C).f() + upcast(self, B).f() * 2
""" + P + 'x := D("cow", p)\ny := E2("pig", p)\nz: C\nz = x\n'
          "if a > 0:\n    z = y\nw: B\nw = z2\nr = z.f()\n".replace(
              "w: B\nw = z2\n", "") + "w := B(\"cow\", p)\ns = w.f()\n"
          "q: B\nq = w\nif b > 0:\n    q = y\nelif b == 0:\n    q = x\n"
          "c = q.f()",
    "diamond-plain": """entity A:
    def f() -> int:
        result K0
entity B extends A:
    pass
entity C extends A:
    def f() -> int:
        result K1
entity D extends B, C:
    pass
""" + P + 'x := D("cow", p)\nr = x.f()\nz: B\nz = x\ns = z.f()\n'
          "a = upcast(x, C).f()\nb = upcast(x, A).f()",
    "diamond-static": """entity A:
    static def f() -> int:
        result K0
entity B extends A:
    pass
entity C extends A:
    static def f() -> int:
        result K1
entity D extends B, C:
    pass
""" + P + 'x := D("cow", p)\nr = x.f() + D.f() * 2\ns = B.f()',
    "late-template": """entity A:
    v: int
    virtual def f() -> int:
        result self.v
def h(e: A) -> int:
    result e.f() + 1
entity B extends A:
    override def f() -> int:
        result self.v * K0
""" + MK.replace("y.w = 1\n", "") + "r = h(z)\ns = h(y)",
    "late-template-2": """entity A:
    v: int
    virtual def f() -> int:
        result self.v
""" + P + 'x := A("cow", p)\nx.v = a\nz: A\nz = x\nr = z.f()\n'
          """entity B extends A:
    override def f() -> int:
        result self.v * K0
y := B("pig", p)
y.v = b
if c > 0:
    z = y
s = z.f()
""",
    "new-virtual": """entity A:
    v: int
    new(n: int):
        new(type="cow", pos=Pos(0, 0, 0))
        self.v = n
        self.init()
    virtual def init():
        self.v += 1
entity B extends A:
    override def init():
        self.v += K0
x := A(a)
y := B(b)
r = x.v
s = y.v
""",
    "override-new": """entity A:
    v: int
    new(n: int):
        new(type="cow", pos=Pos(0, 0, 0))
        self.v = n
    virtual def f() -> int:
        result self.v
entity B extends A:
    new(n: int, m: int):
        A.new(n * 2)
        self.v += m
    override def f() -> int:
        result -self.v
x := A(a)
y := B(b, c)
z: A
z = y
r = x.f()
s = z.f()
""",
    "group-virtual": AB + MK + "g := Engroup[A]()\ng.add(x)\n"
                     "if a > 0:\n    g.add(y)\nfor e in g:\n"
                     "    r += e.f(K2)\ns = x.v * 3 + y.v",
    "group-plain": AB + MK + "g := Engroup[B]()\ng.add(y)\n"
                   "for e in g:\n    r += e.g(1)\ns = g.to_single().f(2)",
    "method-local": """entity A:
    v: int
    def f(n: int) -> int:
        t := self.v
        i := 0
        while i < 2:
            t += n
            i += 1
        result t
""" + P + 'x := A("cow", p)\ny := A("cow", p)\nx.v = a\ny.v = b\n'
          "r = x.f(c) - y.f(1)\ns = x.v",
    "method-default": """entity A:
    v: int
    virtual def f(n: int = 3, m = True) -> int:
        if m:
            result self.v + n
        else:
            result self.v - n
entity B extends A:
    override def f(n: int = 3, m = True) -> int:
        result self.v * n
""" + MK.replace("y.w = 1\n", "") + "r = z.f()\ns = z.f(a)\n"
                                    "a = z.f(m=False)\nb = z.f(2, a > b)",
    "method-struct": """struct S:
    m: int
    n: int
entity A:
    v: int
    virtual def f(t: S) -> S:
        self.v += t.m
        result t
entity B extends A:
    override def f(t: S) -> S:
        self.v -= t.n
        t.m = self.v
        result t
""" + MK.replace("y.w = 1\n", "") + "q := S()\nq.m = a\nq.n = b\n"
                                    "o := z.f(q)\nr = o.m + o.n\ns = q.m",
    "method-entity-result": """entity A:
    v: int
    virtual def f() -> A:
        result self
entity B extends A:
    override def f() -> A:
        result x
""",
    "bad-override": "entity A:\n    virtual def f() -> int:\n"
                    "        result 1\nentity B extends A:\n"
                    "    override def f() -> bool:\n        result True\n",
    "bad-qual": "entity A:\n    virtual def f() -> int:\n"
                "        result 1\nentity B extends A:\n"
                "    def f() -> int:\n        result 1\n",
    "bad-qual-2": "entity A:\n    def f() -> int:\n"
                  "        result 1\nentity B extends A:\n"
                  "    virtual def f() -> int:\n        result 1\n",
    "bad-qual-3": "entity A:\n    override def f() -> int:\n"
                  "        result 1\n",
    "bad-qual-4": "entity A:\n    static def f() -> int:\n"
                  "        result 1\nentity B extends A:\n"
                  "    def f() -> int:\n        result 1\n",
    "bad-qual-5": "entity A:\n    def f() -> int:\n"
                  "        result 1\nentity B extends A:\n"
                  "    static def f() -> int:\n        result 1\n",
    "bad-virtuals": "entity A:\n    virtual def f() -> int:\n"
                    "        result 1\nentity B:\n    virtual def f() -> int"
                    ":\n        result 2\nentity C extends A, B:\n    pass\n",
    "bad-field": "entity A:\n    f: int\nentity B extends A:\n"
                 "    f: int\n",
    "bad-field-method": "entity A:\n    f: int\nentity B extends A:\n"
                        "    def f():\n        pass\n",
    "bad-mro": "entity A:\n    pass\nentity B extends A:\n    pass\n"
               "entity C extends A, B:\n    pass\n",
    "bad-upcast": AB + P + 'x := A("cow", p)\nr = upcast(x, B).f(1)',
}
HAND["other-virtual"] = """entity A:
    v: int
    virtual def f(n: int) -> int:
        self.v += n
        result self.v
""" + P + """x := A("cow", p)
x.v = a
o: A
o = x
entity B extends A:
    override def f(n: int) -> int:
        t := o.f(n)
        self.v += t
        result self.v * 2
y := B("pig", p)
y.v = b
z: A
z = y
if c > 0:
    z = x
r = z.f(K0)
s = y.v
a = y.f(1)
b = x.v
"""
HAND["method-entity-result"] = """entity A0:
    v: int
entity A extends A0:
    virtual def f() -> A0:
        result self
""" + P + """x := A("cow", p)
x.v = a
entity B extends A:
    override def f() -> A0:
        result x
y := B("pig", p)
y.v = b
z: A
z = x
if c > 0:
    z = y
z.f().v = K0
r = x.v
s = y.v
"""


OTHER = """entity G:
    u: int
    virtual def g(n: int) -> int:
        self.u += n
        result self.u
entity H extends G:
    override inline def g(n: int) -> int:
        self.u = (n - a) - (self.u - (b - n))
        result n - self.u
w := G("cow", Pos(0, 0, 0))
w.u = 5
if a > c:
    w = H("cow", Pos(0, 0, 0))
    w.u = 3
"""


class HG:
    """Random hierarchies."""

    def __init__(self, seed, salt):
        self.r = rng(seed, salt)

    def body(self, t, name, others, ind="        "):
        r = self.r
        out = []
        for _ in range(r.randint(0, 2)):
            k = r.random()
            if k < .1:
                out.append(r.choice(
                    ["self.v = (n - a) - (self.v - (n - b))",
                     "n = (c - n) - (b - (n + a))"] if not self.other else
                    ["w.g((n + b) - (a - n))", "w.g(n)",
                     "n = n - w.g(self.v)"]))
            elif k < .5:
                out.append("self.v %s n" % r.choice(["+=", "-=", "="]))
            elif k < .7:
                out.append("self.v += %d" % r.randint(1, 9))
            elif k < .85:
                out.append("/say %s.%s ${self}" % (t, name))
            else:
                out.append("if n > %d:\n%s    self.v *= 2"
                           % (r.randint(-2, 5), ind))
        res = r.choice(["self.v", "n", "self.v + n", "n - self.v",
                        str(r.randint(0, 99))])
        for o in others:
            if r.random() < .35:
                out.append("q%s := self.%s(n)" % (o, o))
                res += " + q%s" % o
        out.append("result " + res)
        return "".join(ind + x + "\n" for x in out)

    def program(self):
        r = self.r
        names = ["A", "B", "C", "D", "E2"][:r.randint(2, 5)]
        bases = {"A": []}
        anc = {"A": {"A"}}
        self.other = r.random() < .2
        out = (OTHER if self.other else "") + "entity A:\n    v: int\n"
        kinds = {}
        order = ["f", "g", "h"]
        for i, m in enumerate(order):
            if m != "f" and r.random() < .4:
                continue
            kinds[m] = r.choice(["virtual", "virtual", "plain"]) \
                if m != "f" else "virtual"
            inl = "inline " if r.random() < .25 else ""
            out += "    %s%sdef %s(n: int) -> int:\n" % (
                "virtual " if kinds[m] == "virtual" else "", inl, m)
            out += self.body("A", m, [o for o in order[:i] if o in kinds])
        for i, t in enumerate(names[1:]):
            prev = names[:i + 1]
            bs = [r.choice(prev)]
            anc[t] = {t} | anc[bs[0]]
            out += "entity %s extends %s:\n" % (t, bs[0])
            bases[t] = bs[0]
            n = 0
            for j, m in enumerate(order):
                if m not in kinds or r.random() < .45:
                    continue
                n += 1
                inl = "inline " if r.random() < .25 else ""
                out += "    %s%sdef %s(n: int) -> int:\n" % (
                    "override " if kinds[m] == "virtual" else "", inl, m)
                if r.random() < .25:
                    out += ("        result upcast(self, %s).%s(n) + %d\n"
                            % (bs[0], m, r.randint(0, 9)))
                else:
                    out += self.body(t, m, [o for o in order[:j]
                                            if o in kinds])
            if not n:
                out += "    pass\n"
        out += P
        vs = []
        for i, t in enumerate(names):
            vs.append(("e%d" % i, t))
            out += 'e%d := %s("cow", p)\ne%d.v = %s\n' % (
                i, t, i, r.choice("abc"))
        tops = sorted({r.choice(names[:2]), "A"})
        recv = list(vs)
        for k, top in enumerate(tops):
            fit = [v for v, t in vs if top in anc[t]]
            out += "z%d: %s\nz%d = %s\n" % (k, top, k, fit[0])
            for j, v in enumerate(fit[1:]):
                out += "%s %s == %d:\n    z%d = %s\n" % (
                    "if" if not j else "elif", r.choice("abc"), j, k, v)
            recv += [("z%d" % k, top)] * 3
        ms = sorted(kinds)
        calls = []
        for _ in range(r.randint(2, 4)):
            v, t = r.choice(recv)
            m = r.choice(ms)
            arg = r.choice(["a", "b", "c", "K0", "1", "a + b", "%s.v" % v,
                            "e0.v - b", "(a - b) - (c - %s.v)" % v])
            c = "%s.%s(%s)" % (v, m, arg)
            k = r.random()
            if k < .2 and t != "A":
                c = "upcast(%s, %s).%s(%s)" % (v, bases[t], m, arg)
            if k < .3:
                calls.append(c)
            elif k < .6:
                calls.append("r = " + c)
            elif k < .8:
                calls.append("s += %s * 2" % c)
            else:
                calls.append("if %s > %d:\n    r += 1\nelse:\n    s -= 1"
                             % (c, r.randint(-3, 3)))
        out += "\n".join(calls) + "\n"
        out += "c = " + ("w.u + " if self.other else "") + " + ".join("%s.v * %d" % (v, i + 1)
                                   for i, (v, t) in enumerate(vs))
        return out


def jobs(tier, seed):
    out = []
    for n, b in HAND.items():
        out.append(tv(n, b, world={}, K=3))
    for i in range(120 if tier == "quick" else 2500):
        g = HG(seed, "p18-%d" % i)
        out.append(tv("gen%d" % i, g.program(), world={}, K=2))
    return out
