"""P17: entity groups are sets of entities."""
from .common import *
from . import entgen

BOUNDS = ("programs of at most ~20 group operations over up to 4 groups in a "
          "world of the player, up to 3 other entities (existence, tags and "
          "scores symbolic: every subset and overlap) and up to 3 created "
          "ones")
OUTSIDE = ("to_single of a group that has not exactly one member; loop "
           "bodies whose effect depends on the order in which members are "
           "visited; entities that die between commands")
ASSUMPTIONS = ass_arith(["entities stay alive during the run"])

W = {"types": ["cow", "pig", "player"], "tags": ["red", "blue"],
     "objs": ["o"]}
T = """entity T:
    v: int
    def get() -> int:
        self.v += 1
        result self.v
entity U extends T:
    pass
"""
P = "const p = Pos(0, 64, 0)\n"
XG = "x := ExternEngroup()\nx.select(Enfilter().has_tag(\"red\"))\n"
G2 = XG + 'y := ExternEngroup()\ny.select(Enfilter().has_tag("blue"))\n'
SHOW = ("r = x.size()\nfor e in x:\n    &q = scb(e, \"o\")\n    q = 7\n"
        "    /say x ${e}\n")
MINE = T + P + ('g := Engroup[T]()\nh := Engroup[T]()\n'
                'm := T("cow", p)\nn := T("pig", p)\nm.v = a\nn.v = b\n')
COND = ("if a > K0:\n    g.add(m)\nif b > K0:\n    g.add(n)\n"
        "if a > b:\n    h.add(m)\nif c > 0:\n    h.add(n)\n")
SG = ("r = g.size() * 10\nr += h.size()\nif g.has(m):\n    s += 1\n"
      "if g.has(n):\n    s += 2\nif h.has(m):\n    s += 4\n"
      "if h.has(n):\n    s += 8\nif g.is_empty():\n    s += 16\n"
      "if not h.is_empty():\n    s += 32\n")
TWICE = {
    "filter": 'x.filter(Enfilter().scores("o", "1.."))\n',
    "drop": 'x.drop(Enfilter().scores("o", "1.."))\n',
    "select": 'x.select(Enfilter().scores("o", "1.."))\n',
    "filter-two": 'x.filter(Enfilter().scores("o", "1..")'
                  '.has_tag("blue"))\n',
    "intersect": "x.intersect(y)\ny.select(Enfilter().scores("
                 '"o", "0.."))\n',
    "assign": 'y = x\nx.drop(Enfilter().scores("o", "..0"))\n'
              "y.subtract(x)\n",
    "copy": 'z := x.copy()\nz.filter(Enfilter().scores("o", "1.."))\n'
            "x.subtract(z)\n",
}
# groups created by code that runs again after they were filled
NEW = {
    "var": "k := Engroup[T]()\nr = r * 4 + k.size()\nk.add(m)\n"
           "if a > 0:\n    k.add(n)\ns = s * 4 + k.size()\n",
    "empty": "k := Engroup[T]()\nif k.is_empty():\n    r += 1\n"
             "k.add(m)\nif not k.is_empty():\n    s += 1\n",
    "assign": "k := Engroup[T]()\nk.add(n)\nk = Engroup[T]()\n"
              "r = r * 4 + k.size()\nk.add(m)\nk.extend(Engroup[T]())\n"
              "s = s * 4 + k.size()\n",
    "outer": "g = Engroup[T]()\nif b > 0:\n    g.add(n)\n"
             "r = r * 4 + g.size()\nh.extend(g)\ns = h.size()\n",
    "result": "k := mk(c)\nr = r * 4 + k.size()\nk.add(n)\n"
              "h.extend(k)\ns = s * 4 + h.size()\n",
    "result-expr": "r = r * 4 + mk(c).size()\nif mk(c - 1).has(m):\n"
                   "    s += 1\nh.extend(mk(b))\ns = s * 4 + h.size()\n",
    "inline": "k := mi(c)\nr = r * 4 + k.size()\nk.add(n)\n"
              "s = s * 4 + mi(b).size()\n",
    "extern": "k := ExternEngroup()\nr = r * 4 + k.size()\n"
              "k.select(Enfilter().has_tag(\"red\"))\n"
              "s = s * 4 + k.size()\n",
    "arg": "def ff(k: Engroup[T]) -> int:\n    q := k.size()\n"
           "    k.add(m)\n    result q * 2 + k.size()\n"
           "r = r * 4 + ff(Engroup[T]())\ns = s * 4 + ff(g)\ng.clear()\n",
}
MK = ("def mk(k: int) -> Engroup[T]:\n    o := Engroup[T]()\n"
      "    if k > 0:\n        o.add(m)\n    result o\n"
      "inline def mi(k: int) -> Engroup[T]:\n    o := Engroup[T]()\n"
      "    if k > 0:\n        o.add(m)\n    result o\n")
HAND = {
    "size": G2 + "r = x.size()\ns = y.size()",
    "empty": G2 + "if x.is_empty():\n    r = 1\nelif not y.is_empty():\n"
             "    r = 2\nelse:\n    r = 3",
    "empty-bool": G2 + "f := x.is_empty()\ng := not x.is_empty() and "
                  "y.is_empty()\nx.clear()\nr = int(f) * 2 + int(g)",
    "size-expr": G2 + "r = x.size() * 10 + y.size() - K0\n"
                 "s = x.size() - y.size() * x.size()",
    "size-cond": G2 + "if x.size() > y.size():\n    r = 1\n"
                 "elif x.size() == K0:\n    r = 2\nwhile s < x.size():\n"
                 "    s += 1",
    "extend": G2 + "x.extend(y)\n" + SHOW + "s = y.size()",
    "subtract": G2 + "x.subtract(y)\n" + SHOW + "s = y.size()",
    "intersect": G2 + "x.intersect(y)\n" + SHOW + "s = y.size()",
    "op-add": G2 + "x += y\n" + SHOW + "s = y.size()",
    "op-sub": G2 + "x -= y\n" + SHOW + "s = y.size()",
    "copy-chain": G2 + "x.copy().extend(y)\nr = x.size()\ny.copy().clear()"
    "\ns = y.size()\ny.subtract(x.copy())\nc = y.size() * 10 + x.size()\n",
    "copy-chain2": G2 + "z := x.copy()\nz.copy().subtract(y)\nr = z.size()\n"
    "x.copy().intersect(y)\ns = x.size()\nfor e in x.copy():\n    x.clear()"
    "\n    c += 1\nb = x.size()\n",
    "copy-ref": G2 + "inline def f(&g: Engroup[Entity], h: Engroup[Entity]) "
    "-> int:\n    h.extend(y)\n    g.subtract(y)\n    result h.size()\n"
    "r = f(x, x)\ns = x.size()\nc = f(x, x.copy())\n",
    "self-ops": XG + "y := x.copy()\nx.extend(x)\nr = x.size()\n"
                "x.intersect(x)\ns = x.size()\nx.subtract(x)\n"
                "c = x.size()\na = y.size()",
    "copy": G2 + "z := x.copy()\nx.extend(y)\nz.subtract(y)\ns = z.size()\n"
            + SHOW,
    "assign": G2 + "z := x\nx = y\ny.clear()\ns = z.size()\n" + SHOW,
    "assign-self": G2 + "x = x\n" + SHOW,
    "assign-cond": G2 + "z := x\nif a > K0:\n    z = y\ns = z.size()\n"
                   "x.intersect(z)\n" + SHOW,
    "swap": G2 + "t := x\nx = y\ny = t\ns = y.size()\n" + SHOW,
    "clear": G2 + "x.clear()\ns = y.size()\n" + SHOW,
    "clear-cond": G2 + "if a > K0:\n    x.clear()\ns = y.size()\n" + SHOW,
    "chain": G2 + 'x.extend(y).drop(Enfilter().is_type("cow"))'
             '.select(Enfilter().is_type("pig"))\n' + SHOW,
    "drop": G2 + 'x.drop(Enfilter().has_tag("blue"))\ns = y.size()\n' + SHOW,
    "drop-near": G2 + "x.drop(Enfilter().nearest_from(Pos(0, 64, 0)))\n"
                 "s = y.size()\n" + SHOW,
    "filter-near": G2 + "x.filter(Enfilter().farthest_from(Pos(0, 64, 0), 2)"
                   ')\ns = y.size()\n' + SHOW,
    "drop-random": G2 + 'y.drop(Enfilter().random("cow"))\ns = y.size()\n'
                   + SHOW,
    "swap-fn": G2 + "swap(x, y)\ns = y.size()\n" + SHOW,
    "swap-fn-self": G2 + "swap(x, x)\ns = y.size()\n" + SHOW,
    "swap-fn-thrice": G2 + "z := Engroup[T]()\nswap(x, y)\nswap(z, x)\n"
                      "swap(y, x)\ns = y.size()\n" + SHOW,
    "swap-fn-own": MINE + COND + "swap(g, h)\n" + SG,
    "swap-fn-if": MINE + COND + "if a > b:\n    swap(g, h)\n" + SG,
    "drop-near-own": MINE + COND + "g.drop(Enfilter().nearest_from("
                     "Pos(0, 64, 0)))\n" + SG,
    "filter-near-own": MINE + COND + "g.filter(Enfilter().nearest_from("
                       'Pos(0, 64, 0)).is_type("cow"))\n' + SG,
    "filter": G2 + 'x.filter(Enfilter().has_tag("blue"))\ns = y.size()\n'
              + SHOW,
    "filter-neg": G2 + 'x.filter(Enfilter().has_no_tag("blue"))\n'
                  "s = y.size()\n" + SHOW,
    "filter-twice": G2 + 'x.filter(Enfilter().is_not_type("cow"))\n'
                    'x.filter(Enfilter().is_not_type("pig"))\n' + SHOW,
    "filter-two": G2 + 'x.filter(Enfilter().has_tag("blue"))\n'
                  'y.filter(Enfilter().is_type("cow"))\ns = y.size()\n'
                  + SHOW,
    "select-twice": XG + 'x.select(Enfilter().is_type("cow"))\n' + SHOW,
    "select-none": XG + "y := ExternEngroup()\ny.extend(x)\nx.clear()\n"
                   "s = y.size()\n" + SHOW,
    "for-add": G2 + "for e in x:\n    y.add(e)\ns = y.size()\n" + SHOW,
    "for-remove": G2 + "for e in x:\n    y.remove(e)\ns = y.size()\n" + SHOW,
    "for-remove-self": XG + "for e in x:\n    &q = scb(e, \"o\")\n"
                       "    q = q + 1\n    x.remove(e)\n" + SHOW,
    "for-add-self": XG + 'y := ExternEngroup()\ny.select(Enfilter()'
                    '.is_type("cow"))\nfor e in x:\n    x.extend(y)\n'
                    "    s += 1\nr = x.size()",
    "for-has": G2 + "for e in x:\n    if y.has(e):\n        s += 1\n"
               "    else:\n        c += 1\nr = a",
    "for-has-not": G2 + "for e in x:\n    if not y.has(e) and a > K0:\n"
                   "        s += 1\n        y.add(e)\nr = y.size()",
    "for-count": XG + "for e in x:\n    s += K0\n    /say ${e}\nr = s",
    "for-nested": G2 + "for e in x:\n    for f in y:\n        s += 1\n"
                  "        if x.has(f):\n            c += 1\n"
                  "    r += y.size()",
    "for-nested-same": XG + "for e in x:\n    for f in x:\n        s += 1\n"
                       "        &q = scb(f, \"o\")\n        q += 1\n"
                       "    &k = scb(e, \"o\")\n    k *= 2",
    "for-var": XG + "for e in x:\n    f := e\n    &q = scb(f, \"o\")\n"
               "    q = a\n    s += q",
    "for-if": XG + 'for e in x:\n    &q = scb(e, "o")\n'
              "    if q > K0:\n        s += 1\n        x.remove(e)\n"
              "r = x.size()",
    "for-while": XG + "i := 0\nwhile i < 2:\n    for e in x:\n"
                 "        s += i + 1\n    i += 1\n    x.clear()",
    "inline-result": XG + "inline def f(n: int) -> int:\n    result 0\n"
                     "    for e in x:\n        &q = scb(e, \"o\")\n"
                     "        if q > n:\n            result K0\n"
                     "r = f(a)\ns = f(b)",
    "inline-result-only": XG + "inline def f() -> int:\n    for e in x:\n"
                          "        result K0\nif not x.is_empty():\n"
                          "    r = f()",
    "inline-result-const": XG + "inline def f() -> const int:\n"
                           "    for e in x:\n        s += 1\n"
                           "        result K0\nr = f()",
    "inline-result-ref": XG + "inline def f() -> &int:\n"
                         "    for e in x:\n        s += 1\n"
                         "        result a\nf() += b\nr = a",
    "for-func": XG + "def f(n: int) -> int:\n    t := 0\n    for e in x:\n"
                "        t += n\n    result t\nr = f(a)\ns = f(b)",
    "for-for": XG + "for e in x:\n    s += 1\nfor e in x:\n    c += 1\n"
               "r = s - c",
    "for-empty": XG + "for e in x:\n    pass\nr = x.size()",
    "for-reassign": G2 + "for e in x:\n    x = y\n    s += 1\nr = x.size()",
    "fn-arg": T + P + "def f(g: Engroup[T]) -> int:\n    g.clear()\n"
              "    result g.size()\n" + 'm := T("cow", p)\n'
              "g := Engroup[T]()\ng.add(m)\nr = f(g)\ns = g.size()",
    "fn-inline-ref": T + P + "inline def f(&g: Engroup[T]):\n    g.clear()\n"
                     'm := T("cow", p)\n'
                     "g := Engroup[T]()\ng.add(m)\nf(g)\ns = g.size()",
    "fn-inline": T + P + "inline def f(g: Engroup[T]) -> int:\n"
                 "    result g.size()\n"
                 'm := T("cow", p)\n'
                 "g := Engroup[T]()\ng.add(m)\nr = f(g)\ns = g.size()",
    "fn-result": MINE + "def f(k: int) -> Engroup[T]:\n"
                 "    if k > K0:\n        result g\n    else:\n"
                 "        result h\n" + COND + "z := f(c)\nz.add(m)\n"
                 "s = z.size()\nr = g.size() * 3 + h.size()",
    "mine-add": MINE + COND + SG,
    "mine-add-two": MINE + "g.add(m, n)\nh.add(m)\nh.add(m)\n"
                    "if a > 0:\n    g.remove(n, m)\n" + SG,
    "mine-add-none": MINE + "g.add()\nh.remove()\n" + SG,
    "mine-remove": MINE + COND + "g.remove(m)\nif c > K1:\n    h.remove(n)\n"
                   + SG,
    "mine-extend": MINE + COND + "g.extend(h)\n" + SG,
    "mine-subtract": MINE + COND + "g.subtract(h)\n" + SG,
    "mine-intersect": MINE + COND + "g.intersect(h)\n" + SG,
    "mine-ops": MINE + COND + "g += h\nh -= g\n" + SG,
    "mine-copy": MINE + COND + "k := g.copy()\ng.clear()\nh.extend(k)\n"
                 + SG,
    "mine-assign": MINE + COND + "k := g\ng = h\nh = k\n" + SG,
    "mine-var-moves": MINE + "g.add(m)\nt := m\nm = n\nh.add(m)\n"
                      "if g.has(t):\n    c = 1\n" + SG,
    "mine-fields": MINE + COND + "for e in g:\n    e.v = K1\n"
                   "for e in h:\n    e.v += 2\nr = m.v\ns = n.v",
    "mine-sum": MINE + COND + "for e in g:\n    s += e.v\nfor e in h:\n"
                "    r += e.v * 2",
    "mine-method": MINE + COND + "for e in g:\n    s += e.get()\n"
                   "r = m.v * 100 + n.v",
    "mine-single": MINE + "g.add(n)\ng.to_single().v = c\nr = n.v\n"
                   "s = g.to_single().v + m.v\ng.clear()\ng.add(m)\n"
                   "q := g.to_single()\nq.v += 1\ng.clear()\nb = q.v",
    "mine-single-var": MINE + "if c > K0:\n    g.add(m)\nelse:\n"
                       "    g.add(n)\nq := g.to_single()\nm = q\n"
                       "r = m.v\ns = q.v",
    "mine-single-method": MINE + "g.add(m)\nr = g.to_single().get()\n"
                          "s = m.v",
    "mine-single-self": MINE + "g.add(m)\nm = g.to_single()\nr = m.v",
    "mine-has-single": MINE + COND + "k := Engroup[T]()\nk.add(n)\n"
                       "if g.has(k.to_single()):\n    r = 1\n"
                       "h.add(k.to_single())\ng.remove(k.to_single())\n"
                       + SG,
    "sub-group": T + P + 'g := Engroup[T]()\nh := Engroup[U]()\n'
                 'm := T("cow", p)\nn := U("pig", p)\nm.v = a\nn.v = b\n'
                 "h.add(n)\ng.extend(h)\ng.add(m)\ng.add(n)\n"
                 "for e in g:\n    s += e.v\nr = g.size() + h.size()",
    "filter-mine-again": T + P + 'g := Engroup[T]()\nm := T("cow", p)\n'
                         'n := T("pig", p)\ng.add(m, n)\n'
                         '&k = scb(m, "o")\nk = a\n&l = scb(n, "o")\n'
                         "l = b\ndef f():\n"
                         '    g.filter(Enfilter().scores("o", "1.."))\n'
                         "f()\nr = g.size()\nk = c\nf()\ns = g.size()",
    "resolve": XG + T + "g := x.resolve(T)\nx.clear()\nfor e in g:\n"
               "    e.v = a\n    s += e.v\nr = g.size()",
    "resolve-method": XG + T + "g := x.resolve(T)\nfor e in g:\n"
                      "    e.v = K0\n    s += e.get()\nr = x.size()",
    "print": "import print\n" + XG +
             'print.tell("hi", x)\nx.clear()\nprint.tell("no", x)\n'
             'print.title("t", x, fade_in=K0)',
    "print-for": "import print\n" + XG +
                 'for e in x:\n    &q = scb(e, "o")\n    q = a\n'
                 '    print.tell(print.format("%0", q), e)',
    "wrong-type": T + P + 'g := Engroup[U]()\nm := T("cow", p)\ng.add(m)',
    "wrong-group": T + P + "g := Engroup[U]()\nh := Engroup[T]()\n"
                   "g.extend(h)",
    "wrong-assign": T + P + "g := Engroup[U]()\nh := Engroup[T]()\ng = h",
    "right-assign": T + P + 'g := Engroup[U]()\nh := Engroup[T]()\n'
                    'n := U("cow", p)\ng.add(n)\nh = g\nr = h.size()',
    "wrong-has": T + P + "g := Engroup[U]()\nm := T(\"cow\", p)\n"
                 "r = int(g.has(m))",
}


class GG(entgen.Gen):
    """Programs over groups of the world."""

    def group(self):
        return self.r.choice(["x", "y", "z"])

    def filt(self):
        r = self.r
        f = "Enfilter()"
        for _ in range(r.randint(1, 2)):
            f += r.choice(['.has_tag("red")', '.has_tag("blue")',
                           '.has_no_tag("red")', '.is_not_type("cow")',
                           '.has_no_tag("red", "blue")',
                           '.scores("o", "0..")'])
        if r.random() < .3:
            f += '.is_type("%s")' % r.choice(["cow", "pig"])
        return f

    def gcond(self):
        k = self.r.random()
        g = self.group()
        if k < .3:
            return "%s.is_empty()" % g
        if k < .5:
            return "not %s.is_empty()" % g
        if k < .8:
            return "%s.size() %s %s" % (g, self.r.choice(
                ["<", "==", ">="]), self.r.choice(
                    ["1", "2", "a", self.group() + ".size()"]))
        return "a > %s" % self.r.choice(["b", "0", "r"])

    def stmt(self, ind, it=None):
        r = self.r
        p = "    " * ind
        k = r.random()
        g, h = self.group(), self.group()
        if it and r.random() < .5:
            k = r.random()
            if k < .3:
                return [p + "%s.%s(%s)" % (g, r.choice(["add", "remove"]),
                                           it)]
            if k < .5:
                return [p + "s += 1"]
            if k < .8:
                return [p + "if %s%s.has(%s):" % (r.choice(["", "not "]), g,
                                                  it)] + \
                    self.block(ind + 1, it)
            return [p + "/say ${%s}" % it]
        if k < .25:
            if k < .10:         # changes only the copy
                x = "%s.copy().%s" % (g, r.choice(
                    ["clear()", "extend(%s)" % h, "subtract(%s)" % h,
                     "intersect(%s)" % h]))
                return [p + r.choice(["r -= %s.size()" % x if "clear" not in x
                                      else x, x])]
            return [p + "%s.%s(%s)" % (g, r.choice(
                ["extend", "subtract", "intersect"]), h)]
        if k < .33:
            return [p + "%s %s= %s" % (g, r.choice("+-"), h)]
        if k < .53:
            return [p + "%s.%s(%s)" % (g, r.choice(
                ["select", "drop", "filter"]), self.filt())]
        if k < .60:
            return [p + "%s = %s%s" % (g, h, r.choice(["", ".copy()"]))]
        if k < .64:
            return [p + "%s.clear()" % g]
        if k < .70 or ind >= 2:
            return [p + "r += %s.size()" % g]
        if k < .85:
            out = [p + "if %s:" % self.gcond()] + self.block(ind + 1, it)
            if r.random() < .4:
                out += [p + "else:"] + self.block(ind + 1, it)
            return out
        self.depth += 1
        e = "e%d" % self.depth
        return [p + "for %s in %s:" % (e, g)] + self.block(ind + 1, e)

    def block(self, ind, it=None):
        out = []
        for _ in range(self.r.randint(1, 2)):
            out += self.stmt(ind, it)
        return out

    def program(self, n):
        body = []
        for g in "xyz":
            body += ["%s := ExternEngroup()" % g,
                     "%s.select(%s)" % (g, self.filt())]
        k = len(body)
        for _ in range(n):
            body += self.stmt(0)
        x = self.r.random()
        if x < .3:
            # the same code run twice, in the world it left behind
            q = ["for e in %s:" % self.group(), '    &q = scb(e, "o")',
                 "    q %s= %s" % (self.r.choice("+-*"), self.r.choice(
                     ["a", "b", "2"]))]
            if x < .15:
                body[k:] = ["def again():"] + ["    " + l for l in body[k:]] \
                    + ["again()"] + q + ["again()"]
            else:
                body[k:] = ["n := 0", "while n < 2:", "    n += 1"] + \
                    ["    " + l for l in body[k:] + q]
        body += ["a = x.size() * 100 + y.size() * 10 + z.size()"]
        for i, g in enumerate("xyz"):
            body += ["for e in %s:" % g, "    /say %s ${e}" % g]
        return "\n".join(body)


def jobs(tier, seed):
    out = []
    for n, b in HAND.items():
        out.append(tv(n, b, world=W, K=3))
    for n, b in TWICE.items():
        out.append(tv("again-" + n, G2 + "def f():\n" + "".join(
            "    %s\n" % l for l in b.splitlines()) + "f()\nr = x.size()\n"
            "x.extend(y)\nfor e in y:\n    &q = scb(e, \"o\")\n"
            "    q -= a\nf()\ns = x.size()\nc = y.size()\n", world=W, K=3))
        out.append(tv("loop-" + n, G2 + "i := 0\nwhile i < 2:\n" + "".join(
            "    %s\n" % l for l in b.splitlines()) + "    r += x.size()\n"
            "    for e in y:\n        &q = scb(e, \"o\")\n"
            "        q = q + K0\n    x.extend(y)\n    i += 1\n"
            "s = x.size()\nc = y.size()\n", world=W, K=3))
    for n, b in NEW.items():
        m = "".join("    %s\n" % ln for ln in b.splitlines())
        out.append(tv("newloop-" + n, MINE + MK + "i := 0\nwhile i < 2:\n"
                      + m + "    i += 1\n", world=W, K=3))
        if n != "arg":
            out.append(tv("new-" + n, MINE + MK + "def f():\n" + m
                          + "f()\nc = b\nf()\n", world=W, K=2))
            out.append(tv("newface-" + n, MINE + MK + "interface p:\n" + m,
                          entry=["main", "p", "p"], world=W, K=2))
    for i in range(100 if tier == "quick" else 2000):
        g = GG(seed, "p17-%d" % i)
        out.append(tv("gen%d" % i, g.program(3 + i % 6), world=W, K=2,
                      cfg={"optimizer": i % 5 != 4}))
    return out
