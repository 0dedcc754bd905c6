"""Generated programs over entity variables, attributes and groups."""
from .common import rng

DECL = """entity T:
    v: int
    w: bool
entity U extends T:
    k: int
"""
FUNCS = """def setv(e: T, n: int):
    e.v = n
def bump(e: T, n: int) -> int:
    e.v += n
    result e.v
inline def ibump(e: T, n: int):
    e.v -= n
def pick(k: int, e: T, f: T) -> T:
    if k > 0:
        result e
    else:
        result f
inline def ipick(k: int, e: T, f: T) -> T:
    if k > 0:
        result e
    else:
        result f
def ident(e: T) -> T:
    result e
inline def move(&e: T, f: T):
    e = f
"""
INTS = ["a", "b", "c"]


class Gen:
    def __init__(self, seed, salt):
        self.r = rng(seed, salt)
        self.nk = 0
        self.depth = 0
        self.used = set()
        self.more = []

    def lit(self):
        if self.nk < 3 and self.r.random() < .5:
            self.nk += 1
            return "K%d" % (self.nk - 1)
        return str(self.r.randint(-3, 9))

    def ent(self):
        return self.r.choice(["x", "y", "z", "u"] * 4 + self.more)

    def value(self):
        """An entity expression used as a value."""
        e = self.ent()
        k = self.r.random()
        if k < .06:
            return "upcast(%s, T)" % e
        if k < .1:
            return "ident(%s)" % e
        return e

    def tvar(self):
        return self.r.choice(["x", "y", "z"] * 4 +
                             [m for m in self.more if m == "w"])

    def num(self):
        r = self.r.random()
        if r < .4:
            return self.r.choice(INTS)
        if r < .8:
            return self.ent() + ".v"
        if r < .88:
            return "u.k"
        return self.lit()

    def expr(self):
        if self.r.random() < .6:
            return self.num()
        return "%s %s %s" % (self.num(), self.r.choice("+-*"), self.num())

    def cond(self):
        r = self.r.random()
        if r < .15:
            return self.ent() + ".w"
        if r < .25:
            return "not %s.w" % self.ent()
        return "%s %s %s" % (self.num(), self.r.choice(
            ["<", "<=", "==", "!=", ">", ">="]), self.num())

    def fresh(self):
        return 'T("cow", Pos(%d, 0, 0))' % self.r.randint(0, 3)

    def stmt(self, ind):
        r = self.r
        k = r.random()
        p = "    " * ind
        if k < .14:
            return [p + "%s.v = %s" % (self.ent(), self.expr())]
        if k < .22:
            return [p + "%s.v %s= %s" % (self.ent(), r.choice("+-*"),
                                         self.num())]
        if k < .27:
            return [p + "%s.w = %s" % (self.ent(), self.cond())]
        if k < .42:
            return [p + "%s = %s" % (self.tvar(), self.value())]
        if k < .47:
            return [p + "swap(%s.v, %s.v)" % (self.ent(), self.ent())]
        if k < .52:
            return self.newent(p)
        if k < .57:
            return [p + "setv(%s, %s)" % (self.ent(), self.expr())]
        if k < .63:
            return [p + "%s = bump(%s, %s)" % (r.choice(INTS), self.ent(),
                                               self.num())]
        if k < .67:
            return [p + "ibump(%s, %s)" % (self.ent(), self.num())]
        if k < .74:
            return [p + "%s = %s(%s, %s, %s)" % (
                self.tvar(), r.choice(["pick", "ipick"]), self.num(),
                self.value(), self.value())]
        if k < .78:
            return [p + "move(%s, %s)" % (self.tvar(), self.ent())]
        if k < .82:
            return [p + "u.k = %s" % self.expr()]
        if k < .85:
            return [p + "/say %s ${%s}" % (r.choice("pq"), self.ent())]
        if ind >= 2:
            return [p + "%s = %s" % (r.choice(INTS), self.expr())]
        if k < .95:
            out = [p + "if %s:" % self.cond()] + self.block(ind + 1)
            if r.random() < .5:
                out += [p + "else:"] + self.block(ind + 1)
            return out
        self.depth += 1
        i = "i%d" % self.depth
        return [p + "%s := 0" % i, p + "while %s < 2:" % i] + \
            self.block(ind + 1) + [p + "    %s += 1" % i]

    def newent(self, p):
        v = self.tvar()
        return [p + "%s = %s" % (v, self.fresh()),
                p + "%s.v = %s" % (v, self.lit()),
                p + "%s.w = %s" % (v, self.r.choice(["True", "False"]))]

    def block(self, ind):
        out = []
        for _ in range(self.r.randint(1, 3)):
            out += self.stmt(ind)
        return out

    def program(self, n):
        head = DECL
        body = []
        for v in "xy":
            body += ['%s := T("%s", Pos(0, 0, 0))' % (v, "cow"),
                     "%s.v = %s" % (v, self.r.choice(INTS)),
                     "%s.w = True" % v]
        body += ['u := U("pig", Pos(1, 0, 0))', "u.v = c", "u.w = False",
                 "u.k = 4", "z: T", "z = " + self.r.choice(["x", "y", "u"])]
        if self.r.random() < .5:
            body += ["&w = " + self.r.choice("xyz")]
            self.more.append("w")
        if self.r.random() < .3:
            body += ["&t = upcast(%s, T)" % self.r.choice("xu")]
            self.more.append("t")
        k = len(body)
        for _ in range(n):
            body += self.stmt(0)
        if self.r.random() < .25:
            # the same code run twice, on the entities it left behind
            body[k:] = ["def again():"] + ["    " + l for l in body[k:]] + \
                ["again()"] * 2
        body += ["r = x.v * 3 + y.v", "s = z.v * 5 + u.v - u.k"]
        text = "\n".join(body)
        f = "\n".join(d for d in split_defs(FUNCS)
                      if d.split("(")[0].split(" ")[-1] + "(" in text
                      or "ident" in d and "ident" in text)
        return head + f + ("\n" if f else "") + text


def split_defs(t):
    out = []
    for line in t.splitlines():
        if line.startswith(" "):
            out[-1] += "\n" + line
        else:
            out.append(line)
    return out
