"""Shared helpers for program templates."""
import random
import textwrap

PRE = """&a = scb("a", "in")
&b = scb("b", "in")
&c = scb("c", "in")
&r = scb("r", "in")
&s = scb("s", "in")
"""
EXT = ["a", "b", "c", "r", "s"]

NODIV = ["+", "-", "*"]
OPS = ["+", "-", "*", "/", "%"]
CMPS = ["==", "!=", "<", "<=", ">", ">="]


def tv(name, body, pre=PRE, ext=EXT, **kw):
    c = {"name": name, "main": pre + textwrap.dedent(body).strip("\n") + "\n",
         "ext": list(ext)}
    c.update(kw)
    return {"kind": "tv", "case": c}


def raw(name, main, ext=(), **kw):
    c = {"name": name, "main": textwrap.dedent(main).strip("\n") + "\n",
         "ext": list(ext)}
    c.update(kw)
    return {"kind": "tv", "case": c}


def rng(seed, salt):
    return random.Random("%s/%s" % (seed, salt))


def ass_arith(extra=()):
    return ["scoreboard arithmetic is int32 with wrap-around; / and % "
            "truncate toward zero; runtime division by zero and "
            "INT_MIN/-1 are outside the property",
            "the command interpreter of vlib/mc.py models the documented "
            "semantics of the Bedrock commands the compiler emits",
            "programs whose result depends on the order in which operands "
            "with side effects are evaluated are not generated"] + list(extra)


class Lits:
    """Allocates K0, K1, ..."""
    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return "K%d" % (self.n - 1)


def trees(n):
    """All binary tree shapes with n operators."""
    if n == 0:
        return [None]
    out = []
    for i in range(n):
        for l in trees(i):
            for r in trees(n - 1 - i):
                out.append((l, r))
    return out


def fill(t, ops, leaves):
    """Render shape t consuming iterators ops and leaves (parenthesised)."""
    if t is None:
        return next(leaves)
    l = fill(t[0], ops, leaves)
    o = next(ops)
    r = fill(t[1], ops, leaves)
    return "(%s %s %s)" % (l, o, r)
