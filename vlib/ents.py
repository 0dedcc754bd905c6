"""The finite world shared by the command model and the reference.

One player "P", world entities w0, w1, ... (symbolic existence, tags, scores,
attributes, distances) and the entities summoned during a run.  Nothing here
knows about the compiler: it names the facts of the world, so that both sides
speak about the same ones.
"""
import re
from decimal import Decimal
from fractions import Fraction
import z3
from . import dom
from .sym import E, Unsupported

PLAYER = "P"


class Facts:
    """Symbolic (model is None) or concrete facts about the world."""

    def __init__(self, spec, model=None):
        self.spec = spec
        self.types = list(spec.get("types", ()))
        self.model = model
        self.cache = {}

    def bool(self, name):
        w = name.split(" ")
        if w[0] == "attr" and w[2] in ("m", "l", "lm", "haspermission") and \
                self.type_of(w[1]) != "player":
            return False
        name = "world:" + name
        if self.model is not None:
            return bool(self.model.get(name, False))
        if name not in self.cache:
            self.cache[name] = z3.Bool(name)
        return self.cache[name]

    def int(self, name, lo, hi):
        name = "world:" + name
        if self.model is not None:
            v = self.model.get(name, lo)
            return v
        if name not in self.cache:
            x = z3.BitVec(name, 32)
            E.assume(z3.And(x >= lo, x <= hi))
            self.cache[name] = x
        return self.cache[name]

    def type_of(self, e):
        if e == PLAYER:
            return "player"
        if re.match(r"w\d+$", e):
            return self.types[int(e[1:])]
        return e.partition(":")[0]

    def exists(self, e):
        return True if e == PLAYER else self.bool("exists %s" % e)

    def tag(self, e, t):
        if e.startswith("w") or e == PLAYER:
            return self.bool("tag %s %s" % (e, t))
        return False

    def score(self, e, obj):
        """(isset, value) of a score of the program's own objectives."""
        return (self.bool("isset %s %s" % (e, obj)),
                self.int("score %s %s" % (e, obj), -2**31, 2**31 - 1))

    def dist(self, e, loc):
        """thousandths of a block"""
        if loc == INIT and e != PLAYER and self.type_of(e) == "player":
            # P is the player nearest to where commands run by default
            p = self.int("dist %s from %s" % (PLAYER, loc), 0, 1 << 20)
            x = self.int("dist %s from %s" % (e, loc), 0, 1 << 20)
            if self.model is None:
                E.assume(p <= x)
                return x
            return max(p, x)
        return self.int("dist %s from %s" % (e, loc), 0, 1 << 20)

    def rank(self, e, k):
        return self.int("draw%d %s" % (k, e), 0, 1 << 20)

    def before(self, a, b, key):
        """a is taken before b (ties by name)"""
        x, y = key(a), key(b)
        return dom.le(x, y) if order(a) < order(b) else dom.lt(x, y)


def order(name):
    """Canonical order of the universe."""
    if name == PLAYER:
        return (0, "", 0)
    m = re.match(r"w(\d+)$", name)
    if m:
        return (1, "", int(m.group(1)))
    base, _, n = name.rpartition("#")
    return (2, base, int(n))


def first(n, cands, before):
    """[(x, guard)]: of the guarded candidates the first n in `before`."""
    out = []
    for x, m in cands:
        if len(cands) <= n:
            out.append((x, m))
            continue
        cnt = 0
        for y, k in cands:
            if y is not x:
                cnt = dom.add(cnt, dom.b2i(dom.and_(k, before(y, x))))
        out.append((x, dom.and_(m, dom.lt(cnt, n))))
    return [(x, m) for x, m in out if m is not False]


def nstr(f):
    return str(f.numerator) if f.denominator == 1 else str(f)


def num3_(v):
    """the low 32 bits, signed"""
    return (v + 2**31) % 2**32 - 2**31


class Co:
    """A coordinate: an exact number, possibly with a symbolic part (s: the
    doubled value as a 64-bit term)."""

    def __init__(self, c=0, s=None):
        self.c = Fraction(c)
        self.s = s

    def __add__(self, o):
        if self.s is None:
            s = o.s
        else:
            s = self.s if o.s is None else self.s + o.s
        return Co(self.c + o.c, s)

    def zero(self):
        return self.s is None and self.c == 0

    def text(self, args, num=False):
        c, s = self.c, self.s
        if abs(c) < 1 << 60 and (num or s is not None):
            v = (2 * c).__floor__()
            rest = 2 * c - v
            if s is not None:
                v = z3.simplify(s + v)
            if s is not None and not z3.is_bv_value(v):
                args += [z3.simplify(z3.Extract(63, 32, v)),
                         z3.simplify(z3.Extract(31, 0, v))]
                return "\0\0" + ("+" + nstr(rest) if rest else "")
            if s is not None:
                v = v.as_signed_long()
                c = (v + rest) / 2
            if num:
                args += [num3_(v >> 32), num3_(v)]
                return "\0\0" + ("+" + nstr(rest) if rest else "")
        return nstr(c)


_coord = re.compile(r"([~^]?)(-?)([0-9]*)(\.[0-9]*)?$")


def coord(tok, num=None):
    """(kind, Co) of a coordinate as it is written in a command"""
    m = _coord.match(tok)
    if not m or not tok:
        raise Unsupported("coordinate %r" % tok)
    kind, neg, ip, fp = m.groups()
    if len(ip) >= 30:
        if num is None:
            raise Unsupported("symbolic coordinate")
        v, half = num(ip)
        if half is not None:
            return kind, Co(0, -half if neg else half)
        f = {"": 0, ".": 0}.get((fp or "").rstrip("0"), None)
        if f is None:
            if fp.rstrip("0") != ".5":
                raise Unsupported("symbolic coordinate")
            f = 1
        d = v * 2
        if f:
            d = z3.If(v >= 0, d + 1, d - 1)
        return kind, Co(0, -d if neg else d)
    t = (ip or "0") + (fp if fp and fp != "." else "")
    return kind, Co(Fraction(Decimal(neg + t)))


def canon_env(env, num=False):
    """Normal form (text, args) of a chain of execute subcommands that set
    the position, rotation, dimension or anchor: equal normal forms denote
    equal contexts.  "\0\0" in the text stands for a symbolic number (with
    `num`, for any number)."""
    args = []
    pos = [("init", Co()), ("init", Co()), ("init", Co())]
    rot = [("init", Co()), ("init", Co())]
    dim = "init"
    anchor = "feet"

    def one(b, o):
        if isinstance(b, tuple):        # a base that mentions numbers
            args.extend(b[1])
            b = b[0]
        return "%s+%s" % (b, o.text(args, num))

    def show():
        return "%s|%s|%s|%s" % (",".join(one(*x) for x in pos),
                                ",".join(one(*x) for x in rot), dim, anchor)

    def frozen(fmt):
        """a base defined by the whole state"""
        nonlocal args
        keep, args = args, []
        t = fmt % show()
        r = (t, args)
        args = keep
        return r

    def axes(base):
        if isinstance(base, tuple):
            return [(("%s.%s" % (base[0], a), base[1]), Co()) for a in "xyz"]
        return [(base + "." + a, Co()) for a in "xyz"]

    def turned(base):
        if isinstance(base, tuple):
            return [(("%s.%s" % (base[0], a), base[1]), Co()) for a in "vh"]
        return [(base + "." + a, Co()) for a in "vh"]

    def wrap(fmt, b, o):
        nonlocal args
        keep, args = args, []
        t = fmt % one(b, o)
        r = (t, args)
        args = keep
        return r
    for s in env:
        k = s[0]
        if k == "at":
            pos = axes(s[1])
            rot = turned(s[1])
            dim = "dim of " + s[1]
        elif k == "positioned as":
            pos = axes(s[1])
        elif k == "positioned":
            kinds = [c[0] for c in s[1]]
            if "^" in kinds:
                if kinds != ["^"] * 3:
                    raise Unsupported("mixed local coordinates")
                if not all(c[1].zero() for c in s[1]) or anchor != "feet":
                    t, a = frozen("<%s>")
                    a = list(a)
                    t += "^" + " ".join(c[1].text(a, num) for c in s[1])
                    pos = axes((t, a))
            else:
                pos = [(b, o + v) if t == "~" else ("abs", v)
                       for (b, o), (t, v) in zip(pos, s[1])]
        elif k == "align":
            pos = [(wrap("floor(%s)", b, o), Co())
                   if a in s[1] else (b, o)
                   for a, (b, o) in zip("xyz", pos)]
        elif k == "rotated as":
            rot = turned(s[1])
        elif k == "rotated":
            rot = [(b, o + v) if t == "~" else ("abs", v)
                   for (b, o), (t, v) in zip(rot, s[1])]
        elif k == "facing entity":
            rot = turned(frozen("facing %s %s from <%%s>" % (s[1], s[2])))
        elif k == "anchored":
            anchor = s[1]
        elif k == "in":
            if dim != s[1]:
                pos = [(b, o) if b == "abs" else
                       (wrap("%%s in %s" % s[1], b, o), Co())
                       for b, o in pos]
            dim = s[1]
        else:
            raise Unsupported("context %r" % (s,))
    t = show()
    return t, args


def event_key(env):
    """(normal form of a context in an observable event, its numbers)"""
    if canon_env(env)[0] == INIT:
        return (), []
    return canon_env(env, True)


INIT = canon_env(())[0]
