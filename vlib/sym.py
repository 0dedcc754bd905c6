"""Path-exploring symbolic executor for Python code loaded by `instr`.

Values
  SymInt   unbounded Python int, represented by a 72-bit two's complement
           z3 bit-vector plus a sound interval (an operation whose interval
           leaves +-2**70 makes the path `Unsupported`, it never wraps).
  SymBool  z3 Bool; __bool__ forks the path.
  symbolic characters: one private-use code point per symbolic character, so
           C-level joins/slices/format keep working; every comparison on
           strings is routed through `Hooks`.

Exploration is depth-first by re-execution.  A branch is followed when the
solver finds it feasible (sat or unknown), so no feasible path is dropped.
"""
import builtins
import enum
import itertools
import operator
import time
import math
import re
import z3

W = 72
LIM = 1 << 70
PAYLOAD0 = 10 ** 40
STEP = 10 ** 6
PUA0 = 0xF0000
CW = 21  # bits of a symbolic character


class Unsupported(Exception):
    """The encoding does not cover this operation: path is inconclusive."""


class Infeasible(Exception):
    """Current path condition became unsatisfiable (assume(False))."""


class OutOfTime(Exception):
    """The time budget of this exploration is used up."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0
        self.unsupported = 0
        self.infeasible = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + o.__dict__[k])


STATS = Stats()
SOLVER_TIMEOUT_MS = 20000


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS.queries += 1
    STATS.solver_s += time.time() - t
    return r


class Engine:
    """State of the path currently being executed."""

    def __init__(self):
        self.forkmode = False
        self.feas_ms = SOLVER_TIMEOUT_MS
        self.deadline = None
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix      # decisions to replay
        self.taken = []           # decisions of this run
        self.pc = []              # path condition (z3 Bools)
        self.pending = []         # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.reg = {}             # payload -> SymInt
        self.nint = 0
        self.chars = []           # index -> z3 expr
        self.cdom = {}            # index -> bit set of possible code points
        self.cbase = {}           # index -> (index, mapping) of a mapped char
        self.symdicts = {}        # id -> dict that may hold SymInt keys
        self.choices = []
        self.fresh_id = 0
        self.lemmas = {}

    # -- constraints
    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise Infeasible
        self.pc.append(cond)
        self.solver.add(cond)

    def lemma(self, fact, key, keep):
        """A valid fact about uninterpreted terms (added once per path)."""
        if key not in self.lemmas:
            self.lemmas[key] = keep
            self.assume(fact)

    def feasible(self, cond=None):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime
        r = check(self.solver, *([] if cond is None else [cond]))
        if r == z3.unknown:
            STATS.unknown += 1
        return r != z3.unsat

    def decide(self, cond, cs=None):
        """cond: z3 Bool. Returns a Python bool, forking if both feasible.

        cs = (character, set): cond is "character in set".  What the earlier
        decisions on that character imply needs no query."""
        if cs is not None:
            i, mask = cs
            dom = self.cdom.get(i, CFULL)
            if not dom & mask:
                return False
            if not dom & ~mask:
                return True
            v = self.decide(cond)
            self.cdom[i] = dom & (mask if v else ~mask)
            return v
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.assume(cond if v else z3.Not(cond))
            return v
        t = self.feasible(cond)
        if t:
            f = self.feasible(z3.Not(cond))
        else:
            f = True
        if t and f:
            self.pending.append(self.taken + [False])
        v = bool(t)
        self.taken.append(v)
        if not (t and f):
            # implied; still record (keeps replay aligned)
            pass
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n, label=""):
        """A symbolic choice among n alternatives (all are explored)."""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.taken + [k])
        self.taken.append(v)
        self.choices.append((label, v))
        return v

    # -- values
    def fresh(self, name="t"):
        self.fresh_id += 1
        return "%s!%d" % (name, self.fresh_id)

    def mkint(self, e, lo, hi):
        if lo == hi:
            return lo
        if not isinstance(e, z3.BitVecNumRef):
            if hi >= LIM or lo <= -LIM:
                raise Unsupported("integer interval too wide")
        p = PAYLOAD0 + self.nint * STEP
        self.nint += 1
        r = int.__new__(SymInt, p)
        r.e = e
        r.lo = lo
        r.hi = hi
        self.reg[p] = r
        return r

    def sym32(self, name, lo=-2**31, hi=2**31 - 1):
        """A symbolic int32 (a 32-bit constant, sign extended)."""
        k = z3.BitVec(name, 32)
        if lo > -2**31:
            self.assume(k >= lo)
        if hi < 2**31 - 1:
            self.assume(k <= hi)
        r = self.mkint(z3.SignExt(W - 32, k), lo, hi)
        r.k = k
        return r

    def symint(self, name, lo, hi):
        k = z3.BitVec(name, W)
        self.assume(z3.And(k >= lo, k <= hi))
        r = self.mkint(k, lo, hi)
        r.k = k
        return r

    def mkchar(self, e, base=None):
        i = len(self.chars)
        self.chars.append(e)
        if base:
            self.cbase[i] = base
        return chr(PUA0 + i)

    def symchar(self, name):
        return self.mkchar(z3.BitVec(name, CW))

    def restrict(self, c, points):
        """Assume that symbolic character c is one of the code points."""
        i = ord(c) - PUA0
        mask = cmask(points)
        self.cdom[i] = self.cdom.get(i, CFULL) & mask
        self.assume(in_ranges(self.chars[i], ranges_of(points)))

    def possible(self, c):
        """Bit set of the code points of c (None: not tracked)."""
        i = ord(c) - PUA0
        if i in self.cbase:
            b, mp = self.cbase[i]
            dom = self.cdom.get(b, CFULL)
            return ("map", b, mp, dom)
        return ("own", i, None, self.cdom.get(i, CFULL))

    def member(self, c, mask):
        """"c in mask" -> False, True or (character, set) on its base."""
        kind, i, mp, dom = self.possible(c)
        if kind == "map":
            m = 0
            d = dom
            hit = mp.get(mask)
            if hit is None:
                hit = 0
                for o, t in enumerate(mp[None]):
                    if mask >> min(t, CMAX) & 1:
                        hit |= 1 << o
                if mask >> CMAX & 1:
                    hit |= 1 << CMAX
                mp[mask] = hit
            mask = hit
        if not dom & mask:
            return False
        if not dom & ~mask:
            return True
        return (i, mask)

    def concretize(self, x, limit=64):
        """Fork on the value of SymInt x (at most `limit` values)."""
        if not isinstance(x, SymInt):
            return x
        for _ in range(limit):
            r = check(self.solver)
            if r != z3.sat:
                if r == z3.unsat:
                    raise Infeasible
                raise Unsupported("unknown in concretize")
            # deterministic candidate when replaying: smallest-first by model
            i = len(self.taken)
            if i < len(self.prefix) and isinstance(self.prefix[i], tuple):
                kind, v = self.prefix[i]
                self.taken.append((kind, v))
                if kind == "is":
                    self.assume(x.e == v)
                    return v
                self.assume(x.e != v)
                continue
            v = self.solver.model().eval(x.e, model_completion=True)
            v = v.as_signed_long()
            if self.feasible(x.e != v):
                self.pending.append(self.taken + [("not", v)])
            self.taken.append(("is", v))
            self.assume(x.e == v)
            return v
        raise Unsupported("too many values in concretize")


E = Engine()


def explore(fn, max_paths=100000, deadline=None):
    """Run fn() over all feasible paths; yields its results.

    fn's result is yielded as ("ok", value) or ("unsupported", msg).
    """
    work = [[]]
    while work:
        prefix = work.pop()
        if max_paths <= 0 or (deadline and time.time() > deadline):
            yield ("budget", len(work) + 1)
            return
        max_paths -= 1
        E.deadline = deadline + 2 if deadline else None
        E.reset(prefix)
        try:
            v = ("ok", fn())
        except OutOfTime:
            yield ("budget", len(work) + 1)
            return
        except Infeasible:
            STATS.infeasible += 1
            v = None
        except Unsupported as e:
            STATS.unsupported += 1
            v = ("unsupported", str(e))
        except (OverflowError, MemoryError) as e:
            STATS.unsupported += 1
            v = ("unsupported", "payload leak: %r" % e)
        work.extend(E.pending)
        if v is not None:
            STATS.paths += 1
            yield v


# --------------------------------------------------------------- SymBool

class SymBool:
    __slots__ = ("e", "narrow", "cs")

    def __init__(self, e, narrow=None, cs=None):
        self.e = e
        self.narrow = narrow
        self.cs = cs

    def __bool__(self):
        v = E.decide(self.e, self.cs)
        if self.narrow:
            self.narrow(v)
        return v

    def __eq__(self, o):
        return SymBool(self.e == bool_e(o))

    def __ne__(self, o):
        return SymBool(self.e != bool_e(o))

    def __and__(self, o):
        return SymBool(z3.And(self.e, bool_e(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, bool_e(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bool_e(o)))
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    # a truth value used as a number: split on it
    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    def __rmul__(self, o):
        return o * int(self)

    def __neg__(self):
        return -int(self)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SymBool %s>" % self.e


def bool_e(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def mkbool(e):
    if e is True or e is False:
        return e
    return SymBool(e)


# --------------------------------------------------------------- SymInt

def ie(x):
    """z3 term of an int."""
    if isinstance(x, SymInt):
        return x.e
    if not (-LIM < x < LIM):
        raise Unsupported("integer constant too wide (payload leak?)")
    return z3.BitVecVal(x, W)


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return int(x), int(x)


def isnum(x):
    return isinstance(x, int) or isinstance(x, SymBool)


def _num(x):
    if isinstance(x, SymBool):
        return int(x)
    if isinstance(x, bool):
        return int(x)
    return x


class SymInt(int):
    # --- arithmetic
    def _bin(self, o, f):
        if isinstance(o, float):
            return f(SymFloat(self * 2), o)
        if not isnum(o):
            return NotImplemented
        return f(self, _num(o))

    def _rbin(self, o, f):
        if isinstance(o, float):
            return f(o, SymFloat(self * 2))
        if not isnum(o):
            return NotImplemented
        return f(_num(o), self)

    def __add__(self, o): return self._bin(o, i_add)
    def __radd__(self, o): return self._rbin(o, i_add)
    def __sub__(self, o): return self._bin(o, i_sub)
    def __rsub__(self, o): return self._rbin(o, i_sub)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * E.concretize(self)
        return self._bin(o, i_mul)
    __rmul__ = __mul__

    def __floordiv__(self, o): return self._bin(o, i_floordiv)
    def __rfloordiv__(self, o): return self._rbin(o, i_floordiv)
    def __mod__(self, o): return self._bin(o, i_mod)
    def __rmod__(self, o): return self._rbin(o, i_mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        raise Unsupported("true division of symbolic int")
    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        o = E.concretize(o)
        if o < 0 or m is not None:
            raise Unsupported("symbolic pow")
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o, m=None):
        return o ** E.concretize(self)

    def __neg__(self): return i_sub(0, self)
    def __pos__(self): return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return E.mkint(z3.If(self.e < 0, -self.e, self.e),
                       0, max(-self.lo, self.hi))

    def __invert__(self): return i_sub(-1, self)

    def __lshift__(self, o):
        return self * (1 << E.concretize(o))

    def __rlshift__(self, o):
        return o << E.concretize(self)

    def __rshift__(self, o):
        return self // (1 << E.concretize(o))

    def __rrshift__(self, o):
        return o >> E.concretize(self)

    def _bit(self, o, op):
        if not isnum(o):
            return NotImplemented
        o = _num(o)
        l, h = bounds(o)
        m = max(abs(self.lo), abs(self.hi), abs(l), abs(h))
        n = 1 << (m.bit_length() + 1)
        return E.mkint(op(self.e, ie(o)), -n, n)

    def __and__(self, o): return self._bit(o, operator.and_)
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, operator.or_)
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, operator.xor)
    __rxor__ = __xor__

    # --- comparison
    def __eq__(self, o): return i_cmp(self, o, "eq")
    def __ne__(self, o): return i_cmp(self, o, "ne")
    def __lt__(self, o): return i_cmp(self, o, "lt")
    def __le__(self, o): return i_cmp(self, o, "le")
    def __gt__(self, o): return i_cmp(self, o, "gt")
    def __ge__(self, o): return i_cmp(self, o, "ge")

    def __hash__(self):
        return int.__hash__(self)

    def __bool__(self):
        return bool(i_cmp(self, 0, "ne"))

    def __int__(self): return self
    def __index__(self):
        # reached only from C code that needs a machine integer
        return int.__index__(E.concretize(self))

    def __float__(self):
        raise Unsupported("float of symbolic int")

    def __round__(self, n=None):
        return self

    def bit_length(self):
        raise Unsupported("bit_length")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self):
        return (int, (0,))


class SymFloat(float):
    """An exact half-integer n2/2 with a symbolic numerator."""
    # n2: SymInt or int

    def __new__(cls, n2):
        if not isinstance(n2, SymInt):
            return n2 / 2
        l, h = bounds(n2)
        if l <= -(1 << 52) or h >= 1 << 52:
            raise Unsupported("symbolic float too large")
        r = float.__new__(cls, "nan")
        r.n2 = n2
        return r

    @staticmethod
    def half(o):
        """The doubled value of o as an integer, or None."""
        if isinstance(o, SymFloat):
            return o.n2
        if isinstance(o, SymInt):
            return o * 2
        if isinstance(o, (int, float)):
            if o != o or abs(o) >= 1 << 51 or not float(o * 2).is_integer():
                raise Unsupported("arithmetic on a symbolic float")
            return int(o * 2)
        return None

    def _bin(self, o, f):
        h = self.half(o)
        return NotImplemented if h is None else SymFloat(f(h))

    def __add__(self, o): return self._bin(o, lambda h: self.n2 + h)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda h: self.n2 - h)
    def __rsub__(self, o): return self._bin(o, lambda h: h - self.n2)

    def __mul__(self, o):
        h = self.half(o)
        if h is None:
            return NotImplemented
        if isinstance(o, float) and not isinstance(o, SymFloat) and o == 0 \
                or self == 0:
            raise Unsupported("zero of unknown sign")
        v = self.n2 * h
        if v % 2 != 0:
            raise Unsupported("arithmetic on a symbolic float")
        return SymFloat(v // 2)
    __rmul__ = __mul__

    def __neg__(self):
        if self == 0:
            return -0.0
        return SymFloat(-self.n2)

    def __pos__(self): return self
    def __abs__(self): return SymFloat(abs(self.n2))

    def _no(self, *a):
        raise Unsupported("operation on a symbolic float")
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = _no
    __mod__ = __rmod__ = __pow__ = __rpow__ = __divmod__ = __rdivmod__ = _no
    __int__ = __round__ = __trunc__ = __floor__ = __ceil__ = is_integer = _no
    as_integer_ratio = _no

    def _cmp(self, o, op):
        if isinstance(o, float) and not isinstance(o, SymFloat):
            return i_cmp(self.n2, o * 2, op)
        if not isinstance(o, (int, float)):
            return NotImplemented
        return i_cmp(self.n2, self.half(o), op)

    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")
    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __hash__(self): return 0
    def __bool__(self): return bool(self != 0)
    def __float__(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def text(self, frac):
        # the digits stand for the part before the point; `half` is what is
        # meant by them and the fraction (it has the sign of -0.5)
        whole = self.n2 % 2 == 0
        l, h = bounds(self.n2)
        t = E.mkint(ie(self.n2) / 2, -(-l // 2) if l < 0 else l // 2,
                    h // 2 if h >= 0 else -(-h // 2))
        if not isinstance(t, SymInt):
            return ("-0." if l < 0 and not whole else "%s." % t) + \
                frac[0 if whole else 1]
        t.half = self.n2
        return "%s.%s" % (t, frac[0 if whole else 1])

    def __str__(self): return self.text(("0", "5"))
    __repr__ = __str__

    def __format__(self, spec):
        if not spec:
            return str(self)
        m = re.fullmatch(r"\.([1-9])f", spec)
        if not m:
            raise Unsupported("format of a symbolic float")
        n = int(m.group(1))
        return self.text(("0" * n, "5" + "0" * (n - 1)))


def fmt_float(f, args):
    """`f % args` where some args are symbolic floats."""
    tup = args if isinstance(args, tuple) else (args,)
    out, new, i = [], [], 0
    for part in re.split(r"(%(?:%|\([^)]*\)|[-+ #0-9.*]*[a-zA-Z]))", f):
        if part.startswith("%") and part != "%%" and len(part) > 1:
            if "(" in part or "*" in part:
                raise Unsupported("format of a symbolic float")
            v = tup[i]
            i += 1
            if isinstance(v, SymFloat):
                if part[-1] == "f":
                    v = format(v, part[1:])
                elif part not in ("%s", "%r"):
                    raise Unsupported("format of a symbolic float")
                part = "%s"
            new.append(v)
        out.append(part)
    return "".join(out) % tuple(new)


def i_add(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a + b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    return E.mkint(ie(a) + ie(b), al + bl, ah + bh)


def i_sub(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a - b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    return E.mkint(ie(a) - ie(b), al - bh, ah - bl)


def i_mul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a * b
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return E.mkint(w_mul(ie(a), ie(b)), min(c), max(c))


# Division works on magnitudes through uninterpreted functions that carry
# the defining bounds as lemmas; `concretise` restores the real operations.
_BW = z3.BitVecSort(W)
UDIVW = z3.Function("vp_udiv", _BW, _BW, _BW)
UREMW = z3.Function("vp_urem", _BW, _BW, _BW)
_w0, _w1 = z3.Var(0, _BW), z3.Var(1, _BW)
UMULW = z3.Function("vp_mulw", _BW, _BW, _BW)
WIDE_SUBST = ((UMULW, _w0 * _w1), (UDIVW, z3.UDiv(_w0, _w1)), (UREMW, z3.URem(_w0, _w1)))


def mag(x):
    return z3.simplify(z3.If(x < 0, -x, x))


def magdiv(x, y):
    """(D, R) of |x| / |y| (terms); y != 0 is the caller's business."""
    ax, ay = mag(x), mag(y)
    if isinstance(ax, z3.BitVecNumRef) and isinstance(ay, z3.BitVecNumRef) \
            and ay.as_long():
        a, b = ax.as_long(), ay.as_long()
        return z3.BitVecVal(a // b, W), z3.BitVecVal(a % b, W)
    D, R = UDIVW(ax, ay), UREMW(ax, ay)
    lem = [R >= 0, D >= 0, D <= ax, R <= ax, z3.Implies(ax < ay, R == ax),
           z3.Implies(ax < ay, D == 0), z3.Implies(ay != 0, R < ay),
           z3.Implies(ay == 1, z3.And(D == ax, R == 0))]
    if isinstance(ay, z3.BitVecNumRef):
        lem.append(D * ay + R == ax)
    E.lemma(z3.And(lem), ("div", ax.get_id(), ay.get_id()), (ax, ay))
    return D, R


def w_mul(x, y):
    """Product of two sign-extended int32 (or smaller) quantities."""
    x, y = z3.simplify(x), z3.simplify(y)
    if isinstance(x, z3.BitVecNumRef) or isinstance(y, z3.BitVecNumRef):
        return x * y
    if x.hash() > y.hash():
        x, y = y, x
    r = UMULW(x, y)
    E.lemma(z3.And(r == UMULW(y, x), (r == 0) == z3.Or(x == 0, y == 0),
                   z3.Implies(r != 0, (r < 0) == ((x < 0) != (y < 0))),
                   z3.Implies(x == 1, r == y), z3.Implies(y == 1, r == x),
                   z3.Implies(x == -1, r == -y),
                   z3.Implies(y == -1, r == -x)),
            ("mul", x.get_id(), y.get_id()), (x, y))
    return r


def w_tdiv(x, y):
    D, R = magdiv(x, y)
    return z3.If((x < 0) != (y < 0), -D, D)


def w_trem(x, y):
    D, R = magdiv(x, y)
    return z3.If(x < 0, -R, R)


def i_floordiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("operation on a symbolic float")
    if E_decide(i_cmp(b, 0, "eq")):
        raise ZeroDivisionError("integer division or modulo by zero")
    x, y = ie(a), ie(b)
    D, R = magdiv(x, y)
    q = z3.If((x < 0) != (y < 0), z3.If(R != 0, -D - 1, -D), D)
    (al, ah) = bounds(a)
    m = max(abs(al), abs(ah)) + 1
    return E.mkint(q, -m, m)


def i_mod(a, b):
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported("operation on a symbolic float")
    if E_decide(i_cmp(b, 0, "eq")):
        raise ZeroDivisionError("integer modulo by zero")
    x, y = ie(a), ie(b)
    D, R = magdiv(x, y)
    r = z3.If(x < 0, -R, R)
    (bl, bh) = bounds(b)
    m = max(abs(bl), abs(bh))
    lo = -m if bl < 0 else 0
    hi = m if bh > 0 else 0
    return E.mkint(z3.If(z3.And(R != 0, (x < 0) != (y < 0)), r + y, r),
                   lo, hi)


def E_decide(c):
    return bool(c)


def i_cmp(a, b, op):
    if isinstance(b, SymBool):
        b = int(b)
    if isinstance(b, float):
        if b != b:
            return op == "ne"
        if b in (math.inf, -math.inf):
            big = b > 0
            return {"eq": False, "ne": True, "lt": big, "le": big,
                    "gt": not big, "ge": not big}[op]
        if b.is_integer():
            b = int(b)
        elif op == "eq":
            return False
        elif op == "ne":
            return True
        else:
            # a < 1.5  <=> a <= 1 ; a > 1.5 <=> a >= 2
            if op in ("lt", "le"):
                b, op = math.floor(b), "le"
            else:
                b, op = math.ceil(b), "ge"
    if not isinstance(b, int) or not isinstance(a, int):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if isinstance(b, bool):
        b = int(b)
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if op == "eq":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == "ne":
        if ah < bl or bh < al:
            return True
        if al == ah == bl == bh:
            return False
    elif op == "lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "le":
        if ah <= bl:
            return True
        if al > bh:
            return False
    elif op == "gt":
        if al > bh:
            return True
        if ah <= bl:
            return False
    elif op == "ge":
        if al >= bh:
            return True
        if ah < bl:
            return False
    x, y = ie(a), ie(b)
    e = {"eq": lambda: x == y, "ne": lambda: x != y,
         "lt": lambda: x < y, "le": lambda: x <= y,
         "gt": lambda: x > y, "ge": lambda: x >= y}[op]()
    nar = None
    if isinstance(a, SymInt) and not isinstance(b, SymInt):
        nar = _narrower(a, op, b)
    elif isinstance(b, SymInt) and not isinstance(a, SymInt):
        sw = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge",
              "gt": "lt", "ge": "le"}[op]
        nar = _narrower(b, sw, a)
    return SymBool(e, nar)


_NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le",
        "le": "gt"}


def _narrower(x, op, c):
    eng_reset = E.reg

    def f(v):
        if E.reg is not eng_reset:
            return
        o = op if v else _NEG[op]
        if o == "eq":
            x.lo = max(x.lo, c)
            x.hi = min(x.hi, c)
        elif o == "lt":
            x.hi = min(x.hi, c - 1)
        elif o == "le":
            x.hi = min(x.hi, c)
        elif o == "gt":
            x.lo = max(x.lo, c + 1)
        elif o == "ge":
            x.lo = max(x.lo, c)
    return f


# --------------------------------------------------------------- strings

def is_sym_str(s):
    if type(s) is not str or s.isascii():
        return False
    for c in s:
        if ord(c) >= PUA0 and ord(c) - PUA0 < len(E.chars):
            return True
    return False


def char_e(c):
    o = ord(c)
    if o >= PUA0 and o - PUA0 < len(E.chars):
        return E.chars[o - PUA0]
    if o >= 1 << CW:
        return None
    return z3.BitVecVal(o, CW)


def str_eq(a, b):
    """z3/py bool for a == b (either may hold symbolic characters)."""
    if len(a) != len(b):
        return False
    cs = []
    one = None
    for x, y in zip(a, b):
        if x == y:
            continue
        sx, sy = is_sym_char(x), is_sym_char(y)
        if not sx and not sy:
            return False
        if not (sx and sy):
            c, k = (x, ord(y)) if sx else (y, ord(x))
            if k >= 1 << CW:
                return False
            if k < CMAX:
                one = E.member(c, 1 << k)
                if one is False:
                    return False
                if one is True:
                    continue
            cs.append(char_e(c) == k)
            continue
        one = None
        cs.append(char_e(x) == char_e(y))
    if not cs:
        return True
    if len(cs) > 1:
        return SymBool(z3.And(cs))
    return SymBool(cs[0], cs=one if type(one) is tuple else None)


def is_sym_char(c):
    o = ord(c)
    return o >= PUA0 and o - PUA0 < len(E.chars)


DOMAIN_MAX = 0x24F     # symbolic characters range over U+0000..U+024F
CMAX = DOMAIN_MAX + 1  # bit for every other code point
CFULL = (1 << (CMAX + 1)) - 1


def cmask(points):
    m = 0
    for o in points:
        m |= 1 << o
    return m


def ranges_of(points):
    rng = []
    for o in sorted(points):
        if rng and rng[-1][1] == o - 1:
            rng[-1][1] = o
        else:
            rng.append([o, o])
    return rng
_tables = {}


def char_table(pred_name):
    """Ranges of code points <= DOMAIN_MAX for which str.<pred>() holds."""
    if pred_name not in _tables:
        rng = []
        start = None
        for o in range(DOMAIN_MAX + 2):
            ok = o <= DOMAIN_MAX and getattr(chr(o), pred_name)()
            if ok and start is None:
                start = o
            if not ok and start is not None:
                rng.append((start, o - 1))
                start = None
        _tables[pred_name] = rng
    return _tables[pred_name]


def in_ranges(e, ranges):
    cs = []
    for lo, hi in ranges:
        if lo == hi:
            cs.append(e == lo)
        else:
            cs.append(z3.And(z3.UGE(e, lo), z3.ULE(e, hi)))
    return z3.Or(cs) if cs else z3.BoolVal(False)


_masks = {}


def mask_of(key, ranges):
    if key not in _masks:
        _masks[key] = cmask(o for lo, hi in ranges
                            for o in range(lo, hi + 1))
    return _masks[key]


def char_pred(c, name):
    return char_is(c, name).e


def char_is(c, name):
    """SymBool of c.<name>()."""
    if not is_sym_str(c):
        return SymBool(z3.BoolVal(getattr(c, name)()))
    return char_in(c, name, char_table(name))


def char_in(c, key, ranges):
    m = E.member(c, mask_of(key, ranges))
    if type(m) is bool:
        return SymBool(z3.BoolVal(m))
    return SymBool(in_ranges(char_e(c), ranges), cs=m)


def digit_val(e, base):
    """(valid, value) of a character term as a digit."""
    w = z3.ZeroExt(W - CW, e)
    dig = z3.And(z3.UGE(e, 48), z3.ULE(e, 47 + min(base, 10)))
    val = w - 48
    valid = dig
    if base > 10:
        lo = z3.And(z3.UGE(e, 97), z3.ULE(e, 96 + base - 10))
        up = z3.And(z3.UGE(e, 65), z3.ULE(e, 64 + base - 10))
        valid = z3.Or(dig, lo, up)
        val = z3.If(dig, w - 48, z3.If(lo, w - 87, w - 55))
    return valid, val


def sym_contains(a, coll):
    """a in coll where something is symbolic -> SymBool/bool."""
    if isinstance(coll, str):
        if not isinstance(a, str):
            raise TypeError
        if len(a) == 0:
            return True
        if len(a) == 1 and is_sym_char(a) and coll.isascii():
            return const_set(a, coll)
        cs = []
        for i in range(len(coll) - len(a) + 1):
            r = str_eq(a, coll[i:i + len(a)])
            if r is True:
                return True
            if r is not False:
                cs.append(r)
    else:
        if type(a) is str and len(a) == 1 and is_sym_char(a) and \
                type(coll) in (set, frozenset) and all(
                    type(k) is str and k.isascii() for k in coll):
            return const_set(a, [k for k in coll if len(k) == 1])
        cs = []
        for k in list(coll):
            r = H.eq(a, k)
            if r is True:
                return True
            if r is False or r is NotImplemented:
                continue
            cs.append(r if isinstance(r, SymBool) else SymBool(bool_e(r)))
    if not cs:
        return False
    if len(cs) == 1:
        return cs[0]
    sets = {r.cs and r.cs[0] for r in cs}
    one = None
    if len(sets) == 1 and None not in sets:
        m = 0
        for r in cs:
            m |= r.cs[1]
        one = (cs[0].cs[0], m)
        if not E.cdom.get(one[0], CFULL) & ~m:
            return True
    return SymBool(z3.Or([r.e for r in cs]), cs=one)


def const_set(c, chars):
    """c in a set of ASCII characters."""
    points = {ord(k) for k in chars}
    m = E.member(c, cmask(points))
    if type(m) is bool:
        return m
    return SymBool(in_ranges(char_e(c), ranges_of(points)), cs=m)


def issym(x):
    return type(x) in (SymInt, SymFloat) or is_sym_str(x) or (
        type(x) is tuple and any(issym(y) for y in x))


PREDS = {"isdecimal", "isdigit", "isalpha", "isalnum", "isspace",
         "isnumeric", "isascii", "isprintable"}


def sym_not(r):
    return SymBool(z3.Not(r.e),
                   cs=r.cs and (r.cs[0], CFULL & ~r.cs[1]))


class Hooks:
    """Replacements used by instrumented code."""

    # comparisons
    def eq(self, a, b):
        ta = type(a)
        if ta is str and type(b) is str:
            if is_sym_str(a) or is_sym_str(b):
                return str_eq(a, b)
            return a == b
        if ta is tuple and type(b) is tuple and (issym(a) or issym(b)):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if r is False:
                    return False
                if r is not True:
                    cs.append(bool_e(r))
            return SymBool(z3.And(cs)) if cs else True
        return a == b

    def ne(self, a, b):
        if (type(a) is str and type(b) is str) or \
                (type(a) is tuple and type(b) is tuple):
            r = self.eq(a, b)
            return sym_not(r) if isinstance(r, SymBool) else not r
        return a != b

    def _ord(self, a, b, op):
        if type(a) is str and type(b) is str and (is_sym_str(a)
                                                  or is_sym_str(b)):
            if len(a) == 1 and len(b) == 1:
                x, y = char_e(a), char_e(b)
                return SymBool({"lt": z3.ULT, "le": z3.ULE, "gt": z3.UGT,
                                "ge": z3.UGE}[op](x, y))
            raise Unsupported("ordering of symbolic strings")
        if type(a) is tuple and type(b) is tuple and (issym(a) or issym(b)):
            return self._tuple_ord(a, b, op)
        return getattr(operator, op)(a, b)

    def _tuple_ord(self, a, b, op):
        for x, y in zip(a, b):
            if self.eq(x, y):
                continue
            return bool(getattr(operator, op)(x, y))
        return getattr(operator, op)(len(a), len(b))

    def lt(self, a, b): return self._ord(a, b, "lt")
    def le(self, a, b): return self._ord(a, b, "le")
    def gt(self, a, b): return self._ord(a, b, "gt")
    def ge(self, a, b): return self._ord(a, b, "ge")
    def is_(self, a, b):
        if type(a) is SymBool and isinstance(b, bool):
            return bool(a) is b
        return a is b

    def isnot(self, a, b):
        return not self.is_(a, b)

    def _needs_sym(self, a, coll):
        if issym(a):
            return True
        t = type(coll)
        if t is str:
            return is_sym_str(coll)
        if t in (list, tuple, set, frozenset):
            return any(issym(k) for k in coll)
        if isinstance(coll, dict):
            return id(coll) in E.symdicts
        return False

    def in_(self, a, coll):
        if isinstance(coll, (str, list, tuple, set, frozenset, dict)) \
                and self._needs_sym(a, coll):
            return sym_contains(a, coll)
        if issym(a) and hasattr(coll, "__iter__") and not isinstance(
                coll, (str, list, tuple, set, frozenset, dict)):
            return sym_contains(a, list(coll))
        return a in coll

    def notin(self, a, coll):
        r = self.in_(a, coll)
        return sym_not(r) if isinstance(r, SymBool) else not r

    def chain(self, left, *parts):
        v = left
        for op, f in parts:
            r = f()
            b = getattr(self, op)(v, r)
            if not b:
                return b if not isinstance(b, SymBool) else False
            v = r
        return True if isinstance(b, SymBool) else b

    # subscripts
    def _key(self, d, k, default=KeyError):
        """Find the stored key equal to k in dict d (forks)."""
        for kk in list(d):
            r = self.eq(k, kk)
            if r is NotImplemented:
                continue
            if r:
                return True, kk
        return False, None

    def getitem(self, o, k):
        if isinstance(o, dict) and (issym(k) or id(o) in E.symdicts):
            ok, kk = self._key(o, k)
            if not ok:
                miss = getattr(type(o), "__missing__", None)
                if miss:
                    self._mark(o, k)
                    return miss(o, k)
                raise KeyError(k)
            return o[kk]
        if type(k) is SymInt and isinstance(o, (list, tuple, str)):
            n = len(o)
            if (k >= n) or (k < -n):
                raise IndexError("index out of range")
            return o[E.concretize(k)]
        return o[k]

    def _mark(self, d, k):
        if issym(k):
            E.symdicts[id(d)] = d

    def setitem(self, v, o, k):
        if isinstance(o, dict) and (issym(k) or id(o) in E.symdicts):
            ok, kk = self._key(o, k)
            self._mark(o, k)
            o[kk if ok else k] = v
            return
        if type(k) is SymInt and isinstance(o, list):
            k = E.concretize(k)
        o[k] = v

    def delitem(self, o, k):
        if isinstance(o, dict) and (issym(k) or id(o) in E.symdicts):
            ok, kk = self._key(o, k)
            if not ok:
                raise KeyError(k)
            del o[kk]
            return
        if type(k) is SymInt and isinstance(o, list):
            k = E.concretize(k)
        del o[k]

    # operators
    def mul(self, a, b):
        if type(b) is SymInt and isinstance(a, (str, list, tuple)):
            return a * E.concretize(b)
        return a * b

    def mod(self, a, b):
        if type(a) is str and (type(b) is SymFloat or type(b) is tuple and
                               any(type(x) is SymFloat for x in b)):
            return fmt_float(a, b)
        return a % b

    def intattr(self, name):
        if name.startswith("__") and hasattr(operator, name):
            return getattr(operator, name)
        return getattr(int, name)

    # builtin calls
    def callb(self, f, *args, **kw):
        if f is builtins.isinstance:
            if type(args[0]) is SymBool:
                return isinstance(True, args[1])
            return isinstance(*args)
        if f is builtins.int:
            return self.b_int(*args, **kw)
        if f is builtins.chr and type(args[0]) is SymInt:
            return self.b_chr(args[0])
        if f is builtins.ord and is_sym_str(args[0]):
            if len(args[0]) != 1:
                raise TypeError
            return E.mkint(z3.ZeroExt(W - CW, char_e(args[0])), 0,
                           (1 << CW) - 1)
        if f is builtins.map:
            if args[0] in (int, str, float, bool, ord, chr):
                g = args[0]
                return map(lambda *a: self.callb(g, *a), *args[1:])
            return map(*args)
        if f is builtins.range and any(type(a) is SymInt for a in args):
            return range(*[E.concretize(a) for a in args])
        if f in (builtins.slice, itertools.repeat, itertools.islice):
            return f(*[self.idx(a) for a in args[:1]] if f is builtins.slice
                     else args[:1], *[self.idx(a) for a in args[1:]], **{
                         k: self.idx(a) for k, a in kw.items()})
        if f is builtins.float:
            if args and type(args[0]) is SymInt:
                return SymFloat(args[0] * 2)
            if args and type(args[0]) is SymFloat:
                return args[0]
            if args and is_sym_str(args[0]):
                return float(self.concrete_text(args[0]))
        if f is builtins.bool and args and isinstance(args[0], SymBool):
            return bool(args[0])
        if f in (builtins.hex, builtins.bin, builtins.oct) and \
                type(args[0]) is SymInt:
            raise Unsupported("hex/bin of symbolic int")
        return f(*args, **kw)

    def concrete_text(self, s):
        """Fork over the values of every symbolic character of s."""
        out = ""
        for c in s:
            if is_sym_str(c):
                k = E.mkint(z3.ZeroExt(W - CW, char_e(c)), 0, (1 << CW) - 1)
                c = chr(E.concretize(k))
            out += c
        return out

    def call1(self, f, x):
        if type(f) is enum.EnumMeta and is_sym_str(x):
            for m in f:
                if self.eq(x, m.value):
                    return m
            raise ValueError(x)
        return f(x)

    def b_int(self, *args, **kw):
        if kw and len(args) == 1 and list(kw) == ["base"]:
            return self.b_int(args[0], kw["base"])
        if not args or kw:
            return int(*args, **kw)
        x = args[0]
        if type(x) is SymInt:
            return x
        if isinstance(x, SymBool):
            return int(x)
        if isinstance(x, str) and is_sym_str(x):
            base = args[1] if len(args) > 1 else 10
            if base == 0:
                raise Unsupported("int(s, 0)")
            return self.parse_int(x, base)
        return int(*args)

    def parse_int(self, s, base):
        # accepts exactly digit strings; anything else -> decide & ValueError
        v = z3.BitVecVal(0, W)
        if base ** len(s) >= LIM:
            raise Unsupported("symbolic numeral too long")
        for c in s:
            ok, d = digit_val(char_e(c), base)
            m = None
            if is_sym_char(c):
                m = E.member(c, cmask(
                    o for o in range(128) if chr(o).isalnum() and
                    int(chr(o), 36) < base))
            if not (m if type(m) is bool else E.decide(ok, m)):
                # '_', sign, whitespace or other digits: outside the encoding
                other = z3.Or(char_pred(c, "isspace"),
                              char_e(c) == 43, char_e(c) == 45,
                              char_e(c) == 95, char_pred(c, "isdecimal"))
                if E.decide(other):
                    raise Unsupported("int() of exotic numeral")
                raise ValueError("invalid literal for int()")
            v = v * base + d
        return E.mkint(z3.simplify(v), 0, base ** len(s) - 1)

    def b_chr(self, x):
        if (x < 0) or (x > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        if x >= (1 << CW):
            raise Unsupported("chr above the symbolic character range")
        return E.mkchar(z3.Extract(CW - 1, 0, x.e))

    def idx(self, k):
        """A machine integer for C code (forks over the values of k)."""
        return E.concretize(k) if type(k) is SymInt else k

    # method calls
    def callm(self, obj, name, *args, **kw):
        if obj is itertools and name in ("repeat", "islice"):
            return self.callb(getattr(itertools, name), *args, **kw)
        if isinstance(obj, list) and name == "insert":
            return obj.insert(self.idx(args[0]), *args[1:], **kw)
        if isinstance(obj, dict):
            if name in ("get", "setdefault", "pop") and args and (
                    issym(args[0]) or id(obj) in E.symdicts):
                return self.dictm(obj, name, *args, **kw)
            return getattr(obj, name)(*args, **kw)
        if type(obj) is str:
            if is_sym_str(obj) or any(is_sym_str(a) for a in args):
                return self.strm(obj, name, *args, **kw)
            return getattr(obj, name)(*args, **kw)
        if isinstance(obj, list) and name in ("index", "count", "remove") \
                and self._needs_sym(args[0], obj):
            return self.listm(obj, name, *args)
        if isinstance(obj, list) and name == "pop" and args and \
                type(args[0]) is SymInt:
            return obj.pop(E.concretize(args[0]))
        return getattr(obj, name)(*args, **kw)

    def listm(self, obj, name, x):
        n = 0
        for i, y in enumerate(obj):
            if self.eq(x, y):
                if name == "index":
                    return i
                if name == "remove":
                    del obj[i]
                    return None
                n += 1
        if name == "count":
            return n
        raise ValueError("not in list")

    def dictm(self, d, name, k, *default):
        ok, kk = self._key(d, k)
        if ok:
            v = d[kk]
            if name == "pop":
                del d[kk]
            return v
        if name == "setdefault":
            self._mark(d, k)
            d[k] = default[0] if default else None
            return d[k]
        if name == "get":
            return default[0] if default else None
        if default:
            return default[0]
        raise KeyError(k)

    def strm(self, s, name, *args, **kw):
        if name in PREDS:
            if not s:
                return name in ("isascii", "isprintable")
            if len(s) == 1:
                return char_is(s, name)
            return SymBool(z3.And([char_pred(c, name) for c in s]))
        if name == "isidentifier":
            if not s:
                return False
            cs = []
            for i, c in enumerate(s):
                if is_sym_str(c):
                    cs.append(char_in(c, "ident%d" % (i == 0),
                                      _ident_table(i == 0)).e)
                else:
                    cs.append(z3.BoolVal(
                        c.isidentifier() if i == 0 else
                        ("a" + c).isidentifier()))
            return SymBool(z3.And(cs))
        if name in ("startswith", "endswith"):
            p = args[0]
            if len(args) > 1:
                raise Unsupported(name)
            if isinstance(p, tuple):
                rs = [self.strm(s, name, q) for q in p]
                return SymBool(z3.Or([bool_e(r) for r in rs]))
            if len(p) > len(s):
                return False
            if not p:
                return True
            return str_eq(s[:len(p)] if name == "startswith"
                          else s[-len(p):], p)
        if name in ("lower", "upper", "casefold"):
            return "".join(self._case(c, name) for c in s)
        if name in ("strip", "lstrip", "rstrip"):
            i, j = 0, len(s)

            def hit(c):
                if args and args[0] is not None:
                    return bool(self.in_(c, args[0]))
                return bool(char_is(c, "isspace"))
            if name != "rstrip":
                while i < j and hit(s[i]):
                    i += 1
            if name != "lstrip":
                while j > i and hit(s[j - 1]):
                    j -= 1
            return s[i:j]
        if name in ("find", "index", "count", "replace", "split",
                    "partition") and len(args) >= 1 and \
                isinstance(args[0], str) and len(args[0]) == 1:
            hits = [bool(self.eq(c, args[0])) for c in s]
            if name == "find" and len(args) == 1:
                return hits.index(True) if True in hits else -1
            if name == "index" and len(args) == 1:
                if True not in hits:
                    raise ValueError
                return hits.index(True)
            if name == "count":
                return sum(hits)
            if name == "replace" and len(args) == 2:
                return "".join(args[1] if h else c for h, c in zip(hits, s))
            if name == "split" and len(args) == 1:
                out = [""]
                for h, c in zip(hits, s):
                    if h:
                        out.append("")
                    else:
                        out[-1] += c
                return out
            if name == "partition":
                if True in hits:
                    i = hits.index(True)
                    return s[:i], s[i], s[i + 1:]
                return s, "", ""
        if name == "translate":
            out = []
            for c in s:
                if not is_sym_str(c):
                    out.append(c.translate(args[0]))
                    continue
                for k, v in args[0].items():
                    if self.eq(c, chr(k)):
                        out.append(v if isinstance(v, str) else
                                   "" if v is None else chr(v))
                        break
                else:
                    out.append(c)
            return "".join(out)
        raise Unsupported("str.%s on symbolic string" % name)

    def _case(self, c, name):
        if not is_sym_str(c):
            return getattr(c, name)()
        e = char_e(c)
        if name not in _cases:
            mp = []
            odd = []
            for o in range(DOMAIN_MAX + 1):
                t = getattr(chr(o), name)()
                if len(t) != 1 or ord(t) >= 1 << CW:
                    odd.append((o, t))
                    t = chr(o)
                mp.append(ord(t))
            runs = {}
            for o, t in enumerate(mp):
                if t != o:
                    runs.setdefault(t - o, []).append(o)
            _cases[name] = ({None: mp}, odd, [
                (d, ranges_of(os_)) for d, os_ in runs.items()])
        mp, odd, runs = _cases[name]
        for o, t in odd:
            # outside the one-to-one mapping: split
            if self.eq(c, chr(o)):
                return t
        r = e
        for delta, rng in runs:
            r = z3.If(in_ranges(e, rng), e + delta, r)
        kind, i, _, _ = E.possible(c)
        return E.mkchar(r, (i, mp) if kind == "own" else None)


_cases = {}


def _ident_table(first):
    key = "ident%d" % first
    if key not in _tables:
        rng = []
        for o in range(DOMAIN_MAX + 1):
            ok = chr(o).isidentifier() if first else \
                ("a" + chr(o)).isidentifier()
            if ok:
                if rng and rng[-1][1] == o - 1:
                    rng[-1][1] = o
                else:
                    rng.append([o, o])
        _tables[key] = rng
    return _tables[key]


H = Hooks()
