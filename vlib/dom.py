"""Value domain shared by the command interpreter and the reference.

An integer is a Python int (canonical int32) or a z3 BitVec(32); a truth
value is a Python bool or a z3 Bool.  With concrete arguments everything is
evaluated in Python, so the same interpreters serve the symbolic run and the
concrete replay.
"""
import z3
from . import sym

M = 1 << 32


def wrap(x):
    x &= M - 1
    return x - M if x >= M >> 1 else x


def bv(x):
    return z3.BitVecVal(x, 32) if isinstance(x, int) else x


def bo(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def conc(*xs):
    return all(isinstance(x, int) for x in xs)


def is_const(e):
    return isinstance(e, z3.BitVecNumRef)


def norm(e):
    if isinstance(e, z3.BitVecNumRef):
        return e.as_signed_long()
    return e


def add(a, b):
    if conc(a, b):
        return wrap(a + b)
    if conc(b) and b == 0:
        return a
    if conc(a) and a == 0:
        return b
    return bv(a) + bv(b)


def sub(a, b):
    if conc(a, b):
        return wrap(a - b)
    if conc(b) and b == 0:
        return a
    return bv(a) - bv(b)


# Nonlinear operations are kept as uninterpreted functions; `concretise`
# puts the real bit-vector operations back.  A proof under the abstraction is
# a proof; a counterexample is re-examined with the real operations.
_B = z3.BitVecSort(32)
UMUL = z3.Function("vp_mul", _B, _B, _B)
UDIV = z3.Function("vp_div", _B, _B, _B)
UREM = z3.Function("vp_rem", _B, _B, _B)
_v0, _v1 = z3.Var(0, _B), z3.Var(1, _B)


def concretise(e):
    return z3.substitute_funs(e, (UMUL, _v0 * _v1), (UDIV, _v0 / _v1),
                              (UREM, z3.SRem(_v0, _v1)), *sym.WIDE_SUBST)


def mul(a, b):
    if conc(a, b):
        return wrap(a * b)
    for x, y in ((a, b), (b, a)):
        if conc(x):
            if x == 0:
                return 0
            if x == 1:
                return y
            return bv(a) * bv(b)
    a, b = z3.simplify(a), z3.simplify(b)
    if is_const(a) or is_const(b):
        return mul(norm(a), norm(b))
    # int32 multiplication is associative and commutative: products of more
    # than two factors are kept in one canonical association
    fs = factors(a) + factors(b)
    fs.sort(key=lambda x: (x.hash(), x.get_id()))
    r = fs[0]
    for f in fs[1:]:
        r = UMUL(r, f)
    if len(fs) == 2:
        a, b = fs
        sym.E.lemma(r == UMUL(b, a), ("m32", a.get_id(), b.get_id()), (a, b))
    return r


def factors(e):
    if z3.is_app(e) and e.decl().eq(UMUL):
        return factors(e.arg(0)) + factors(e.arg(1))
    return [e]


def pdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tdiv(a, b):
    """C division (truncation). The caller assumes b != 0."""
    if conc(a, b):
        if b == 0:
            return 0
        return wrap(pdiv(a, b))
    return UDIV(z3.simplify(bv(a)), z3.simplify(bv(b)))


def tmod(a, b):
    if conc(a, b):
        if b == 0:
            return 0
        return wrap(a - pdiv(a, b) * b)
    return UREM(z3.simplify(bv(a)), z3.simplify(bv(b)))


def neg(a):
    return sub(0, a)


def eq(a, b):
    if conc(a, b):
        return a == b
    if a is b:
        return True
    return bv(a) == bv(b)


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    if conc(a, b):
        return a < b
    return bv(a) < bv(b)


def le(a, b):
    if conc(a, b):
        return a <= b
    return bv(a) <= bv(b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


CMP = {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def or_(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def split(c):
    """In fork mode conditions are decided (one path per outcome)."""
    if isinstance(c, bool):
        return c
    c = canon(c)
    if isinstance(c, bool) or not sym.E.forkmode:
        return c
    return sym.E.decide(c)


def canon(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


# ------------------------------------------------ guarded write histories

_CONJ = {}


def _neg(e):
    return e.arg(0) if z3.is_not(e) else z3.Not(e)


def conj(g):
    """(literal ids, clauses) of a guard; everything kept alive in the cache."""
    if g is True:
        return _TRUE
    k = g.get_id()
    if k in _CONJ:
        return _CONJ[k][1]
    lits, clauses, keep = {}, [], [g]
    todo = [g]
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo += e.children()
        elif z3.is_not(e) and z3.is_or(e.arg(0)):
            todo += [_neg(x) for x in e.arg(0).children()]
        elif z3.is_or(e) or (z3.is_not(e) and z3.is_and(e.arg(0))):
            xs = e.children() if z3.is_or(e) else \
                [_neg(x) for x in e.arg(0).children()]
            ns = [_neg(x) for x in xs]
            keep += xs + ns + [e]
            lits[e.get_id()] = 1
            clauses.append(frozenset(n.get_id() for n in ns))
            n = _neg(e)
            keep.append(n)
        else:
            n = _neg(e)
            keep += [e, n]
            lits[e.get_id()] = n.get_id()
    r = (frozenset(lits), tuple(clauses),
         frozenset(v for v in lits.values() if v != 1))
    if len(_CONJ) > 20000:
        _CONJ.clear()
    _CONJ[k] = (keep, r)
    return r


_TRUE = (frozenset(), (), frozenset())


def relation(gw, g):
    """1: g implies gw; 0: disjoint; None: unknown (all syntactic)."""
    if gw is True or g is False:
        return 1
    if g is True:
        return None
    a, b = conj(gw), conj(g)
    if a[0] <= b[0]:
        return 1
    if a[2] & b[0]:
        return 0
    for c in a[1]:
        if c <= b[0]:
            return 0
    for c in b[1]:
        if c <= a[0]:
            return 0
    return None


def hread(h, g, isbool=False):
    """Value of a guarded write history [(guard, value)] under guard g."""
    pend = []
    i = len(h) - 1
    while i >= 0:
        gw, v = h[i]
        r = relation(gw, g)
        if r == 1:
            break
        if r is None:
            pend.append((gw, v))
        i -= 1
    assert i >= 0
    for gw, u in reversed(pend):
        v = iteb(gw, u, v) if isbool else ite(gw, u, v)
    return v


def hwrite(h, g, v):
    if g is True:
        h[:] = [(True, v)]
    elif g is not False:
        h.append((g, v))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if conc(a, b) and a == b:
        return a
    return z3.If(c, bv(a), bv(b))


def iteb(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else not_(c)
    return z3.If(c, bo(a), bo(b))


def b2i(b):
    """bool -> 0/1"""
    if isinstance(b, bool):
        return int(b)
    return z3.If(b, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def i2b(x):
    if isinstance(x, int):
        return x != 0
    return x != 0


def imin(a, b):
    return ite(split(lt(a, b)), a, b)


def imax(a, b):
    return ite(split(lt(a, b)), b, a)


# ---------------------------------------------------------------- logs
#
# A log is a list of (guard, kind, args); two logs are compared by folding
# them into an uninterpreted chain, so guards need not line up pairwise.

_FUNCS = {}
LOG = z3.DeclareSort("Log")
EMPTY = z3.Const("log!empty", LOG)


def _func(kind, nargs):
    k = (kind, nargs)
    if k not in _FUNCS:
        _FUNCS[k] = z3.Function("ev!%d" % len(_FUNCS), LOG,
                                *([z3.BitVecSort(32)] * nargs), LOG)
    return _FUNCS[k]


def fold(log):
    t = EMPTY
    for g, kind, args in log:
        if g is False:
            continue
        n = _func(kind, len(args))(t, *[bv(a) for a in args])
        t = n if g is True else z3.If(g, n, t)
    return t


def conc_log(log):
    return [(k, list(a)) for g, k, a in log if g]


def log_diff(l1, l2):
    """(parts, whole): `whole` is true iff the logs differ; when no term of
    `parts` is satisfiable the logs are equal (parts is None when the logs do
    not line up event by event)."""
    l1 = [x for x in l1 if x[0] is not False]
    l2 = [x for x in l2 if x[0] is not False]
    if all(isinstance(g, bool) and conc(*a) for g, k, a in l1 + l2):
        d = conc_log(l1) != conc_log(l2)
        return [d], d
    whole = not_(fold(l1) == fold(l2))
    parts = None
    if len(l1) == len(l2) and all(a[1] == b[1] and len(a[2]) == len(b[2])
                                  for a, b in zip(l1, l2)):
        parts = []
        for (g, k, x), (h, _, y) in zip(l1, l2):
            if g is not h:
                parts.append(bo(g) != bo(h))
            for u, v in zip(x, y):
                parts.append(and_(g, ne(u, v)))
    return parts, whole
