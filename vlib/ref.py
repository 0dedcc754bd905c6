"""Reference semantics of Acacia source programs (independent of /repo).

Evaluates the tuple AST of `rparse` over the value domain of `dom`: integers
are int32 with wrap-around, `/` and `%` truncate toward zero, booleans are
0/1.  Branches are merged under guards; `while` is unrolled `K` times (what
lies beyond is recorded in `unwind`).  Compile-time constants are exact: a
result outside int32, or a constant division by zero, makes the program
invalid (`reject` collects the conditions).

Programs whose meaning depends on the evaluation order of operands with side
effects are outside this reference (the language leaves it open).
"""
from decimal import Decimal
from fractions import Fraction
import z3
from . import dom, rparse
from .sym import E, Unsupported, W, w_tdiv, w_trem, w_mul
from .text import SymText, norm_parts


class Reject(Exception):
    """The program is invalid whatever its literals."""


class V:
    """An int/bool value or variable (variables are mutable V objects)."""
    __slots__ = ("kind", "v", "const", "var", "hook", "may", "h")

    def __init__(self, kind, v, const=False, var=False, hook=None, may=False):
        self.kind = kind
        self.v = v
        self.const = const
        self.var = var
        self.hook = hook
        # not a constant by itself, but an implementation may notice that
        # its value is fixed and treat it as one
        self.may = may or const
        self.h = None

    def get(self, r):
        if self.hook:
            return self.hook.get(r)
        if self.h is not None and r.g is not True:
            return dom.hread(self.h, r.g, self.kind == "bool")
        return self.v

    def set(self, r, v):
        if self.hook:
            self.hook.set(r, v)
        elif self.kind == "bool":
            v = dom.split(v)
            self.write(r, v)
            self.v = dom.iteb(r.g, v, self.v)
        else:
            self.write(r, v)
            self.v = dom.ite(r.g, v, self.v)

    def write(self, r, v):
        if self.h is None:
            self.h = [(True, self.v)]
        dom.hwrite(self.h, r.g, v)


# kinds of values without attributes or elements
PLAIN = ("int", "bool", "float", "str", "none", "func", "stmpl", "fstr",
         "native", "module")


class NoneV:
    kind = "none"


class Flt:
    """A float constant; its value is tracked when it is exact (f)."""
    kind = "float"
    const = True

    def __init__(self, f=None):
        self.f = f


def fold_float(op, a, b):
    """The exact result, rounded once."""
    x, y = (v.f if isinstance(v, Flt) else v.v for v in (a, b))
    if not all(isinstance(v, (int, float)) and abs(v) < 2**40
               for v in (x, y)):
        return Flt()
    x, y = Fraction(x), Fraction(y)
    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
         "/": lambda: x / y, "%": lambda: x - x // y * y}[op]()
    if r == 0 and op != "-":        # its sign is not modelled
        return Flt()
    return Flt(float(r))


class Str:
    kind = "str"

    def __init__(self, s):
        self.s = s


class FStr:
    kind = "fstr"

    def __init__(self, parts):
        self.parts = parts     # list of str | domain int


class Struct:
    kind = "struct"

    def __init__(self, tmpl, fields, var=False):
        self.tmpl = tmpl
        self.fields = fields
        self.var = var


class STmpl:
    kind = "stmpl"

    def __init__(self, name, bases, fields):
        self.name = name
        self.bases = bases
        self.fields = fields   # ordered name -> type (inherited first)

    def is_sub(self, o):
        return self is o or any(b.is_sub(o) for b in self.bases)


class Func:
    kind = "func"

    def __init__(self, kind_, name, params, rport, rtype, body, scope, mod,
                 self_=None):
        self.fkind = kind_
        self.name = name
        self.params = params
        self.rport = rport
        self.rtype = rtype
        self.body = body
        self.scope = scope
        self.mod = mod
        self.self_ = self_
        self.statics = None


class Native:
    kind = "native"

    def __init__(self, fn):
        self.fn = fn


class Type:
    kind = "type"

    def __init__(self, name, args=()):
        self.name = name
        self.args = args


class Mod:
    kind = "module"

    def __init__(self, scope):
        self.scope = scope


class RList:
    kind = "list"

    def __init__(self, items):
        self.items = items


class RMap:
    kind = "map"

    def __init__(self, items):
        self.items = items      # list of [key, value]


class Scope:
    def __init__(self, parent=None):
        self.d = {}
        self.parent = parent

    def find(self, n):
        s = self
        while s is not None:
            if n in s.d:
                return s.d[n]
            s = s.parent
        return None

    def frozen(self):
        """The names visible now (those declared later are not)."""
        s = Scope(self.parent.frozen() if self.parent is not None else None)
        s.d = dict(self.d)
        return s

    def define(self, n, v):
        if n in self.d:
            raise Reject("redefinition of %s" % n)
        self.d[n] = v


class Ctx:
    """Static context of the code being evaluated."""
    def __init__(self, scope, mod, func=None, self_=None):
        self.scope = scope
        self.mod = mod
        self.func = func
        self.self_ = self_
        self.result = None
        self.result_ref = None
        self.new_data = None


I32 = (-2**31, 2**31 - 1)


class Ext:
    """External scoreboard score (scb())."""
    def __init__(self, key):
        self.key = key

    def get(self, r):
        if self.key not in r.ext:
            raise Unsupported("external score %r not declared" % (self.key,))
        if r.g is not True and self.key in r.exth:
            return dom.hread(r.exth[self.key], r.g)
        return r.ext[self.key]

    def set(self, r, v):
        old = r.ext.get(self.key, 0)
        dom.hwrite(r.exth.setdefault(self.key, [(True, old)]), r.g, v)
        r.ext[self.key] = dom.ite(r.g, v, old)


class Ref:
    def __init__(self, files, lits=None, ext=None, K=3, base=None):
        """files: module name -> source; lits: name -> domain value"""
        self.files = files
        self.lits = lits or {}
        self.ext = dict(ext or {})
        self.exth = {}
        self.K = K
        self.g = True
        self.log = []
        self.assume = []
        self.unwind = []
        self.reject = []
        self.mayreject = []
        self.modules = {}
        self.builtins = Scope()
        self.extra_mods = {}
        self.nrandom = 0
        self.draws = None
        self.install_builtins()

    def setup(self, case, model=None):
        pass

    # ------------------------------------------------------------- builtins
    def install_builtins(self):
        b = self.builtins.d
        for t in ("int", "bool", "float", "list", "map", "Any"):
            b[t] = Type(t)
        b["scb"] = Native(self.n_scb)
        b["swap"] = Native(self.n_swap)

    def n_scb(self, ctx, pos, kw):
        a = self.bind(["target", "objective"], pos, kw)
        t, o = a["target"], a["objective"]
        if t.kind != "str":
            return self.scb_of(t, o.s)
        return V("int", None, var=True, hook=Ext((t.s, o.s)))

    def scb_of(self, t, o):
        raise Unsupported("scb of %s" % t.kind)

    def n_swap(self, ctx, pos, kw):
        a, b = pos
        x, y = self.snapshot(a), self.snapshot(b)
        self.store(a, y)
        self.store(b, x)
        return NoneV()

    def bind(self, names, pos, kw, defaults=None):
        d = dict(defaults or {})
        for n, v in zip(names, pos):
            d[n] = v
        for n, v in kw:
            d[n] = v
        return d

    # ------------------------------------------------------------- helpers
    def fork(self, c):
        if isinstance(c, bool):
            return c
        return E.decide(c)

    def under(self, g):
        return Under(self, g)

    def snapshot(self, x):
        """Value of x now, detached from any variable."""
        if isinstance(x, V):
            return V(x.kind, x.get(self), const=x.const, may=x.may)
        if isinstance(x, Struct):
            return Struct(x.tmpl, {k: self.snapshot(f)
                                   for k, f in x.fields.items()})
        return x

    def new_var(self, t):
        if isinstance(t, Type):
            if t.name == "int":
                return V("int", 0, var=True)
            if t.name == "bool":
                return V("bool", False, var=True)
        if isinstance(t, STmpl):
            return Struct(t, {n: self.new_var(ft)
                              for n, ft in t.fields.items()}, var=True)
        if isinstance(t, NoneV) or t is None:
            return NoneV()
        raise Unsupported("variable of type %r" % t)

    def type_of(self, v):
        if isinstance(v, V):
            return self.builtins.d[v.kind]
        if isinstance(v, Struct):
            return v.tmpl
        if isinstance(v, NoneV):
            return v
        raise Reject("%s can not be stored in a variable" % v.kind)

    def store(self, dst, val):
        """val must be a snapshot"""
        if isinstance(dst, V):
            if dst.const or not dst.var:
                raise Reject("assignment to a constant")
            if val.kind != dst.kind:
                raise Reject("type mismatch %s = %s" % (dst.kind, val.kind))
            dst.set(self, val.v)
        elif isinstance(dst, Struct):
            if val.kind != "struct" or not val.tmpl.is_sub(dst.tmpl):
                raise Reject("type mismatch")
            for n in dst.fields:
                self.store(dst.fields[n], val.fields[n])
        elif isinstance(dst, NoneV):
            pass
        else:
            raise Reject("assignment to %s" % dst.kind)

    ct = False

    def cint(self, v):
        return V("int", v, const=True)

    def cbool(self, v):
        return V("bool", v, const=True)

    # ---------------------------------------------------------- arithmetic
    def const_arith(self, op, a, b):
        """exact arithmetic; records the rejection condition"""
        if isinstance(a, int) and isinstance(b, int):
            if op in "/%" and b == 0:
                self.reject.append(True)
                return 0
            r = {"+": lambda: a + b, "-": lambda: a - b,
                 "*": lambda: a * b, "/": lambda: dom.pdiv(a, b),
                 "%": lambda: a - dom.pdiv(a, b) * b}[op]()
            if not I32[0] <= r <= I32[1]:
                self.reject.append(True)
                return dom.wrap(r)
            return r
        x = z3.SignExt(W - 32, dom.bv(a))
        y = z3.SignExt(W - 32, dom.bv(b))
        if op in "/%":
            self.reject.append(y == 0)
        R = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: w_mul(x, y),
             "/": lambda: w_tdiv(x, y), "%": lambda: w_trem(x, y)}[op]()
        self.reject.append(z3.Or(R < I32[0], R > I32[1]))
        return z3.simplify(z3.Extract(31, 0, R))

    def arith(self, op, a, b):
        """a, b snapshots of kind int"""
        if a.kind != "int" or b.kind != "int":
            raise Reject("operands of %s" % op)
        if a.const and b.const:
            return self.cint(self.const_arith(op, a.v, b.v))
        if a.may and b.may:
            self.may_arith(op, a.v, b.v)
            return V("int", self.rt_arith(op, a.v, b.v), may=True)
        return V("int", self.rt_arith(op, a.v, b.v))

    def may_arith(self, op, a, b):
        keep, self.reject = self.reject, []
        try:
            self.const_arith(op, a, b)
        finally:
            self.mayreject += self.reject
            self.reject = keep

    def rt_arith(self, op, x, y):
        if op == "+":
            return dom.add(x, y)
        if op == "-":
            return dom.sub(x, y)
        if op == "*":
            return dom.mul(x, y)
        self.premise(dom.implies(self.g, dom.ne(y, 0)))
        if op == "/":
            self.premise(dom.implies(self.g, dom.not_(
                dom.and_(dom.eq(x, I32[0]), dom.eq(y, -1)))))
            return dom.tdiv(x, y)
        if op == "%":
            self.premise(dom.implies(self.g, dom.not_(
                dom.and_(dom.eq(x, I32[0]), dom.eq(y, -1)))))
            return dom.tmod(x, y)
        raise AssertionError(op)

    def premise(self, c):
        self.assume.append(c)
        if E.forkmode and not isinstance(c, bool):
            E.assume(c)

    def compare(self, op, a, b):
        if a.kind != b.kind:
            raise Reject("comparison of %s and %s" % (a.kind, b.kind))
        if a.kind not in ("int", "bool"):
            raise Reject("comparison of %s" % a.kind)
        const = a.const and b.const
        if a.kind == "int":
            return V("bool", dom.CMP[op](a.v, b.v), const=const,
                     may=a.may or b.may)
        if a.kind == "bool" and op in ("==", "!="):
            if isinstance(a.v, bool) and isinstance(b.v, bool):
                r = a.v == b.v
            else:
                r = dom.bo(a.v) == dom.bo(b.v)
            return V("bool", r if op == "==" else dom.not_(r), const=const,
                     may=a.may or b.may)
        raise Reject("comparison %s of %s" % (op, a.kind))

    # ---------------------------------------------------------- expressions
    def ev(self, e, ctx):
        return getattr(self, "e_" + e[0])(e, ctx)

    def rv(self, e, ctx):
        return self.snapshot(self.ev(e, ctx))

    def e_int(self, e, ctx):
        if not I32[0] <= e[1] <= I32[1]:
            self.reject.append(True)
        return self.cint(e[1])

    def e_float(self, e, ctx):
        return Flt(e[1])

    def ttype(self, v):
        """v used as a type."""
        if isinstance(v, (Type, STmpl, NoneV)):
            return v
        raise Reject("%s is not a type" % v.kind)

    def e_bool(self, e, ctx):
        return self.cbool(e[1])

    def e_none(self, e, ctx):
        return NoneV()

    def e_str(self, e, ctx):
        return Str("".join(p if isinstance(p, str) else
                           self.stringify(self.rv(p, ctx)) for p in e[1]))

    def stringify(self, v):
        if isinstance(v, Str):
            return v.s
        if isinstance(v, V) and v.const:
            if v.kind == "bool":
                return "true" if self.fork(v.v) else "false"
            if isinstance(v.v, int):
                return str(v.v)
            return SymText.mark(v.v)
        if isinstance(v, NoneV):
            return "None"
        if isinstance(v, Flt):
            if v.f is None:
                raise Unsupported("text of a float")
            return format(Decimal(repr(v.f)), "f")
        if v.kind in ("int", "bool", "struct", "func", "list", "map", "stmpl",
                      "type", "module", "fstr", "native"):
            raise Reject("text of %s" % v.kind)
        raise Unsupported("stringify %s" % v.kind)

    def e_self(self, e, ctx):
        if ctx.self_ is None:
            raise Reject("self")
        return ctx.self_

    def e_name(self, e, ctx):
        n = e[1]
        v = ctx.scope.find(n)
        if v is not None:
            return v
        if n in self.lits:
            return self.cint(self.lits[n])
        v = self.builtins.d.get(n)
        if v is None:
            raise Reject("undefined name %s" % n)
        return v

    def e_un(self, e, ctx):
        v = self.rv(e[2], ctx)
        if isinstance(v, Flt):
            return v if e[1] == "+" or v.f is None else Flt(-v.f)
        if v.kind != "int":
            raise Reject("unary %s on %s" % (e[1], v.kind))
        if e[1] == "+":
            return v
        if v.const:
            return self.cint(self.const_arith("-", 0, v.v))
        if v.may:
            self.may_arith("-", 0, v.v)
        return V("int", dom.neg(v.v), may=v.may)

    def e_bin(self, e, ctx):
        a = self.rv(e[2], ctx)
        b = self.rv(e[3], ctx)
        return self.binop(e[1], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Flt) or isinstance(b, Flt):
            for x in (a, b):
                if not isinstance(x, Flt) and (x.kind != "int" or
                                               not x.const):
                    raise Reject("operands of %s" % op)
            if op in "/%" and (isinstance(b, Flt) and b.f == 0 or
                               isinstance(b, V) and self.fork(
                                   dom.eq(b.v, 0))):
                raise Reject("division by zero")
            return fold_float(op, a, b)
        if isinstance(a, Str) and isinstance(b, Str) and op == "+":
            return Str(a.s + b.s)
        if op == "+" and (isinstance(a, FStr) or isinstance(b, FStr)):
            return FStr(self.fparts(a) + self.fparts(b))
        return self.arith(op, a, b)

    def fparts(self, x):
        if isinstance(x, Str):
            return [x.s]
        if isinstance(x, FStr):
            return x.parts
        raise Reject("fstring operand")

    def e_cmp(self, e, ctx):
        vals = [self.rv(e[1], ctx)] + [self.rv(x, ctx) for _, x in e[2]]
        rs = [self.compare(op, vals[i], vals[i + 1])
              for i, (op, _) in enumerate(e[2])]
        if len(rs) == 1:
            return rs[0]
        return V("bool", dom.and_(*[r.v for r in rs]),
                 const=all(r.const for r in rs),
                 may=any(r.may for r in rs))

    def e_not(self, e, ctx):
        v = self.rv(e[1], ctx)
        if v.kind != "bool":
            raise Reject("not on %s" % v.kind)
        return V("bool", dom.not_(v.v), const=v.const, may=v.may)

    def e_and(self, e, ctx):
        vs = [self.rv(x, ctx) for x in e[1]]
        if any(v.kind != "bool" for v in vs):
            raise Reject("and")
        return V("bool", dom.and_(*[v.v for v in vs]),
                 const=all(v.const for v in vs),
                 may=any(v.may for v in vs))

    def e_or(self, e, ctx):
        vs = [self.rv(x, ctx) for x in e[1]]
        if any(v.kind != "bool" for v in vs):
            raise Reject("or")
        return V("bool", dom.or_(*[v.v for v in vs]),
                 const=all(v.const for v in vs),
                 may=any(v.may for v in vs))

    def e_list(self, e, ctx):
        return RList([self.element(x, ctx) for x in e[1]])

    def element(self, e, ctx):
        v = self.rv(e, ctx)
        if not self.is_const(v):
            raise Reject("element is not constant")
        return v

    def e_map(self, e, ctx):
        m = RMap([])
        for k, v in e[1]:
            self.map_set(m, self.element(k, ctx), self.element(v, ctx))
        return m

    def hashable(self, k):
        if isinstance(k, RList):
            for x in k.items:
                self.hashable(x)
        elif not isinstance(k, (V, Str, Flt)):
            raise Reject("map key")

    def const_eq(self, a, b):
        """compile-time equality of constants (forks)"""
        if a.kind != b.kind:
            return False
        if a.kind == "int":
            return self.fork(dom.eq(a.v, b.v))
        if a.kind == "bool":
            return self.fork(a.v) == self.fork(b.v)
        if a.kind == "str":
            return a.s == b.s
        if a.kind == "none":
            return True
        if isinstance(a, RList):
            return len(a.items) == len(b.items) and all(
                self.const_eq(x, y) for x, y in zip(a.items, b.items))
        raise Unsupported("constant equality of %s" % a.kind)

    def map_find(self, m, k):
        self.hashable(k)
        for i, (kk, _) in enumerate(m.items):
            if self.const_eq(kk, k):
                return i
        return None

    def map_set(self, m, k, v):
        i = self.map_find(m, k)
        if i is None:
            m.items.append([k, v])
        else:
            m.items[i][1] = v

    def const_index(self, v, n):
        """int constant -> concrete index (forks); IndexError -> Reject"""
        if v.kind != "int" or not v.const:
            raise Reject("index")
        if isinstance(v.v, int):
            if -n <= v.v < n:
                return v.v
            raise Reject("list index out of range")
        for i in range(-n, n):
            if self.fork(dom.eq(v.v, i)):
                return i
        raise Reject("list index out of range")

    def e_sub(self, e, ctx):
        o = self.ev(e[1], ctx)
        if isinstance(o, Type):
            return Type(o.name, [self.ev(x, ctx) for x in e[2]])
        args = [self.rv(x, ctx) for x in e[2]]
        if isinstance(o, RList):
            return o.items[self.const_index(args[0], len(o.items))]
        if isinstance(o, RMap):
            i = self.map_find(o, args[0])
            if i is None:
                raise Reject("map key")
            return o.items[i][1]
        return self.getitem(o, args, ctx)

    def getitem(self, o, args, ctx):
        if o.kind in PLAIN or isinstance(o, Struct):
            raise Reject("subscript of %s" % o.kind)
        raise Unsupported("subscript of %s" % o.kind)

    def e_attr(self, e, ctx):
        o = self.ev(e[1], ctx)
        return self.attr(o, e[2], ctx)

    def attr(self, o, n, ctx):
        if isinstance(o, Type) and o.name == "int" and n in ("MAX", "MIN"):
            return self.cint(I32[1] if n == "MAX" else I32[0])
        if isinstance(o, Struct):
            if n not in o.fields:
                raise Reject("no field %s" % n)
            return o.fields[n]
        if isinstance(o, Mod):
            v = o.scope.find(n)
            if v is None:
                raise Reject("module has no %s" % n)
            return v
        m = getattr(self, "attr_" + o.kind, None)
        if m is None:
            if o.kind in PLAIN:
                raise Reject("attribute %s of %s" % (n, o.kind))
            raise Unsupported("attribute %s of %s" % (n, o.kind))
        return m(o, n, ctx)

    def attr_list(self, o, n, ctx):
        return Native(lambda c, pos, kw: self.list_method(o, n, pos, kw))

    def attr_map(self, o, n, ctx):
        return Native(lambda c, pos, kw: self.map_method(o, n, pos, kw))

    def list_method(self, o, n, pos, kw):
        raise Unsupported("list.%s" % n)

    def map_method(self, o, n, pos, kw):
        raise Unsupported("map.%s" % n)

    def e_call(self, e, ctx):
        f = self.ev(e[1], ctx)
        pos = [self.ev(x, ctx) for x in e[2]]
        kw = [(n, self.ev(x, ctx)) for n, x in e[3]]
        return self.call(f, pos, kw, ctx)

    def call(self, f, pos, kw, ctx):
        if isinstance(f, Native):
            return f.fn(ctx, pos, kw)
        if isinstance(f, Type):
            if f.name == "int":
                if len(pos) != 1 or kw:
                    raise Reject("int()")
                b = self.snapshot(pos[0])
                if b.kind != "bool":
                    raise Reject("int()")
                return V("int", dom.b2i(dom.split(b.v)), const=b.const,
                         may=b.may)
            return self.construct(f, pos, kw, ctx)
        if isinstance(f, STmpl):
            return self.struct_new(f, pos, kw)
        if isinstance(f, Func):
            return self.call_func(f, pos, kw)
        raise Reject("not callable: %s" % f.kind)

    def construct(self, f, pos, kw, ctx):
        raise Unsupported("constructor %s" % f.name)

    def struct_new(self, t, pos, kw):
        names = list(t.fields)
        d = dict(zip(names, pos))
        if pos:
            raise Reject("struct args")
        for n, v in kw:
            if n in d or n not in t.fields:
                raise Reject("struct arg %s" % n)
            d[n] = v
        s = self.new_var(t)
        s.var = False
        vals = {n: self.snapshot(v) for n, v in d.items()}
        for n, v in vals.items():
            with self.under_true():
                self.store(s.fields[n], v)
        return s

    def under_true(self):
        return UnderTrue(self)

    # ----------------------------------------------------------- functions
    def match_args(self, f, pos, kw):
        names = [p[1] for p in f.params]
        if len(pos) > len(names):
            raise Reject("too many arguments")
        d = dict(zip(names, pos))
        for n, v in kw:
            if n not in names or n in d:
                raise Reject("argument %s" % n)
            d[n] = v
        for (port, n, ty, default) in f.params:
            if n not in d:
                if f.defaults.get(n) is None:
                    raise Reject("missing argument %s" % n)
                d[n] = f.defaults[n]
        for (port, n, ty, default) in f.params:
            t = f.types.get(n)
            if t is not None and not self.matches(t, d[n]):
                raise Reject("argument type %s" % n)
        return d

    def matches(self, t, v):
        if isinstance(t, Type):
            if t.name == "Any":
                return True
            return v.kind == t.name
        if isinstance(t, STmpl):
            return isinstance(v, Struct) and v.tmpl.is_sub(t)
        if isinstance(t, NoneV):
            return isinstance(v, NoneV)
        return True

    def call_func(self, f, pos, kw):
        if f.fkind == "const":
            return self.call_const(f, pos, kw)
        d = self.match_args(f, pos, kw)
        if f.fkind == "normal":
            return self.call_normal(f, d)
        return self.call_inline(f, d)

    def call_normal(self, f, d):
        if f.statics is None:
            f.statics = {}
        vals = {n: self.snapshot(v) for n, v in d.items()}
        sc = Scope(f.scope)
        for n, v in vals.items():
            if n not in f.statics:
                t = f.types.get(n) or self.type_of(v)
                f.statics[n] = self.new_var(t)
            self.store(f.statics[n], v)
            sc.d[n] = f.statics[n]
        c = Ctx(sc, f.mod, f, f.self_)
        if f.rvar is None:
            f.rvar = self.new_var(f.rt)
        c.result = f.rvar
        f.depth = getattr(f, "depth", 0) + 1
        if f.depth > self.K:
            self.unwind.append(self.g)
        else:
            self.block(f.body, c)
        f.depth -= 1
        return self.snapshot(f.rvar)

    def call_inline(self, f, d):
        sc = Scope(f.scope)
        for (port, n, ty, default) in f.params:
            v = d[n]
            if port == "&":
                if not getattr(v, "var", False):
                    raise Reject("reference to non-variable")
                sc.d[n] = v
            elif port == "const":
                if not self.is_const(v):
                    raise Reject("const argument")
                sc.d[n] = v
            else:
                var = self.new_var(f.types.get(n) or self.type_of(v))
                with self.under_true():
                    self.store(var, self.snapshot(v))
                sc.d[n] = var
        c = Ctx(sc, f.mod, f, f.self_)
        self.block(f.body, c)
        res = c.result if f.rport == "" else c.result_ref
        if res is None:
            if not isinstance(f.rt, NoneV):
                raise Reject("no result")
            return NoneV()
        if not self.matches(f.rt, res):
            raise Reject("result type")
        return self.snapshot(res) if f.rport == "" else res

    def is_const(self, v):
        if isinstance(v, V):
            return v.const
        return isinstance(v, (Str, NoneV, Flt, RList, RMap, Func, STmpl, Type,
                              Native, FStr, Mod))

    def call_const(self, f, pos, kw):
        raise Unsupported("const def")

    # ---------------------------------------------------------- statements
    def block(self, stmts, ctx):
        for s in stmts:
            getattr(self, "s_" + s[0])(s, ctx)

    def s_pass(self, s, ctx):
        pass

    def s_expr(self, s, ctx):
        self.ev(s[1], ctx)

    def s_cmd(self, s, ctx):
        text = ""
        for p in s[1]:
            text += p if isinstance(p, str) else \
                self.stringify(self.rv(p, ctx))
        args, text = SymText.split(text)
        self.event(("cmd", self.who(ctx), (), text), args)

    def who(self, ctx):
        return "-"

    def event(self, kind, args=()):
        if self.g is not False:
            self.log.append((self.g, kind, tuple(args)))

    def s_var(self, s, ctx):
        t = self.ttype(self.ev(s[2], ctx))
        var = self.new_var(t)
        if s[3] is not None:
            val = self.rv(s[3], ctx)
            if isinstance(t, NoneV) and not isinstance(val, NoneV):
                raise Reject("type of %s" % s[1])
            ctx.scope.define(s[1], var)
            self.store(var, val)
        else:
            ctx.scope.define(s[1], var)

    def s_auto(self, s, ctx):
        val = self.rv(s[2], ctx)
        var = self.new_var(self.type_of(val))
        with self.under_true():
            self.store(var, val)
        ctx.scope.define(s[1], var)

    def s_assign(self, s, ctx):
        t = self.ev(s[1], ctx)
        if s[1][0] == "none":
            raise Reject("assignment target")
        self.store(t, self.rv(s[2], ctx))

    def s_aug(self, s, ctx):
        t = self.ev(s[2], ctx)
        if self.aug_special(t, s, ctx):
            return
        if not getattr(t, "var", False):
            raise Reject("augmented assignment to a non-variable")
        b = self.rv(s[3], ctx)
        a = self.snapshot(t)
        self.store(t, self.binop(s[1], a, b))

    def aug_special(self, t, s, ctx):
        return False

    def s_ref(self, s, ctx):
        v = self.ev(s[3], ctx)
        if s[2] is not None and \
                not self.matches(self.ttype(self.ev(s[2], ctx)), v):
            raise Reject("type of %s" % s[1])
        if not getattr(v, "var", False):
            raise Reject("reference to non-variable")
        ctx.scope.define(s[1], v)

    def s_const(self, s, ctx):
        for n, ty, e in s[1]:
            v = self.ev(e, ctx)
            if not self.is_const(v):
                raise Reject("not a constant")
            ctx.scope.define(n, v)

    def s_if(self, s, ctx):
        c = self.rv(s[1], ctx)
        if c.kind != "bool":
            raise Reject("if condition")
        v = dom.split(c.v)
        if v is True or v is False:
            # static scoping does not depend on the value
            with self.under(v):
                self.block(s[2], ctx)
            with self.under(not v):
                self.block(s[3], ctx)
            return
        with self.under(v):
            self.block(s[2], ctx)
        with self.under(dom.not_(v)):
            self.block(s[3], ctx)

    def s_while(self, s, ctx):
        g0 = self.g
        # names declared inside the body are declared once: run the body in
        # copies that re-use the declarations of the first iteration
        first = True
        results = ctx.result_ref
        for i in range(self.K):
            c = self.rv(s[1], ctx)
            if c.kind != "bool":
                raise Reject("while condition")
            if c.const and first and self.fork(c.v):
                raise Reject("endless loop")
            self.g = dom.and_(self.g, dom.split(c.v))
            if self.g is False:
                if first:       # still compiled
                    self.block(s[2], ctx)
                break
            # (there is one result statement, however often it is run)
            ctx.result_ref = results
            if not first:
                self.block([self.redecl(x, ctx) for x in s[2]], ctx)
            else:
                self.block(s[2], ctx)
            first = False
        else:
            c = self.rv(s[1], ctx)
            self.unwind.append(dom.and_(self.g, c.v))
        self.g = g0

    def redecl(self, s, ctx):
        """A declaration executed again is an assignment."""
        if s[0] == "var":
            return ("assign", ("name", s[1]), s[3]) if s[3] is not None \
                else ("pass",)
        if s[0] == "auto":
            return ("assign", ("name", s[1]), s[2])
        if s[0] == "if":
            return ("if", s[1], [self.redecl(x, ctx) for x in s[2]],
                    [self.redecl(x, ctx) for x in s[3]])
        if s[0] == "while":
            return ("while", s[1], [self.redecl(x, ctx) for x in s[2]])
        if s[0] in ("def", "const", "ref"):
            return ("pass",)
        return s

    def s_for(self, s, ctx):
        it = self.ev(s[2], ctx)
        if self.for_special(it, s, ctx):
            return
        for v in self.iterate(it):
            sub = Ctx(Scope(ctx.scope), ctx.mod, ctx.func, ctx.self_)
            sub.scope.d[s[1]] = v
            sub.result = ctx.result
            sub.result_ref = ctx.result_ref
            sub.new_data = ctx.new_data
            self.block(s[3], sub)
            ctx.result = sub.result
            ctx.result_ref = sub.result_ref

    def for_special(self, it, s, ctx):
        return False

    def iterate(self, it):
        if isinstance(it, RList):
            return list(it.items)
        if isinstance(it, RMap):
            return [k for k, _ in it.items]
        if it.kind in PLAIN or isinstance(it, Struct):
            raise Reject("iteration over %s" % it.kind)
        raise Unsupported("iteration over %s" % it.kind)

    def s_result(self, s, ctx):
        f = ctx.func
        if f is None:
            raise Reject("result outside function")
        v = self.ev(s[1], ctx)
        if f.fkind == "normal":
            if isinstance(f.rt, NoneV) and not isinstance(v, NoneV):
                raise Reject("result type")
            self.store(ctx.result, self.snapshot(v))
        elif f.rport == "":
            val = self.snapshot(v)
            if ctx.result is None:
                ctx.result = self.new_var(self.type_of(val))
            self.store(ctx.result, val)
        else:
            if ctx.result_ref is not None:
                raise Reject("multiple results")
            if f.rport == "&" and not getattr(v, "var", False):
                raise Reject("result is not a variable")
            if f.rport == "const" and not self.is_const(v):
                raise Reject("result is not constant")
            ctx.result_ref = v

    def make_func(self, s, ctx, self_=None):
        _, kind, name, ps, rport, rty, body = s
        if len(set(p[1] for p in ps)) < len(ps):
            raise Reject("parameter named twice")
        sc = ctx.scope.frozen() if kind == "normal" else ctx.scope
        f = Func(kind, name, ps, rport, rty, body, sc, ctx.mod, self_)
        f.types = {}
        f.defaults = {}
        for port, n, ty, d in ps:
            if ty is not None:
                f.types[n] = self.ttype(self.ev(ty, ctx))
            if d is not None:
                f.defaults[n] = self.ev(d, ctx)
                if port != "&" and not self.is_const(f.defaults[n]):
                    raise Reject("default value is not constant")
        for port, n, ty, d in ps:
            if ty is None and d is not None and kind == "normal":
                f.types[n] = self.type_of(f.defaults[n])
        f.rt = self.ttype(self.ev(rty, ctx)) if rty is not None else NoneV()
        f.rvar = None
        return f

    def s_def(self, s, ctx):
        f = self.make_func(s, ctx)
        if f.fkind == "normal":
            self.compile_func(f)
        ctx.scope.define(s[2], f)

    def compile_func(self, f):
        """The body must be valid even if it is never called."""
        with self.under(False):
            if f.statics is None:
                f.statics = {}
            d = {}
            for port, n, ty, default in f.params:
                t = f.types.get(n)
                if t is None:
                    raise Reject("argument without type")
                d[n] = self.new_var(t)
            self.call_normal(f, d)

    def s_struct(self, s, ctx):
        bases = [self.ev(b, ctx) for b in s[2]]
        if any(not isinstance(b, STmpl) for b in bases):
            raise Reject("base of a struct")
        fields = {}
        for b in bases:
            for n in b.fields:
                if n in fields:
                    raise Reject("struct field defined twice")
            fields.update(b.fields)
        for n, ty in s[3]:
            if n in fields:
                raise Reject("struct field redefined")
            fields[n] = self.ttype(self.ev(ty, ctx))
        ctx.scope.define(s[1], STmpl(s[1], bases, fields))

    def s_interface(self, s, ctx):
        # an entry point called from outside; run by the harness on demand
        path = s[1]
        if isinstance(path, tuple):
            path = self.e_str(path, ctx).s
        if path.lower() in [p.lower() for p in self.entries]:
            raise Reject("interface defined twice")
        self.entries[path] = (s[2], ctx)

    entries = None

    def run_entry(self, path):
        body, ctx = self.entries[path]
        c = Ctx(Scope(ctx.scope), ctx.mod)
        self.block(body, c)

    # ------------------------------------------------------------- modules
    def s_import(self, s, ctx):
        ctx.scope.define(s[2], Mod(self.load(s[1], ctx)))

    def s_from(self, s, ctx):
        sc = self.load(s[1], ctx)
        if s[2] is None:
            for n, v in sc.d.items():
                if not n.startswith("_"):
                    ctx.scope.define(n, v)
        else:
            for n, a in s[2]:
                v = sc.d.get(n)
                if v is None:
                    raise Reject("import of unknown name %s" % n)
                ctx.scope.define(a, v)

    def load(self, name, ctx):
        dots, parts = name
        key = ".".join(parts)
        if key in self.native_modules():
            if key not in self.modules:
                sc = Scope()
                sc.d.update(self.native_modules()[key])
                self.modules[key] = (sc, True)
            return self.modules[key][0]
        if key not in self.modules:
            if key not in self.files:
                raise Reject("module %s" % key)
            sc = Scope()
            loaded = V("bool", False, var=True)
            self.modules[key] = (sc, loaded)
            c = Ctx(sc, key)
            self.block(rparse.parse(self.files[key]), c)
            # names become visible at compile time; the body runs at the
            # first import executed
            return sc
        return self.modules[key][0]

    def native_modules(self):
        if not hasattr(self, "_native"):
            self._native = {"print": self.mod_print(), "math": self.mod_math()}
            self._native.update(self.extra_mods)
        return self._native

    def mod_math(self):
        return {}

    # print module -----------------------------------------------------
    def mod_print(self):
        return {"format": Native(self.p_format), "tell": Native(self.p_tell)}

    def p_format(self, ctx, pos, kw):
        pat = pos[0].s
        args = pos[1:]
        kws = dict(kw)
        parts = []
        i = 0
        while i < len(pat):
            c = pat[i]
            i += 1
            if c != "%":
                parts.append(c)
                continue
            if i >= len(pat):
                parts.append("%")
                continue
            d = pat[i]
            i += 1
            if d == "%":
                parts.append("%")
                continue
            if d == "{":
                j = pat.find("}", i)
                if j < 0:
                    raise Reject("unclosed brace in format")
                name = pat[i:j]
                i = j + 1
            elif d in "0123456789":
                name = d
            else:
                parts.append("%" + d)
                continue
            if all(ch in "0123456789" for ch in name) and name:
                if int(name) >= len(args):
                    raise Reject("format index")
                v = args[int(name)]
            elif name in kws:
                v = kws[name]
            else:
                raise Reject("format name")
            parts += self.ftext(v)
        return FStr(parts)

    def ftext(self, v):
        if isinstance(v, Str):
            return [v.s]
        if isinstance(v, FStr):
            return v.parts
        if isinstance(v, Flt):
            if v.f is None:
                raise Unsupported("text of a float")
            return [format(Decimal(repr(v.f)), "f")]
        if isinstance(v, V):
            x = v.get(self)
            return [x if v.kind == "int" else dom.b2i(x)]
        raise Reject("format of %s" % v.kind)

    def p_tell(self, ctx, pos, kw):
        a = self.bind(["text", "target"], pos, kw)
        parts = self.fparts(a["text"])
        who = "@a" if "target" not in a else self.selector(a["target"])
        self.emit_raw("tellraw " + who, parts, ctx)
        return NoneV()

    def selector(self, t):
        raise Unsupported("selector")

    def emit_raw(self, head, parts, ctx):
        kind, args = norm_parts(parts)
        self.event(("raw", head, self.who(ctx), kind), args)

    # --------------------------------------------------------------- main
    def run(self, main):
        self.entries = {}
        sc = Scope()
        ctx = Ctx(sc, "__main__")
        self.main_ctx = ctx
        self.block(rparse.parse(main), ctx)
        return self


class Under:
    def __init__(self, r, g):
        self.r = r
        self.g = g

    def __enter__(self):
        self.old = self.r.g
        self.r.g = dom.and_(self.old, self.g)

    def __exit__(self, *a):
        self.r.g = self.old


class UnderTrue:
    """Initialise a variable nobody can observe outside this guard."""
    def __init__(self, r):
        self.r = r

    def __enter__(self):
        self.old = self.r.g
        self.r.g = True

    def __exit__(self, *a):
        self.r.g = self.old
