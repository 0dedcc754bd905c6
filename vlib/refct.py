"""Reference semantics, part 2: compile-time functions and containers."""
from . import dom
from .ref import (Ref, V, Str, NoneV, RList, RMap, Native, Type, STmpl,
                  Scope, Ctx, Reject, I32)
from .sym import Unsupported


class Cell:
    """A variable of a `const def`."""
    def __init__(self, v):
        self.v = v


class EntryCell(Cell):
    """The place of a value of a map (`e` is the [key, value] entry)."""
    def __init__(self, e):
        self.e = e

    @property
    def v(self):
        return self.e[1]

    @v.setter
    def v(self, x):
        self.e[1] = x


class ElemCell(Cell):
    """The place of an element of a list: follows it when it moves."""
    def __init__(self, o, i):
        self.o, self.i, self.val = o, i, None
        o.refs = getattr(o, "refs", []) + [self]

    @property
    def v(self):
        return self.val if self.i is None else self.o.items[self.i]

    @v.setter
    def v(self, x):
        if self.i is None:
            self.val = x
        else:
            self.o.items[self.i] = x


def moved(o, f):
    """The element at i is now at f(i) (None: no longer in the list)."""
    for c in getattr(o, "refs", ()):
        if c.i is not None:
            j = f(c.i)
            if j is None:
                c.val = o.items[c.i]
            c.i = j


def frozen(c):
    """A container that cannot be modified, even at compile time."""
    c.frozen = True
    return c


class RefCT(Ref):
    # ----------------------------------------------------------- const def
    def call_const(self, f, pos, kw):
        pos = [self.ct_value(x) for x in pos]
        kw = [(n, self.ct_value(x)) for n, x in kw]
        d = self.match_args(f, pos, kw)
        sc = Scope(f.scope)
        for n, v in d.items():
            sc.d[n] = Cell(v)
        c = Ctx(sc, f.mod, f)
        c.ct = True
        c.ct_result = None
        self.ct_depth = getattr(self, "ct_depth", 0) + 1
        if self.ct_depth > 20:
            self.ct_depth -= 1
            raise Unsupported("deep compile-time recursion")
        try:
            self.ct_block(f.body, c)
        finally:
            self.ct_depth -= 1
        res = c.ct_result if c.ct_result is not None else NoneV()
        if not self.matches(f.rt, res):
            raise Reject("result type of const def")
        return res

    def ct_value(self, v, copy=False):
        if isinstance(v, Cell):
            v = v.v
        if not self.is_const(v):
            raise Reject("argument of const def is not constant")
        if not copy and getattr(self, "ct_depth", 0) and \
                isinstance(v, (RList, RMap)):
            # compile-time code hands over the container itself
            return v
        # constants handed to a compile-time function are copied
        if isinstance(v, RList):
            return frozen(RList([self.ct_value(x, copy) for x in v.items]))
        if isinstance(v, RMap):
            return frozen(RMap([[k, self.ct_value(x, copy)] for k, x in v.items]))
        return v

    def e_name(self, e, ctx):
        v = super().e_name(e, ctx)
        if isinstance(v, Cell):
            return v.v
        if getattr(ctx, "ct", False):
            if not self.is_const(v):
                raise Reject("%s is not constant" % e[1])
        return v

    def ct_block(self, stmts, ctx):
        for s in stmts:
            m = getattr(self, "c_" + s[0], None)
            if m is None:
                raise Reject("statement %s in const def" % s[0])
            m(s, ctx)

    def ct_ev(self, e, ctx):
        return self.ev(e, ctx)

    def ct_place(self, e, ctx):
        """The cell of an assignable compile-time expression."""
        if e[0] == "name":
            c = ctx.scope.find(e[1])
            if not isinstance(c, Cell):
                raise Reject("assignment to %s" % e[1])
            return c
        if e[0] == "sub":
            o = self.ct_ev(e[1], ctx)
            k = self.ct_ev(e[2][0], ctx)
            if getattr(o, "frozen", False):
                raise Reject("element of a constant container")
            if isinstance(o, RList):
                return ElemCell(o, self.const_index(k, len(o.items))
                                % len(o.items))
            if isinstance(o, RMap):
                i = self.map_find(o, k)
                if i is None:
                    raise Reject("map key")
                return EntryCell(o.items[i])
        raise Reject("assignment target")

    def ct_bind(self, ctx, n, cell):
        ctx.scope.define(n, cell)

    def c_pass(self, s, ctx):
        pass

    def c_expr(self, s, ctx):
        self.ct_ev(s[1], ctx)

    def c_var(self, s, ctx):
        if s[3] is None:
            raise Reject("uninitialised constant")
        t = self.ttype(self.ev(s[2], ctx))
        v = self.ct_ev(s[3], ctx)
        if not self.matches(t, v):
            raise Reject("type of %s" % s[1])
        self.ct_bind(ctx, s[1], Cell(v))

    def c_auto(self, s, ctx):
        self.ct_bind(ctx, s[1], Cell(self.ct_ev(s[2], ctx)))

    def c_assign(self, s, ctx):
        cell = self.ct_place(s[1], ctx)
        cell.v = self.ct_ev(s[2], ctx)

    def c_aug(self, s, ctx):
        cell = self.ct_place(s[2], ctx)
        v = self.ct_ev(s[3], ctx)
        cell.v = self.binop(s[1], cell.v, v)

    def c_ref(self, s, ctx):
        cell = self.ct_place(s[3], ctx)
        if s[2] is not None and \
                not self.matches(self.ttype(self.ev(s[2], ctx)), cell.v):
            raise Reject("type of %s" % s[1])
        self.ct_bind(ctx, s[1], cell)

    def ct_cond(self, e, ctx):
        c = self.ct_ev(e, ctx)
        if c.kind != "bool":
            raise Reject("condition")
        return self.fork(c.v)

    def c_if(self, s, ctx):
        self.ct_block(s[2] if self.ct_cond(s[1], ctx) else s[3], ctx)

    def c_while(self, s, ctx):
        n = 0
        while self.ct_cond(s[1], ctx):
            n += 1
            if n > 60:
                raise Unsupported("long compile-time loop")
            self.ct_block(s[2], ctx)
            # (names declared in the body are declared once per iteration,
            # which the language rejects from the second one on)

    def c_for(self, s, ctx):
        it = self.ct_ev(s[2], ctx)
        for v in self.iterate(it):
            old = ctx.scope
            ctx.scope = Scope(old)
            ctx.scope.d[s[1]] = v
            self.ct_block(s[3], ctx)
            ctx.scope = old

    def c_result(self, s, ctx):
        ctx.ct_result = self.ct_ev(s[1], ctx)

    # ---------------------------------------------------------- containers
    def small(self, v, lo=-8, hi=12):
        """Concrete value of an int constant (forks over a small range)."""
        if v.kind != "int" or not v.const:
            raise Reject("integer constant expected")
        if isinstance(v.v, int):
            return v.v
        for i in range(lo, hi + 1):
            if self.fork(dom.eq(v.v, i)):
                return i
        raise Unsupported("integer constant out of the modelled range")

    def nsmall(self, v):
        return None if isinstance(v, NoneV) else self.small(v)

    def args(self, names, pos, kw, need):
        if len(pos) > len(names):
            raise Reject("too many arguments")
        d = dict(zip(names, pos))
        for n, v in kw:
            if n not in names or n in d:
                raise Reject("argument %s" % n)
            d[n] = v
        for n in names[:need]:
            if n not in d:
                raise Reject("missing argument %s" % n)
        return d

    def call(self, f, pos, kw, ctx):
        if getattr(ctx, "ct", False) and (
                isinstance(f, STmpl)
                or getattr(f, "fkind", "const") != "const"):
            raise Reject("run-time function in const def")
        return super().call(f, pos, kw, ctx)

    def attr_type(self, o, n, ctx):
        if o.name == "list":
            return Native(lambda c, p, k: frozen(self.list_static(n, p, k)))
        if o.name == "map" and n == "from_keys":
            if not getattr(ctx, "ct", False):
                raise Unsupported("map.from_keys at run time")
            return Native(lambda c, p, k: self.map_from_keys(p, k))
        raise Reject("no attribute %s" % n)

    def list_static(self, n, pos, kw):
        if n == "range":
            xs = [self.small(x) for x in pos]
            if len(xs) == 3 and xs[2] == 0:
                raise Reject("zero step")
            return RList([self.cint(i) for i in range(*xs)])
        if n == "repeat":
            a = self.args(["object", "times"], pos, kw, 2)
            t = self.small(a["times"])
            o = a["object"]
            if getattr(self, "ct_depth", 0):
                o = self.ct_value(o, True)
            return RList([o] * t)
        if n == "geometric":
            a = self.args(["start", "ratio", "length"], pos, kw, 3)
            cur = a["start"]
            for v in a.values():
                if v.kind != "int" or not v.const:
                    raise Reject("geometric")
            out = []
            for i in range(self.small(a["length"])):
                if i:
                    cur = self.binop("*", cur, a["ratio"])
                out.append(cur)
            return RList(out)
        raise Reject("no attribute %s" % n)

    def map_from_keys(self, pos, kw):
        a = self.args(["x", "fill"], pos, kw, 1)
        m = RMap([])
        for k in self.iterate(a["x"]):
            self.map_set(m, k, a.get("fill", NoneV()))
        return m

    def construct(self, f, pos, kw, ctx):
        if f.name == "list":
            xs = list(self.iterate(pos[0]))
            if getattr(self, "ct_depth", 0):
                xs = [self.ct_value(x, True) for x in xs]
            return frozen(RList(xs))
        if f.name == "map" and getattr(ctx, "ct", False):
            m = RMap([])
            for k, v in zip(self.iterate(pos[0]), self.iterate(pos[1])):
                self.map_set(m, k, v)
            return m
        return super().construct(f, pos, kw, ctx)

    LISTM = ("size", "copy", "slice", "cycle")
    MAPM = ("size", "copy", "keys", "values", "has", "get")

    def attr_list(self, o, n, ctx):
        ct = getattr(ctx, "ct", False)
        if n not in self.LISTM and (not ct or n not in (
                "append", "extend", "insert", "pop", "reverse")):
            raise Reject("no attribute %s" % n)
        return Native(lambda c, p, k: self.list_method(o, n, p, k, ct))

    def attr_map(self, o, n, ctx):
        ct = getattr(ctx, "ct", False)
        if n not in self.MAPM and (not ct or n not in (
                "update", "pop", "set_default", "clear")):
            raise Reject("no attribute %s" % n)
        return Native(lambda c, p, k: self.map_method(o, n, p, k, ct))

    def list_method(self, o, n, pos, kw, ct=False):
        L = o.items
        if n == "size":
            self.args([], pos, kw, 0)
            return self.cint(len(L))
        if n == "copy":
            self.args([], pos, kw, 0)
            return RList(list(L))
        if n == "slice":
            if len(pos) == 1 and not kw:
                return RList(L[:self.small(pos[0])])
            a = self.args(["start", "stop", "step"], pos, kw, 2)
            st = self.small(a["step"]) if "step" in a else 1
            if st == 0:
                raise Reject("zero step")
            return RList(L[self.nsmall(a["start"]):self.nsmall(a["stop"])
                           :st])
        if n == "cycle":
            a = self.args(["times"], pos, kw, 1)
            t = self.small(a["times"])
            if t < 0:
                raise Reject("negative times")
            return RList(L * t)
        if not ct or getattr(o, "frozen", False):
            raise Reject("no attribute %s" % n)
        if n == "append":
            L.append(self.args(["v"], pos, kw, 1)["v"])
            return NoneV()
        if n == "extend":
            L.extend(list(self.iterate(pos[0])))
            return NoneV()
        if n == "insert":
            a = self.args(["index", "value"], pos, [], 2)
            i = self.const_index(a["index"], len(L)) % len(L)
            moved(o, lambda j: j + (j >= i))
            L.insert(i, a["value"])
            return NoneV()
        if n == "pop":
            a = self.args(["index"], pos, kw, 1)
            i = self.const_index(a["index"], len(L)) % len(L)
            moved(o, lambda j: None if j == i else j - (j > i))
            return L.pop(i)
        if n == "reverse":
            moved(o, lambda j: len(L) - 1 - j)
            L.reverse()
            return NoneV()
        raise Reject("no attribute %s" % n)

    def map_method(self, o, n, pos, kw, ct=False):
        if n == "size":
            return self.cint(len(o.items))
        if n == "copy":
            return RMap([list(x) for x in o.items])
        if n == "keys":
            return RList([k for k, _ in o.items])
        if n == "values":
            return RList([v for _, v in o.items])
        if n == "has":
            a = self.args(["key"], pos, kw, 1)
            return self.cbool(self.map_find(o, a["key"]) is not None)
        if n == "get":
            a = self.args(["key", "default"], pos, kw, 1)
            i = self.map_find(o, a["key"])
            return o.items[i][1] if i is not None else \
                a.get("default", NoneV())
        if not ct or getattr(o, "frozen", False):
            raise Reject("no attribute %s" % n)
        if n == "update":
            for k, v in self.args(["other"], pos, kw, 1)["other"].items:
                self.map_set(o, k, v)
            return NoneV()
        if n == "pop":
            a = self.args(["key", "default"], pos, kw, 1)
            i = self.map_find(o, a["key"])
            if i is None:
                if "default" not in a:
                    raise Reject("map key")
                return a["default"]
            return o.items.pop(i)[1]
        if n == "set_default":
            a = self.args(["key", "default"], pos, kw, 1)
            i = self.map_find(o, a["key"])
            if i is None:
                v = a.get("default", NoneV())
                o.items.append([a["key"], v])
                return v
            return o.items[i][1]
        if n == "clear":
            o.items.clear()
            return NoneV()
        raise Reject("no attribute %s" % n)

    def binop(self, op, a, b):
        if isinstance(a, RList) and getattr(self, "ct_depth", 0):
            raise Reject("operands of %s" % op)
        if isinstance(a, RList):
            if op == "+" and isinstance(b, RList):
                return RList(a.items + b.items)
            if op == "*" and isinstance(b, V) and b.kind == "int":
                if not b.const:
                    raise Reject("list times a non-constant")
                return RList(a.items * self.small(b))
            raise Reject("operands of %s" % op)
        if isinstance(a, RMap) or isinstance(b, (RList, RMap)):
            raise Reject("operands of %s" % op)
        if isinstance(a, Str) or isinstance(b, Str):
            if not (isinstance(a, Str) and isinstance(b, Str) and op == "+") \
                    and not ("fstr" in (a.kind, b.kind)):
                raise Reject("operands of %s" % op)
        return super().binop(op, a, b)
