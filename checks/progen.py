"""Seeded generator of well-typed program shapes.

Shapes are concrete, values are not: literals K0.. and the external scores
stay symbolic in the check.  Side-effecting calls occur only where the order
of evaluation cannot matter.
"""


class Fn:
    def __init__(self, name, params, ret, pure, inline):
        self.name = name
        self.params = params    # (port, name, type, has_default)
        self.ret = ret
        self.pure = pure
        self.inline = inline


class PG:
    def __init__(self, r, size=8, depth=3, funcs=0, structs=0, loops=True,
                 inline=False, cmds=True, tells=False, maxk=3, div=.08,
                 ifs=True, mul=.1):
        self.r = r
        self.size = size
        self.maxdepth = depth
        self.nf = funcs
        self.ns = structs
        self.loops = loops
        self.inline = inline
        self.cmds = cmds
        self.tells = tells
        self.maxk = maxk
        self.div = div
        self.ifs = ifs
        self.mul = mul
        self.k = 0
        self.n = 0
        self.ints = ["a", "b", "c", "r", "s"]
        self.ro = []
        self.bools = []
        self.structs = []       # (var, template)
        self.bases = {}
        self.tmpls = []         # (name, [(field, type)])
        self.fns = []
        self.lines = []
        self.loop = 0
        self.infn = None

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def emit(self, ind, s):
        self.lines.append("    " * ind + s)

    # ------------------------------------------------------------ expressions
    def lit(self):
        if self.k < self.maxk and self.r.random() < .5:
            self.k += 1
            return "K%d" % (self.k - 1)
        if self.k and self.r.random() < .3:
            return "K%d" % self.r.randrange(self.k)
        return str(self.r.choice([0, 1, 2, 3, 5, 7, 10, 100, 2147483647]))

    def ivars(self):
        v = list(self.ints) + list(self.ro)
        for s, (tn, fs) in self.structs:
            v += self.fields(s, fs)
        return v

    def fields(self, s, fs):
        out = []
        for f, t in fs:
            if t == "int":
                out.append("%s.%s" % (s, f))
            elif isinstance(t, tuple):
                out += self.fields("%s.%s" % (s, f), t[1])
        return out

    def assignable(self):
        v = list(self.ints)
        for s, (tn, fs) in self.structs:
            v += self.fields(s, fs)
        return v

    def iexpr(self, d=2):
        x = self.r.random()
        if d <= 0 or x < .3:
            return self.r.choice(self.ivars())
        if x < .45:
            return self.lit()
        if x < .5:
            return "(-%s)" % self.iexpr(d - 1)
        if x < .56:
            return "int(%s)" % self.bexpr(1)
        if x < .72:
            f = [f for f in self.fns if f.pure and f.ret == "int"]
            if f:
                return self.callx(self.r.choice(f), d - 1)
        op = "*" if self.r.random() < self.mul else self.r.choice("+-")
        if self.r.random() < self.div:
            op = self.r.choice("/%")
        return "(%s %s %s)" % (self.iexpr(d - 1), op, self.iexpr(d - 1))

    def callx(self, f, d=1):
        args = []
        kw = False
        for port, n, t, dflt in f.params:
            if port == "&":
                e = self.r.choice(self.assignable() if t == "int"
                                  else self.bools or ["True"])
                if t == "bool" and not self.bools:
                    return self.lit()
            elif dflt and self.r.random() < .4:
                kw = True
                continue
            elif port == "const":
                e = self.lit()
            elif t == "int":
                e = self.iexpr(d - 1)
            elif t == "bool":
                e = self.bexpr(min(1, d - 1))
            else:
                raise AssertionError
            if kw or self.r.random() < .15:
                kw = True
                args.append("%s=%s" % (n, e))
            else:
                args.append(e)
        return "%s(%s)" % (f.name, ", ".join(args))

    def bexpr(self, d=1):
        x = self.r.random()
        if self.bools and x < .25:
            return self.r.choice(self.bools)
        if d > 0 and x < .4:
            return "(%s %s %s)" % (self.bexpr(d - 1), self.r.choice(
                ["and", "or"]), self.bexpr(d - 1))
        if d > 0 and x < .48:
            return "(not %s)" % self.bexpr(d - 1)
        if d > 0 and x < .56:
            f = [f for f in self.fns if f.pure and f.ret == "bool"]
            if f:
                return self.callx(self.r.choice(f), d)
        return "%s %s %s" % (self.r.choice(self.ivars()), self.r.choice(
            ["==", "!=", "<", "<=", ">", ">="]),
            self.r.choice([self.lit(), self.r.choice(self.ivars())])) \
            if d <= 0 else "(%s %s %s)" % (
                self.iexpr(1), self.r.choice(
                    ["==", "!=", "<", "<=", ">", ">="]), self.iexpr(1))

    # ------------------------------------------------------------- statements
    def block(self, ind, n, d):
        saved = (len(self.ints), len(self.bools), len(self.structs))
        for _ in range(n):
            self.stmt(ind, d)
        # names declared here stay declared (function scope) but may be unset
        del self.ints[saved[0]:]
        del self.bools[saved[1]:]
        del self.structs[saved[2]:]

    def stmt(self, ind, d):
        x = self.r.random()
        if d > 0 and self.ifs and x < .22:
            return self.s_if(ind, d)
        if d > 0 and self.loops and self.loop < 1 and x < .3:
            return self.s_while(ind, d)
        if d > 0 and self.loops and self.loop < 1 and x < .34:
            return self.s_for(ind, d)
        if x < .42 and self.cmds:
            return self.emit(ind, "/say %s" % self.uid("m"))
        if x < .50:
            f = [f for f in self.fns if not f.pure]
            if f and self.r.random() < .3:
                e = self.calls(f)
                if e:
                    return self.emit(ind, e)
            if f:
                f = self.r.choice(f)
                c = self.callx(f, 1)
                if f.ret == "int" and self.r.random() < .7:
                    return self.emit(ind, "%s = %s" % (
                        self.r.choice(self.assignable()), c))
                return self.emit(ind, c)
        if x < .58:
            v = self.uid("v")
            if self.r.random() < .5:
                self.emit(ind, "%s := %s" % (v, self.iexpr()))
            else:
                self.emit(ind, "%s: int = %s" % (v, self.iexpr()))
            self.ints.append(v)
            return
        if x < .66:
            if self.bools and self.r.random() < .5:
                return self.emit(ind, "%s = %s" % (
                    self.r.choice(self.bools), self.bexpr(2)))
            v = self.uid("p")
            self.emit(ind, "%s := %s" % (v, self.bexpr(2)))
            self.bools.append(v)
            return
        if x < .72 and self.tmpls:
            return self.s_struct(ind)
        if x < .75:
            a, b = self.r.choice(self.assignable()), \
                self.r.choice(self.assignable())
            return self.emit(ind, "swap(%s, %s)" % (a, b))
        if x < .79 and self.tells:
            return self.emit(ind, 'print.tell(print.format("%%0;%%1", %s, '
                             '%s))' % (self.iexpr(1), self.iexpr(1)))
        if x < .9:
            op = "*" if self.r.random() < self.mul else self.r.choice("+-")
            return self.emit(ind, "%s %s= %s" % (
                self.r.choice(self.assignable()), op, self.iexpr()))
        self.emit(ind, "%s = %s" % (self.r.choice(self.assignable()),
                                    self.iexpr()))

    def calls(self, f):
        """Calls are made left to right; nothing else is read."""
        f = [f for f in f if f.ret == "int" and
             all(t == "int" and p != "&" for p, _, t, _ in f.params)]
        if not f:
            return None

        def one():
            g = self.r.choice(f)
            return "%s(%s)" % (g.name, ", ".join(
                self.lit() if p == "const" else
                self.r.choice([self.lit(), self.r.choice(self.ivars())])
                for p, _, _, _ in g.params))
        e = "%s %s %s" % (one(), self.r.choice("+-"), one())
        if self.r.random() < .3:
            e = "%s %s (%s)" % (one(), self.r.choice("+-"), e)
        x = self.r.random()
        if x < .7 or not self.ifs:
            return "%s = %s" % (self.r.choice(self.assignable()), e)
        return "%s = int(%s %s %s)" % (
            self.r.choice(self.assignable()), one(),
            self.r.choice(["<", ">=", "=="]), one())

    def s_body(self, ind, n, d):
        if self.r.random() < .08:
            return self.emit(ind, "pass")
        self.block(ind, n, d)

    def s_if(self, ind, d):
        self.emit(ind, "if %s:" % self.bexpr(2))
        self.s_body(ind + 1, self.r.choice([1, 1, 2]), d - 1)
        while self.r.random() < .25:
            self.emit(ind, "elif %s:" % self.bexpr(1))
            self.s_body(ind + 1, 1, d - 1)
        if self.r.random() < .5:
            self.emit(ind, "else:")
            self.s_body(ind + 1, self.r.choice([1, 1, 2]), d - 1)

    def s_while(self, ind, d):
        v = self.uid("i")
        self.emit(ind, "%s := 0" % v)
        cond = "%s < 2" % v
        x = self.r.random()
        if x < .3:
            cond += " and " + self.bexpr(0)
        elif x < .5:
            cond += " and " + self.bexpr(1)
        elif x < .7:
            cond = "%s * 2 %s %s * 2 < %s * 2 + %s" % (
                v, self.r.choice("+-"), self.r.choice(self.ivars()),
                self.r.choice(self.ivars()),
                self.r.choice(self.ivars() + ["3"]))
        self.emit(ind, "while %s:" % cond)
        self.loop += 1
        self.ro.append(v)
        if self.r.random() < .5:
            self.emit(ind + 1, "%s += 1" % v)
            self.block(ind + 1, self.r.choice([1, 2]), d - 1)
        else:
            self.block(ind + 1, self.r.choice([1, 2]), d - 1)
            self.emit(ind + 1, "%s += 1" % v)
        self.loop -= 1
        # the counter stays readable, never assigned again
        self.ro.remove(v)

    def s_for(self, ind, d):
        v = self.uid("f")
        items = ", ".join(self.lit() for _ in range(self.r.choice([1, 2])))
        self.emit(ind, "for %s in {%s}:" % (v, items))
        self.loop += 1
        self.ro.append(v)
        n0 = len(self.lines)
        self.block(ind + 1, self.r.choice([1, 2]), d - 1)
        self.ro.remove(v)
        self.loop -= 1
        assert len(self.lines) > n0

    def s_struct(self, ind):
        t = self.r.choice(self.tmpls)
        same = [s for s, tt in self.structs if tt is t]
        x = self.r.random()
        if same and x < .5:
            src = self.r.choice(same)
            dst = self.r.choice(same)
            return self.emit(ind, "%s = %s" % (dst, src))
        sub = [s for s, tt in self.structs
               if tt is not t and t[0] in self.bases.get(tt[0], ())]
        if sub and same and x < .65:
            return self.emit(ind, "%s = %s" % (self.r.choice(same),
                                               self.r.choice(sub)))
        v = self.uid("t")
        if sub and x < .8:
            self.emit(ind, "%s: %s = %s" % (v, t[0], self.r.choice(sub)))
        elif same and x < .65:
            self.emit(ind, "%s := %s" % (v, self.r.choice(same)))
        else:
            self.emit(ind, "%s := %s" % (v, self.ctor(t)))
        self.structs.append((v, t))

    def ctor(self, t):
        args = []
        for f, ty in t[1]:
            if ty == "int":
                args.append("%s=%s" % (f, self.iexpr(1)))
            elif ty == "bool":
                args.append("%s=%s" % (f, self.bexpr(1)))
            else:
                args.append("%s=%s" % (f, self.ctor(ty)))
        return "%s(%s)" % (t[0], ", ".join(args))

    # -------------------------------------------------------------- functions
    def s_fn(self):
        name = self.uid("fn")
        inline = self.inline and self.r.random() < .5
        pure = self.r.random() < .55
        params = []
        dflt = False
        for i in range(self.r.choice([0, 1, 1, 2, 3])):
            t = self.r.choice(["int", "int", "int", "bool"])
            port = ""
            if inline and self.r.random() < .35:
                port = self.r.choice(["&", "const"])
                if port == "const":
                    t = "int"
            dflt = dflt or self.r.random() < .2
            if port == "&" and dflt:
                port = ""
            params.append((port, self.uid("x"), t, dflt))
        ret = self.r.choice(["int", "int", "bool", None])
        if not pure and ret == "bool":
            ret = "int"
        if pure and ret is None:
            ret = "int"
        decl = []
        for port, n, t, df in params:
            s = {"": "", "&": "&", "const": "const "}[port] + n
            if t is not None and (not df or self.r.random() < .5):
                s += ": " + t
            if df:
                s += "=%s" % (self.lit() if t == "int" else
                              self.r.choice(["True", "False"]))
            decl.append(s)
        self.emit(0, "%sdef %s(%s)%s:" % ("inline " if inline else "", name,
                                          ", ".join(decl),
                                          " -> " + ret if ret else ""))
        # body
        old = (self.ints, self.bools, self.structs, self.ro, self.cmds,
               self.fns)
        g = [] if pure else ["a", "b", "r"]
        self.ints = [n for p, n, t, _ in params if t == "int" and p == ""
                     or t == "int" and p == "&" and not pure] + g
        self.ro = [n for p, n, t, _ in params
                   if p == "const" or (p == "&" and pure and t == "int")] + \
            (["a", "c"] if pure else [])
        self.bools = [n for p, n, t, _ in params if t == "bool" and p != "&"]
        self.structs = []
        if pure:
            self.cmds = False
            self.fns = [f for f in self.fns if f.pure]
        if not self.ints:
            v = self.uid("v")
            self.emit(1, "%s := %s" % (v, self.iexpr(1)))
            self.ints.append(v)
        n = self.r.choice([1, 1, 2, 3])
        loop = self.loop
        self.loop = 1 if self.r.random() < .7 else loop
        for _ in range(n):
            self.stmt(1, 1)
        self.loop = loop
        if ret == "int":
            self.emit(1, "result %s" % self.iexpr(2))
        elif ret == "bool":
            self.emit(1, "result %s" % self.bexpr(1))
        self.ints, self.bools, self.structs, self.ro, self.cmds, self.fns = \
            old
        self.fns.append(Fn(name, params, ret, pure, inline))

    def program(self):
        for i in range(self.ns):
            nm = self.uid("S")
            fs = []
            for _ in range(self.r.choice([1, 2, 3])):
                t = self.r.choice(["int", "int", "int", "bool"])
                if self.tmpls and self.r.random() < .25:
                    t = self.tmpls[0]
                fs.append((self.uid("q"), t))
            base = None
            if self.tmpls and self.r.random() < .45:
                base = self.tmpls[-1] if self.r.random() < .6 else \
                    self.r.choice(self.tmpls)
            self.bases[nm] = (self.bases[base[0]] | {base[0]}) \
                if base else set()
            self.emit(0, "struct %s%s:" % (nm, " extends " + base[0]
                                           if base else ""))
            for f, t in fs:
                self.emit(1, "%s: %s" % (f, t if isinstance(t, str)
                                         else t[0]))
            self.tmpls.append((nm, (base[1] if base else []) + fs))
        for i in range(self.nf):
            self.s_fn()
        for _ in range(self.size):
            self.stmt(0, self.maxdepth)
        pre = "import print\n" if self.tells else ""
        return pre, "\n".join(self.lines)
