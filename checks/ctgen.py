"""Random compile-time functions (`const def`) that call each other."""
CMPS = ["==", "!=", "<", "<=", ">", ">="]


class CG:
    def __init__(self, r, nfuncs=3, size=5, lits=2):
        self.r = r
        self.nfuncs = nfuncs
        self.size = size
        self.lits = lits
        self.funcs = []         # (name, arg types, defaults, result type)
        self.n = 0

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # expressions of one function body; self.v: name -> type
    def names(self, t):
        return [n for n, x in self.v.items() if x == t]

    def lit(self):
        r = self.r
        return r.choice(["K%d" % r.randrange(self.lits), "0", "1", "2", "3",
                         "-4"])

    def call(self, t):
        fs = [f for f in self.funcs if f[3] == t]
        if not fs:
            return None
        n, ts, ds, _ = self.r.choice(fs)
        k = len(ts)
        while k and ds[k - 1] and self.r.random() < .5:
            k -= 1
        args = [self.e(x, 1) for x in ts[:k]]
        kws = ["p%d=%s" % (i, self.e(ts[i], 1)) for i in range(k, len(ts))
               if self.r.random() < .4]
        return "%s(%s)" % (n, ", ".join(args + kws))

    def e(self, t, d=2):
        r = self.r
        x = r.random()
        if x < .3:
            c = self.call(t) if d > 0 else None
            if c:
                return c
        ns = self.names(t)
        if t == "list":
            if ns and x < .8:
                return r.choice(ns)
            return "{%s}" % ", ".join(self.e("int", 0)
                                      for _ in range(r.choice([1, 2, 3])))
        if d <= 0 or x < .45:
            if ns and r.random() < .75:
                return r.choice(ns)
            return self.lit() if t == "int" else r.choice(["True", "False"])
        if t == "int":
            ls = self.names("list")
            if ls and r.random() < .3:
                q = r.choice(ls)
                return r.choice(["%s[0]", "%s.size()", "%s[-1]"]) % q
            return "(%s %s %s)" % (self.e(t, d - 1), r.choice("++++-----*"),
                                   self.e(t, d - 1))
        x = r.random()
        if x < .5:
            return "(%s %s %s)" % (self.e("int", d - 1), r.choice(CMPS),
                                   self.e("int", d - 1))
        if x < .7:
            return "(not %s)" % self.e(t, d - 1)
        return "(%s %s %s)" % (self.e(t, d - 1), r.choice(["and", "or"]),
                               self.e(t, d - 1))

    def block(self, n, d, decl=True):
        r = self.r
        old = dict(self.v)
        out = []
        for _ in range(n):
            out += self.stmt(d, decl)
        if d < self.depth:
            self.v = {k: t for k, t in self.v.items() if k in old}
        return out or ["pass"]

    def stmt(self, d, decl):
        r = self.r
        x = r.random()
        ints = [n for n in self.names("int") if n not in self.fixed]
        lists = self.names("list")
        if x < .2 and decl:
            t = r.choice(["int", "int", "bool", "list"])
            e = self.e(t)
            n = self.new({"int": "i", "bool": "q", "list": "l"}[t])
            self.v[n] = t
            return ["%s := %s" % (n, e)]
        if x < .28 and decl and ints:
            m = r.choice(ints)
            n = self.new("i")
            self.v[n] = "int"
            return ["&%s = %s" % (n, m)]
        if x < .4 and ints:
            return ["%s = %s" % (r.choice(ints), self.e("int"))]
        if x < .5 and ints:
            return ["%s %s= %s" % (r.choice(ints), r.choice("+-"),
                                   self.e("int", 1))]
        if x < .55 and self.names("bool"):
            return ["%s = %s" % (r.choice(self.names("bool")),
                                 self.e("bool"))]
        if x < .62 and lists:
            q = r.choice(lists)
            return [r.choice(["%s.append(%s)", "%s[0] = %s",
                              "%s[-1] += %s"]) % (q, self.e("int", 1))]
        if x < .67:
            f = self.call(r.choice(["int", "bool", "list"]))
            return [f] if f else []
        if x < .75:
            return self.result()
        if d <= 0:
            return self.stmt(0, decl) if r.random() < .8 else ["pass"]
        if x < .88:
            out = ["if %s:" % self.e("bool")]
            out += ["    " + s for s in self.block(2, d - 1, decl)]
            if r.random() < .6:
                out += ["else:"]
                out += ["    " + s for s in self.block(2, d - 1, decl)]
            return out
        if x < .95 or not decl:
            n = self.new("x")
            it = self.e("list", 1)
            if it in lists or "(" in it:
                it = "%s.copy()" % it if it in lists else "{1, K0}"
            out = ["for %s in %s:" % (n, it)]
            old = dict(self.v)
            self.v[n] = "int"
            self.fixed.add(n)
            out += ["    " + s for s in self.block(2, d - 1, True)]
            self.v = old
            return out
        n = self.new("w")
        out = ["%s := 0" % n, "while %s < %d:" % (n, r.choice([1, 2]))]
        out += ["    %s += 1" % n]
        out += ["    " + s for s in self.block(2, d - 1, False)]
        return out

    def result(self):
        return ["result %s" % self.e(self.rt)]

    def func(self):
        r = self.r
        n = "f%d" % len(self.funcs)
        ts = [r.choice(["int", "int", "int", "bool", "list"])
              for _ in range(r.choice([0, 1, 2, 2, 3]))]
        ds, args, seen = [], [], False
        self.v, self.fixed = {}, set()
        for i, t in enumerate(ts):
            dflt = None
            if seen or r.random() < .2:
                dflt = {"int": self.lit(), "bool": "True",
                        "list": "{1, 2}"}[t]
                seen = True
            ds.append(dflt)
            # (`list` is the mutable kind of list, `{..}` at run time the
            # constant one)
            a = "p%d" % i + ("" if t == "list" or dflt and r.random() < .5
                             else ": " + t)
            args.append(a + ("=" + dflt if dflt else ""))
        for i, t in enumerate(ts):
            self.v["p%d" % i] = t
        self.rt = r.choice(["int", "int", "bool", "list"])
        self.depth = 2
        body = self.block(self.size, 2) + self.result()
        if r.random() < .5:
            body += self.stmt(0, True)
        self.funcs.append((n, ts, ds, self.rt))
        return ["const def %s(%s) -> %s:" % (n, ", ".join(args), {
            "list": "list"}.get(self.rt, self.rt))] + [
                "    " + s for s in body]

    def program(self):
        out = []
        for _ in range(self.nfuncs):
            out += self.func()
        self.v, self.fixed = {}, set()
        for n, ts, ds, rt in self.funcs[::-1]:
            if "list" in ts:
                self.v["L"] = "list"
        if self.v:
            out += ["const L = {3, K0}"]
        n, ts, ds, rt = self.funcs[-1]
        args = ", ".join(self.e(t, 0) for t in ts)
        c = "%s(%s)" % (n, args)
        if rt == "int":
            out += ["r = " + c]
        elif rt == "bool":
            out += ["r = int(%s)" % c]
        else:
            out += ["for z in %s:" % c, "    r = r * 3 + z"]
        if self.v:
            out += ["for z in L:", "    s = s * 3 + z"]
        return "\n".join(out)
