"""Reference semantics, part 3: modules and the standard library."""
import z3
from . import dom, rparse
from .ref import (V, Str, FStr, NoneV, Native, Type, Mod, Scope, Ctx, Reject,
                  Func, I32)
from .refct import RefCT
from .sym import Unsupported, W, w_tdiv, w_trem
from .text import SymText, norm_parts, style_mark


class ModRec:
    """A loaded module."""
    def __init__(self, key, body, ctx):
        self.key = key
        self.body = body
        self.ctx = ctx
        self.loaded = V("bool", False, var=True)
        self.parsing = True
        self.exports = {}
        self.again = None


class Task:
    kind = "task"

    def __init__(self, timer, target, pos, kw, ctx):
        self.timer = timer
        self.target = target
        self.pos = pos
        self.kw = kw
        self.ctx = ctx


class Styled:
    def __init__(self, style, part):
        self.style = style
        self.part = part


# formatting codes of the game
COLORS = dict(zip(
    """black dark_blue dark_green dark_aqua dark_red dark_purple gold gray
    dark_gray blue green aqua red light_purple yellow white minecoin_gold
    material_quartz material_iron material_netherite material_redstone
    material_copper material_gold material_emerald material_diamond
    material_lapis material_amethyst""".split(),
    "0123456789abcdefghijmnpqstu"))


class RefLib(RefCT):
    main_name = "main"
    main_dir = ""

    def __init__(self, *a, **k):
        self.ticks = []
        self.regs = []
        self.pending = []
        self.nreg = 0
        super().__init__(*a, **k)

    # ------------------------------------------------------------- modules
    def note_no_export(self, ctx, n):
        if not hasattr(ctx.scope, "noexp"):
            ctx.scope.noexp = set()
        ctx.scope.noexp.add(n)

    def exported(self, name, ctx):
        """Names of a module, after having executed the import of it."""
        dots, parts = name
        key = ".".join(parts)
        if dots == 0 and key in self.native_modules():
            return self.native_modules()[key]
        if dots > 1:
            key = self.above(dots - 1, list(parts))
        m = self.modules.get(key)
        if m is None:
            if key == self.main_name:
                raise Reject("circular import")
            if key not in self.files:
                raise Reject("module %s" % key)
            c = Ctx(Scope(), key)
            m = ModRec(key, rparse.parse(self.files[key]), c)
            self.modules[key] = m
            with self.under(dom.not_(m.loaded.v)):
                self.block(m.body, c)
                m.loaded.set(self, True)
            m.parsing = False
            hide = getattr(c.scope, "noexp", set())
            m.exports = {n: v for n, v in c.scope.d.items()
                         if n not in hide and not n.startswith("_")}
            return m.exports
        if m.parsing:
            raise Reject("circular import")
        self.run_module(m)
        return m.exports

    def above(self, up, parts):
        """Key of a module found in a folder above the main file's."""
        sub = [x for x in self.main_dir.split("/") if x]
        if up > len(sub):
            raise Unsupported("import from outside the program")
        while up and len(parts) > 1 and parts[0] == sub[-up]:
            up -= 1
            del parts[0]
        return "<" * up + ".".join(parts)

    def run_module(self, m):
        """The body runs at the first import that is executed."""
        g = dom.and_(self.g, dom.not_(m.loaded.get(self)))
        if g is False:
            return
        if m.again is None:
            m.again = [self.redecl(x, m.ctx) for x in m.body]
        keep, self.g = self.g, g
        self.block(m.again, m.ctx)
        m.loaded.set(self, True)
        self.g = keep

    def s_import(self, s, ctx):
        e = self.exported(s[1], ctx)
        sc = Scope()
        sc.d = e
        ctx.scope.define(s[2], Mod(sc))
        self.note_no_export(ctx, s[2])

    def s_from(self, s, ctx):
        e = self.exported(s[1], ctx)
        names = [(n, n) for n in e] if s[2] is None else s[2]
        for n, a in names:
            if n not in e:
                raise Reject("import of unknown name %s" % n)
            ctx.scope.define(a, e[n])
            self.note_no_export(ctx, a)

    def s_reimport(self, s, ctx):
        self.exported(s[1], ctx)

    def redecl(self, s, ctx):
        if s[0] in ("import", "from"):
            return ("reimport", s[1])
        if s[0] in ("struct", "entity", "interface"):
            return ("pass",)
        if s[0] == "while":
            return ("while", s[1], [self.redecl(x, ctx) for x in s[2]])
        if s[0] == "const":
            return ("again", [e for _, _, e in s[1]])
        if s[0] == "ref":
            return ("again", [s[3]])
        return super().redecl(s, ctx)

    def s_again(self, s, ctx):
        for e in s[1]:
            self.ev(e, ctx)

    def register(self, make):
        """Loops and tasks exist once, however often main runs."""
        i = self.nreg
        self.nreg += 1
        if i == len(self.regs):
            self.regs.append(make())
        return self.regs[i]

    def native_modules(self):
        if not hasattr(self, "_native"):
            self._native = {"print": self.mod_print(),
                            "math": self.mod_math(),
                            "schedule": self.mod_schedule()}
            self._native.update(self.extra_mods)
        return self._native

    def run(self, main):
        self.main_body = rparse.parse(main)
        self.entries = {}
        self.main_ctx = Ctx(Scope(), "__main__")
        self.block(self.main_body, self.main_ctx)
        self.main_again = None
        return self

    def rerun(self):
        """The main file is run once more."""
        self.nreg = 0
        for m in self.modules.values():
            m.loaded = V("bool", False, var=True)
        if self.main_again is None:
            self.main_again = [self.redecl(x, self.main_ctx)
                               for x in self.main_body]
        self.block(self.main_again, self.main_ctx)

    # ---------------------------------------------------------------- math
    def mod_math(self):
        return {n: Native(getattr(self, "m_" + n)) for n in
                ("randint", "pow", "min", "max", "mod", "floordiv")}

    def ints(self, names, pos, kw):
        a = self.args(names, pos, kw, len(names))
        out = [self.snapshot(a[n]) for n in names]
        for v in out:
            if v.kind != "int":
                raise Reject("int argument expected")
        return out

    def m_randint(self, ctx, pos, kw):
        lo, hi = self.ints(["min", "max"], pos, kw)
        if not (lo.const and hi.const):
            raise Reject("randint bounds are not constant")
        self.reject.append(dom.gt(lo.v, hi.v))
        i = self.nrandom
        self.nrandom += 1
        if self.model is not None:
            return V("int", self.model.get("rnd%d" % i, lo.v))
        r = z3.BitVec("rnd%d" % i, 32)
        self.premise(dom.or_(dom.gt(lo.v, hi.v),
                             dom.and_(dom.le(lo.v, r), dom.le(r, hi.v))))
        return V("int", r)

    def m_pow(self, ctx, pos, kw):
        b, e = self.ints(["base", "exp"], pos, kw)
        if e.const:
            n = self.small(e)
            if n < 0:
                raise Reject("negative exponent")
            if n == 0:
                return V("int", 1, const=b.const, may=True)
            r = V("int", 1, const=b.const, may=b.may)
            for _ in range(n):
                r = self.arith("*", r, b)
            return r
        self.premise(dom.implies(self.g, dom.le(0, e.v)))
        n = self.powbound
        self.premise(dom.implies(self.g, dom.le(e.v, n)))
        res, acc = 1, 1
        for i in range(1, n + 1):
            acc = dom.mul(acc, b.v)
            res = dom.ite(dom.eq(e.v, i), acc, res)
        return V("int", res)

    powbound = 9

    def m_extremum(self, less, pos, kw):
        if kw or not pos:
            raise Reject("arguments of min/max")
        xs = [self.snapshot(p) for p in pos]
        if any(x.kind != "int" for x in xs):
            raise Reject("int argument expected")
        v = xs[0].v
        for x in xs[1:]:
            c = dom.lt(x.v, v) if less else dom.gt(x.v, v)
            v = dom.ite(c, x.v, v)
        return V("int", v, const=all(x.const for x in xs),
                 may=all(x.may for x in xs))

    def m_min(self, ctx, pos, kw):
        return self.m_extremum(True, pos, kw)

    def m_max(self, ctx, pos, kw):
        return self.m_extremum(False, pos, kw)

    def floor(self, pos, kw):
        x, y = self.ints(["x", "y"], pos, kw)
        const = x.const and y.const
        bad = dom.and_(dom.eq(x.v, I32[0]), dom.eq(y.v, -1))
        if const:
            self.reject.append(dom.eq(y.v, 0))
        else:
            self.premise(dom.implies(self.g, dom.ne(y.v, 0)))
            self.premise(dom.implies(self.g, dom.not_(bad)))
        yy = dom.ite(dom.eq(y.v, 0), 1, y.v) if const else y.v
        if const and not dom.conc(x.v, yy):
            wx, wy = [z3.SignExt(W - 32, dom.bv(t)) for t in (x.v, y.v)]
            q = z3.Extract(31, 0, w_tdiv(wx, wy))
            r = z3.Extract(31, 0, w_trem(wx, wy))
        elif dom.conc(x.v, yy) and yy == 0:
            q = r = 0
        else:
            q = dom.tdiv(x.v, yy)
            r = dom.tmod(x.v, yy)
        adj = dom.and_(dom.ne(r, 0), dom.ne(self.b1(dom.lt(x.v, 0)),
                                            self.b1(dom.lt(yy, 0))))
        return const, bad, q, r, yy, adj

    def b1(self, c):
        return dom.b2i(c)

    def m_mod(self, ctx, pos, kw):
        const, bad, q, r, y, adj = self.floor(pos, kw)
        return V("int", dom.ite(adj, dom.add(r, y), r), const=const)

    def m_floordiv(self, ctx, pos, kw):
        const, bad, q, r, y, adj = self.floor(pos, kw)
        if const:
            self.reject.append(bad)
        return V("int", dom.ite(adj, dom.sub(q, 1), q), const=const)

    # ------------------------------------------------------------ schedule
    def mod_schedule(self):
        return {"register_loop": Native(self.n_register_loop),
                "Task": Native(self.n_task)}

    def n_register_loop(self, ctx, pos, kw):
        pos, kw = list(pos), list(kw)
        d = dict(kw)
        target = pos.pop(0) if pos else d.pop("target", None)
        if pos:
            interval = pos.pop(0)
        else:
            interval = d.pop("interval", None)
        if target is None:
            raise Reject("no target")
        if interval is not None and interval.kind != "int":
            raise Reject("interval")
        with self.under(False):
            self.call(target, pos, list(d.items()), ctx)
        always = interval is None

        def make():
            timer = V("int", 0, var=True)

            def go():
                g = True if always else dom.le(timer.get(self), 0)
                with self.under(g):
                    self.call(target, pos, list(d.items()), ctx)
                    if not always:
                        timer.set(self, self.snapshot(interval).v)
                if not always:
                    timer.set(self, dom.sub(timer.get(self), 1))
            self.ticks.append(go)
            return timer
        self.register(make).set(self, 0)
        return NoneV()

    def n_task(self, ctx, pos, kw):
        pos, d = list(pos), dict(kw)
        target = pos.pop(0) if pos else d.pop("target", None)
        if target is None:
            raise Reject("no target")
        kw = list(d.items())
        with self.under(False):
            self.call(target, pos, kw, ctx)
        def make():
            timer = V("int", -1, var=True)

            def go():
                with self.under(dom.eq(timer.get(self), 0)):
                    self.call(target, pos, kw, ctx)
                t = timer.get(self)
                with self.under(dom.le(0, t)):
                    timer.set(self, dom.sub(t, 1))
            self.ticks.append(go)
            return Task(timer, target, pos, kw, ctx)
        t = self.register(make)
        t.timer.set(self, -1)
        return t

    def is_const(self, v):
        return isinstance(v, Task) or super().is_const(v)

    def type_of(self, v):
        if isinstance(v, Task):
            raise Reject("a Task can not be stored in a variable")
        return super().type_of(v)

    def attr_task(self, o, n, ctx):
        if n == "_timer":
            return o.timer
        if n == "after":
            def after(c, pos, kw):
                d = self.ints(["delay"], pos, kw)[0]
                o.timer.set(self, d.v)
                return NoneV()
            return Native(after)
        if n == "cancel":
            def cancel(c, pos, kw):
                self.args([], pos, kw, 0)
                o.timer.set(self, -1)
                return NoneV()
            return Native(cancel)
        if n == "has_schedule":
            def has(c, pos, kw):
                self.args([], pos, kw, 0)
                return V("bool", dom.le(0, o.timer.get(self)))
            return Native(has)
        if n == "on_tickingarea":
            def area(c, pos, kw):
                a = self.args(["name"], pos, kw, 1)
                self.event(("cmd", self.who(c), (),
                            "schedule on_area_loaded add tickingarea "
                            + self.const_str(a["name"])))
                self.pending.append((self.g, o))
                return NoneV()
            return Native(area)
        raise Reject("no attribute %s" % n)

    def fire(self):
        todo, self.pending = self.pending, []
        for g, o in todo:
            with self.under(g):
                self.call(o.target, o.pos, o.kw, o.ctx)

    def tick(self):
        for t in list(self.ticks):
            t()

    # --------------------------------------------------------------- print
    def mod_print(self):
        d = {n: Native(getattr(self, "p_" + n)) for n in
             ("format", "tell", "title", "title_clear", "translate",
              "with_font")}
        for n in ("title", "subtitle", "actionbar"):
            d[n.upper()] = Str(n)
        return d

    def ftext(self, v):
        if isinstance(v, V) and v.kind in ("int", "bool"):
            return [v]
        if isinstance(v, NoneV):
            return ["None"]
        return super().ftext(v)

    def p_format(self, ctx, pos, kw):
        if not pos:
            raise Reject("no pattern")
        self.const_str(pos[0])
        return super().p_format(ctx, pos, kw)

    def fparts(self, x):
        if isinstance(x, V):
            raise Reject("formatted string expected")
        return super().fparts(x)

    def shown(self, parts):
        """The values at this moment."""
        out = []
        last = (None, ())
        for p in parts:
            st = (None, ())
            if isinstance(p, Styled):
                p, st = p.part, p.style
            if p == "":
                continue
            if st != last:
                out.append(style_mark(st))
                last = st
            if isinstance(p, V):
                x = p.get(self)
                const = p.const
                p = x if p.kind == "int" else dom.b2i(dom.split(x))
                if const:  # part of the text around it
                    p = str(p) if isinstance(p, int) else SymText.mark(p)
            out.append(p)
        return out

    def emit_raw(self, head, parts, ctx):
        skel, args = norm_parts(self.shown(parts))
        self.event(("raw", head, self.who(ctx), skel), args)

    def target(self, a):
        return self.selector(a["target"]) if "target" in a else "@a"

    def const_str(self, v):
        if not isinstance(v, Str):
            raise Reject("string expected")
        return v.s

    def const_bool(self, v):
        if v.kind != "bool" or not v.const:
            raise Reject("bool constant expected")
        return self.fork(v.v)

    def p_tell(self, ctx, pos, kw):
        a = self.args(["text", "target"], pos, kw, 1)
        self.emit_raw("tellraw " + self.target(a), self.fparts(a["text"]),
                      ctx)
        return NoneV()

    def p_title(self, ctx, pos, kw):
        a = self.args(["text", "target", "mode", "fade_in", "stay_time",
                       "fade_out"], pos, kw, 1)
        mode = self.const_str(a["mode"]) if "mode" in a else "title"
        if mode not in ("title", "subtitle", "actionbar"):
            raise Reject("title mode")
        t = []
        for n, d in (("fade_in", 10), ("stay_time", 70), ("fade_out", 20)):
            v = a.get(n)
            if v is None:
                t.append(d)
                continue
            if v.kind != "int" or not v.const:
                raise Reject(n)
            t.append(v.v)
        who = self.target(a)
        default = dom.and_(*[dom.eq(x, d) for x, d in zip(t, (10, 70, 20))])
        default = self.fork(default)
        if not default:
            self.times(who, t, ctx)
        self.emit_raw("titleraw %s %s" % (who, mode), self.fparts(a["text"]),
                      ctx)
        if not default:
            self.event(("cmd", self.who(ctx), (), "titleraw %s reset" % who))
        return NoneV()

    def times(self, who, t, ctx):
        text, args = "titleraw %s times" % who, []
        for x in t:
            if isinstance(x, int):
                text += " %d" % x
            else:
                text += " \0"
                args.append(x)
        self.event(("cmd", self.who(ctx), (), text), args)

    def p_title_clear(self, ctx, pos, kw):
        a = self.args(["target"], pos, kw, 0)
        self.event(("cmd", self.who(ctx), (),
                    "titleraw %s clear" % self.target(a)))
        return NoneV()

    def p_translate(self, ctx, pos, kw):
        a = self.args(["key"], pos, kw, 1)
        return FStr(["\x03tr:%s\x03" % self.const_str(a["key"])])

    def p_with_font(self, ctx, pos, kw):
        a = self.args(["text", "color", "bold", "italic", "obfuscated"], pos,
                      kw, 1)
        col = self.const_str(a["color"]) if "color" in a else "default"
        if col != "default" and col not in COLORS:
            raise Reject("color")
        if col.startswith("material_") and not self.version_ge((1, 19, 80)):
            raise Reject("color needs 1.19.80")
        flags = tuple(sorted(k for n, k in (("bold", "l"), ("italic", "o"),
                                            ("obfuscated", "k"))
                             if n in a and self.const_bool(a[n])))
        st = (COLORS.get(col), flags)
        return FStr([p if isinstance(p, Styled) else Styled(st, p)
                     for p in self.fparts(a["text"])])
