"""Reference semantics, part 4: entities, groups, filters, positions."""
import re
from fractions import Fraction
import z3
from . import dom, ents as en, rparse, versions
from .ref import (V, Str, Flt, FStr, NoneV, Native, Type, STmpl, Struct, Func,
                  Scope, Ctx, Reject, I32)
from .refworld import World, RBlock, RItem
from .reflib import RefLib
from .sym import Unsupported
from .text import SymText, norm_parts, norm_numbers


class REnt:
    """An entity of the universe."""
    def __init__(self, name, type_, exists, tmpl=None):
        self.name = name
        self.type = type_
        self.exists = exists
        self.tmpl = {}           # template -> V(bool)
        if tmpl is not None:
            self.tmpl[tmpl] = V("bool", True, var=True)


class ETmpl:
    kind = "etmpl"

    def __init__(self, name, bases):
        self.name = name
        self.bases = bases
        self.fields = {}         # name -> (type, defining template)
        self.methods = {}        # own: name -> (qualifier, Func)
        self.new = None          # own: Func | "default"
        self.mro = c3(self)

    def is_sub(self, o):
        return self is o or any(b.is_sub(o) for b in self.bases)

    def lookup(self, n):
        for t in self.mro:
            if n in t.methods:
                return t.methods[n]
        return None


def c3(t):
    seqs = [list(b.mro) for b in t.bases] + ([list(t.bases)] if t.bases
                                             else [])
    out = [t]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in o[1:] for o in seqs):
                break
        else:
            raise Reject("no method resolution order")
        out.append(c)
        seqs = [[x for x in s if x is not c] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class EVal:
    """An entity value: at most one entity of the universe."""
    kind = "entity"

    def __init__(self, tmpl, m=None, var=False, cast=None, exact=True):
        self.tmpl = tmpl
        self.m = dict(m or {})   # REnt -> V(bool)
        self.var = var
        self.cast = cast


class GType:
    """Engroup[T]; the bare generic has no template."""
    kind = "gtype"

    def __init__(self, tmpl, extern=False):
        self.tmpl = tmpl
        self.extern = extern


class GVal:
    kind = "group"

    def __init__(self, t, m=None, var=False):
        self.t = t
        self.m = dict(m or {})
        self.var = var


class Filt:
    kind = "filter"
    const = True

    def __init__(self, crit=(), etype=None):
        self.crit = list(crit)
        self.etype = etype


class RPos:
    kind = "pos"

    def __init__(self, env=(), offset=None, absolute=False):
        self.env = tuple(env)
        self.offset = offset     # AbsPos: [(kind, Co)] * 3
        self.absolute = absolute


class ROff:
    kind = "offset"

    def __init__(self, cs):
        self.cs = tuple(cs)      # [(kind, Co)] * 3


class RRot:
    kind = "rot"

    def __init__(self, env=()):
        self.env = tuple(env)


class NewData:
    def __init__(self, tmpl):
        self.tmpl = tmpl
        self.value = EVal(tmpl)
        self.done = V("bool", False, var=True)


class FieldHook:
    def __init__(self, obj, key, kind):
        self.obj = obj
        self.key = key
        self.kind = kind

    def get(self, r):
        r.need(self.obj)
        out = None
        isset = False
        for e, g in r.members(self.obj):
            f, s = r.field(e, self.key, self.kind)
            with r.under(g):
                if r.g is False:
                    continue
                v = f.get(r)
                ok = s.get(r)
            isset = dom.or_(isset, dom.and_(g, ok))
            if out is None:
                out = v
            elif self.kind == "bool":
                out = dom.iteb(g, v, out)
            else:
                out = dom.ite(g, v, out)
        r.premise(dom.implies(r.g, isset))
        if out is None:
            out = False if self.kind == "bool" else 0
        return out

    def set(self, r, v):
        r.need(self.obj)
        for e, g in r.members(self.obj):
            f, s = r.field(e, self.key, self.kind)
            with r.under(g):
                if r.g is not False:
                    f.set(r, v)
                    s.set(r, True)


class ScoreHook(FieldHook):
    """scb(entity, objective)"""


class RefEnt(World, RefLib):
    model = None
    facts = None
    targets_ = ()

    def setup(self, case, model=None):
        from .judges import cfg_of
        self.cfg = cfg_of(case, None if model is None else
                          {"world": model})


        def new_fonts():
            if not self.version_ge((1, 19, 80)):
                raise Reject("font needs 1.19.80")
            return True
        rparse.NEW_FONTS = new_fonts
        if "world" not in case:
            return
        self.facts = en.Facts(case["world"], model)
        self.targets_ = []
        spec = case["world"]
        self.ents = [REnt(en.PLAYER, "player", True)]
        for i, t in enumerate(spec.get("types", ())):
            n = "w%d" % i
            self.ents.append(REnt(n, t, self.facts.exists(n)))
        self.fields = {}
        self.utags = {}
        self.labels = {}
        self.draws_done = 0
        for e in self.ents:
            for o in spec.get("objs", ()):
                s, v = self.facts.score(e.name, o)
                self.fields[(e, ("scb", o))] = (V("int", v, var=True),
                                                V("bool", s, var=True))

    def install_builtins(self):
        super().install_builtins()
        b = self.builtins.d
        self.base = ETmpl("Entity", [])
        self.base.new = "default"
        self.extern = ETmpl("extern", [])
        b["Entity"] = self.base
        b["upcast"] = Native(self.n_upcast)
        b["Engroup"] = GType(None)
        b["ExternEngroup"] = GType(self.extern, True)
        for n in ("Enfilter", "Pos", "Rot", "Offset", "AbsPos"):
            b[n] = Type(n)

    # ------------------------------------------------------------- basics
    def final_checks(self, w):
        if self.facts is None:
            return []
        out = []
        byname = {e.name: e for e in w.ents}
        for (e, key), (f, s) in self.fields.items():
            if key[0] != "scb":
                continue
            slot = (byname.get(e.name), key[1])
            if slot[0] is None:
                continue
            w.slot_init(slot)
            out.append(dom.or_(dom.not_(e.exists), beq(
                w.isset[slot], s.get(self))))
            out.append(dom.or_(dom.not_(dom.and_(e.exists, s.get(self))),
                               dom.eq(w.scores[slot], f.get(self))))
        for e in w.ents:
            for t in self.facts.spec.get("tags", ()):
                x = [y for y in self.ents if y.name == e.name]
                if x:
                    out.append(dom.or_(dom.not_(e.exists), beq(
                        e.has(t), self.utag(x[0], t).get(self))))
        return out

    def members(self, x):
        """[(entity, guard now)] in the canonical order."""
        out = []
        for e in sorted(x.m, key=lambda e: en.order(e.name)):
            g = dom.split(x.m[e].get(self))
            if g is not False:
                out.append((e, g))
        return out

    def utag(self, e, tag):
        """The program's own tags."""
        k = (e, tag)
        if k not in self.utags:
            self.utags[k] = V("bool", self.facts.tag(e.name, tag), var=True)
        return self.utags[k]

    def native_modules(self):
        d = super().native_modules()
        if self.facts is not None and "world" not in d:
            d["world"] = self.mod_world()
        return d

    def w_summon(self, ty, ev, nm, here):
        ty = ty.replace("minecraft:", "")
        label = "%s:%s" % (ty, nm or "")
        i = self.labels.get(label, 0)
        self.labels[label] = i + 1
        e = REnt("%s#%d" % (label, i), ty, self.g, None)
        self.ents.append(e)
        self.ents.sort(key=lambda x: en.order(x.name))
        self.event(("summon", e.name, "*" if ev is None else ev))
        for key, args, g in self.contexts(here, en.event_key):
            with self.under(g):
                self.event(("at", e.name, key), args)
        return NoneV()

    def need(self, x):
        """x designates an entity"""
        if x.kind == "entity":
            self.premise(dom.implies(self.g, dom.or_(*[
                g for _, g in self.members(x)])))

    def field(self, e, key, kind):
        k = (e, key)
        if k not in self.fields:
            self.fields[k] = (V(kind, False if kind == "bool" else 0,
                                var=True), V("bool", False, var=True))
        return self.fields[k]

    def ttype(self, v):
        if isinstance(v, (ETmpl, GType)):
            if isinstance(v, GType) and v.tmpl is None:
                raise Reject("Engroup without a template")
            return v
        return super().ttype(v)

    def new_var(self, t):
        if isinstance(t, ETmpl):
            return EVal(t, var=True)
        if isinstance(t, GType):
            return GVal(t, var=True)
        return super().new_var(t)

    def type_of(self, v):
        if isinstance(v, EVal):
            return v.tmpl
        if isinstance(v, GVal):
            return v.t
        return super().type_of(v)

    def matches(self, t, v):
        if isinstance(t, ETmpl):
            return isinstance(v, EVal) and v.tmpl.is_sub(t)
        if isinstance(t, GType):
            return self.group_fits(t, v)
        if isinstance(t, Type) and t.name in ("Pos", "Rot", "Offset",
                                              "AbsPos", "Enfilter"):
            k = {"Enfilter": "filter", "AbsPos": "pos"}.get(
                t.name, t.name.lower())
            return v.kind == k
        return super().matches(t, v)

    def group_fits(self, t, v):
        return isinstance(v, GVal) and v.t.tmpl.is_sub(t.tmpl)

    def snapshot(self, x):
        if isinstance(x, EVal):
            return EVal(x.tmpl, {e: V("bool", g)
                                 for e, g in self.members(x)})
        if isinstance(x, GVal):
            return GVal(x.t, {e: V("bool", g) for e, g in self.members(x)})
        return super().snapshot(x)

    def store(self, dst, val):
        if isinstance(dst, (EVal, GVal)):
            if not self.matches(self.type_of(dst), val):
                raise Reject("type mismatch")
            if not dst.var:
                raise Reject("assignment to a constant entity")
            self.put(dst, [(e, v.get(self)) for e, v in val.m.items()])
            return
        super().store(dst, val)

    def put(self, dst, members):
        new = dict(members)
        for e in set(dst.m) | set(new):
            if e not in dst.m:
                dst.m[e] = V("bool", False, var=True)
            dst.m[e].set(self, new.get(e, False))

    def add(self, dst, members, v=True):
        """Add (or remove) the guarded entities."""
        for e, g in members:
            if e not in dst.m:
                if not v:
                    continue
                dst.m[e] = V("bool", False, var=True)
            with self.under(g):
                if self.g is not False:
                    dst.m[e].set(self, v)

    def is_const(self, v):
        return isinstance(v, (Filt, RPos, ROff, RRot, ETmpl, GType,
                              RBlock, RItem)) or \
            super().is_const(v)

    # --------------------------------------------------------- templates
    def s_entity(self, s, ctx):
        _, name, bases, body = s
        bs = [self.ev(b, ctx) for b in bases]
        if any(not isinstance(b, ETmpl) for b in bs):
            raise Reject("base of an entity template")
        t = ETmpl(name, bs or [self.base])
        for b in t.bases:
            for n in b.fields:
                if n in t.fields:
                    raise Reject("field defined twice")
            t.fields.update(b.fields)
        inherited = {}
        for b in reversed(t.mro[1:]):
            for n, (q, f) in b.methods.items():
                old = inherited.get(n)
                k = q if q in ("static", None) else "dynamic"
                if old is not None and old[0] != k:
                    raise Reject("method kinds differ")
                root = self.virtual_root(b, n) if k == "dynamic" else None
                if k == "dynamic" and old and old[1] is not root:
                    raise Reject("two virtual methods")
                inherited[n] = (k, root)
        own = set()
        funcs = []
        for d in body:
            if d[0] == "field":
                _, n, ty = d
                ty = self.ttype(self.ev(ty, ctx))
                if n in own or n in t.fields:
                    raise Reject("field defined twice")
                own.add(n)
                self.check_field_type(ty)
                t.fields[n] = (ty, t)
            elif d[0] == "method":
                _, q, fd = d
                n = fd[2]
                if n in own:
                    raise Reject("defined twice")
                own.add(n)
                k = inherited.get(n, (None, None))[0] \
                    if n in inherited else "new"
                if k == "dynamic" and q != "override" or \
                        k == "static" and q != "static" or \
                        k is None and q is not None or \
                        k == "new" and q == "override":
                    raise Reject("method qualifier")
                f = self.make_func(fd, ctx)
                if q in ("virtual", "override") and f.fkind == "const":
                    raise Unsupported("virtual const def")
                t.methods[n] = (q, f)
                if f.fkind == "normal":
                    funcs.append((q, f))
            else:
                t.new = self.make_func(d[1], ctx)
                if not isinstance(t.new.rt, NoneV):
                    raise Reject("result type of new")
        for n in t.fields:
            if n in inherited or n in t.methods:
                raise Reject("field and method of the same name")
        for n, (q, f) in t.methods.items():
            if q == "override":
                r = self.virtual_root(t, n)
                base = [b.methods[n][1] for b in t.mro
                        if n in b.methods and b.methods[n][0] == "virtual"]
                if base and not self.same_type(base[0].rt, f.rt):
                    raise Reject("result type of an override")
        for q, f in funcs:
            if q == "static":
                self.compile_func(f)
            else:
                self.compile_method(f, t)
        if isinstance(t.new, Func) and t.new.fkind == "normal":
            with self.under(False):
                nd = NewData(t)
                self.run_new_func(t.new, nd, self.dummies(t.new))
        ctx.scope.define(name, t)

    def virtual_root(self, t, n):
        for b in reversed(t.mro):
            if n in b.methods and b.methods[n][0] == "virtual":
                return b
        return None

    def same_type(self, a, b):
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return isinstance(a, NoneV) and isinstance(b, NoneV)
        if isinstance(a, Type):
            return isinstance(b, Type) and a.name == b.name
        if isinstance(a, (STmpl, ETmpl)):
            return type(a) is type(b) and b.is_sub(a)
        return a is b

    def check_field_type(self, t):
        if isinstance(t, Type) and t.name in ("int", "bool"):
            return
        if isinstance(t, STmpl):
            for f in t.fields.values():
                self.check_field_type(f)
            return
        if isinstance(t, NoneV):
            return
        raise Reject("type of an entity field")

    def dummies(self, f):
        d = {}
        for port, n, ty, default in f.params:
            t = f.types.get(n)
            if t is None:
                raise Reject("argument without type")
            d[n] = self.new_var(t)
        return d

    def compile_method(self, f, t):
        with self.under(False):
            if f.statics is None:
                f.statics = {}
            self.call_bound(f, EVal(t), self.dummies(f))

    # ----------------------------------------------------------- members
    def field_of(self, o, n):
        ty, owner = o.tmpl.fields[n]
        return self.make_field(o, ty, (owner, n))

    def make_field(self, o, ty, key):
        if isinstance(ty, STmpl):
            return Struct(ty, {k: self.make_field(o, t, key + (k,))
                               for k, t in ty.fields.items()}, var=True)
        if isinstance(ty, NoneV):
            return NoneV()
        return V(ty.name, None, var=True, hook=FieldHook(o, key, ty.name))

    def attr(self, o, n, ctx):
        if isinstance(o, EVal):
            if n in o.tmpl.fields:
                return self.field_of(o, n)
            return self.method(o, n)
        if isinstance(o, ETmpl):
            m = o.lookup(n)
            if m is None or m[0] != "static":
                raise Reject("template has no %s" % n)
            return m[1]
        if isinstance(o, GVal):
            return Native(lambda c, pos, kw: self.group_method(o, n, pos, kw,
                                                               c))
        if isinstance(o, Filt):
            return Native(lambda c, pos, kw: self.filter_method(o, n, pos,
                                                                kw))
        if isinstance(o, (RPos, ROff, RRot)) or isinstance(o, Type) and \
                o.name in ("Rot", "Offset"):
            return self.pos_attr(o, n)
        return super().attr(o, n, ctx)

    def method(self, o, n):
        t = o.cast or o.tmpl
        m = t.lookup(n)
        if m is None:
            raise Reject("entity has no %s" % n)
        q, f = m
        if q == "static":
            return f
        if q is None or o.cast is not None:
            return Native(lambda c, pos, kw: self.call_method(f, o, pos, kw))
        return Native(lambda c, pos, kw: self.call_virtual(o, n, f, pos, kw))

    def call_method(self, f, o, pos, kw):
        if f.fkind == "const":
            return self.call_func(f, pos, kw)
        d = self.match_args(f, pos, kw)
        self.need(o)
        return self.call_bound(f, o, d)

    def call_bound(self, f, o, d):
        keep = f.self_
        if f.fkind == "inline":
            f.self_ = self.alias(o)
            r = self.call_inline(f, d)
        else:
            sv = getattr(f, "selfvar", None)
            if sv is None:
                sv = f.selfvar = EVal(o.tmpl, var=True)
            self.put(sv, [(e, g) for e, g in self.members(o)])
            f.self_ = EVal(sv.tmpl, var=False)
            f.self_.m = sv.m
            r = self.call_normal(f, d)
        f.self_ = keep
        return r

    def alias(self, o):
        x = EVal(o.tmpl, var=False)
        x.m = o.m
        return x

    def call_virtual(self, o, n, stat, pos, kw):
        """Dispatch on the template the entity was created with."""
        self.need(o)
        d = self.match_args(stat, pos, kw)
        d = {k: v if stat.fkind == "inline" else self.snapshot(v)
             for k, v in d.items()}
        members = self.members(o)
        byfunc = {}
        owner = {}
        done = False
        for e, g in members:
            for t, tv in e.tmpl.items():
                if not t.is_sub(o.tmpl):
                    continue
                m = t.lookup(n)
                tg = dom.and_(g, tv.get(self))
                byfunc.setdefault(m[1], []).append((e, tg))
                owner[m[1]] = [x for x in t.mro if n in x.methods][0]
                done = dom.or_(done, tg)
        self.premise(dom.implies(self.g, done))
        rt = stat.rt
        out = self.new_var(rt)
        for f, ms in byfunc.items():
            with self.under(dom.split(dom.or_(*[g for _, g in ms]))):
                if self.g is False:
                    continue
                # self has the members its body sees
                own = owner[f]
                obj = EVal(o.tmpl if o.tmpl.is_sub(own) else own,
                           {e: V("bool", g) for e, g in ms})
                dd = d if f is stat else self.match_args(
                    f, [x for x in pos], kw)
                r = self.call_bound(f, obj, dd)
                if not isinstance(rt, NoneV):
                    self.store(out, self.snapshot(r))
        return self.snapshot(out) if not isinstance(rt, NoneV) else NoneV()

    def n_upcast(self, ctx, pos, kw):
        if len(pos) != 2 or kw:
            raise Reject("arguments of upcast")
        o, t = pos
        if not isinstance(o, EVal) or not isinstance(t, ETmpl):
            raise Reject("arguments of upcast")
        if not o.tmpl.is_sub(t):
            raise Reject("upcast")
        x = EVal(o.tmpl, var=o.var, cast=t)
        x.m = o.m
        return x

    # ------------------------------------------------------ construction
    def call(self, f, pos, kw, ctx):
        if isinstance(f, ETmpl):
            nd = NewData(f)
            self.run_new(f, nd, pos, kw)
            return self.snapshot(nd.value)
        if isinstance(f, GType):
            if f.tmpl is None or pos or kw:
                raise Reject("Engroup()")
            return GVal(f, var=False)
        return super().call(f, pos, kw, ctx)

    def own_new(self, t):
        for x in t.mro:
            if x.new is not None:
                return x.new
        return None

    def run_new(self, t, nd, pos, kw):
        n = self.own_new(t)
        if n is None:
            raise Reject("template cannot be instantiated")
        if n == "default":
            return self.default_new(nd, pos, kw)
        self.run_new_func(n, nd, self.match_args(n, pos, kw))

    def run_new_func(self, f, nd, d):
        keep = f.self_, getattr(f, "new_data", None)
        inner = NewData(nd.tmpl)
        f.self_ = inner.value
        f.new_data = inner
        if f.fkind == "normal":
            self.call_normal(f, d)
        else:
            self.call_inline(f, d)
        f.self_, f.new_data = keep
        self.created(nd, inner.value.m.items())

    def created(self, nd, members):
        self.premise(dom.implies(self.g, dom.not_(nd.done.get(self))))
        nd.done.set(self, True)
        for e, v in members:
            nd.value.m.setdefault(e, V("bool", False, var=True))
            with self.under(v.get(self)):
                if self.g is not False:
                    nd.value.m[e].set(self, True)

    def s_new(self, s, ctx):
        nd = getattr(ctx.func, "new_data", None) if ctx.func else None
        if nd is None:
            raise Reject("new outside new")
        t = self.base if s[1] is None else self.ev(s[1], ctx)
        if not isinstance(t, ETmpl):
            raise Reject("new of a non-template")
        pos = [self.ev(x, ctx) for x in s[2]]
        kw = [(n, self.ev(x, ctx)) for n, x in s[3]]
        self.run_new(t, nd, pos, kw)

    def default_new(self, nd, pos, kw):
        a = self.args(["type", "pos", "name", "event"], pos, kw, 2)
        ty = self.const_str(a["type"])
        if not isinstance(a["pos"], RPos):
            raise Reject("position of a new entity")
        name = self.opt_str(a.get("name")) or ""
        event = self.opt_str(a.get("event"))
        if self.g is False:
            return
        ty = ty.replace("minecraft:", "")
        label = "%s:%s" % (ty, name)
        i = self.labels.get(label, 0)
        self.labels[label] = i + 1
        e = REnt("%s#%d" % (label, i), ty, self.g, nd.tmpl)
        self.ents.append(e)
        self.ents.sort(key=lambda x: en.order(x.name))
        self.event(("summon", e.name, "*" if event is None else event))
        self.move(e, a["pos"])
        self.created(nd, [(e, V("bool", True))])

    def opt_str(self, v):
        return None if v is None or isinstance(v, NoneV) else \
            self.const_str(v)

    def move(self, e, pos):
        for key, args, g in self.contexts(pos.env, en.event_key):
            with self.under(g):
                self.event(("tp", e.name, key), args)

    # --------------------------------------------------------- positions
    def contexts(self, env, form=en.canon_env):
        """[(normal form, numbers, guard)]: the contexts `env` stands for."""
        alts = [((), True)]
        for s in env:
            nxt = []
            for chain, g in alts:
                if len(s) > 1 and isinstance(s[1], EVal):
                    for e, k in self.members(s[1]):
                        nxt.append((chain + ((s[0], e.name) + s[2:],),
                                    dom.and_(g, k)))
                else:
                    nxt.append((chain + (s,), g))
            alts = nxt
        out = []
        for chain, g in alts:
            key, args = form(chain)
            out.append(((), [], g) if key == en.INIT else (key, args, g))
        return out

    def num(self, v, centre=False):
        """A number argument as a coordinate."""
        if isinstance(v, Flt):
            if v.f is None:
                raise Unsupported("value of a float")
            return en.Co(Fraction(repr(v.f)))
        if not isinstance(v, V) or v.kind != "int" or not v.const:
            raise Reject("number expected")
        half = Fraction(1, 2) if centre else 0
        if isinstance(v.v, int):
            return en.Co(v.v + half)
        c = en.Co(half, z3.SignExt(32, v.v) * 2)
        if not centre:
            c.src = v.v
        return c

    def axis(self, v):
        """optional number"""
        return None if v is None or isinstance(v, NoneV) else v

    def construct(self, f, pos, kw, ctx):
        n = f.name
        if n == "Enfilter":
            if pos or kw:
                raise Reject("Enfilter()")
            return Filt()
        if n == "Pos":
            return self.new_pos(pos, kw)
        if n == "AbsPos":
            a = self.args(["x", "y", "z"], pos, kw, 3)
            cs = [("", self.num(a[k], k != "y")) for k in "xyz"]
            return self.abs_pos(cs)
        if n == "Offset":
            a = self.args(["x", "y", "z", "x_abs", "y_abs", "z_abs"], pos,
                          kw, 0)
            if len(pos) > 3:
                raise Reject("arguments of Offset")
            cs = []
            for k in "xyz":
                r, b = self.axis(a.get(k)), self.axis(a.get(k + "_abs"))
                if r is not None and b is not None:
                    raise Reject("Offset axis given twice")
                cs.append(("", self.num(b)) if b is not None else
                          ("~", self.num(r) if r is not None else en.Co()))
            return ROff(cs)
        if n == "Rot":
            if kw:
                raise Reject("overloads take positional arguments")
            if len(pos) + len(kw) == 1:
                o = self.args(["entity"], pos, kw, 1)["entity"]
                if not isinstance(o, EVal):
                    raise Reject("Rot()")
                return RRot([("rotated as", o)])
            a = self.args(["vertical", "horizontal"], pos, kw, 2)
            return RRot([("rotated", (("", self.num(a["vertical"])),
                                      ("", self.num(a["horizontal"]))))])
        return super().construct(f, pos, kw, ctx)

    def new_pos(self, pos, kw):
        if kw:
            raise Reject("overloads take positional arguments")
        if len(pos) + len(kw) == 3:
            a = self.args(["x", "y", "z"], pos, kw, 3)
            return RPos([("positioned", tuple(
                ("", self.num(a[k], k != "y")) for k in "xyz"))])
        a = self.args(["target", "anchor"], pos, kw, 1)
        if not isinstance(a["target"], EVal):
            raise Reject("Pos()")
        anchor = self.const_str(a["anchor"]) if "anchor" in a else "feet"
        return RPos([("at", a["target"]), ("anchored", anchor)])

    def abs_pos(self, cs):
        return RPos([("positioned", tuple(cs))], offset=tuple(cs),
                    absolute=True)

    def shift(self, cs, kind, pos, kw):
        """.abs / .offset of Offset"""
        a = self.args(["x", "y", "z"], pos, kw, 0)
        cs = list(cs)
        for i, k in enumerate("xyz"):
            v = self.axis(a.get(k))
            if v is not None:
                cs[i] = (kind, self.num(v, kind == "" and k != "y"))
        kinds = [c[0] for c in cs]
        if "^" in kinds and kinds != ["^"] * 3:
            raise Reject("mixed local coordinates")
        return tuple(cs)

    ZERO = (("~", en.Co()),) * 3

    def local(self, pos, kw):
        a = self.args(["left", "up", "front"], pos, kw, 0)
        return tuple(("^", self.num(a[k]) if k in a else en.Co())
                     for k in ("left", "up", "front"))

    def pos_attr(self, o, n):
        def m(f):
            return Native(lambda c, pos, kw: f(pos, kw))
        if isinstance(o, Type):
            if o.name == "Rot" and n == "face_entity":
                return m(self.face)
            if o.name == "Offset" and n == "local":
                return m(lambda pos, kw: ROff(self.local(pos, kw)))
            raise Reject("attribute %s" % n)
        if isinstance(o, ROff):
            if n == "abs":
                return m(lambda pos, kw: ROff(self.shift(o.cs, "", pos, kw)))
            if n == "offset":
                return m(lambda pos, kw: ROff(self.shift(o.cs, "~", pos,
                                                         kw)))
            raise Reject("attribute %s" % n)
        if isinstance(o, RRot):
            if n in ("abs", "offset"):
                return m(lambda pos, kw: self.turn(o, n, pos, kw))
            raise Reject("attribute %s" % n)
        if o.absolute:
            if n in ("x", "y", "z"):
                raise Unsupported("coordinate of an AbsPos")
            if n == "abs":
                return m(lambda pos, kw: self.abs_pos(
                    self.shift(o.offset, "", pos, kw)))
            if n == "offset":
                return m(lambda pos, kw: self.abs_offset(o, pos, kw))
            raise Unsupported("attribute %s of AbsPos" % n)
        if n == "dim":
            return m(lambda pos, kw: RPos(o.env + ((
                "in", self.const_str(self.args(["id"], pos, kw, 1)["id"])),)))
        if n in ("abs", "offset"):
            k = "" if n == "abs" else "~"
            return m(lambda pos, kw: RPos(o.env + ((
                "positioned", self.shift(self.ZERO, k, pos, kw)),)))
        if n == "apply":
            return m(lambda pos, kw: self.apply(o, pos, kw))
        if n == "align":
            return m(lambda pos, kw: self.align(o, pos, kw))
        if n == "local":
            return m(lambda pos, kw: self.pos_local(o, pos, kw))
        raise Reject("attribute %s" % n)

    def abs_offset(self, o, pos, kw):
        a = self.args(["x", "y", "z"], pos, kw, 0)
        cs = list(o.offset)
        for i, k in enumerate("xyz"):
            v = self.axis(a.get(k))
            if v is not None:
                cs[i] = ("", cs[i][1] + self.num(v))
        return self.abs_pos(cs)

    def face(self, pos, kw):
        a = self.args(["target", "anchor"], pos, kw, 1)
        if not isinstance(a["target"], EVal):
            raise Reject("face_entity")
        anchor = self.const_str(a["anchor"]) if "anchor" in a else "feet"
        return RRot([("facing entity", a["target"], anchor)])

    def turn(self, o, n, pos, kw):
        a = self.args(["vertical", "horizontal"], pos, kw, 0)
        k = "" if n == "abs" else "~"
        cs = []
        for x in ("vertical", "horizontal"):
            v = self.axis(a.get(x))
            cs.append(("~", en.Co()) if v is None else (k, self.num(v)))
        return RRot(o.env + (("rotated", tuple(cs)),))

    def apply(self, o, pos, kw):
        x = self.args(["offset"], pos, kw, 1)["offset"]
        cs = x.cs if isinstance(x, ROff) else getattr(x, "offset", None)
        if cs is None:
            raise Reject("apply")
        return RPos(o.env + (("positioned", cs),))

    def align(self, o, pos, kw):
        a = self.args(["axis"], pos, kw, 0)
        ax = self.const_str(a["axis"]) if "axis" in a else "xyz"
        if len(set(ax)) != len(ax) or set(ax) - set("xyz"):
            raise Reject("axes of align")
        if not ax:
            raise Unsupported("empty axes of align")
        return RPos(o.env + (("align", ax),))

    def pos_local(self, o, pos, kw):
        a = self.args(["rot", "left", "up", "front"], pos, kw, 1)
        if not isinstance(a["rot"], RRot):
            raise Reject("local")
        cs = tuple(("^", self.num(a[k]) if k in a else en.Co())
                   for k in ("left", "up", "front"))
        return RPos(o.env + a["rot"].env + (("positioned", cs),))

    # ------------------------------------------------------------ groups
    def getitem(self, o, args, ctx):
        if isinstance(o, GType) and o.tmpl is None and not o.extern:
            if len(args) != 1 or not isinstance(args[0], ETmpl):
                raise Reject("Engroup[]")
            return GType(args[0])
        if o.kind in ("entity", "group", "filter", "pos", "rot", "offset",
                      "etmpl"):
            raise Reject("subscript of %s" % o.kind)
        return super().getitem(o, args, ctx)

    def ent_args(self, o, pos):
        for x in pos:
            if not isinstance(x, EVal) or not x.tmpl.is_sub(o.t.tmpl):
                raise Reject("member type")
        return pos

    def one_group(self, o, pos, kw):
        x = self.args(["other"], pos, kw, 1)["other"]
        if not self.group_fits(o.t, x):
            raise Reject("group type")
        return x

    def group_method(self, o, n, pos, kw, ctx):
        if n in ("select", "drop", "filter"):
            f = self.args(["filter"], pos, kw, 1)["filter"]
            if not isinstance(f, Filt):
                raise Reject("filter expected")
            if n == "select":
                self.add(o, self.filtered(f, [(e, e.exists)
                                              for e in self.ents]))
            else:
                got = self.filtered(f, self.members(o))
                if n == "drop":
                    self.add(o, got, False)
                else:
                    keep = dict(got)
                    self.put(o, [(e, dom.and_(v.get(self),
                                              keep.get(e, False)))
                                 for e, v in o.m.items()])
            return o
        if n in ("extend", "subtract", "intersect"):
            x = self.one_group(o, pos, kw)
            ms = self.members(x)
            if n == "intersect":
                keep = dict(ms)
                self.put(o, [(e, dom.and_(v.get(self), keep.get(e, False)))
                             for e, v in o.m.items()])
            else:
                self.add(o, ms, n == "extend")
            return o
        if n in ("add", "remove"):
            if kw:
                raise Reject("arguments of %s" % n)
            for x in self.ent_args(o, pos):
                self.add(o, self.members(x), n == "add")
            return o
        if n == "has":
            if kw or len(pos) != 1:
                raise Reject("arguments of has")
            x = self.ent_args(o, pos)[0]
            mine = dict(self.members(o))
            return V("bool", dom.or_(*[dom.and_(g, mine.get(e, False))
                                       for e, g in self.members(x)]))
        if n == "resolve" and o.t.extern:
            t = self.args(["template"], pos, kw, 1)["template"]
            if not isinstance(t, ETmpl):
                raise Reject("template expected")
            ms = self.members(o)
            for e, g in ms:
                with self.under(g):
                    if self.g is False:
                        continue
                    e.tmpl.setdefault(t, V("bool", False, var=True))
                    for k, v in e.tmpl.items():
                        v.set(self, k is t)
            return GVal(GType(t), {e: V("bool", g) for e, g in ms})
        if n not in ("copy", "clear", "is_empty", "size", "to_single"):
            raise Reject("group has no %s" % n)
        if pos or kw:
            raise Reject("arguments of %s" % n)
        if n == "copy":
            return self.snapshot(o)
        if n == "clear":
            self.put(o, [])
            return o
        gs = [g for _, g in self.members(o)]
        if n == "is_empty":
            return V("bool", dom.not_(dom.or_(*gs)))
        cnt = 0
        for g in gs:
            cnt = dom.add(cnt, dom.b2i(g))
        if n == "size":
            return V("int", cnt)
        # to_single: meaningful for a group of exactly one entity
        self.premise(dom.implies(self.g, dom.eq(cnt, 1)))
        x = EVal(o.t.tmpl, var=False)
        x.m = o.m
        return x

    def aug_special(self, t, s, ctx):
        if not isinstance(t, GVal) or s[1] not in "+-":
            return False
        x = self.ev(s[3], ctx)
        if not self.group_fits(t.t, x):
            raise Reject("group type")
        self.add(t, self.members(x), s[1] == "+")
        return True

    def for_special(self, it, s, ctx):
        if not isinstance(it, GVal):
            return False
        # the members are those at the start; every member once
        ms = self.members(it) or [(None, False)]
        results = ctx.result_ref
        for e, g in ms:
            with self.under(g):
                if self.g is False and e is not None and len(ms) > 1:
                    continue
                v = EVal(it.t.tmpl, var=True)
                if e is not None:
                    v.m[e] = V("bool", True, var=True)
                sub = Ctx(Scope(ctx.scope), ctx.mod, ctx.func, ctx.self_)
                sub.scope.d[s[1]] = v
                sub.result = ctx.result
                sub.result_ref = results
                self.block(s[3], sub)
                ctx.result = sub.result
                ctx.result_ref = sub.result_ref
        return True

    # ----------------------------------------------------------- filters
    def filter_method(self, o, n, pos, kw):
        crit, et = self.criterion(o, n, pos, kw)
        return Filt(o.crit + crit, et)

    def criterion(self, o, n, pos, kw):
        et = o.etype

        def strs():
            if kw:
                raise Reject("arguments of %s" % n)
            return [self.const_str(x) for x in pos]
        if n == "all_players":
            self.args([], pos, kw, 0)
            return [("type", "player", True)], "player"
        if n == "random":
            a = self.args(["type", "limit"], pos, kw, 0)
            ty = self.opt_str(a.get("type"))
            if ty is None and et is None:
                raise Reject("random without a type")
            if ty is not None and et is not None and ty != et:
                raise Reject("random with another type")
            ty = et or ty
            return [("type", ty, True), ("random", self.limit(a))], ty
        if n in ("nearest_from", "farthest_from"):
            a = self.args(["origin", "limit"], pos, kw, 1)
            return [(n, self.origin(a), self.limit(a))], et
        if n in ("has_tag", "has_no_tag"):
            return [("tag", t, n == "has_tag") for t in strs()], et
        if n == "distance_from":
            a = self.args(["origin", "min", "max"], pos, kw, 1)
            return [("dist", self.origin(a), self.flt(a.get("min")),
                     self.flt(a.get("max")))], et
        if n == "inside":
            a = self.args(["origin", "dx", "dy", "dz"], pos, kw, 1)
            return [("box", self.origin(a), tuple(
                self.flt(a[k]) if k in a else 0.0
                for k in ("dx", "dy", "dz")))], et
        if n == "is_type":
            t = self.const_str(self.args(["type"], pos, kw, 1)["type"])
            return [("type", t, True)], t
        if n == "is_not_type":
            return [("type", t, False) for t in strs()], et
        if n == "is_name":
            t = self.const_str(self.args(["name"], pos, kw, 1)["name"])
            return [("attr", "name %s" % t, True)], et
        if n == "is_not_name":
            return [("attr", "name %s" % t, False) for t in strs()], et
        if n == "is_game_mode":
            t = self.const_str(self.args(["mode"], pos, kw, 1)["mode"])
            return [("attr", "m %s" % t, True)], "player"
        if n == "is_not_game_mode":
            return [("attr", "m %s" % t, False) for t in strs()], "player"
        if n in ("rot_vertical", "rot_horizontal"):
            a = self.args(["min", "max"], pos, kw, 0)
            k, d = ("rx", 90.0) if n == "rot_vertical" else ("ry", 180.0)
            lo = self.flt(a["min"]) if "min" in a else -d
            hi = self.flt(a["max"]) if "max" in a else d
            return [("attr", "%sm %.3f" % (k, lo), True),
                    ("attr", "%s %.3f" % (k, hi), True)], et
        if n == "level":
            a = self.args(["min", "max"], pos, kw, 0)
            out = []
            for k, x in (("lm", "min"), ("l", "max")):
                v = self.axis(a.get(x))
                if v is not None:
                    if v.kind != "int" or not v.const or \
                            not isinstance(v.v, int):
                        raise Unsupported("level")
                    out.append(("attr", "%s %.3f" % (k, v.v), True))
            return out, "player"
        if n == "scores":
            a = self.args(["objective", "range"], pos, kw, 2)
            return [("score", self.const_str(a["objective"]),
                     self.range_(a["range"]))], et
        if n in ("has_permission", "has_no_permission"):
            if not self.version_ge((1, 19, 80)):
                raise Reject("permissions need 1.19.80")
            v = "enabled" if n == "has_permission" else "disabled"
            return [("attr", "haspermission %s=%s" % (p, v), True)
                    for p in strs()], "player"
        if n == "has_item":
            a = self.args(["item", "quantity", "data", "slot_type",
                           "slot_num"], pos, kw, 1)
            kv = {"item": self.const_str(a["item"]),
                  "quantity": self.range_text(a["quantity"])
                  if "quantity" in a else "1.."}
            d = self.axis(a.get("data"))
            if d is not None:
                kv["data"] = str(self.small(d))
            st = self.opt_str(a.get("slot_type"))
            sn = self.axis(a.get("slot_num"))
            if sn is not None and st is None:
                raise Reject("slot number without slot type")
            if st is not None:
                kv["location"] = st
            if sn is not None:
                kv["slot"] = self.range_text(sn)
            return [("attr", "hasitem " + " ".join(
                "%s=%s" % x for x in sorted(kv.items())), True)], et
        raise Reject("filter has no %s" % n)

    def limit(self, a):
        v = a.get("limit")
        if v is None:
            return 1
        if v.kind != "int" or not v.const:
            raise Reject("limit")
        n = self.small(v)
        if n < 1:
            raise Reject("limit")
        return n

    def origin(self, a):
        if not isinstance(a["origin"], RPos):
            raise Reject("origin")
        return a["origin"]

    def flt(self, v):
        v = self.axis(v)
        if v is None:
            return None
        if isinstance(v, Flt):
            if v.f is None:
                raise Unsupported("value of a float")
            return v.f
        if v.kind == "int" and v.const:
            if not isinstance(v.v, int):
                raise Unsupported("symbolic float argument")
            return float(v.v)
        raise Reject("number expected")

    def range_(self, v):
        """(negated, lo, hi) of an integer range."""
        if isinstance(v, V):
            if v.kind != "int" or not v.const:
                raise Reject("range")
            return (False, v.v, v.v)
        t = self.const_str(v).strip()
        neg = t.startswith("!")
        if neg:
            t = t[1:]
        m = re.fullmatch(r"\s*([+-]?\s*\d+)?\s*\.\.\s*([+-]?\s*\d+)?\s*", t)
        if m and (m.group(1) or m.group(2)):
            lo, hi = [int(x.replace(" ", "")) if x else None
                      for x in m.groups()]
            return (neg, lo, hi)
        m = re.fullmatch(r"[+-]?\s*\d+", t)
        if not m:
            raise Reject("range")
        x = int(t.replace(" ", ""))
        return (neg, x, x)

    def range_text(self, v):
        neg, lo, hi = self.range_(v)
        if lo is hi or lo == hi:
            t = str(lo)
        else:
            t = "%s..%s" % ("" if lo is None else lo,
                            "" if hi is None else hi)
        return ("!" if neg else "") + t

    def holds(self, c, e):
        """Does entity e satisfy the predicate criterion c?"""
        f = self.facts
        k = c[0]
        if k == "tag":
            r = self.utag(e, c[1]).get(self)
            return r if c[2] else dom.not_(r)
        if k == "type":
            return (e.type == c[1].replace("minecraft:", "")) == c[2]
        if k == "attr":
            key, rest = c[1].split(" ", 1)
            r = f.bool("attr %s %s %s" % (e.name, key, rest))
            return r if c[2] else dom.not_(r)
        if k == "score":
            v, s = self.field(e, ("scb", c[1]), "int")
            neg, lo, hi = c[2]
            x = v.get(self)
            r = dom.and_(True if lo is None else dom.le(lo, x),
                         True if hi is None else dom.le(x, hi))
            return dom.and_(s.get(self), dom.not_(r) if neg else r)
        alts = []
        for key, args, g in self.contexts(c[1].env):
            if args:
                raise Unsupported("selection from a symbolic position")
            key = key or en.INIT
            if k == "dist":
                d = f.dist(e.name, key)
                lo, hi = [None if x is None else round(float("%.3f" % x)
                                                       * 1000)
                          for x in c[2:4]]
                r = dom.and_(True if lo is None else dom.le(lo, d),
                             True if hi is None else dom.le(d, hi))
            else:
                r = f.bool("inside %s at %s of %s" % (
                    e.name, ",".join("%.3f" % x for x in c[2]), key))
            alts.append(dom.and_(g, r))
        return dom.or_(*alts)

    def filtered(self, f, cands):
        if self.facts is None:
            raise Unsupported("no world to select from")
        for c in f.crit:
            if c[0] == "random":
                k = self.draws_done
                self.draws_done += 1
                cands = en.first(c[1], cands, lambda a, b: self.facts.before(
                    a.name, b.name, lambda n: self.facts.rank(n, k)))
            elif c[0] in ("nearest_from", "farthest_from"):
                total = {}
                for key, args, g in self.contexts(c[1].env):
                    if args:
                        raise Unsupported("selection from a symbolic place")
                    key = key or en.INIT

                    def before(a, b):
                        if c[0] == "farthest_from":
                            a, b = b, a
                        return self.facts.before(
                            a.name, b.name,
                            lambda n: self.facts.dist(n, key))
                    for e, m in en.first(c[2], cands, before):
                        total[e] = dom.or_(total.get(e, False),
                                           dom.and_(g, m))
                cands = [(e, total[e]) for e, _ in cands if e in total]
            else:
                cands = [(e, dom.split(dom.and_(m, self.holds(c, e))))
                         for e, m in cands]
            cands = [(e, m) for e, m in cands if m is not False]
        return cands

    # ------------------------------------------------------------ output
    def scb_of(self, t, o):
        if isinstance(t, EVal) and self.facts is not None:
            return V("int", None, var=True,
                     hook=ScoreHook(t, ("scb", o), "int"))
        raise Reject("scb")

    def selector(self, v):
        """Who a print function shows its text to."""
        if v is None or isinstance(v, NoneV):
            return "@a"
        if not isinstance(v, (EVal, GVal)):
            raise Reject("target")
        self.targets_.append([(e, g) for e, g in self.members(v)
                              if e.type == "player"])
        return "\x04%d\x04" % (len(self.targets_) - 1)

    def event(self, key, args=()):
        for i, k in enumerate(key):
            m = re.search("\x04(\\d+)\x04", k) if isinstance(k, str) else None
            if m:
                for e, g in self.targets_[int(m.group(1))]:
                    with self.under(g):
                        if self.g is False:
                            continue
                        super().event(key[:i] + (k.replace(
                            m.group(0), "<%s>" % e.name),) + key[i + 1:],
                            args)
                return
        super().event(key, args)

    def s_cmd(self, s, ctx):
        """Commands may mention entities."""
        parts = []
        for p in s[1]:
            if isinstance(p, str):
                parts.append(p)
                continue
            v = self.ev(p, ctx)
            if isinstance(v, EVal):
                parts.append(v)
            else:
                parts.append(self.stringify(self.snapshot(v)))
        self.say(parts)

    def say(self, parts, kind="cmd", key=()):
        alts = [("", True)]
        for p in parts:
            if isinstance(p, (EVal, GVal)):
                alts = [(t + "<" + e.name + ">", dom.and_(g, m))
                        for t, g in alts for e, m in self.members(p)]
            else:
                alts = [(t + p, g) for t, g in alts]
        for t, g in alts:
            args, text = SymText.split(t)
            if self.facts is not None and self.facts.spec.get("mod"):
                text = norm_numbers(text)
            with self.under(g):
                self.event((kind, "-", key, text), args)

    def stringify(self, v):
        if isinstance(v, (GVal, Filt, RPos, ROff, RRot, ETmpl, GType)):
            raise Reject("text of %s" % v.kind)
        return super().stringify(v)


def beq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return dom.bo(a) == dom.bo(b)


def setup_world(case, w, r):
    """Give the command model the same universe."""
    if case.get("versions"):
        versions.judge(w, r.cfg.get("mc_version") or (1, 20, 20))
    if "world" not in case:
        return
    from .mc import Ent
    spec = case["world"]
    f = w.facts = r.facts
    w.mod = bool(spec.get("mod"))
    w.internal = re.compile(re.escape(case.get("cfg", {}).get(
        "entity_tag", "acacia")) + r"\d+$")
    names = [(en.PLAYER, "player")] + [
        ("w%d" % i, t) for i, t in enumerate(spec.get("types", ()))]
    for o in spec.get("objs", ()):
        w.objectives.add(o)
    for n, t in names:
        e = Ent(n, t, f.exists(n))
        for tag in spec.get("tags", ()):
            e.tags[tag] = [(True, f.tag(n, tag))]
        for o in spec.get("objs", ()):
            s, v = f.score(n, o)
            w.isset[(e, o)] = s
            w.scores[(e, o)] = v
        w.ents.append(e)
