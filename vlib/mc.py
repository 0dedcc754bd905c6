"""Interpreter of the *emitted command text* (Bedrock command semantics).

Input: {path: text} of generated .mcfunction files.  Everything the interpreter
knows comes from that text; it shares nothing with the compiler.  Values and
guards may be symbolic (see dom); execution merges guarded states, so a run
covers every value of the symbolic literals / initial scores at once.

Modelled commands: scoreboard (players set/add/remove/random/operation/reset,
objectives add), execute (if/unless score|entity, as, at/positioned/...),
function, tag, tellraw/titleraw, summon/event/kill/tp as observable events.
Everything else is an observable opaque event (text + executing entity).
"""
import json
import re
import z3
from . import dom, ents as en
from .sym import E, SymInt, Unsupported, PAYLOAD0
from .text import SymText, norm_parts, norm_numbers, restyle

I32MIN, I32MAX = -2**31, 2**31 - 1


class McError(Exception):
    """The text is not a command the documented grammar accepts."""


class Ent:
    """An entity of the model's finite universe."""
    def __init__(self, name, type_=None, exists=True):
        self.name = name
        self.type = type_        # concrete str
        self.exists = exists     # guard
        self.tags = {}           # tag -> write history [(guard, bool)]
        self.locs = [(True, None)]   # write history of the known place

    def has(self, tag, g=True):
        h = self.tags.get(tag)
        return False if h is None else dom.hread(h, g, True)

    def set_tag(self, tag, g, v):
        dom.hwrite(self.tags.setdefault(tag, [(True, False)]), g, v)

    def at(self, loc, g):
        """Guard under which the entity was last put at `loc`."""
        c = False
        for gw, v in self.locs:
            c = dom.iteb(gw, v == loc, c)
        return c


class Ctx:
    __slots__ = ("ent", "env")

    def __init__(self, ent=None, env=()):
        self.ent = ent
        self.env = env

    def with_(self, ent="keep", env=None):
        return Ctx(self.ent if isinstance(ent, str) else ent,
                   self.env if env is None else self.env + (env,))


def split_ws(s):
    """Split a command into words, respecting quotes and brackets."""
    out = []
    cur = []
    depth = 0
    q = False
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if q:
            cur.append(c)
            if c == "\\" and i + 1 < n:
                cur.append(s[i + 1])
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur.append(c)
        elif c in "[{":
            depth += 1
            cur.append(c)
        elif c in "]}":
            depth -= 1
            cur.append(c)
        elif c == " " and depth == 0:
            if cur:
                out.append("".join(cur))
                cur = []
        else:
            cur.append(c)
        i += 1
    if q or depth:
        raise McError("unbalanced quoting in: %s" % s)
    if cur:
        out.append("".join(cur))
    return out


def unquote(s):
    if s[:1] == '"':
        if len(s) < 2 or s[-1] != '"':
            raise McError("bad quoted string %r" % s)
        out = []
        i = 1
        while i < len(s) - 1:
            if s[i] == "\\":
                i += 1
            out.append(s[i])
            i += 1
        return "".join(out)
    return s


_num_re = re.compile(r"-?[0-9]+$")


class World:
    def __init__(self, files, loop_bound=4, fresh=True, prefix="", max_ops=60000):
        self.files = {p: t.split("\n") for p, t in files.items()}
        self.K = loop_bound
        self.scores = {}
        self.hist = {}
        self.isset = {}
        self.objectives = set()
        self.log = []
        self.oblig = []     # (guard, cond, message): cond must hold
        self.unwind = []    # guards of cut executions
        self.inits = 0
        self.mod = False    # judge everything the world module does
        self.undef = []     # (guard, what)
        self.problems = []  # (guard, message) certain problems
        self.ents = []
        self.depth = {}
        self.fresh = fresh
        self.prefix = prefix
        self.initial = {}
        self.nrandom = 0
        self.nondet = []
        self.ops = 0
        self.max_ops = max_ops
        self.functions_run = set()
        self.stack = []
        self.pending = []
        self.cmd_tags = None  # hook: fn(world, words, guard, ctx)->bool
        self.facts = None
        self.labels = {}
        self.draws_done = 0
        self.internal = re.compile(r"(?!)")
        self.trace = None
        self._pc_cache = {}
        self._feas = None
        self.feas_unwind = False

    # ------------------------------------------------------------- numbers
    def num(self, tok, g):
        if not _num_re.match(tok):
            raise McError("expected an integer, got %r" % tok)
        v = int(tok)
        if I32MIN <= v <= I32MAX:
            return v
        if abs(v) >= PAYLOAD0 // 2:
            s = E.reg.get(abs(v))
            if s is None:
                raise Unsupported("untracked symbolic number in output")
            if v < 0:
                s = -s
            if getattr(s, "k", None) is not None:
                if s.k.size() == 32:
                    return s.k
            if not isinstance(s, SymInt):
                return s
            if s.lo < I32MIN or s.hi > I32MAX:
                self.oblig.append((g, z3.And(s.e >= I32MIN, s.e <= I32MAX),
                                   "int32 range of emitted number"))
            return z3.Extract(31, 0, s.e)
        self.problem(g, "number out of int32 range: %s" % tok)
        return dom.wrap(v)

    def problem(self, g, msg):
        self.problems.append((g, msg))

    # -------------------------------------------------------------- scores
    def slot_init(self, slot):
        """Value of a slot nobody wrote yet."""
        if slot not in self.scores:
            if self.fresh:
                self.scores[slot] = 0
                self.isset[slot] = False
            else:
                self.scores[slot] = self.init_value(slot)
                self.isset[slot] = True

    def init_value(self, slot):
        name = "%s%s/%s" % (self.prefix, slot[0] if isinstance(slot[0], str)
                            else slot[0].name, slot[1])
        if name not in self.initial:
            self.initial[name] = z3.BitVec("init:" + name, 32)
        return self.initial[name]

    def check_obj(self, obj, g):
        if self.fresh and obj not in self.objectives:
            self.problem(g, "objective %s used before it is added" % obj)

    def read(self, slot, g):
        self.check_obj(slot[1], g)
        self.slot_init(slot)
        s = self.isset[slot]
        if s is not True:
            self.undef.append((dom.and_(g, dom.not_(s)), slot))
        if g is not True and slot in self.hist:
            return dom.hread(self.hist[slot], g)
        return self.scores[slot]

    def write(self, slot, v, g):
        self.check_obj(slot[1], g)
        self.slot_init(slot)
        dom.hwrite(self.hist.setdefault(slot, [(True, self.scores[slot])]),
                   g, v)
        self.scores[slot] = dom.ite(g, v, self.scores[slot])
        self.isset[slot] = dom.or_(self.isset[slot], g)

    # ----------------------------------------------------------- selectors
    def parse_sel(self, s):
        m = re.match(r"@([a-zA-Z]+)(?:\[(.*)\])?$", s, re.S)
        if not m:
            raise McError("bad selector %r" % s)
        args = []
        if m.group(2):
            for part in split_commas(m.group(2)):
                k, _, v = part.partition("=")
                args.append((k.strip(), v.strip()))
        return m.group(1), args

    def ent_match(self, e, var, args, g, ctx):
        c = e.exists
        if var == "s":
            if ctx.ent is None or e is not ctx.ent:
                return False
        if var in ("a", "p", "r"):
            if not any(k == "type" for k, _ in args) or var == "a":
                c = dom.and_(c, e.type == "player")
        box = {}
        for k, v in args:
            if k in ("x", "y", "z", "dx", "dy", "dz"):
                box[k] = v
                continue
            c = dom.and_(c, self.arg_match(e, k, v, g, ctx))
            if c is False:
                return False
        if box:
            c = dom.and_(c, self.in_box(e, box, g, ctx))
        return c

    def in_box(self, e, box, g, ctx):
        key, args = self.ctx_key(ctx)
        if args:
            raise Unsupported("box around a symbolic position")
        key = key or en.INIT
        d = [num3(box[k]) if k in box else None for k in ("dx", "dy", "dz")]
        if any(k in box for k in "xyz"):
            cs = [en.coord(box.get(k, "~")) for k in "xyz"]
            here = self.ctx_key(Ctx(None, ctx.env + (("positioned", cs),)))[0]
            if d == ["0.000"] * 3:
                return e.at(here.split("|")[0], g)
            key = here
        return self.fact_bool("inside %s at %s of %s" % (
            e.name, ",".join(x or "-" for x in d), key))

    def arg_match(self, e, k, v, g, ctx):
        if k == "tag":
            neg = v.startswith("!")
            t = unquote(v[1:] if neg else v)
            if t == "":
                raise Unsupported("selector argument tag=")
            r = e.has(t, g)
            return dom.not_(r) if neg else r
        if k == "type":
            neg = v.startswith("!")
            t = unquote(v[1:] if neg else v).replace("minecraft:", "")
            r = e.type == t
            return (not r) if neg else r
        if k == "scores":
            c = True
            inner = v.strip()
            if inner[:1] != "{" or inner[-1:] != "}":
                raise McError("bad scores argument %r" % v)
            for part in split_commas(inner[1:-1]):
                o, _, rng = part.partition("=")
                slot = (e, unquote(o.strip()))
                self.check_obj(slot[1], g)
                self.slot_init(slot)
                c = dom.and_(c, self.isset[slot],
                             self.in_range(self.scores[slot], rng.strip(), g))
            return c
        if k == "c":
            return True  # handled by select()
        if k in ("r", "rm"):
            key, args = self.ctx_key(ctx)
            if args:
                raise Unsupported("distance from a symbolic position")
            lim = round(float(v) * 1000)
            x = self.fact(lambda f: f.dist(e.name, key or en.INIT))
            return dom.le(x, lim) if k == "r" else dom.le(lim, x)
        neg = v.startswith("!")
        if k in ("l", "lm", "rx", "rxm", "ry", "rym"):
            return self.fact_bool("attr %s %s %s" % (e.name, k, num3(v)))
        if k in ("name", "m", "hasitem", "haspermission"):
            if k in ("hasitem", "haspermission"):
                return dom.and_(*[self.fact_bool("attr %s %s %s" % (
                    e.name, k, x)) for x in options(k, v)])
            r = self.fact_bool("attr %s %s %s" % (
                e.name, k, unquote(v[1:] if neg else v)))
            return dom.not_(r) if neg else r
        raise Unsupported("selector argument %s" % k)

    def fact(self, f):
        if self.facts is None:
            raise Unsupported("no world to select from")
        return f(self.facts)

    def fact_bool(self, key):
        return self.fact(lambda f: f.bool(key))

    def select(self, sel, g, ctx):
        """[(entity, guard)] matching, in universe order (c= honoured)."""
        var, args = self.parse_sel(sel)
        if var not in ("e", "a", "s", "p", "r", "initiator"):
            raise McError("unknown selector variable @%s" % var)
        seen = set()
        for k, v in args:
            if k in seen and not (k in ("tag", "hasitem", "has_property") or
                                  k in ("type", "family", "name", "m")
                                  and v.startswith("!")):
                raise McError("duplicate selector argument %s" % k)
            if not v.startswith("!"):
                seen.add(k)
        cands = []
        for e in self.ents:
            m = dom.split(self.ent_match(e, var, args, g, ctx))
            if m is not False and dom.and_(g, m) is not False:
                cands.append((e, m))
        limit = None
        for k, v in args:
            if k == "c":
                limit = int(v)
                if limit == 0:
                    raise McError("selector limit 0")
        if var in ("p", "r") and limit is None:
            limit = 1
        draw = None
        if var == "r":
            draw = self.draws_done
            self.draws_done += 1
        if limit is None or var == "s" or len(cands) <= abs(limit):
            return cands
        # several entities may match: is that possible at all?
        over = dom.gt(sum_(m for _, m in cands), abs(limit))
        if not self.feasible(dom.and_(g, over)):
            return cands
        if self.facts is None:
            self.nondet.append((dom.and_(g, over), "ambiguous " + sel))
        if var == "r":
            before = (lambda a, b: self.facts.before(
                a.name, b.name, lambda n: self.facts.rank(n, draw)))
        else:
            key, args = self.ctx_key(ctx)
            if args:
                raise Unsupported("distance from a symbolic position")
            key = key or en.INIT
            if key == en.INIT and limit == 1 and self.facts is not None and \
                    cands[0] == (self.ents[0], True) and \
                    all(e.type == "player" for e, _ in cands):
                return cands[:1]

            def before(a, b):
                if self.facts is None:
                    return self.ents.index(a) < self.ents.index(b)
                if limit < 0:
                    a, b = b, a
                return self.facts.before(
                    a.name, b.name, lambda n: self.facts.dist(n, key))
        return [(e, dom.split(m)) for e, m in
                en.first(abs(limit), cands, before)]

    def targets(self, tgt, g, ctx):
        """[(slot target, guard)] of a score holder."""
        if tgt.startswith("@"):
            return [(e, m) for e, m in self.select(tgt, g, ctx)]
        if tgt == "*":
            raise Unsupported("wildcard score holder")
        return [(unquote(tgt), True)]

    def in_range(self, v, rng, g):
        neg = rng.startswith("!")
        if neg:
            rng = rng[1:]
        if ".." in rng:
            lo, _, hi = rng.partition("..")
            l = self.num(lo, g) if lo else None
            h = self.num(hi, g) if hi else None
            if l is None and h is None:
                raise McError("empty range %r" % rng)
            if l is not None and h is not None:
                self.oblig.append((g, dom.le(l, h), "range lo<=hi"))
            c = True
            if l is not None:
                c = dom.and_(c, dom.le(l, v))
            if h is not None:
                c = dom.and_(c, dom.le(v, h))
        else:
            c = dom.eq(v, self.num(rng, g))
        return dom.not_(c) if neg else c

    # ----------------------------------------------------------- execution
    def call(self, path, g=True, ctx=None):
        ctx = ctx or Ctx()
        if g is False:
            return
        if path not in self.files:
            self.log.append((g, "missing function " + path, ()))
            self.problem(g, "call of missing function %s" % path)
            return
        d = self.depth.get(path, 0)
        if d >= self.K:
            if self.feas_unwind and not self.feasible(g):
                return
            self.unwind.append(g)
            return
        if d >= 1 and not isinstance(g, bool) and not self.feasible(g):
            return
        self.functions_run.add(path)
        self.depth[path] = d + 1
        self.stack.append(path)
        for line in self.files[path]:
            self.line(line, g, ctx)
        self.stack.pop()
        self.depth[path] = d

    def feasible(self, g):
        """Is guard g satisfiable under the current path condition?"""
        if isinstance(g, bool):
            return g
        r = z3.simplify(g)
        if z3.is_false(r):
            return False
        if z3.is_true(r):
            return True
        from .sym import check
        if self._feas is None:
            self._feas = z3.Solver()
            self._feas.set("timeout", 3000)
            self._feas.add(*E.pc)
        return check(self._feas, r) != z3.unsat

    def line(self, line, g, ctx):
        if not line.strip() or line.lstrip().startswith("#"):
            return
        if line.startswith("/"):
            line = line[1:]
        self.command(line, g, ctx)

    def command(self, line, g, ctx):
        self.ops += 1
        if self.ops > self.max_ops:
            raise Unsupported("command budget exceeded")
        if self.trace is not None:
            self.trace.append((g, line, ctx.ent.name if ctx.ent else None))
        word = line.split(" ", 1)[0]
        f = getattr(self, "c_" + word, None)
        if f is None:
            return self.opaque(line, g, ctx)
        return f(line, g, ctx)

    def who(self, ctx, text=""):
        if ctx.ent is None or self.facts is not None and \
                "@s" not in text and not (self.mod and "hi there" in text):
            return "-"
        return ctx.ent.name

    def event_key(self, ctx):
        """(normal form of the execution context, numbers in it), for
        observable commands"""
        if not ctx.env:
            return (), []
        try:
            return en.event_key(ctx.env)
        except Unsupported:
            if self.facts is not None:
                raise
            return str(ctx.env), []

    def ctx_key(self, ctx):
        """(normal form of the execution context, symbolic numbers in it)"""
        if not ctx.env:
            return (), []
        try:
            key, args = en.canon_env(ctx.env)
        except Unsupported:
            if self.facts is not None:
                raise
            return str(ctx.env), []
        return ((), []) if key == en.INIT else (key, args)

    def opaque(self, line, g, ctx):
        self.event("cmd", line, g, ctx)

    def event(self, kind, line, g, ctx):
        """An observable command; what it says about entities by means of
        the compiler's own tags is resolved."""
        if self.facts is not None:
            alts = list(self.resolved(line, g, ctx))
            if alts != [(line, True)]:
                for t, m in alts:
                    self.event(kind, t, dom.and_(g, m), ctx)
                return
        args, text = self.extract_nums(line, g)
        if self.mod:
            text = norm_numbers(text)
        key, more = self.event_key(ctx)
        self.log.append((g, (kind, self.who(ctx, line), key, text),
                         tuple(args) + tuple(more)))

    def resolved(self, line, g, ctx):
        """[(line, guard)]: the selectors that use the compiler's own tags
        are replaced by the entities they stand for."""
        if self.facts is not None:
            for w, pos in tokens_with_pos(line):
                if not w.startswith("@"):
                    continue
                tags = [unquote(v.lstrip("!")) for k, v in
                        self.parse_sel(w)[1] if k == "tag"]
                if not any(self.internal.match(t) for t in tags):
                    continue
                out = []
                for e, m in self.select(w, g, ctx):
                    out += [(t, dom.and_(m, k)) for t, k in self.resolved(
                        line[:pos] + "<" + e.name + ">" +
                        line[pos + len(w):], dom.and_(g, m), ctx)]
                return out
        return [(line, True)]

    def extract_nums(self, line, g):
        """Replace symbolic numerals by placeholders; returns their values."""
        args = []

        def rep(m):
            v = int(m.group(0))
            if abs(v) >= PAYLOAD0 // 2:
                args.append(self.num(m.group(0), g))
                return "\0"
            return m.group(0)
        text = re.sub(r"-?\d{38,}", rep, line)
        return tuple(args), text

    # -- scoreboard
    def c_scoreboard(self, line, g, ctx):
        w = split_ws(line)
        if w[1] == "objectives":
            if w[2] == "add":
                if len(w) not in (5, 6) or w[4] != "dummy":
                    raise McError("bad objectives add: %s" % line)
                if g is not True:
                    self.problem(g, "conditional objective creation")
                self.objectives.add(unquote(w[3]))
                return
            return self.opaque(line, g, ctx)
        if w[1] != "players":
            raise McError("bad scoreboard command: %s" % line)
        op = w[2]
        if op in ("set", "add", "remove"):
            if len(w) != 6:
                raise McError("bad scoreboard command: %s" % line)
            n = self.num(w[5], g)
            obj = unquote(w[4])
            for t, m in self.targets(w[3], g, ctx):
                gg = dom.and_(g, m)
                slot = (t, obj)
                if op == "set":
                    self.write(slot, n, gg)
                else:
                    v = self.read(slot, gg)
                    self.write(slot, dom.add(v, n) if op == "add"
                               else dom.sub(v, n), gg)
            return
        if op == "random":
            if len(w) != 7:
                raise McError("bad scoreboard command: %s" % line)
            lo, hi = self.num(w[5], g), self.num(w[6], g)
            self.oblig.append((g, dom.le(lo, hi), "random lo<=hi"))
            for t, m in self.targets(w[3], g, ctx):
                self.write((t, unquote(w[4])), self.random(lo, hi),
                           dom.and_(g, m))
            return
        if op == "operation":
            if len(w) != 8:
                raise McError("bad scoreboard command: %s" % line)
            self.operation(w, g, ctx)
            return
        if op in ("reset", "test", "list"):
            return self.opaque(line, g, ctx)
        raise McError("bad scoreboard command: %s" % line)

    randoms = None   # shared list of symbolic/concrete random draws

    def random(self, lo, hi):
        i = self.nrandom
        self.nrandom += 1
        return self.draw(i, lo, hi)

    def draw(self, i, lo, hi):
        if self.randoms is not None:
            return self.randoms(i, lo, hi)
        r = z3.BitVec("rnd%d" % i, 32)
        E.assume(dom.bo(dom.and_(dom.le(lo, r), dom.le(r, hi))))
        return r

    def operation(self, w, g, ctx):
        o1, o2 = unquote(w[4]), unquote(w[7])
        op = w[5]
        t1s = self.targets(w[3], g, ctx)
        t2s = self.targets(w[6], g, ctx)
        for t1, m1 in t1s:
            for t2, m2 in t2s:
                gg = dom.and_(g, m1, m2)
                if gg is False:
                    continue
                s1, s2 = (t1, o1), (t2, o2)
                b = self.read(s2, gg)
                if op == "=":
                    self.write(s1, b, gg)
                    continue
                a = self.read(s1, gg)
                if op == "+=":
                    r = dom.add(a, b)
                elif op == "-=":
                    r = dom.sub(a, b)
                elif op == "*=":
                    r = dom.mul(a, b)
                elif op in ("/=", "%="):
                    nz = dom.ne(b, 0)
                    r = dom.tdiv(a, b) if op == "/=" else dom.tmod(a, b)
                    gg = dom.and_(gg, nz)   # division by zero fails
                elif op == "<":
                    r = dom.imin(a, b)
                elif op == ">":
                    r = dom.imax(a, b)
                elif op == "><":
                    self.write(s1, b, gg)
                    self.write(s2, a, gg)
                    continue
                else:
                    raise McError("bad operation %r" % op)
                self.write(s1, r, gg)

    # -- execute
    def c_execute(self, line, g, ctx):
        w = tokens_with_pos(line)
        self.execute(line, w, 1, g, ctx)

    def execute(self, line, w, i, g, ctx):
        if g is False:
            return
        if i >= len(w):
            raise McError("execute without run: %s" % line)
        t = w[i][0]
        if t == "run":
            if i + 1 >= len(w):
                raise McError("execute run without command: %s" % line)
            rest = line[w[i + 1][1]:]
            return self.command(rest, g, ctx)
        try:
            if t in ("if", "unless"):
                kind = w[i + 1][0]
                if kind == "score":
                    op = w[i + 4][0]
                    if op == "matches":
                        c = False
                        for tg, m in self.targets(w[i + 2][0], g, ctx):
                            slot = (tg, unquote(w[i + 3][0]))
                            gg = dom.and_(g, m)
                            v = self.read(slot, gg)
                            # the range is checked where it is evaluated
                            c = dom.or_(c, dom.and_(
                                m, self.in_range(v, w[i + 5][0], g)))
                        n = i + 6
                    else:
                        if op not in ("=", "<", "<=", ">", ">="):
                            raise McError("bad comparison %r" % op)
                        c = False
                        for t1, m1 in self.targets(w[i + 2][0], g, ctx):
                            for t2, m2 in self.targets(w[i + 5][0], g, ctx):
                                gg = dom.and_(g, m1, m2)
                                a = self.read((t1, unquote(w[i + 3][0])), gg)
                                b = self.read((t2, unquote(w[i + 6][0])), gg)
                                c = dom.or_(c, dom.and_(
                                    m1, m2,
                                    dom.CMP["==" if op == "=" else op](a, b)))
                        n = i + 7
                elif kind == "entity":
                    ms = self.select(w[i + 2][0], g, ctx)
                    c = dom.or_(*[m for _, m in ms]) if ms else False
                    n = i + 3
                elif kind in ("block", "blocks"):
                    n = i + 2
                    while w[n][0] not in ("run", "if", "unless", "as", "at",
                                          "positioned", "align", "anchored",
                                          "facing", "in", "rotated"):
                        n += 1
                    c = self.oracle(" ".join(x[0] for x in w[i + 1:n]), ctx)
                else:
                    raise McError("bad execute condition %r" % kind)
                c = dom.split(c)
                if t == "unless":
                    c = dom.not_(c)
                return self.execute(line, w, n, dom.and_(g, c), ctx)
            if t == "as":
                for e, m in self.select(w[i + 1][0], g, ctx):
                    self.execute(line, w, i + 2, dom.and_(g, m),
                                 ctx.with_(ent=e))
                return
            if t == "at":
                for e, m in self.select(w[i + 1][0], g, ctx):
                    self.execute(line, w, i + 2, dom.and_(g, m),
                                 ctx.with_(env=("at", e.name)))
                return
            sel = None
            if t == "positioned":
                n = i + 3 if w[i + 1][0] == "as" else i + 4
                if n == i + 3:
                    sel = ("positioned as", w[i + 2][0])
            elif t == "rotated":
                n = i + 3
                if w[i + 1][0] == "as":
                    sel = ("rotated as", w[i + 2][0])
            elif t == "facing":
                n = i + 4
                if w[i + 1][0] == "entity":
                    sel = ("facing entity", w[i + 2][0])
            elif t in ("align", "in", "anchored"):
                n = i + 2
            else:
                raise McError("bad execute subcommand %r in: %s" % (t, line))
            if n > len(w):
                raise IndexError
            toks = [x[0] for x in w[i + 1:n]]
            if sel is not None and self.facts is not None:
                for e, m in self.select(sel[1], g, ctx):
                    self.execute(line, w, n, dom.and_(g, m), ctx.with_(
                        env=(sel[0], e.name) + tuple(toks[2:])))
                return
            if sel is not None:
                env = (sel[0],) + tuple(toks[1:])
            elif t in ("positioned", "rotated", "facing"):
                if not all(en._coord.match(x) for x in toks):
                    raise McError("bad coordinates in: %s" % line)
                env = (t, tuple(en.coord(x, self.wide) for x in toks))
            elif t == "align":
                if not toks[0] or set(toks[0]) - set("xyz") or \
                        len(set(toks[0])) != len(toks[0]):
                    raise McError("bad axes in: %s" % line)
                env = (t, toks[0])
            else:
                env = (t, toks[0])
            return self.execute(line, w, n, g, ctx.with_(env=env))
        except IndexError:
            raise McError("truncated execute: %s" % line)

    def wide(self, digits):
        """payload digits -> the 64-bit value"""
        s = E.reg.get(int(digits))
        if s is None or not hasattr(s, "lo"):
            raise Unsupported("untracked symbolic number in output")
        if s.lo < -2**61 or s.hi > 2**61:
            raise Unsupported("huge coordinate")
        half = getattr(s, "half", None)
        return z3.Extract(63, 0, s.e), \
            None if half is None else z3.Extract(63, 0, half.e)

    def oracle(self, text, ctx):
        who = ctx.ent.name if ctx.ent and (
            "@s" in text or self.facts is None) else "-"
        key, args = self.ctx_key(ctx)
        if args:
            raise Unsupported("world query at a symbolic position")
        if self.mod:
            text = norm_numbers(text)
        key = "%s|%s|%s" % (text, who, key)
        return self.oracle_value(key)

    def oracle_value(self, key):
        return z3.Bool("world:" + key)

    # -- others
    def c_function(self, line, g, ctx):
        w = line.split(" ")
        if len(w) != 2:
            raise McError("bad function command: %s" % line)
        self.call(w[1], g, ctx)

    def c_schedule(self, line, g, ctx):
        w = split_ws(line)
        if w[1:3] == ["on_area_loaded", "add"]:
            if len(w) < 6:
                raise McError("bad schedule command: %s" % line)
            if w[-1] not in self.files:
                self.problem(g, "schedule of missing function %s" % w[-1])
                return
            self.pending.append((g, w[-1]))
            line = " ".join(w[:-1])
        self.opaque(line, g, ctx)

    def fire(self):
        """Everything scheduled for a loaded area runs."""
        todo, self.pending = self.pending, []
        for g, path in todo:
            self.call(path, g)

    def c_tag(self, line, g, ctx):
        w = split_ws(line)
        if len(w) != 4 or w[2] not in ("add", "remove"):
            raise McError("bad tag command: %s" % line)
        tag = unquote(w[3])
        for e, m in self.select(w[1], g, ctx):
            e.set_tag(tag, dom.and_(g, m), w[2] == "add")

    def rawtext(self, line, prefix_words, g, ctx):
        w = split_pos(line, prefix_words)
        try:
            js = json.loads(w[prefix_words])
            parts = restyle(self.raw_parts(js["rawtext"], g, ctx))
        except (ValueError, IndexError, KeyError, TypeError):
            raise McError("bad rawtext: %s" % line)
        skel, args = norm_parts(parts)
        head = " ".join(w[:prefix_words])
        for h, m in self.resolved(head, g, ctx):
            self.log.append((dom.and_(g, m), ("raw", h, self.who(ctx, h),
                                              skel), tuple(args)))

    def raw_parts(self, rt, g, ctx):
        parts = []
        for c in rt:
            if "text" in c:
                parts.append(self.mark_nums(c["text"], g))
            elif "score" in c:
                n, o = c["score"]["name"], c["score"]["objective"]
                ts = self.targets(n, g, ctx)
                v = 0
                if n.startswith("@"):
                    some = dom.or_(*[m for _, m in ts]) if ts else False
                    self.undef.append((dom.and_(g, dom.not_(some)),
                                       "rawtext " + n))
                for t, m in ts:
                    v = dom.ite(m, self.read((t, o), dom.and_(g, m)), v)
                parts.append(v)
            elif "translate" in c:
                parts.append("\x03tr:%s\x03" % c["translate"])
                if isinstance(c.get("with"), dict):
                    parts += ["\x03("] + self.raw_parts(
                        c["with"]["rawtext"], g, ctx) + ["\x03)"]
                elif "with" in c:
                    parts.append("\x03w:%r\x03" % (c["with"],))
            elif "selector" in c:
                parts.append("\x03sel:%s\x03" % c["selector"])
            else:
                raise McError("bad rawtext component %r" % c)
        return parts

    def mark_nums(self, text, g):
        def rep(m):
            v = int(m.group(0))
            if abs(v) >= PAYLOAD0 // 2:
                return SymText.mark(self.num(m.group(0), g))
            return m.group(0)
        return re.sub(r"-?\d{38,}", rep, text)

    def c_tellraw(self, line, g, ctx):
        self.rawtext(line, 2, g, ctx)

    def c_titleraw(self, line, g, ctx):
        w = split_ws(line)
        if w[2] in ("reset", "clear", "times"):
            return self.opaque(line, g, ctx)
        self.rawtext(line, 3, g, ctx)

    def c_summon(self, line, g, ctx):
        w = split_ws(line)
        if self.facts is None:
            a, text = self.extract_nums(line, g)
            self.log.append((g, ("summon", "new", self.ctx_key(ctx)[0],
                                 text), a))
            return
        if len(w) < 5:
            raise McError("bad summon command: %s" % line)
        # summon TYPE x y z [yaw pitch] [event] [name]
        rest = w[5:]
        rot = ()
        if len(rest) >= 2 and en._coord.match(rest[0]) and \
                en._coord.match(rest[1]):
            rot = (("rotated", tuple(en.coord(x, self.wide)
                                      for x in rest[:2])),)
            rest = rest[2:]
        event = rest[0] if rest else "*"
        name = unquote(rest[1]) if len(rest) > 1 else ""
        if len(rest) > 2:
            raise McError("bad summon command: %s" % line)
        type_ = w[1].replace("minecraft:", "")
        label = "%s:%s" % (type_, name)
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        e = Ent("%s#%d" % (label, n), type_, g)
        cs = [en.coord(x, self.wide) for x in w[2:5]]
        here = self.ctx_key(Ctx(None, ctx.env + (("positioned", cs),)))[0]
        e.locs = [(True, here.split("|")[0])]
        self.ents.append(e)
        self.ents.sort(key=lambda x: en.order(x.name))
        self.log.append((g, ("summon", e.name, event), ()))
        if self.mod:
            key, args = self.event_key(Ctx(None, ctx.env + (
                ("positioned", tuple(cs)),) + rot))
            self.log.append((g, ("at", e.name, key), tuple(args)))

    def c_tp(self, line, g, ctx):
        if self.facts is None:
            return self.opaque(line, g, ctx)
        w = split_ws(line)
        if len(w) == 5 and w[1].startswith("@") and \
                all(en._coord.match(x) for x in w[2:]):
            cs = tuple(en.coord(x, self.wide) for x in w[2:])
            here = Ctx(None, ctx.env + (("positioned", cs),))
            key, args = self.event_key(here)
            loc = self.ctx_key(here)[0]
            for e, m in self.select(w[1], g, ctx):
                gg = dom.and_(g, m)
                dom.hwrite(e.locs, gg, loc.split("|")[0] if loc else None)
                self.log.append((gg, ("tp", e.name, key), tuple(args)))
            return
        self.opaque(line, g, ctx)

    # tick driver
    def tick(self, path, g=True):
        self.call(path, g)


def sum_(gs):
    n = 0
    for x in gs:
        n = dom.add(n, dom.b2i(x))
    return n


def num3(v):
    """A number with at most three decimals, canonically."""
    return "%.3f" % float(v)


def options(k, v):
    """The single requirements of a hasitem/haspermission argument."""
    v = v.strip()
    if v[:1] == "[":
        parts = split_commas(v[1:-1])
    else:
        parts = [v]
    out = []
    for p in parts:
        p = p.strip()
        if p[:1] != "{" or p[-1:] != "}":
            raise McError("bad argument %s=%s" % (k, v))
        kv = [tuple(x.strip() for x in q.split("=", 1))
              for q in split_commas(p[1:-1])]
        if k == "haspermission":
            out += ["%s=%s" % x for x in kv]
        else:
            out.append(" ".join("%s=%s" % x for x in sorted(kv)))
    return out


def split_pos(line, n):
    """The first n words and the untouched rest."""
    w = tokens_with_pos(line)
    if len(w) <= n:
        raise McError("truncated command: %s" % line)
    return [x[0] for x in w[:n]] + [line[w[n][1]:]]


def split_commas(s):
    out = []
    depth = 0
    q = False
    cur = []
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur.append(c)
            if c == "\\" and i + 1 < len(s):
                i += 1
                cur.append(s[i])
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur.append(c)
        elif c in "[{":
            depth += 1
            cur.append(c)
        elif c in "]}":
            depth -= 1
            cur.append(c)
        elif c == "," and depth == 0:
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    if cur:
        out.append("".join(cur))
    return out


def tokens_with_pos(s):
    """split_ws that keeps the start offset of every word."""
    out = []
    i = 0
    n = len(s)
    depth = 0
    q = False
    start = None
    while i < n:
        c = s[i]
        if start is None:
            if c != " ":
                start = i
                continue
        else:
            if q:
                if c == "\\":
                    i += 1
                elif c == '"':
                    q = False
            elif c == '"':
                q = True
            elif c in "[{":
                depth += 1
            elif c in "]}":
                depth -= 1
            elif c == " " and depth <= 0:
                out.append((s[start:i], start))
                start = None
        i += 1
    if start is not None:
        out.append((s[start:], start))
    return out
