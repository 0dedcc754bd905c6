"""P08: the optimizer keeps the behaviour."""
from .common import *
from .progen import PG
import importlib
import time
import z3

BOUNDS = ("(a) programs (templates of P03-P06 and seeded shapes) compiled "
          "with the optimizer off and with it on for every "
          "max_inline_file_size in 0..60 (symbolic), all literals and "
          "initial scores symbolic, loops unrolled 3 times; (b) synthetic "
          "command graphs of up to 6 functions and 5 commands each run "
          "through the real optimizer, symbolic inline limit, conditions, "
          "constants and arbitrary initial scores, recursion unrolled 3 times")
OUTSIDE = "larger files and graphs"
ASSUMPTIONS = ass_arith()

ON = {"max_inline_file_size": ["sym", "maxinline", 0, 60]}
OFF = {"optimizer": False}

HAND = {
    "raw-changes-cond": "if a == K0:\n    /scoreboard players set a in 7\n"
                        "    r = 1\nelse:\n    r = 2",
    "raw-nested": "if a == K0:\n    if b == K1:\n        /scoreboard players "
                  "add b in 1\n        r = 1\n    s = 1\n",
    "cond-both-slots": "if a < b:\n    b = c\n    r = 1\n    s = b",
    "cond-in-called": "def f():\n    a = b\n    r += 1\nif a == K0:\n    f()\n"
                      "    r += 10\n    s = a",
    "cond-in-called2": "def f():\n    a = b\ndef g():\n    f()\n    r = 1\n"
                       "def h():\n    g()\n    s = 1\nif a > K0:\n    h()\n"
                       "    s += a",
    "cond-swap": "if a > K0:\n    swap(a, b)\n    r = a\n    s = b",
    "cond-swap2": "if b > a:\n    swap(c, a)\n    r = a\n    s = b",
    "cond-random": "from math import randint\nif a > K0:\n"
                   "    a = randint(1, 6)\n    r = a\n    s = b",
    "mutual": "def f():\n    r += 1\n    if r < 2:\n        g()\n"
              "def g():\n    s += 1\n    r += 1\ng()\nf()",
    "once-in-loop": "def f():\n    a += 1\n    r += a\nwhile a < K0:\n"
                    "    f()\n    s += 1",
    "twice": "def f():\n    a += 1\n    r += a\nf()\nif a < K0:\n    f()",
    "if-only-cmds": "if a > K0:\n    /say 1\n    /say 2\n    /say 3\n"
                    "else:\n    /say 4\n    /say 5",
    "elif-deep": "if a > K0:\n    /say 1\n    /say 2\nelif b > K0:\n"
                 "    /say 3\n    a = 1\n    /say 4\nelif c > K0:\n"
                 "    b = 1\n    /say 5\n    /say 6\nelse:\n    /say 7\n"
                 "    c = 1\n    /say 8",
    "empty-func": "def f():\n    pass\nif a > K0:\n    f()\n    r = 1\nf()",
    "empty-chain": "def f():\n    pass\ndef g():\n    f()\nif a > K0:\n"
                   "    g()\nelse:\n    r = 1\ng()",
    "dead": "def f():\n    r = 1\ndef g():\n    f()\nif K0 > K1:\n    g()",
    "long-body": "if a > b:\n" + "".join(
        "    r += %d\n" % i for i in range(25)),
    "long-nested": "if a > b:\n    if b > c:\n" + "".join(
        "        r += %d\n" % i for i in range(21)) + "    a = b",
    "while-inline": "while a < 3:\n    a += 1\n    if a > b:\n        b += 1\n"
                    "        r += b\n    else:\n        s += 1\n        b -= 1",
}
ENTRY = {
    "iface-shared": ("def f():\n    r += a\n    a += 1\ninterface x/y:\n"
                     "    f()\ninterface z:\n    f()\n    f()\n",
                     ["main", "x/y", "z"]),
    "iface-once": ("def f():\n    a = 5\n    r += a\ninterface x/y:\n"
                   "    if a > K0:\n        f()\n        s += 1\n",
                   ["main", "x/y", "x/y"]),
    "iface-dead": ("def f():\n    r += 1\ninterface p:\n    f()\n",
                   ["main", "p"]),
    "iface-inline-cond": ("interface p:\n    if a > b:\n        a = b\n"
                          "        r += 1\n    else:\n        b = a\n"
                          "        s += 1\n", ["main", "p", "p"]),
    "loop-tick": ("import schedule\ndef f():\n    r += 1\n    a += r\n"
                  "schedule.register_loop(f)\ndef g():\n    s += a\n"
                  "    b += 1\nschedule.register_loop(g, interval=K0)\n",
                  ["main", "tick", "tick", "tick"]),
    "tick-cond": ("import schedule\ndef f():\n    if r > K0:\n"
                  "        r = 0\n        s += 1\n    r += a\n"
                  "schedule.register_loop(f)\n", ["main", "tick", "tick",
                                                  "tick"]),
    "task": ("import schedule\ndef f():\n    r += 1\n    a += r\n"
             "t := schedule.Task(f)\nt.after(a)\ninterface go:\n"
             "    t.after(1)\n", ["main", "tick", "tick", "go", "tick",
                                  "tick"]),
}


def jobs(tier, seed):
    r = rng(seed, "p08")
    out = []

    def add(j, tag):
        c = j["case"]
        c["name"] = tag + c["name"]
        c["pair"] = [OFF, ON]
        c.setdefault("max_paths", 60)
        out.append(j)
    for n, b in HAND.items():
        add(tv(n, b), "hand-")
    for n, (b, e) in ENTRY.items():
        add(tv(n, b, entry=e, ranges={"K0": [1, 3]} if n == "loop-tick"
               else {}), "entry-")
    for mod in ("p03", "p04", "p05", "p06"):
        m = importlib.import_module("checks." + mod)
        names = list(m.HAND)
        if tier == "quick":
            names = r.sample(names, min(12, len(names)))
        for n in names:
            b = m.HAND[n]
            b, o = b if isinstance(b, tuple) else (b, None)
            add(tv(n, b, **({"ranges": o} if o else {})), mod + "-")
    n = 40 if tier == "quick" else 600
    for i in range(n):
        g = PG(r, size=r.randrange(5, 11), depth=3, funcs=r.choice([0, 1, 2]),
               loops=r.random() < .5, mul=.02, div=.02)
        pre, src = g.program()
        add(tv("prog%d" % i, src, pre=pre + PRE), "")
    n = 1200 if tier == "quick" else 4000
    for i in range(n):
        out.append({"kind": "unit", "module": "p08", "name": "graph%d" % i,
                    "seed": "%s/%d" % (seed, i), "tier": tier})
    return out


# ------------------------------------------------ synthetic command graphs

SLOTS = 3
SELS = ["@e[tag=t0]", "@e[tag=t1,c=1]", "@s", "@s[tag=t0]",
        "@e[type=cow,tag=!t1]"]


def graph(seed):
    """A description of a set of functions: plain data."""
    r = random.Random("graph/" + seed)
    n = r.randrange(2, 7)
    nk = [0]
    files = []

    def lit():
        if nk[0] < 3:
            nk[0] += 1
            return "K%d" % (nk[0] - 1)
        return r.randrange(-2, 4)

    def simple(empty):
        k = r.random()
        if k < .25:
            return ["set", r.randrange(SLOTS), lit()]
        if k < .45:
            return ["add", r.randrange(SLOTS), r.choice([1, 1, 2, lit()])]
        if k < .52:
            return ["sub", r.randrange(SLOTS), 1]
        if k < .72:
            return ["op", r.choice(["=", "+=", "-=", "><", "<", ">"]),
                    r.randrange(SLOTS), r.randrange(SLOTS)]
        if k < .82:
            return ["say", r.randrange(9)]
        if k < .88:
            return ["rawset", r.randrange(SLOTS), r.randrange(3)]
        if k < .91:
            return ["tell", r.randrange(SLOTS)]
        if k < .97:
            return ["tag", r.choice(SELS), r.choice(["add", "remove"]),
                    r.randrange(2)]
        return ["comment"]

    def cond():
        k = r.random()
        if k < .1:
            return ["entity", r.choice(SELS), r.random() < .4]
        if k < .5:
            lo = r.choice([lit(), r.randrange(-1, 3)])
            rg = r.choice(["%s", "%s..", "..%s", "!%s"])
            return ["match", r.randrange(SLOTS), rg, lo, r.random() < .3]
        if k < .85:
            return ["comp", r.randrange(SLOTS), r.choice(
                ["=", "<", ">", "<=", ">="]), r.randrange(SLOTS),
                r.random() < .3]
        if k < .95:
            return ["block", r.randrange(3), r.random() < .3]
        return ["env", r.choice([["as", "@s"], ["at", "@s"],
                                 ["as", "@e[tag=t0]"], ["as", "@e"],
                                 ["positioned", "1 2 3"]])]
    for i in range(n):
        body = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            if r.random() < .45 and i + 1 < n:
                c = ["call", r.randrange(i + 1, n)]
            else:
                c = simple(False)
            cs = [cond() for _ in range(r.choice([0, 0, 1, 1, 1, 2]))]
            body.append([cs, c])
        if i and r.random() < .25:
            # a loop: the only recursion compiled programs contain
            body.append([[cond()], ["call", i]])
        files.append(body)
    if not files[0]:
        files[0].append([[], ["call", 1]])
    entries = [0] + ([n] if r.random() < .3 else [])
    if n in entries:
        files.append([[[], ["call", r.randrange(1, n)]],
                      [[], ["add", 0, 1]]])
    return {"files": files, "entries": entries,
            "noexec": [n] if n in entries and r.random() < .5 else []}


def build(g, lits, limit, cls):
    """The real command objects and the real optimizer."""
    import acaciamc.mccmdgen.cmds as C

    class Opt(cls):
        max_inline_file_size = limit

        def entry_files(self):
            return [fs[i] for i in g["entries"]]

        def dont_inline_execute_call(self, f):
            return any(f is fs[i] for i in g["noexec"])

        def optimize(self):
            s = getattr(super(), "optimize", None)
            if s:
                s()
    o = Opt("acacia")
    fs = [C.MCFunctionFile("f%d" % i) for i in range(len(g["files"]))]
    slots = [C.ScbSlot("p%d" % i, "in") for i in range(SLOTS)]

    def val(x):
        return lits[x] if isinstance(x, str) else x

    def cmd(c):
        k = c[0]
        if k == "set":
            return C.ScbSetConst(slots[c[1]], val(c[2]))
        if k == "add":
            return C.ScbAddConst(slots[c[1]], val(c[2]))
        if k == "sub":
            return C.ScbRemoveConst(slots[c[1]], val(c[2]))
        if k == "op":
            return C.ScbOperation(C.ScbOp(c[1]), slots[c[2]], slots[c[3]])
        if k == "say":
            return C.Cmd("say %d" % c[1])
        if k == "rawset":
            return C.Cmd("scoreboard players set p%d in %d" % (c[1], c[2]),
                         suppress_special_cmd=True)
        if k == "tell":
            return C.RawtextOutput("tellraw @a", C.Rawtext(
                [C.RawtextText("v"), C.RawtextScore(slots[c[1]])]))
        if k == "tag":
            return C.Cmd("tag %s %s t%d" % tuple(c[1:]))
        if k == "comment":
            return C.Comment("# x")
        if k == "call":
            return C.InvokeFunction(fs[c[1]])

    def sub(c):
        if c[0] == "match":
            return C.ExecuteScoreMatch(slots[c[1]], c[2] % val(c[3]), c[4])
        if c[0] == "comp":
            return C.ExecuteScoreComp(slots[c[1]], slots[c[3]],
                                      C.ScbCompareOp(c[2]), c[4])
        if c[0] == "entity":
            return C.ExecuteCond("entity", c[1], c[2])
        if c[0] == "block":
            return C.ExecuteCond("block", "0 %d 0 stone" % c[1], c[2])
        return C.ExecuteEnv(*c[1])
    for f, body in zip(fs, g["files"]):
        for cs, c in body:
            x = cmd(c)
            if cs and c[0] != "comment":
                x = C.execute([sub(y) for y in cs], x)
            f.write(x)
        o.add_file(f)
    return o


def texts(o):
    return {f.get_path(): f.to_str(debugging=True) for f in o.files}


def outputs(g, lits, limit):
    import acaciamc.mccmdgen.cmds as C
    import acaciamc.mccmdgen.optimizer as OP
    a = texts(build(g, lits, limit, C.FunctionsManager))
    o = build(g, lits, limit, OP.Optimizer)
    o.optimize()
    return a, texts(o)


def world(files, K):
    from vlib import mc
    w = mc.World(files, loop_bound=K, fresh=False, max_ops=4000)
    w.ents += [mc.Ent("me", "pig"), mc.Ent("you", "cow")]
    return w


def settags(w):
    for e in w.ents:
        for t in ("t0", "t1"):
            e.set_tag(t, True, w.oracle_value("init %s %s" % (e.name, t)))


def run_unit(job):
    from vlib import sym, tv, dom, mc
    from vlib.sym import E
    from vlib.text import SymText
    tv.real()
    g = graph(job["seed"])
    K = 3
    res = {"name": job["name"], "paths": 0, "ok": 0, "violations": [],
           "notes": [], "unknown": 0, "unsupported": 0, "vacuous": 0,
           "cmds": 0, "unconfirmed": 0, "witnesses": 0}

    def once():
        SymText.table = []
        lits = {"K%d" % i: E.sym32("k%d" % i) for i in range(3)}
        limit = E.symint("cfg:limit", 0, 40)
        err = None
        try:
            a, b = outputs(g, lits, limit)
        except (sym.Unsupported, sym.Infeasible, sym.OutOfTime):
            raise
        except Exception as e:
            return ("crash", "%s: %s" % (type(e).__name__, e), E.pc)
        ws = []
        ctx = None
        for t in (a, b):
            w = world(t, K)
            settags(w)
            try:
                for i in g["entries"]:
                    w.call("f%d" % i, True, mc.Ctx(w.ents[0]))
            except mc.McError as e:
                return ("malformed", str(e), E.pc)
            ws.append(w)
        res["cmds"] += sum(w.ops for w in ws)
        base = [dom.bo(dom.not_(u)) for w in ws for u in w.unwind]
        bad = []
        for i in range(SLOTS):
            k = ("p%d" % i, "in")
            vs = []
            for w in ws:
                w.slot_init(k)
                vs.append(w.scores[k])
            bad.append(dom.bo(dom.ne(*vs)))
        for es in zip(*[w.ents for w in ws]):
            for tag in ("t0", "t1"):
                x, y = [dom.bo(e.has(tag)) for e in es]
                bad.append(x != y)
        for w in ws[1:]:
            bad += [dom.bo(x) for x, _ in w.problems]
        _, whole = dom.log_diff(ws[0].log, ws[1].log)
        bad.append(dom.bo(whole))
        qs = tv.Queries(E.pc, 4000)
        m = qs.sat(*base, z3.Or(*bad))
        if m is None:
            return ("ok",)
        if m == "unknown":
            return ("unknown",)
        return ("cex", m)
    t = time.time()
    for kind, v in sym.explore(once, max_paths=60, deadline=t + 15):
        if kind != "ok":
            res["unsupported"] += 1
            res["notes"].append("%s %s" % (kind, v))
            continue
        res["paths"] += 1
        if v[0] in ("ok", "unknown"):
            res[v[0]] += 1
            continue
        if v[0] == "cex":
            m = v[1]
        else:
            s = z3.Solver()
            s.add(*E.pc)
            s.check()
            m = s.model()
        model = {}
        for d in m.decls():
            x = m[d]
            if z3.is_bool(x):
                model[d.name()] = z3.is_true(x)
            elif z3.is_bv(x):
                model[d.name()] = x.as_signed_long()
        data = {"kind": "unit", "module": "p08", "seed": job["seed"],
                "model": model}
        from vlib.replay import SERVER
        c = SERVER.ask(data)
        if c.get("violation"):
            res["violations"].append({"data": data, "what": c["violation"],
                                      "sig": v[0]})
            break
        res["unconfirmed"] += 1
        res["notes"].append("unconfirmed %r" % (c,))
    return res


def replay(data):
    from vlib import tv, dom, mc
    tv.real(symbolic=False)
    g = graph(data["seed"])
    m = data["model"]
    lits = {"K%d" % i: m.get("k%d" % i, 0) for i in range(3)}
    try:
        a, b = outputs(g, lits, m.get("cfg:limit", 0))
    except Exception as e:
        return "optimizer fails: %s: %s" % (type(e).__name__, e)
    ws = []
    for t in (a, b):
        w = world(t, 40)
        w.init_value = lambda s: m.get("init:%s/%s" % (
            s[0] if isinstance(s[0], str) else s[0].name, s[1]), 0)
        w.oracle_value = lambda key: bool(m.get("world:" + key, False))
        settags(w)
        try:
            for i in g["entries"]:
                w.call("f%d" % i, True, mc.Ctx(w.ents[0]))
        except mc.McError as e:
            return "malformed: %s" % e
        if w.unwind:
            return None
        ws.append(w)
    la, lb = [dom.conc_log(w.log) for w in ws]
    if la != lb:
        return "effects differ after optimizing (limit %s): %r / %r" % (
            m.get("cfg:limit"), la, lb)
    for w in ws[1:]:
        for x, msg in w.problems:
            if x:
                return msg
    for es in zip(*[w.ents for w in ws]):
        for tag in ("t0", "t1"):
            if bool(es[0].has(tag)) != bool(es[1].has(tag)):
                return "tag %s of %s differs after optimizing" % (
                    tag, es[0].name)
    for i in range(SLOTS):
        k = ("p%d" % i, "in")
        vs = []
        for w in ws:
            w.slot_init(k)
            vs.append(w.scores[k])
        if vs[0] != vs[1]:
            return "score p%d is %r before and %r after optimizing" % (
                i, vs[0], vs[1])
    return None
