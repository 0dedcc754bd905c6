"""P11: initialisation makes the result independent of what was there."""
from .common import *
from .progen import PG
from . import corpus
import importlib

BOUNDS = ("programs covering every statement form, seeded random programs "
          "and library programs; marked literals and the program's own "
          "inputs symbolic over int32; the world before main is (a) empty and "
          "(b) one where every generated score holds an arbitrary value; "
          "entry sequences main, init+main, main+interface, main+tick; loops "
          "up to the bound K")
OUTSIDE = ("for programs with entities, a world left by an earlier run "
           "(only fresh worlds are judged there: against the reference, with "
           "every read of an unset score reported); more than two entry calls after main")
ASSUMPTIONS = ["vlib/mc.py models the documented command semantics; a score "
               "that was never set is distinguishable from 0"]

EXTRA = {
    "const-share": ("r = a * K0\ns = b * K0 + c / K1\n", {}),
    "const-in-func": ("def f(n: int) -> int:\n    result n * K0\n"
                      "r = f(a)\nif b > 0:\n    s = f(b) * K1\n", {}),
    "const-in-iface": ("interface go:\n    r = a * K0\n    s %= K1\n",
                       {"entry": ["go"], "valid": True}),
    "var-in-iface": ("x := K0\ny: int\ny = a\ninterface go:\n    r = x + y\n"
                     "    x += 1\n", {"entry": ["go", "go"]}),
    "bool-var": ("x := a > K0\ny := True\ninterface go:\n    if x and y:\n"
                 "        r = 1\n    else:\n        r = 2\n",
                 {"entry": ["go"]}),
    "result-var": ("def f(n: int) -> int:\n    if n > K0:\n        result n\n"
                   "    else:\n        result K1\nr = f(a)\ns = f(b) + f(c)\n",
                   {}),
    "bool-result": ("def f(n: int) -> bool:\n    result n > K0\nif f(a) and "
                    "not f(b):\n    r = 1\ns = int(f(c))\n", {}),
    "or-tmp": ("if (a > K0 or b > K1) and (c > K2 or a == b):\n    r = 1\n"
               "s = int(a > K0 or b > K1)\n", {}),
    "not-and": ("x := not (a > K0 and b > K1)\ny := x and (a == b or not x)\n"
                "r = int(y)\n", {}),
    "while-cond": ("n := 0\nwhile (a > K0 or b > n) and n < 2:\n    n += 1\n"
                   "r = n\n", {}),
    "default-arg": ("x := 5\ndef f(n: int, k=K0, z: int = a) -> int:\n"
                    "    result n + k + z\nr = f(b)\ns = f(b, c)\n", {}),
    "struct-fields": ("struct S:\n    p: int\n    q: bool\nx := S(p=K0, q=a "
                      "> 1)\ny := x\ndef f(v: S) -> S:\n    w := v\n"
                      "    w.p += 1\n    result w\nz := f(y)\nr = z.p\n"
                      "s = int(z.q)\n", {}),
    "neg-pow": ("import math\nr = math.pow(a, 3) - b\ns = -(a - K0)\n", {}),
    "math": ("import math\nr = math.min(a, b, K0)\ns = math.mod(a, 7) + "
             "math.floordiv(b, 3)\n", {}),
    "module-again": ("import m\nr = r + m.f(a)\n", {"entry": ["main"], "files":
                     {"m": 'k := 3\n&s = scb("s", "in")\ns += 1\nk += 1\n'
                               "def f(x: int) -> int:\n    k += 1\n"
                               "    result x * 7 + k\n"}}),
    "module-iface": ("from m import k\ninterface go:\n    import m\n    r += "
                     "k\n    k *= 2\n", {"entry": ["go", "main"], "files":
                     {"m": 'k := 3\n&s = scb("s", "in")\ns += 1\n'}}),
    "main-twice": ("x := K0\nx += a * K1\nif x > 3:\n    x = -x % 5\nr += x\n",
                   {"entry": ["main", "main"]}),
    "tick": ("import schedule\nn := K0\ndef f(k: int):\n    r += k + n\n"
             "schedule.register_loop(f, k=a)\n", {"entry": ["tick", "tick"]}),
    "tick-int": ("import schedule\ndef f():\n    r += 1\n"
                 "schedule.register_loop(f, 2)\nschedule.register_loop(f, "
                 "interval=K0)\n", {"entry": ["tick", "tick"]}),
    "task": ("import schedule\ndef f(k: int):\n    r += k\nconst t = "
             "schedule.Task(f, a)\nif b > K0:\n    t.after(1)\n",
             {"entry": ["tick", "tick"]}),
    "task2": ("import schedule\ndef f():\n    r += 1\nconst t = "
              "schedule.Task(f)\nconst u = schedule.Task(f)\nt.after(K0)\n"
              "u.after(2)\nif t.has_schedule():\n    u.cancel()\n",
              {"entry": ["tick", "tick"]}),
    "task-never": ("import schedule\ndef f():\n    r += 1\nconst t = "
                   "schedule.Task(f)\nif t.has_schedule():\n    s = 1\n",
                   {"entry": ["tick"]}),
    "task-iface": ("import schedule\ndef f():\n    r += 1\nconst t = "
                   "schedule.Task(f)\ninterface go:\n    t.after(1)\n",
                   {"entry": ["tick", "go", "tick"]}),
    "swap": ("x := a\ny := K0\nswap(x, y)\nr = x\ns = y\n", {}),
    "ct-for": ("x := 0\nfor i in {K0, 1, a}:\n    x += i\nr = x\n", {}),
    "inline-default": ("inline def f(x: int, y=K0, const z=3) -> int:\n"
                       "    x += y\n    result x * z\nr = f(a)\n"
                       "s = f(b, c, 2)\n", {}),
    "reuse": ("x := a * K0\nr = x\nx := b > K1\ns = int(x)\n", {}),
    "nested-calls": ("def f(x: int) -> int:\n    result x + K0\ndef g(x: "
                     "int) -> int:\n    result f(x) * f(x + 1)\n"
                     "r = g(f(a)) + g(b)\n", {}),
    "const-loop": ("n := 2\nwhile n > 0:\n    r += a / K0\n    n -= 1\n", {}),
    "extreme": ("r = a + int.MIN\ns = a - int.MIN\nr += int.MAX\n", {}),
}


ENT = """entity A:
    v: int
    virtual inline def f(y: int) -> int:
        result self.v + y * 37
    virtual def g(y: int = 41) -> int:
        self.v /= 43
        result y
entity B extends A:
    override inline def f(y: int) -> int:
        result self.v * y * 47 + y / 53
    override def g(y: int = 59) -> int:
        result y * 61 - self.v * K2
"""
MKENT = """x := A("cow", Pos(0, 0, 0))
y := B("cow", Pos(0, 0, 0))
x.v = a
y.v = b
z := x
if c > 0:
    z = y
"""
ENTS = {
    "inline": ENT + MKENT + "r = z.f(K0)\n",
    "inline-sym": ENT.replace("37", "K0").replace("53", "K1") + MKENT
    + "r = z.f(a)\n",
    "default": ENT + MKENT + "r = z.g()\ns = z.g(a)\n",
    "both": ENT + MKENT + "r = z.f(z.g(3))\ns = z.g(z.f(67))\n",
    "in-func": ENT + MKENT + "def h(e: A, n: int) -> int:\n"
    "    result e.f(n) * 71\nr = h(z, K0)\n",
    "in-iface": (ENT + MKENT + "interface go:\n    r = z.f(a)\n    s = "
                 "z.g()\n", ["main", "go"]),
    "in-tick": (ENT + "import schedule\n" + MKENT + "def t():\n    r += "
                "z.f(K0)\nschedule.register_loop(t)\n", ["main", "tick"]),
    "new": """entity A:
    v: int
    new(n: int):
        new()
        self.v = n * 73
    virtual def f(n: int):
        self.v += n * 79
x := A(K0)
x.f(a)
r = x.v
""",
    "group": ENT + MKENT + "g := Engroup[A]()\ng.add(z)\nfor e in g:\n"
    "    r += e.f(83)\ns = g.size() * 89\n",
}


def entity_jobs(r, tier):
    out = []
    C = [{}, {"optimizer": False}, {"split_init": True},
         {"split_init": True, "init_file": "aa", "main_file": "bb"}]

    def add(n, b, cfg, **kw):
        out.append(tv(n, b, world={}, K=2, cfg=cfg, **kw))
    for n, b in ENTS.items():
        b, e = b if isinstance(b, tuple) else (b, ["main"])
        for i, cfg in enumerate(C):
            if i in (0, 2) or tier != "quick":
                add("ent-%s-%d" % (n, i), b, cfg, entry=e)
    for mod, k in (("p16", 14), ("p18", 24)):
        m = importlib.import_module("checks." + mod)
        names = list(m.HAND)
        if tier == "quick":
            names = r.sample(names, k)
        for n in names:
            for cfg in C[2:3] if tier == "quick" else C[1:]:
                add("ent-%s-%s%d" % (mod, n, C.index(cfg)), m.HAND[n], cfg)
    return out


def jobs(tier, seed):
    r = rng(seed, "p11")
    out = []
    CFG = [{}, {"optimizer": False}, {"split_init": True},
           {"split_init": True, "optimizer": False},
           {"split_init": True, "init_file": "aa", "main_file": "bb",
            "root_folder": "c"}]

    def add(name, main, o, cfg):
        c = dict(name=name, main=main, ext=list(EXT), judge="init", K=2,
                 max_paths=60)
        c.update({k: v for k, v in o.items() if k not in ("tick", "ifaces")})
        c["cfg"] = cfg
        if c["judge"] is None:
            del c["judge"]
        out.append({"kind": "tv", "case": c})
    for n, (s, o) in EXTRA.items():
        lay = CFG if tier != "quick" or "entry" in o else \
            [CFG[0]] + r.sample(CFG[1:], 2)
        for i, cfg in enumerate(lay):
            add("extra-%s-%d" % (n, i), PRE + s, o, cfg)
        if "tick" in o.get("entry", []):
            continue
        # main again, without the initialization
        o = dict(o, entry=["main"] + o.get("entry", []) + ["main"], judge=None)
        for i, cfg in enumerate(CFG[1:] if tier != "quick" or "files" in o
                                else [CFG[3], CFG[4]]):
            add("again-%s-%d" % (n, i), PRE + s, o, cfg)
    for n, (s, o) in corpus.programs().items():
        if n.startswith("demo-") and tier == "quick":
            continue
        if "entity " in s or "Engroup" in s:
            continue            # entities are the subject of P16-P18
        o = dict(o)
        ent = list(o.get("ifaces", ()))
        if o.get("tick"):
            ent.append("tick")
        o["entry"] = ent[:2]
        add("lib-%s" % n, s, o, r.choice(CFG))
    for mod in ("p01", "p02", "p03", "p04", "p05", "p06", "p07"):
        m = importlib.import_module("checks." + mod)
        names = [k for k, v in getattr(m, "HAND", {}).items()
                 if isinstance(v, str)]
        if tier == "quick":
            names = r.sample(names, min(7, len(names)))
        for n in names:
            add("%s-%s" % (mod, n), PRE + m.HAND[n] + "\n", {}, r.choice(CFG))
    for i in range(60 if tier == "quick" else 1000):
        g = PG(r, size=r.randrange(5, 10), depth=3, funcs=r.choice([0, 1, 2]),
               loops=r.random() < .5)
        pre, src = g.program()
        add("prog%d" % i, pre + PRE + src + "\n", {}, r.choice(CFG))
    return out + entity_jobs(r, tier)
