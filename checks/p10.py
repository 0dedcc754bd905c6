"""P10: the emitted functions are closed and every entry point exists."""
from .common import *
from .progen import PG
from . import corpus
import importlib

BOUNDS = ("programs covering every statement form, library function and "
          "entry point, seeded random programs and the demo programs; marked "
          "literals symbolic over int32, maximum inlined size symbolic in "
          "0..40, optimizer on/off, several folder layouts; every call in "
          "every emitted line is resolved")
OUTSIDE = ("interfaces whose body has no command (the compiler does not "
           "emit a file for them); functions called from raw commands; larger programs; "
           "behaviour of other packs")
ASSUMPTIONS = ["vlib/wf.py finds every `function` call in a command"]

LAYOUT = [
    {}, {"optimizer": False}, {"root_folder": "lib/pk"},
    {"split_init": True}, {"internal_folder": "inner", "main_file": "go"},
    {"split_init": True, "init_file": "setup", "root_folder": "q",
     "optimizer": False},
    {"root_folder": "a/b", "internal_folder": "x_", "split_init": True},
    {"max_inline_file_size": ["sym", "inl", 0, 40]},
]

EXTRA = {
    "iface-empty": ("interface p:\n    pass\ninterface q/r:\n    r += 1\n",
                    {"ifaces": ["q/r"]}),
    "iface-only-debug": ("interface p:\n    #* note *#\n    x := K0\n",
                         {"ifaces": ["p"]}),
    "iface-same-as-func": ("def f():\n    r += 1\ninterface f:\n    f()\n"
                           "interface main2:\n    f()\nf()\n",
                           {"ifaces": ["f", "main2"]}),
    "iface-acalib": ("def f():\n    r += 1\n    s += K0\n    if r > K1:\n"
                     "        f2()\ndef f2():\n    s -= 1\n    r += a\n"
                     "interface acalib1:\n    f()\n    f2()\ninterface "
                     "x/acalib2:\n    f()\n",
                     {"ifaces": ["acalib1", "x/acalib2"]}),
    "iface-tick": ("interface tick:\n    r += 1\n", {"ifaces": ["tick"]}),
    "iface-prefix": ("interface _acacia2/x:\n    r += 1\ninterface mainx:\n"
                     "    r += 2\ninterface main.y:\n    r += 3\n",
                     {"ifaces": ["_acacia2/x", "mainx", "main.y"]}),
    "iface-quoted": ('interface "p-q/(r).s":\n    r += K0\n',
                     {"ifaces": ["p-q/(r).s"]}),
    "dead-func": ("def f():\n    r += 1\ndef g():\n    f()\n    g2()\n"
                  "def g2():\n    s += K0\n", {}),
    "dead-branch": ("def f():\n    r += 1\n    s += a\nif K0 > K1:\n"
                    "    f()\n", {}),
    "dead-while": ("def f():\n    r += 1\n    s += a\nwhile K0 > 3 and a > "
                   "b:\n    f()\n    a -= 1\n", {}),
    "chain": ("def f():\n    r += 1\n    s += a\ndef g():\n    f()\n"
              "def h():\n    g()\nif a > K0:\n    h()\nif b > K1:\n    g()\n"
              "elif c > K2:\n    if a == b:\n        f()\n", {}),
    "empty-branches": ("if a > K0:\n    pass\nelif b > K1:\n    pass\nelse:\n"
                       "    pass\nwhile a > b:\n    pass\n", {}),
    "empty-func": ("def f():\n    pass\nf()\nif a > K0:\n    f()\n"
                   "while a > K1:\n    f()\n", {}),
    "register": ("import schedule\ndef f():\n    pass\n"
                 "schedule.register_loop(f)\n", {}),
    "register2": ("import schedule\ndef f():\n    r += 1\n    s -= 1\n"
                  "schedule.register_loop(f)\nschedule.register_loop(f, 5)\n",
                  {"tick": True}),
    "task-only": ("import schedule\ndef f():\n    r += 1\n"
                  "const t = schedule.Task(f)\n", {}),
    "task-unscheduled-area": (
        "import schedule\ndef f():\n    r += 1\n    s += K0\n"
        "const t = schedule.Task(f)\nt.on_area_loaded(Pos(0, 0, 0), "
        "Offset(1, 1, 1))\n", {}),
    "task-area-one": (
        "import schedule\ndef f():\n    r += 1\nconst t = schedule.Task(f)\n"
        "t.on_area_loaded(Pos(0, 0, 0), Offset(1, 1, 1))\n", {}),
    "task-area-pos": (
        "import schedule\ndef f():\n    r += K0\nconst t = schedule.Task(f)\n"
        "interface go:\n    t.on_area_loaded(Pos(0, 0, 0).dim(\"nether\"), "
        "Offset(1, 1, 1))\n", {"ifaces": ["go"]}),
    "task-circle-cond": (
        "import schedule\ndef f():\n    r += 1\nconst t = schedule.Task(f)\n"
        "if a > K0:\n    t.on_circle_loaded(Pos(0, 0, 0), 3)\n", {}),
    "task-circle-func": (
        "import schedule\ndef f():\n    r += 1\ndef h():\n    s += 1\n"
        "const t = schedule.Task(f)\nconst u = schedule.Task(h)\n"
        "def g():\n    t.on_circle_loaded(Pos(0, 0, 0), 2)\n"
        "    u.after(K0)\nif b > 2:\n    g()\n", {}),
    "task-area-entity": (
        "import schedule\nentity E:\n    pass\ndef f():\n    r += 1\n"
        "e := E(\"cow\", Pos(0, 0, 0))\nconst t = schedule.Task(f)\n"
        "t.on_circle_loaded(Pos(e), 2)\n", {}),
    "task-area-loop": (
        "import schedule\ndef f():\n    r += 1\n"
        "for i in {1, 2}:\n    const t = schedule.Task(f)\n"
        "    t.on_circle_loaded(Pos(0, i, 0), i)\n", {}),
    "task-ticking-one": (
        "import schedule\ndef f():\n    r += 1\nconst t = schedule.Task(f)\n"
        "t.on_tickingarea(\"a\")\nif a > 0:\n"
        "    t.on_tickingarea(\"b\")\n", {}),
    "exec-one-call": (
        "import world\nentity E:\n    pass\ndef f():\n    /say f\n"
        "def g():\n    /say g\n    r += 1\n"
        "e := E(\"cow\", Pos(0, 0, 0))\nif a > K0:\n    f()\n"
        "if b > K0:\n    g()\nif c > K0 and a > 1:\n    g()\n    f()\n",
        {}),
    "task-in-func": (
        "import schedule\ndef f():\n    r += 1\nconst t = schedule.Task(f)\n"
        "def g():\n    t.after(K0)\ninterface go:\n    g()\n",
        {"ifaces": ["go"], "tick": True}),
    "task-empty-target": (
        "import schedule\ndef f():\n    pass\nconst t = schedule.Task(f)\n"
        "t.after(K0)\nt.on_tickingarea(\"a\")\n", {"tick": True}),
    "virtual-unused": ("entity A:\n    virtual def f():\n        r += 1\n"
                       "entity B extends A:\n    override def f():\n"
                       "        r += 2\nx := A(\"cow\", Pos(0, 0, 0))\n", {}),
    "virtual-in-dead": (
        "entity A:\n    virtual def f():\n        r += 1\nentity B extends "
        "A:\n    override def f():\n        r += 2\nx := B(\"cow\", "
        "Pos(0, 0, 0))\nif K0 > K1:\n    x.f()\n", {}),
    "virtual-many": (
        "entity A:\n    virtual def f() -> int:\n        result 1\n"
        "    virtual def g() -> int:\n        result self.f()\n"
        "entity B extends A:\n    override def f() -> int:\n"
        "        result K0\nentity C extends B:\n    override def g() -> "
        "int:\n        result a\nx: A\nx = C(\"cow\", Pos(0, 0, 0))\n"
        "r = x.g()\nif r > a:\n    s = x.f()\n", {}),
    "for-group-empty": ("g := Engroup[Entity]()\nfor e in g:\n    pass\n",
                        {}),
    "ct-for": ("for i in {K0, 1, 2}:\n    if a > i:\n        r += i\n"
               "        s += 1\n", {}),
    "mutual-ifaces": ("def f():\n    r += 1\n    s += 1\ninterface a1:\n"
                      "    if a > K0:\n        f()\ninterface a2:\n"
                      "    if a > K0:\n        f()\n",
                      {"ifaces": ["a1", "a2"]}),
}


def jobs(tier, seed):
    r = rng(seed, "p10")
    out = []

    def add(name, main, o, cfg):
        c = dict(name=name, main=main, ext=list(EXT), judge="closure", K=2,
                 max_paths=60)
        c.update(o)
        c["cfg"] = cfg
        out.append({"kind": "tv", "case": c})
    for n, (s, o) in EXTRA.items():
        o = dict(o)
        if "schedule" not in s:
            o.setdefault("tick", False)
        lay = LAYOUT if tier != "quick" else \
            LAYOUT[:2] + [LAYOUT[-1]] + r.sample(LAYOUT[2:-1], 1)
        for i, cfg in enumerate(lay):
            add("extra-%s-%d" % (n, i), PRE + s, o, cfg)
    for n, (s, o) in corpus.programs().items():
        lay = LAYOUT if tier != "quick" else r.sample(LAYOUT, 3)
        for i, cfg in enumerate(lay):
            add("lib-%s-%d" % (n, i), s, o, cfg)
    for mod in ("p03", "p04", "p05", "p06", "p07"):
        m = importlib.import_module("checks." + mod)
        names = [k for k, v in getattr(m, "HAND", {}).items()
                 if isinstance(v, str)]
        if tier == "quick":
            names = r.sample(names, min(6, len(names)))
        for n in names:
            add("%s-%s" % (mod, n), PRE + m.HAND[n] + "\n", {},
                r.choice(LAYOUT))
    for i in range(40 if tier == "quick" else 800):
        g = PG(r, size=r.randrange(6, 12), depth=3, funcs=r.choice([1, 2, 3]),
               loops=True)
        pre, src = g.program()
        add("prog%d" % i, pre + PRE + src + "\n", {"tick": False},
            r.choice(LAYOUT))
    return out
