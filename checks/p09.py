"""P09: every emitted line is one well-formed command."""
from .common import *
from .progen import PG
from . import corpus
import importlib

BOUNDS = ("programs covering every statement form and every library "
          "function, seeded random programs and the demo programs, all "
          "marked literals symbolic over int32, optimizer on and off; every "
          "line of every emitted file is parsed (executed or not) and the "
          "constraints on symbolic numbers are decided by the solver")
OUTSIDE = ("event, type and block names with special characters (they "
           "are identifiers, written as given); "
           "commands whose grammar is left to the user (raw commands, block "
           "and item names); larger programs; string contents (P27)")
ASSUMPTIONS = ["vlib/wf.py states the documented grammar of the Bedrock "
               "commands the compiler emits"]

# cases for numbers in every place a number may reach the output
NUM = {
    "scores-int": 'g := Engroup[Entity]()\ng.select(Enfilter().scores("in", '
                  'K0))',
    "level": 'g := Engroup[Entity]()\ng.select(Enfilter().level(K0, K1))',
    "limit": 'g := Engroup[Entity]()\ng.select(Enfilter().random("cow", K0))',
    "limit2": 'g := Engroup[Entity]()\ng.select(Enfilter().nearest_from('
              'Pos(0, 0, 0), K0))',
    "limit3": 'g := Engroup[Entity]()\ng.select(Enfilter().farthest_from('
              'Pos(0, 0, 0), K0))',
    "title": 'import print\nprint.title("x", fade_in=K0, stay_time=K1, '
             'fade_out=K2)',
    "format": 'import print\nconst A = K0 + K1\nprint.tell(print.format('
              '"%0 %1", A, K2))',
    "cmd": "/say ${K0 + K1} ${K2}",
    "min": "import math\nr = math.min(a, K0) + math.max(b, K1)",
    "randint": "import math\nr = math.randint(K0, K1)",
    "randint2": "import math\nr = a + math.randint(K0 + 1, K1 - 1)",
    "cmp-edges": "r = int(a > K0) + int(a < K1) + int(a >= K2)\n"
                 "if not (a > K0):\n    s = 1",
    "and-range": "if a > K0 and a < K1 and a != K2:\n    r = 1",
    "or-range": "if a > K0 or a < K1:\n    r = 1",
    "while-range": "while K0 < a <= K1:\n    a += 1",
    "sub-const": "r = a - K0\ns -= K1\nc += K2",
    "mul-const": "r = a * K0\ns /= K1\nc %= K2",
    "neg": "r = -K0 - a\ns = -(a + K1)",
    "spawn": "import world\nworld.summon(\"cow\", Pos(K0, K1, K2))",
    "interval": "import schedule\ndef f():\n    r += 1\n"
                "schedule.register_loop(f, interval=K0)",
    "after": "import schedule\ndef f():\n    r += 1\n"
             "const t = schedule.Task(f)\nt.after(K0)",
    "circle": "import schedule\ndef f():\n    r += 1\n"
              "const t = schedule.Task(f)\nt.on_circle_loaded(Pos(0, 0, 0), "
              "K0)",
    "give": "import world\ng := Engroup[Entity]()\ng.select(Enfilter()"
            ".all_players())\nworld.give(g, \"apple\", K0)\n"
            "world.clear(g, \"apple\", K1, K2)",
    "xp": "import world\ng := Engroup[Entity]()\nworld.xp_add_levels(g, K0)\n"
          "world.xp_add_points(g, K1)",
    "slot": "import world\nworld.replaceitem_block(Pos(0, 0, 0), K0, \"a\", "
            "K1)",
}
CHARS = ' ,@~^/$&"\'!#%+*=[{]}\\|<>`'
NAMES = {
    "holder": '&x = scb("{}", "in")\nx = a\nr = x + b\nif x > K0:\n'
              '    s = x * x\n',
    "obj": '&x = scb("p", "{}")\nx = a\nr = x + b\nif x > K0:\n'
           '    s = x * x\n',
    "both": '&x = scb("{0}", "{0}")\nx += a\nr = x\nif x == K0 and x < b'
            ':\n    s = 1\n',
    "tag": 'g := Engroup[Entity]()\ng.select(Enfilter().has_tag("{0}")'
           '.has_no_tag("x{0}"))\nr = g.size()\n',
    "name": 'g := Engroup[Entity]()\ng.select(Enfilter().is_name("{0}")'
            '.is_not_name("x{0}"))\nr = g.size()\n',
    "summon": 'import world\nworld.summon("cow", Pos(0, 0, 0), name="{0}")'
              '\nworld.summon("cow", Pos(0, 0, 0), name="{0}", '
              'event="ev")\n',
}
STR = {
    "name-quote": 'g := Engroup[Entity]()\ng.select(Enfilter().is_name('
                  '"a\\"b\\\\c"))',
    "obj-space": 'scb("p", "in") = 1\nr = scb("q w", "in")',
    "tag-comma": 'g := Engroup[Entity]()\ng.select(Enfilter().has_tag('
                 '"a,b=c]"))',
    "tag-empty": 'g := Engroup[Entity]()\ng.select(Enfilter().has_tag(""))',
    "print-quote": 'import print\nprint.tell("a\\"b\\\\c\\n")',
    "print-nl": 'import print\nprint.tell(print.format("x\\n%0\\n", a))',
    "print-empty": 'import print\nprint.tell("")',
    "translate": 'import print\nprint.tell(print.translate("a\\"b"))',
    "float-small": 'import world\nworld.setblock(Pos(0.00001, 2, 3)'
                   '.offset(y=0.000001).local(Rot(0.00002, 1), '
                   'up=0.00003), "stone")\n/say ${0.00001}',
    "float-big": 'import world\nworld.setblock(Pos(10000000000000000.0, 2, '
                 '3) , "stone")',
    "offset-mix": 'import world\nworld.fill(Pos(0, 0, 0), Offset.local(1, 2,'
                  ' 3).abs(x=K0), "air")',
    "offset-mix2": 'import world\nworld.fill(Pos(0, 0, 0), Offset.local(1, '
                   '2, 3).offset(y=K0, z=1), "air")',
    "offset-all": 'import world\nworld.fill(Pos(0, 0, 0), Offset.local(1, '
                  '2, 3).offset(K1, K0, K2), "air")',
    "cmd-escape": '/say a\\\\b ${"q"} \\${x}',
}


def jobs(tier, seed):
    r = rng(seed, "p09")
    out = []

    def add(name, main, pre=PRE, **kw):
        c = dict(name=name, main=pre + main + "\n", ext=list(EXT),
                 judge="wf", K=2, max_paths=60)
        c.update(kw)
        out.append({"kind": "tv", "case": c})
    for n, b in NUM.items():
        add("num-" + n, b)
    for n, b in STR.items():
        add("str-" + n, b)
    for n, b in NAMES.items():
        for ch in CHARS if tier != "quick" else r.sample(CHARS, 7) + ["@"]:
            x = ch if ch not in '"\\' else "\\" + ch
            if ch == "$":
                x = "\\$"
            for pat in ("b%sc", "bc%s", "%s1"):
                if ch + pat[:1] == "@%":
                    continue            # a selector
                if pat == "b%sc" or tier != "quick":
                    add("name-%s-%d-%s" % (n, ord(ch), pat.replace(
                        "%s", "x")), b.format(pat % x), objectives=[pat % ch])
    for n, (s, o) in corpus.programs().items():
        for opt in (True, False):
            kw = dict(o)
            kw["cfg"] = {"optimizer": opt}
            for k in ("ifaces", "tick"):
                kw.pop(k, None)
            add("lib-%s-%d" % (n, opt), s, pre="", **kw)
    for mod in ("p01", "p02", "p03", "p04", "p05", "p06", "p07"):
        m = importlib.import_module("checks." + mod)
        names = [k for k, v in getattr(m, "HAND", {}).items()
                 if isinstance(v, str)]
        if tier == "quick":
            names = r.sample(names, min(10, len(names)))
        for n in names:
            add("%s-%s" % (mod, n), m.HAND[n])
    for i in range(40 if tier == "quick" else 600):
        g = PG(r, size=r.randrange(6, 12), depth=3, funcs=r.choice([0, 1, 2]),
               loops=True)
        pre, src = g.program()
        add("prog%d" % i, src, pre=pre + PRE,
            cfg={"optimizer": r.random() < .5,
                 "debug_comments": r.random() < .5})
    return out
