"""P21: what a Minecraft version lacks is refused or replaced, and only that.
"""
from .common import *
from vlib import unit
from vlib.sym import H

BOUNDS = ("versions of 2 to 4 components with every component symbolic "
          "(major 1, minor 18..40, patch 0..400; one job over majors 0..3); "
          "every gated feature in every position where it can be written, "
          "and generated programs that mix gated with ungated features; "
          "version requirements with three symbolic bounds")
OUTSIDE = ("which versions of the game really know a feature is taken from "
           "the documented table; versions given as text on the command line "
           "are P26")
ASSUMPTIONS = ass_arith([
    "rotation in summon and ride: 1.19.70; haspermission and material "
    "colors: 1.19.80; block states with =: 1.20.10",
    "a missing component of a version is older than 0 of that component "
    "(no table entry distinguishes the two)"])

V2 = [1, ["sym", "minor", 18, 40]]
V3 = V2 + [["sym", "patch", 0, 400]]
V4 = V3 + [["sym", "build", 0, 40]]
VX = [["sym", "major", 0, 3], ["sym", "minor", 0, 40],
      ["sym", "patch", 0, 400]]
W = {"types": ["cow", "player"], "tags": ["red", "blue"], "objs": []}
WM = dict(W, mod=True)
END = "r = x.size()\nfor e in x:\n    /say in ${e}\n"
GRP = "x := ExternEngroup()\n"
MATS = ("quartz iron netherite redstone copper gold emerald diamond lapis "
        "amethyst").split()

FILTER = {
    "perm": 'x.select(Enfilter().has_permission("camera"))',
    "perm-no": 'x.select(Enfilter().has_no_permission("camera", "movement"))',
    "perm-none": "x.select(Enfilter().has_permission())",
    "perm-chain": 'x.select(Enfilter().has_tag("red").has_permission("camera")'
                  ')',
    "perm-const": 'const f = Enfilter().has_permission("camera")\nx.select(f)',
    "perm-unused": 'const f = Enfilter().has_no_permission("camera")\n'
                   "x.select(Enfilter())",
    "perm-def": 'def g():\n    x.select(Enfilter().has_permission("camera"))',
    "perm-inline": "inline def g():\n    x.select(Enfilter()."
                   'has_permission("camera"))',
    "perm-inline-call": "inline def g():\n    x.select(Enfilter()."
                        'has_permission("camera"))\ng()',
    "perm-if": 'if a > 0:\n    x.select(Enfilter().has_permission("camera"))',
    "perm-false": "if False:\n    x.select(Enfilter()."
                  'has_permission("camera"))',
    "perm-filter": 'x.select(Enfilter())\nx.filter(Enfilter().'
                   'has_permission("camera"))',
    "noperm": 'x.select(Enfilter().has_tag("red").is_type("cow"))',
    "noperm-two": 'x.select(Enfilter().all_players().is_game_mode("creative")'
                  ")",
}
FONT = {
    "unused": "def f():\n    const t = print.with_font(\"t\", "
              'color="material_gold")',
    "nested": 'print.tell(print.with_font(print.format("%%0 %%1", a, '
              'print.with_font("in", "material_iron")), "red"))',
    "inner": 'print.tell(print.with_font(print.with_font("in", "red"), '
             '"material_iron"))',
    "flags": 'print.tell(print.with_font("t", bold=True, italic=True))',
    "both": 'print.tell(print.with_font("t", "minecoin_gold") + '
            'print.with_font("u", color="material_lapis", bold=True))',
    "title": 'print.title(print.with_font("t", "material_diamond"))',
    "inline": "inline def f(const c: str):\n    print.tell(print.with_font("
              '"t", c))',
    "inline-call": "inline def f(const c):\n    print.tell(print.with_font("
                   '"t", c))\nf("red")\nf("material_gold")',
    "none": 'print.tell(print.with_font(print.format("%%0", a), "gold"))',
    "list": 'for c in {"red", "material_gold"}:\n    print.tell('
            'print.with_font("t", c))',
    "list-old": 'for c in {"red", "gold"}:\n    print.tell('
                'print.with_font("t", c))',
}
ESC = {
    "cmd": "/say \\#(material_gold)hi",
    "cmd-old": "/say \\#(gold)hi",
    "cmd-two": "/say \\#(bold, material_iron)hi",
    "cmd-mix": "/say \\#(red)a\\#(material_emerald)b",
    "str": 'const s2 = "\\#(material_lapis)x"\n/say ${s2}',
    "str-unused": 'const s2 = "\\#(material_lapis)x"',
    "str-old": 'const s2 = "\\#(red, bold)x"\n/say ${s2}',
    "def": "def f():\n    /say \\#(material_gold)hi",
    "inline": "inline def f():\n    /say \\#(material_gold)hi",
    "raw": "/say \\#lhi",
}
T = "entity T:\n    v: int\n"
ENT = {
    "new": T + 'q := T("pig", Pos(1, 2, 3))',
    "new-name": T + 'q := T("pig", Pos(1, 2, 3), "ev", "n")',
    "new-def": T + 'def f():\n    q := T("pig", Pos(1, 2, 3))\nf()',
    "new-unused": T + 'def f():\n    q := T("pig", Pos(1, 2, 3))',
    "new-two": T + 'q := T("pig", Pos(1, 2, 3))\nu := T("pig", Pos(1, 2, 3))',
    "new-if": T + 'if a > 0:\n    q := T("pig", Pos(1, 2, 3))\n    q.v = 3\n'
    "    r = q.v",
}
SUMMON = {
    "plain": 'world.summon("cow", p)',
    "event": 'world.summon("cow", p, "ev")',
    "name": 'world.summon("cow", p, name="a b")',
    "rot": 'world.summon("cow", p, rot=Rot(10, 20))',
    "rot-sym": 'world.summon("cow", p, None, None, Rot(K0, K1))',
    "rot-unused": 'def f():\n    world.summon("cow", p, rot=Rot(10, 20))',
    "rot-inline": 'inline def f():\n    world.summon("cow", p, rot=Rot(1, 2))',
    "if": 'if a > 0:\n    world.summon("cow", p, "ev", "n")',
    "ride": 'world.summon_ride(x, "pig")',
    "rider": 'world.summon_rider(x, "pig", "ev")',
}
B = 'world.Block("log", {"axis": "x", "n": K0, "on": True})'
BLOCK = {
    "set": "world.setblock(p, %s)" % B,
    "set-none": 'world.setblock(p, "stone")',
    "set-empty": 'world.setblock(p, world.Block("stone"))',
    "fill": "world.fill(p, Offset(3), %s)" % B,
    "replace": 'world.fill_replace(p, Offset(3), %s, world.Block("b", '
               '{"k": "v"}))' % B,
    "clone": "world.clone_only(p, Offset(1), Offset(2), %s)" % B,
    "is": "if world.is_block(p, %s):\n    /say yes" % B.replace("K0", "3"),
    "is-not": "if not world.is_block(p, %s):\n    /say no" % B.replace(
        "K0", "3"),
    "const": 'const k = %s\nworld.setblock(p, k)\nworld.setblock('
             "p.offset(1), k)" % B,
    "def": "def f():\n    world.setblock(p, %s)" % B,
    "colon": 'world.setblock(p, world.Block("log", {"a:b": "c=d"}))',
}
WH = "import world\nconst p = Pos(1, 64, -2)\n"


def program(g):
    """Gated and ungated features next to each other."""
    pre = "import print\n" + WH + GRP + 'x.select(Enfilter().has_tag("red"))\n'
    out = []
    depth = 0
    for _ in range(g.randint(2, 4)):
        k = g.randrange(8)
        s = [
            lambda: 'print.tell(print.with_font(print.format("%%0", %s), "%s"'
            "))" % (g.choice("abc"), g.choice(
                ["red", "gold", "material_" + g.choice(MATS)])),
            lambda: "/say \\#(%s)hi" % g.choice(
                ["red", "bold", "material_" + g.choice(MATS)]),
            lambda: g.choice(list(BLOCK.values())),
            lambda: g.choice(list(SUMMON.values())[:5]),
            lambda: 'x.select(Enfilter().has_%spermission("camera"))'
            % g.choice(["", "no_"]),
            lambda: 'x.select(Enfilter().has_tag("blue"))',
            lambda: 'world.tag_add(x, "blue")',
            lambda: "r = a + b",
        ][k]()
        if "def " in s or "const " in s:
            s = 'world.setblock(p, "stone")'
        if g.random() < .3 and "\n" not in s:
            s = "%s\n    %s" % (g.choice(["if a > b:", "if b == 0:",
                                         "while False:"]), s)
        out.append(s)
    return pre + "\n".join(out) + "\n" + "for e in x:\n    /say in ${e}\n"


def jobs(tier, seed):
    out = []

    def case(name, body, world=None, vs=(V3,), **k):
        for i, v in enumerate(vs):
            out.append(tv(name + ("" if i == 0 else "-v%d" % i), body,
                          cfg=dict({"mc_version": v}, **k.pop("cfg", {})),
                          versions=True, **(
                              {"world": world} if world is not None else {})))
    two = (V3, V2, V4, VX) if tier != "quick" else (V3, V2)
    for n, b in FILTER.items():
        case("filter-" + n, GRP + b + "\n" + END, W, two if n in (
            "perm", "perm-no") or tier != "quick" else (V3,))
    for m in MATS:
        case("font-" + m, 'import print\nprint.tell(print.with_font("t", '
             'color="material_%s"))' % m, vs=(V3, VX) if m == "gold" else
             (V3,))
        case("esc-" + m, "/say \\#(material_%s)hi" % m,
             vs=two if m == "gold" else (V3,))
    for n, b in FONT.items():
        case("font-" + n, "import print\n" + b.replace("%%", "%"))
    for n, b in ESC.items():
        case("esc-" + n, b)
    for n, b in ENT.items():
        case("ent-" + n, b + "\n", W, (V3, VX) if n == "new" else (V3,))
    for n, b in SUMMON.items():
        case("summon-" + n, WH + GRP + b + "\n", WM,
             (V3, V2, V4) if n in ("rot", "plain") else (V3,))
    for n, b in BLOCK.items():
        case("block-" + n, WH + b + "\n", WM, two if n == "set" else (V3,))
    for n, b in (("ability", 'world.ability(x, "mayfly", True)'),
                 ("ability-unused", 'def f():\n    world.ability(x, "mute", '
                  "False)"), ("other", 'world.tag_add(x, "t")')):
        out.append(tv("edu-" + n, WH + GRP + "x.select(Enfilter()."
                      "all_players())\n" + b + "\n", world=WM, versions=True,
                      cfg={"education_edition": ["sym", "edu", 0, 1],
                           "mc_version": V3}))
    out.append(tv("edu-default", WH + GRP + "x.select(Enfilter()."
                  'all_players())\nworld.ability(x, "mayfly", True)\n',
                  world=WM, versions=True))
    for n in ("at_least", "at_most", "between", "older"):
        for L in (2, 3):
            out.append({"kind": "unit", "module": "p21",
                        "name": "%s-%d" % (n, L)})
    for n in ("only", "overload"):
        out.append({"kind": "unit", "module": "p21", "name": n})
    g = rng(seed, "p21")
    for i in range(30 if tier == "quick" else 1500):
        out.append(tv("gen-%d" % i, program(g), world=WM, versions=True,
                      cfg={"mc_version": V3}))
    return out


# ----------------------------------------------------- version requirements

def lt(x, y):
    """x < y componentwise, as a formula"""
    from vlib import dom
    out, eq = False, True
    for p, q in zip(x, y):
        p, q = getattr(p, "e", p), getattr(q, "e", q)
        out = dom.or_(out, dom.and_(eq, p < q))
        eq = dom.and_(eq, p == q)
    return out


def spec(job, inp):
    from acaciamc.tools import versionlib as vl
    from vlib import dom
    kind = job["name"].split("-")[0]
    L = int(job["name"].split("-")[1]) if "-" in job["name"] else 3

    def ver(n):
        return tuple(inp.int("%s%d" % (n, i), 0, 400) for i in range(L))
    v, a = ver("v"), ver("a")
    if kind in ("only", "overload"):
        return gate(kind, vl, v, a)
    if kind == "between":
        b = ver("b")
        req = vl.between(a, b)
        want = dom.and_(dom.not_(lt(v, a)), dom.not_(lt(b, v)))
    elif kind == "at_least":
        req, want = vl.at_least(a), dom.not_(lt(v, a))
    elif kind == "at_most":
        req, want = vl.at_most(a), dom.not_(lt(a, v))
    else:
        req, want = vl.older(a), lt(v, a)
    got = bool(req.validate(v))
    bad = dom.not_(want) if got else want
    return [(bad, "%s%r says %s for version %r" % (
        kind, () if not inp.concrete else a, got, v if inp.concrete else "?"))]


def gate(kind, vl, v, a):
    """A function behind a requirement is available exactly for the versions
    that satisfy it."""
    from acaciamc.error import Error
    from acaciamc.tools import axe

    class Cfg:
        mc_version = v

    class Comp:
        cfg = Cfg()
    ran = []
    if kind == "only":
        @vl.only(vl.at_least(a))
        def f(compiler, args, kwds):
            ran.append("new")
        try:
            f(Comp(), [], {})
        except Error:
            ran.append("error")
        want = [(lt(v, a), "error"), (True, "new")]
    else:
        class F(metaclass=axe.OverloadChopped):
            @axe.overload_versioned(vl.at_least(a))
            def new(cls, compiler):
                ran.append("new")

            @axe.overload
            def old(cls, compiler):
                ran.append("old")
        F(Comp(), [], {})
        want = [(lt(v, a), "old"), (True, "new")]
    from vlib import dom
    if len(ran) != 1:
        return [(True, "%s ran %r" % (kind, ran))]
    bad = want[0][0] if ran[0] != want[0][1] else dom.not_(want[0][0])
    return [(bad, "%s function: %s" % (kind, ran[0]))]


def run_unit(job):
    return unit.run(job, spec, "p21", 60, 10, 2)


def replay(data):
    return unit.replay(data, spec)
