"""P20: positions, offsets and rotations denote what their chain says."""
from .common import *

BOUNDS = ("chains of at most 6 operations on Pos, AbsPos, Offset and Rot "
          "values; int coordinates symbolic (any int32), float coordinates "
          "from a list; entities from a world with symbolic choices")
OUTSIDE = ("the numeric value of AbsPos attributes; the geometry the game "
           "computes for rotations, facing, alignment and dimension changes (these stay "
           "uninterpreted, equal exactly when the same operations apply to "
           "the same state)")
ASSUMPTIONS = ass_arith([
    "where a command runs is judged by a normal form of its execute "
    "context: absolute, relative and local offsets are added up, everything "
    "else is kept symbolically",
    "Rot takes its vertical angle first, as the implementation does"])

W = {"types": ["cow", "player"], "tags": ["red"], "objs": ["o"]}
T = "entity T:\n    pass\n"
HAVE = T + ('m := T("cow", Pos(0, 0, 0))\nn := T("pig", Pos(1, 1, 1))\n'
            "if a > b:\n    m = n\n")


class Use:
    """z1 := T("cow", <position>), with a new name every time"""
    n = 0

    def __mod__(self, p):
        Use.n += 1
        return 'z%d := T("cow", %s)\n' % (Use.n, p)


USE = Use()
POS = {
    "ints": "Pos(K0, K1, K2)",
    "floats": "Pos(1.5, 2.25, -3.5)",
    "mixed": "Pos(K0, 2.5, -7)",
    "big": "Pos(30000000, -64, -30000000)",
    "neg": "Pos(-1, -1, -1)",
    "neg-float": "Pos(-1.0, -1.0, -0.5)",
    "bad-kw-pos": "Pos(z=K0, x=K1, y=K2)",
    "abs": "Pos(K0, K1, K2).abs(x=K3)",
    "abs-all": "Pos(K0, K1, K2).abs(K3, K4, K5)",
    "abs-none": "Pos(K0, K1, K2).abs()",
    "abs-float": "Pos(K0, K1, K2).abs(y=1.5, z=2.5)",
    "offset": "Pos(K0, K1, K2).offset(K3, K4, K5)",
    "offset-kw": "Pos(K0, K1, K2).offset(y=K3)",
    "offset-float": "Pos(0, 0, 0).offset(0.5, -1.25, 2)",
    "offset-twice": "Pos(0, 0, 0).offset(x=K0).offset(x=K1, z=K2)",
    "offset-abs": "Pos(0, 0, 0).offset(x=K0).abs(x=K1, z=K2)",
    "abs-offset": "Pos(0, 0, 0).abs(x=K0).offset(x=K1, z=K2)",
    "align": "Pos(1.5, 2.5, 3.5).align()",
    "align-xz": 'Pos(1.5, 2.5, 3.5).align("xz")',
    "align-sym": 'Pos(K0, K1, K2).align("zx")',
    "align-then": "Pos(1.5, 2.5, 3.5).align().offset(0.5, 0, 0.5)",
    "then-align": "Pos(1.5, 2.5, 3.5).offset(0.25, K0, 0.5).align()",
    "dim": 'Pos(K0, K1, K2).dim("nether")',
    "dim-twice": 'Pos(K0, K1, K2).dim("nether").dim("the_end")',
    "dim-offset": 'Pos(K0, K1, K2).dim("nether").offset(K3)',
    "apply": "Pos(K0, K1, K2).apply(Offset(K3, K4, K5))",
    "apply-abs": "Pos(K0, K1, K2).apply(Offset(x_abs=K3, y=K4))",
    "apply-abs-all": "Pos(K0, K1, K2).apply(Offset(x_abs=K3, y_abs=K4, "
                     "z_abs=K5))",
    "apply-none": "Pos(K0, K1, K2).apply(Offset())",
    "apply-chain": "Pos(K0, K1, K2).apply(Offset(K3).abs(y=K4)"
                   ".offset(z=K5))",
    "apply-override": "Pos(K0, K1, K2).apply(Offset(K3, 1, 1).abs(x=K4)"
                      ".offset(y=K5))",
    "apply-offset-abs": "Pos(K0, K1, K2).apply(Offset(1, 2, 3).abs(K3, K4, "
                        "K5).offset(y=1.5))",
    "apply-abspos": "Pos(0, 0, 0).apply(AbsPos(K0, K1, K2))",
    "local-offset": "Pos(0, 0, 0).apply(Offset.local(1, 2, 3))",
    "local-offset-sym": "Pos(0, 0, 0).apply(Offset.local(K0, 0.5, K1))",
    "local-made-abs": "Pos(0, 0, 0).apply(Offset.local(1, 2, 3).abs(K0, 0.5,"
                      " K1))",
    "local-made-offset": "Pos(0, 0, 0).apply(Offset.local(1, 2, 3).offset("
                         "K0, 0.5, K1))",
    "local-offset-kw": "Pos(0, 0, 0).apply(Offset.local(front=K0))",
    "local": "Pos(0, 0, 0).local(Rot(K0, K1), 1, 2, 3)",
    "local-kw": "Pos(0, 0, 0).local(Rot(10, 20.5), front=K0)",
    "local-chain": "Pos(0, 0, 0).offset(K0).local(Rot(10, 20), left=1)"
                   ".offset(y=K1)",
    "local-turn": "Pos(0, 0, 0).local(Rot(10, 20).offset(K0, K1), up=1)",
    "local-turn-abs": "Pos(0, 0, 0).local(Rot(10, 20).abs(vertical=K0), "
                      "up=1)",
    "local-turn-h": "Pos(0, 0, 0).local(Rot(10, 20).offset(horizontal=1.5)"
                    ".abs(vertical=-1), up=1)",
    "local-twice": "Pos(0, 0, 0).local(Rot(10, 20), 1).local(Rot(30, 40), "
                   "0, 2)",
    "abspos": "AbsPos(K0, K1, K2)",
    "abspos-float": "AbsPos(0.5, 1, -1.5)",
    "abspos-abs": "AbsPos(K0, K1, K2).abs(y=K3)",
    "abspos-abs-all": "AbsPos(K0, K1, K2).abs(K3, 0.25, K4)",
    "abspos-offset": "AbsPos(1, 2, 3).offset(1, 2, 3)",
    "abspos-offset-f": "AbsPos(1, 2, 3).offset(x=0.5, z=-3)",
    "abspos-offset-0": "AbsPos(1, 2, 3).offset()",
    "abspos-chain": "AbsPos(1, 2, 3).offset(1).abs(y=9).offset(z=-4.5)",
    "small": "Pos(0.0001, 0.25, 123456.75)",
    "exp": "Pos(100000.0, 1000000.5, 0.001)",
    "zero": "Pos(0.0, -0.0, 0)",
    "literal-neg": "Pos(-5, -0.5, 0).offset(-1, -2, -3)",
}
ENT = {
    "at": "Pos(m)",
    "at-eyes": 'Pos(m, "eyes")',
    "at-offset": "Pos(m).offset(K0, K1, K2)",
    "at-offset-f": "Pos(m).offset(y=1.5).offset(y=-0.5, x=K0)",
    "at-abs": "Pos(m).abs(y=K0)",
    "at-align": "Pos(m).align().offset(0.5, 0, 0.5)",
    "at-align-y": 'Pos(m).align("y")',
    "at-dim": 'Pos(m).dim("nether")',
    "at-local-self": "Pos(m).local(Rot(m), front=K0)",
    "at-local-other": "Pos(m).local(Rot(n), 1, 2, 3)",
    "at-local-offset": "Pos(m).apply(Offset.local(1, 0.5, 2))",
    "at-local-eyes": 'Pos(m, "eyes").local(Rot(m), front=1)',
    "at-local-eyes-off": 'Pos(m, "eyes").apply(Offset.local(front=1))',
    "at-local-turn": "Pos(m).local(Rot(m).offset(K0, K1), front=1)",
    "at-local-turn-abs": "Pos(m).local(Rot(m).abs(horizontal=K0), front=1)",
    "at-face": "Pos(m).local(Rot.face_entity(n), front=2)",
    "at-face-eyes": 'Pos(m).local(Rot.face_entity(n, "eyes"), front=2)',
    "at-face-turn": "Pos(m).local(Rot.face_entity(n).offset(180), front=2)",
    "at-then-face": "Pos(m).offset(y=1).local(Rot.face_entity(n), up=2)"
                    ".align()",
    "at-apply": "Pos(m).apply(Offset(1, y_abs=64))",
    "at-apply-abspos": "Pos(m).apply(AbsPos(1, 2, 3))",
}
BAD = {
    "bad-2": "Pos(1, 2)",
    "bad-str": 'Pos("1", 2, 3)',
    "bad-var": "Pos(a, 2, 3)",
    "bad-bool": "Pos(True, 2, 3)",
    "bad-align": 'Pos(1, 2, 3).align("xx")',
    "bad-align-2": 'Pos(1, 2, 3).align("w")',
    "bad-both": "Pos(1, 2, 3).apply(Offset(x=1, x_abs=2))",
    "bad-local": "Pos(1, 2, 3).local(1)",
    "bad-apply": "Pos(1, 2, 3).apply(Pos(1, 2, 3))",
    "bad-mixed": "Pos(1, 2, 3).apply(Offset.local(1).abs(x=1))",
    "bad-mixed-2": "Pos(1, 2, 3).apply(Offset.local(1, 2, 3).abs(x=1, y=K0))",
    "bad-mixed-3": "Pos(1, 2, 3).apply(Offset.local(1, 2, 3).abs(y=K0, z=1))",
    "bad-mixed-4": "Pos(1, 2, 3).apply(Offset.local(1, 2, 3).abs(z=K0))",
    "bad-mixed-5": "Pos(1, 2, 3).apply(Offset.local(1, 2, 3).offset(K0))",
    "bad-mixed-6": "Pos(1, 2, 3).apply(Offset.local(K0).offset(x=1, z=2))",
    "bad-mixed-7": "Pos(1, 2, 3).apply(Offset.local(K0).offset(y=1, z=2))",
    "bad-mixed-8": "Pos(1, 2, 3).apply(Offset.local(K0).offset(y=1)"
                   ".abs(x=1, z=2))",
    "bad-dim": "Pos(1, 2, 3).dim(1)",
    "bad-rot": "Pos(1, 2, 3).local(Rot(1))",
    "bad-attr": "Pos(1, 2, 3).foo()",
    "bad-kw": "Pos(1, 2, 3).offset(w=1)",
    "bad-offset-pos": "Pos(1, 2, 3).apply(Offset(1, 2, 3, 4))",
    "bad-face": "Pos(1, 2, 3).local(Rot.face_entity(1))",
}
VALUES = {
    "imm-pos": T + "const p = Pos(K0, K1, K2)\nconst q = p.offset(1, 2, 3)\n"
    'const w = p.align()\nconst v = p.dim("nether")\nconst u = p.abs(x=9)\n'
    + "".join(USE % x for x in "wpvquq"),
    "imm-pos-entity": HAVE + "const p = Pos(m)\nconst q = p.offset(y=1)\n"
    "const w = q.local(Rot(m), 1)\n" + "".join(USE % x for x in "wqp"),
    "imm-offset": T + "const o = Offset(1, 2, 3)\nconst u = o.abs(x=K0)\n"
    "const v = u.offset(y=K1)\nconst p = Pos(0, 0, 0)\n"
    + "".join(USE % ("p.apply(%s)" % x) for x in "vuov"),
    "imm-abspos": T + "const o = AbsPos(1, 2, 3)\nconst u = o.abs(x=K0)\n"
    "const v = o.offset(y=1)\nconst w = v.offset(1, 1, 1)\n"
    + "".join(USE % x for x in "wvuo"),
    "imm-rot": T + "const h = Rot(10, 20)\nconst u = h.offset(K0)\n"
    "const v = u.abs(horizontal=K1)\nconst p = Pos(0, 0, 0)\n"
    + "".join(USE % ("p.local(%s, front=1)" % x) for x in "vuhv"),
    "imm-rot-entity": HAVE + "const h = Rot(m)\nconst u = h.offset(K0)\n"
    "const p = Pos(n)\n"
    + "".join(USE % ("p.local(%s, front=1)" % x) for x in "uhu"),
    "imm-apply": T + "const p = Pos(0, 0, 0)\nconst q = p.apply(AbsPos(1, 2, "
    "3))\nconst w = q.apply(Offset(y=K0))\n" + "".join(
        USE % x for x in "wqp"),
    "imm-local": HAVE + "const h = Rot(m)\nconst p = Pos(n)\n"
    "const q = p.local(h, 1)\nconst w = q.local(h, 2)\n"
    + "".join(USE % x for x in "wqp") + USE % "p.local(h, 3)",
    "const-fn": T + "const def up(p: Pos, n: int) -> Pos:\n"
    "    result p.apply(Offset().offset(y=n))\nconst p = Pos(0, 0, 0)\n"
    + USE % "up(p, K0)" + USE % "up(up(p, 1), K1)" + USE % "p",
    "const-loop": T + "const def up(p: Pos, n: int) -> Pos:\n"
    "    q := p\n    for i in list.range(0, n):\n"
    "        q = q.apply(Offset(i, 1))\n    result q\n"
    + USE % "up(Pos(0, 0, 0), 4)",
    "inline-fn": T + "inline def mk(const p):\n    z := T(\"cow\", "
    "p.offset(1))\nmk(Pos(K0, 0, 0))\nmk(Pos(0, K1, 0).align())",
    "entity-moves": HAVE + "const p = Pos(m)\n" + USE % "p" +
    "m = n\n" + USE % "p.offset(y=1)",
    "entity-ref": HAVE + "&e = n\nconst p = Pos(e)\n" + USE % "p",
    "in-branch": HAVE + "const p = Pos(m)\nif a > K0:\n    " +
    (USE % "p").strip() + "\nelse:\n    " + (USE % "p.offset(y=1)").strip(),
    "for-each": T + 'x := ExternEngroup()\nx.select(Enfilter())\nfor e in '
    "x:\n    z := T(\"cow\", Pos(e).offset(K0, 1, 1))\n    /say ${z}",
    "two-consts": T + "const p = Pos(1, 2, 3), q = p.offset(1)\n"
    + USE % "q" + USE % "p",
    "offset-const": T + "const o = Offset(K0, y_abs=K1)\nconst p = Pos(1, "
    "2, 3)\n" + USE % "p.apply(o)" + USE % "p.offset(1).apply(o)",
    "list": T + "const l = {Pos(1, 2, 3), Pos(K0, 5, 6)}\n" +
    USE % "l[1]" + USE % "l[0].offset(y=K1)",
}


def coord(r):
    return r.choice(["K%d" % r.randint(0, 3), "K%d" % r.randint(0, 3), "1",
                     "-2", "0", "7"])


def fl(r):
    return r.choice(["0.5", "-1.25", "2.0", "3", "-1", "0"])


def three(r, names, f, least=0):
    ks = r.sample(names, r.randint(least, len(names)))
    if ks == list(names) and r.random() < .5:
        return ", ".join(f(r) for _ in ks)
    return ", ".join("%s=%s" % (k, f(r)) for k in ks)


def rot(r, ents):
    k = r.random()
    if ents and k < .4:
        o = "Rot(%s)" % r.choice(ents)
    elif ents and k < .6:
        o = "Rot.face_entity(%s%s)" % (r.choice(ents), r.choice(
            ["", ', "eyes"']))
    else:
        o = "Rot(%s, %s)" % (fl(r), fl(r))
    for _ in range(r.choice([0, 0, 1, 2])):
        o += ".%s(%s)" % (r.choice(["abs", "offset"]),
                          three(r, ("vertical", "horizontal"), fl))
    return o


def off(r):
    xyz = ("x", "y", "z")
    if r.random() < .3:
        return "Offset.local(%s)" % three(r, ("left", "up", "front"), fl)
    o = "Offset(%s)" % ", ".join(
        "%s%s=%s" % (k, r.choice(["", "_abs"]), fl(r))
        for k in r.sample(xyz, r.randint(0, 3)))
    for _ in range(r.choice([0, 0, 1, 2])):
        o += ".%s(%s)" % (r.choice(["abs", "offset"]), three(r, xyz, fl))
    return o


def chain(r, ents):
    xyz = ("x", "y", "z")
    if ents and r.random() < .6:
        p = "Pos(%s%s)" % (r.choice(ents), r.choice(["", "", ', "eyes"']))
    else:
        p = "Pos(%s, %s, %s)" % tuple(r.choice([coord, fl])(r)
                                      for _ in range(3))
    sym = True
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < .25:
            p += ".offset(%s)" % three(r, xyz, coord if sym else fl)
        elif k < .45:
            p += ".abs(%s)" % three(r, xyz, coord if sym else fl)
        elif k < .6:
            p += ".apply(%s)" % off(r)
        elif k < .75:
            p += ".align(%s)" % r.choice(["", '"x"', '"yz"', '"zyx"'])
        elif k < .9:
            p += ".local(%s%s)" % (rot(r, ents), "".join(
                ", %s=%s" % (x, fl(r)) for x in r.sample(
                    ("left", "up", "front"), r.randint(0, 3))))
        else:
            p += '.dim("%s")' % r.choice(["nether", "overworld", "the_end"])
    return p


def jobs(tier, seed):
    out = []

    def add(n, b, **kw):
        out.append(tv(n, b, world=W, K=3, **kw))
    for n, p in POS.items():
        add(n, T + USE % p)
    for n, p in ENT.items():
        add(n, HAVE + USE % p)
    for n, p in BAD.items():
        add(n, T + USE % p)
    for n, b in VALUES.items():
        add(n, b)
    for i in range(120 if tier == "quick" else 3000):
        g = rng(seed, "p20-%d" % i)
        ents = g.choice([(), ("m", "n")])
        add("gen%d" % i, (HAVE if ents else T) + "".join(
            USE % chain(g, ents) for _ in range(g.randint(1, 2))))
    return out
