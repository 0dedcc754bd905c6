"""P19: a filter chain selects exactly the entities that satisfy it."""
from .common import *

BOUNDS = ("chains of at most 6 filter operations over a world of the player "
          "and up to 3 other entities whose existence, tags, scores, names, "
          "modes, items, permissions, levels, rotations, distances and random "
          "draws are symbolic")
OUTSIDE = ("distances beyond 1048 blocks; filters positioned at symbolic "
           "coordinates; what a selector argument means to the game (items, "
           "volumes, rotation ranges are uninterpreted facts per entity)")
ASSUMPTIONS = ass_arith([
    "entities stay alive and do not move during the run",
    "ties in distance are broken in one fixed order",
    "modes, levels and permissions are facts of players only"])

W = {"types": ["cow", "cow", "pig", "player"], "tags": ["red", "blue"],
     "objs": ["o"]}
P = "const p = Pos(0, 64, 0)\nconst q = Pos(8, 64, 8)\n"
END = ("r = x.size()\nfor e in x:\n    /say in ${e}\n")


def prog(chain, use="select"):
    out = P + "x := ExternEngroup()\n"
    if use == "drop":
        out += "x.select(Enfilter())\nx.drop(%s)\n" % chain
    elif use == "filter":
        out += 'x.select(Enfilter().has_tag("red"))\nx.filter(%s)\n' % chain
    else:
        out += "x.select(%s)\n" % chain
    return out + END


ONE = {
    "all-players": ".all_players()",
    "random-1": '.random("cow")',
    "random-2": '.random("player", 2)',
    "random-big": '.random("pig", limit=5)',
    "nearest": ".nearest_from(p)",
    "nearest-2": ".nearest_from(p, 2)",
    "farthest": ".farthest_from(p)",
    "farthest-2": ".farthest_from(p, limit=2)",
    "tag": '.has_tag("red")',
    "tag-2": '.has_tag("red", "blue")',
    "tag-0": ".has_tag()",
    "no-tag": '.has_no_tag("red")',
    "no-tag-2": '.has_no_tag("red", "blue")',
    "distance": ".distance_from(p, 1.5, 6)",
    "distance-min": ".distance_from(p, min=2)",
    "distance-max": ".distance_from(p, max=3.25)",
    "distance-none": ".distance_from(p)",
    "type": '.is_type("cow")',
    "type-ns": '.is_type("minecraft:cow")',
    "not-type": '.is_not_type("cow")',
    "not-type-2": '.is_not_type("cow", "player")',
    "inside": ".inside(p, 3, 2, 1)",
    "distance-3": ".distance_from(p, 0.125, 3.375)",
    "distance-4": ".distance_from(p, 0.0625, 2.0005)",
    "inside-3": ".inside(p, 0.125, 2.375, 1.625)",
    "rot-3": ".rot_vertical(-0.125, 20.625).rot_horizontal(1.375, 2.125)",
    "inside-def": ".inside(p, dy=2.5)",
    "rot-v": ".rot_vertical(-10, 20)",
    "rot-v-min": ".rot_vertical(min=-45)",
    "rot-h": ".rot_horizontal(-90, 90)",
    "rot-h-max": ".rot_horizontal(max=12.5)",
    "name": '.is_name("bob")',
    "name-space": '.is_name("bob the cow")',
    "not-name": '.is_not_name("bob", "al")',
    "not-name-space": '.is_not_name("bob the cow")',
    "not-name-space2": '.is_not_name("al", "bob the cow")',
    "item": '.has_item("apple")',
    "item-q": '.has_item("apple", "2..5")',
    "item-int": '.has_item("apple", 3, 1)',
    "item-slot": '.has_item("bow", "..4", slot_type="slot.hotbar", '
                 'slot_num="0..2")',
    "item-slot-int": '.has_item("bow", slot_type="slot.hotbar", slot_num=1)',
    "item-not": '.has_item("bow", "!3")',
    "scores": '.scores("o", "3..8")',
    "scores-min": '.scores("o", "3..")',
    "scores-max": '.scores("o", "..-2")',
    "scores-int": '.scores("o", 5)',
    "scores-sp": '.scores("o", " 1 .. 4 ")',
    "scores-not": '.scores("o", "!3..8")',
    "scores-not-int": '.scores("o", "!4")',
    "level": ".level(3, 30)",
    "level-min": ".level(min=5)",
    "level-max": ".level(max=5)",
    "mode": '.is_game_mode("creative")',
    "not-mode": '.is_not_game_mode("creative", "survival")',
    "perm": '.has_permission("camera")',
    "no-perm": '.has_no_permission("camera", "movement")',
}
BAD = {
    "bad-random": ".random()",
    "bad-random-type": '.is_type("cow").random("pig")',
    "bad-random-player": '.all_players().random("cow")',
    "bad-limit": ".nearest_from(p, 0)",
    "bad-slot": '.has_item("bow", slot_num=1)',
    "bad-range": '.scores("o", "..")',
    "bad-range-2": '.scores("o", "a..b")',
    "bad-range-3": '.scores("o", "1..2..3")',
    "bad-range-4": '.scores("o", "")',
    "bad-method": ".near(p)",
    "bad-tag": ".has_tag(1)",
}
PAIRS = {
    "random-of-players": ".all_players().random()",
    "random-of-players-2": '.all_players().random("player", 2)',
    "random-of-type": '.is_type("cow").random(limit=2)',
    "random-of-mode": '.is_game_mode("creative").random()',
    "random-of-not-mode": '.is_not_game_mode("creative").random()',
    "random-of-level": ".level(3).random()",
    "random-of-perm": '.has_permission("camera").random()',
    "random-twice": '.random("player", 2).random()',
    "random-then-type": '.random("cow").is_type("cow")',
    "random-then-type-2": '.random("cow").is_type("pig")',
    "nearest-random": '.nearest_from(p, 2).random("cow")',
    "random-distance": '.random("cow", 5).distance_from(p, max=4)',
    "random-distance-1": '.random("cow").distance_from(p, 1, 4)',
    "random-inside": '.random("cow").inside(p, 1, 1, 1)',
    "random-nearest": '.random("player", 2).nearest_from(p)',
    "random-players": '.random("player").all_players()',
    "nearest-players": ".nearest_from(p).all_players()",
    "nearest-players-2": ".nearest_from(p, 2).all_players()",
    "players-nearest": ".all_players().nearest_from(p)",
    "nearest-distance": ".nearest_from(p).distance_from(q, max=3)",
    "nearest-distance-same": ".nearest_from(p).distance_from(p, max=3)",
    "distance-nearest": ".distance_from(q, max=3).nearest_from(p)",
    "nearest-nearest": ".nearest_from(p, 2).nearest_from(q)",
    "nearest-farthest": ".nearest_from(p, 2).farthest_from(p)",
    "farthest-nearest": ".farthest_from(p, 2).nearest_from(q)",
    "distance-twice": ".distance_from(p, max=3).distance_from(q, min=2)",
    "distance-twice-same": ".distance_from(p, 1, 3).distance_from(p, 2, 5)",
    "distance-inside": ".distance_from(p, max=3).inside(q, 1, 1, 1)",
    "inside-twice": ".inside(p, 1, 1, 1).inside(p, 2)",
    "tag-nearest": '.has_tag("red").nearest_from(p)',
    "nearest-tag": '.nearest_from(p).has_tag("red")',
    "nearest-type": '.nearest_from(p).is_type("cow")',
    "nearest-name": '.nearest_from(p).is_name("bob")',
    "nearest-rot": ".nearest_from(p).rot_vertical(0, 10)",
    "nearest-level": ".nearest_from(p).level(1)",
    "nearest-mode": '.nearest_from(p).is_game_mode("creative")',
    "nearest-scores": '.nearest_from(p).scores("o", "1..")',
    "nearest-item": '.nearest_from(p).has_item("bow")',
    "nearest-perm": '.nearest_from(p).has_permission("camera")',
    "farthest-tag": '.farthest_from(p, 2).has_no_tag("red")',
    "random-tag": '.random("cow", 2).has_tag("red")',
    "tag-random": '.has_tag("red").random("cow", 2)',
    "name-twice": '.is_name("bob").is_name("al")',
    "name-same": '.is_name("bob").is_name("bob")',
    "type-twice": '.is_type("cow").is_type("pig")',
    "type-both": '.is_type("cow").is_not_type("pig")',
    "type-contra": '.is_type("cow").is_not_type("cow")',
    "type-players": '.is_type("cow").all_players()',
    "players-type": '.all_players().is_type("player")',
    "players-not-type": '.all_players().is_not_type("cow")',
    "rot-v-twice": ".rot_vertical(-10, 20).rot_vertical(0, 30)",
    "rot-h-twice": ".rot_horizontal(-10, 20).rot_horizontal(0, 30)",
    "rot-both": ".rot_horizontal(-10, 20).rot_vertical(0, 30)",
    "level-twice": ".level(3, 30).level(5, 20)",
    "level-min-min": ".level(min=3).level(min=1)",
    "level-max-max": ".level(max=3).level(max=8)",
    "level-full-min": ".level(2, 9).level(min=4)",
    "level-min-full": ".level(4).level(2, 9)",
    "level-zero": ".level(max=0)", "level-zero-min": ".level(min=0)",
    "level-zeros": ".level(0, 0)", "level-none": ".level()",
    "rot-v-zero": ".rot_vertical(max=0)", "rot-h-zero": ".rot_horizontal(0)",
    "rot-v-min-min": ".rot_vertical(-10).rot_vertical(-50)",
    "rot-h-max-max": ".rot_horizontal(max=10).rot_horizontal(max=50)",
    "distance-zero": ".distance_from(p, 0, 0)",
    "distance-max-zero": ".distance_from(p, max=0)",
    "inside-zero": ".inside(p, 0, 0, 0)",
    "inside-none": ".inside(p)",
    "item-zero": '.has_item("bow", 0, 0)',
    "item-slot-zero": '.has_item("bow", slot_type="slot.hotbar", slot_num=0)',
    "scores-zero": '.scores("o", 0)',
    "level-halves": ".level(min=3).level(max=20)",
    "mode-twice": '.is_game_mode("creative").is_game_mode("survival")',
    "mode-both": '.is_game_mode("creative").is_not_game_mode("survival")',
    "scores-twice": '.scores("o", "3..8").scores("o", "5..9")',
    "scores-thrice": '.scores("o", "3..").scores("o", "..9")'
                     '.scores("o", "!5")',
    "item-twice": '.has_item("bow").has_item("apple", "2..")',
    "item-same": '.has_item("bow", "2..").has_item("bow", "..5")',
    "perm-both": '.has_permission("camera").has_no_permission("movement")',
    "tag-both": '.has_tag("red").has_no_tag("blue")',
    "tag-contra": '.has_tag("red").has_no_tag("red")',
    "players-players": ".all_players().all_players()",
    "occupied-players": ".distance_from(q, max=3).nearest_from(p)"
                        ".all_players()",
    "occupied-random": ".distance_from(q, max=3).nearest_from(p, 2)"
                       '.random("cow")',
    "occupied-farthest": ".inside(q, 3, 3, 3).farthest_from(p, 2)"
                         ".nearest_from(q)",
    "three": '.has_tag("red").nearest_from(p, 2).random("cow")'
             '.scores("o", "0..")',
    "three-b": '.distance_from(p, max=5).has_no_tag("red")'
               ".farthest_from(q, 2).distance_from(q, min=1)",
}
FIRST = {"after-random": '.random("cow", 2)', "after-near":
         ".nearest_from(q, 2)", "after-far": ".farthest_from(q)"}
EXTRA = {
    "immutable": P + 'const f = Enfilter().has_tag("red")\n'
    'const g = f.has_tag("blue")\nconst h = f.is_type("cow")\n'
    "x := ExternEngroup()\nx.select(f)\ny := ExternEngroup()\ny.select(g)\n"
    "z := ExternEngroup()\nz.select(h)\nr = x.size() * 100 + y.size() * 10 "
    "+ z.size()",
    "immutable-stages": P + 'const f = Enfilter().has_tag("red")'
    '.nearest_from(p)\nconst g = f.has_tag("blue")\n'
    'const h = f.random("cow")\n'
    "x := ExternEngroup()\nx.select(h)\ny := ExternEngroup()\ny.select(g)\n"
    "z := ExternEngroup()\nz.select(f)\nr = x.size() * 100 + y.size() * 10 "
    "+ z.size()",
    "immutable-lists": P + 'const f = Enfilter().has_no_tag("red")'
    '.is_not_type("cow").is_not_name("al").has_item("bow")'
    '.scores("o", "1..")\n'
    'const g = f.has_no_tag("blue").is_not_type("pig").is_not_name("bob")'
    '.has_item("apple").scores("o", "..5")\n'
    "x := ExternEngroup()\nx.select(f)\ny := ExternEngroup()\ny.select(g)\n"
    "r = x.size() * 10 + y.size()",
    "reuse": P + 'const f = Enfilter().nearest_from(p, 2).has_tag("red")\n'
    "x := ExternEngroup()\nx.select(f)\ny := ExternEngroup()\ny.select(f)\n"
    "y.drop(f)\ns = y.size()\nx.filter(f)\n" + END,
    "loop": P + 'const f = Enfilter().nearest_from(p).has_tag("red")\n'
    "x := ExternEngroup()\nwhile s < 2:\n    s += 1\n    x.select(f)\n"
    "    r += x.size()\n    x.clear()",
    "fn": P + 'const f = Enfilter().has_tag("red").nearest_from(p)\n'
    "def g() -> int:\n    x := ExternEngroup()\n    x.select(f)\n"
    "    result x.size()\nr = g()",
    "const-fn": P + 'const def near(n: int, f: Enfilter) -> Enfilter:\n'
    "    result f.nearest_from(p, n)\nx := ExternEngroup()\n"
    'x.select(near(2, Enfilter().has_tag("red")))\n' + END,
    "from-entity": 'entity T:\n    pass\nm := T("cow", Pos(0, 64, 0))\n'
    "x := ExternEngroup()\nx.select(Enfilter().nearest_from(Pos(m), 2)"
    '.has_tag("red"))\n' + END,
    "from-entity-dist": 'entity T:\n    pass\nm := T("cow", Pos(0, 64, 0))\n'
    "n := T(\"pig\", Pos(8, 64, 8))\nif a > K0:\n    m = n\n"
    "x := ExternEngroup()\nx.select(Enfilter().distance_from(Pos(m, "
    '"eyes"), max=2).farthest_from(Pos(n)))\n' + END,
    "own-group": 'entity T:\n    v: int\nm := T("cow", Pos(0, 64, 0))\n'
    'n := T("pig", Pos(8, 64, 8))\nm.v = a\nn.v = b\n'
    "g := Engroup[T]()\ng.select(Enfilter())\nr = g.size()\n"
    'g.filter(Enfilter().is_type("cow"))\nfor e in g:\n    s += e.v',
    "own-group-near": 'entity T:\n    v: int\nm := T("cow", Pos(0, 64, 0))\n'
    'n := T("pig", Pos(8, 64, 8))\nm.v = a\nn.v = b\n'
    "g := Engroup[T]()\ng.select(Enfilter().nearest_from(Pos(m)))\n"
    "r = g.size()\nfor e in g:\n    s += e.v",
    "scores-from-program": "x := ExternEngroup()\nx.select(Enfilter()"
    '.has_tag("red"))\nfor e in x:\n    &k = scb(e, "o")\n    k = a + K0\n'
    'y := ExternEngroup()\ny.select(Enfilter().scores("o", "3..8"))\n'
    "r = y.size()",
    "group-then-limit": P + 'x := ExternEngroup()\nx.select(Enfilter()'
    '.has_tag("red"))\nx.filter(Enfilter().nearest_from(p).has_no_tag('
    '"blue"))\n' + END,
    "group-drop-limit": P + 'x := ExternEngroup()\nx.select(Enfilter()'
    '.has_tag("red"))\nx.drop(Enfilter().farthest_from(p, 2).distance_from('
    "q, max=3))\n" + END,
}


def step(r):
    k = r.random()
    if k < .12:
        return '.has_%stag("%s")' % (r.choice(["", "no_"]),
                                     r.choice(["red", "blue"]))
    if k < .24:
        return ".distance_from(%s, %s)" % (r.choice("pq"), r.choice(
            ["max=4", "min=2", "1, 5", "max=0", "min=0"]))
    if k < .36:
        return ".%s_from(%s%s)" % (r.choice(["nearest", "farthest"]),
                                   r.choice("pq"), r.choice(["", ", 2"]))
    if k < .46:
        return ".random(%s%s)" % (r.choice(['"cow"', '"player"']),
                                  r.choice(["", ", 2"]))
    if k < .54:
        return ".is_%stype(\"%s\")" % (r.choice(["", "not_"]),
                                       r.choice(["cow", "pig", "player"]))
    if k < .60:
        return ".all_players()"
    if k < .66:
        return ".is_%sname(\"%s\")" % (r.choice(["", "not_"]),
                                       r.choice(["bob", "al"]))
    if k < .72:
        return ".inside(%s, %s)" % (r.choice("pq"), r.choice(["1, 1, 1",
                                                              "2"]))
    if k < .80:
        return '.scores("o", %s)' % r.choice(['"1.."', '"..4"', '"2..3"',
                                             '"!2"', "3"])
    if k < .85:
        return ".is_%sgame_mode(\"%s\")" % (r.choice(["", "not_"]),
                                            r.choice(["creative", "survival"]))
    if k < .89:
        return ".rot_%s(%d, %d)" % (r.choice(["vertical", "horizontal"]),
                                    r.randint(-50, 0), r.randint(1, 60))
    if k < .93:
        return ".level(%s)" % r.choice(["3", "2, 9", "max=5", "min=1", "max=0",
                                    "0, 4", "max=7"])
    if k < .97:
        return '.has_item("%s"%s)' % (r.choice(["bow", "apple"]), r.choice(
            ["", ', "2.."', ", 3"]))
    return '.has_%spermission("camera")' % r.choice(["", "no_"])


def jobs(tier, seed):
    out = []

    def add(name, body):
        out.append(tv(name, body, world=W, K=3))
    for d in (ONE, BAD, PAIRS):
        for n, c in d.items():
            add(n, prog("Enfilter()" + c))
    for n, c in PAIRS.items():
        add("drop-" + n, prog("Enfilter()" + c, "drop"))
        add("filter-" + n, prog("Enfilter()" + c, "filter"))
    for n, b in EXTRA.items():
        add(n, b)
    # every operation after a choice, and every operation twice
    for n, c in ONE.items():
        for k, f in FIRST.items():
            add("%s %s" % (k, n), prog("Enfilter()" + f + c))
        add("same " + n, prog("Enfilter()" + c + c))
    for i in range(90 if tier == "quick" else 3000):
        g = rng(seed, "p19-%d" % i)
        c = "Enfilter()" + "".join(step(g) for _ in range(g.randint(2, 5)))
        add("gen%d" % i, prog(c, g.choice(["select", "drop", "filter"])))
    return out
