"""P30: world functions issue the documented command, at the right place, on
the right entities, with the values given."""
from .common import *

BOUNDS = ("every function of the world module with every kind of argument, "
          "over a world of the player and up to 3 entities whose existence, "
          "tags and distances are symbolic, symbolic integer arguments over "
          "all of int32; generated programs that "
          "mix up to 5 of these calls with branches, loops and functions")
OUTSIDE = ("what the issued command does in the game, except for tags and "
           "summoning; world queries at symbolic positions; symbolic float "
           "fractions")
ASSUMPTIONS = ass_arith([
    "entities stay alive and do not move during the run",
    "a command that names several entities acts on each of them",
    "block queries give one answer per place during a run"])

W = {"types": ["cow", "player"], "tags": ["red", "blue"], "objs": [],
     "mod": True}
HEAD = """import world
const p = Pos(1, 64, -2)
x := ExternEngroup()
x.select(Enfilter().has_tag("red"))
y := ExternEngroup()
y.select(Enfilter().all_players())
"""
CALLS = {
    # blocks
    "clone": "world.clone(p, Offset(1, 2, 3), Offset(-4, 0.5, 0))",
    "clone-sym": "world.clone(p, Offset(K0, 2, 3), Offset(y=K1, x_abs=K2))",
    "clone-mode": 'world.clone(p, Offset(1), Offset(2), "move")',
    "clone-force": 'world.clone(p, Offset(1), Offset(2), mode="force", '
                   "no_air=True)",
    "clone-none": "world.clone(p, Offset(1), Offset(2), None, False)",
    "clone-pos": "world.clone(Pos(K0, K1, K2).offset(y=K3), Offset(1), "
                 "Offset(2))",
    "clone-only": 'world.clone_only(p, Offset(1), Offset(2), "stone")',
    "clone-only-b": "world.clone_only(p, Offset(1), Offset(2), world.Block("
                    '"log", {"axis": "x", "n": K0, "on": True}), "move")',
    "fill": 'world.fill(p, Offset(K0, K1, K2), "stone")',
    "fill-rep": 'world.fill(p, Offset(3), "air", "hollow")',
    "fill-air": 'world.fill(p, Offset(3), "air", replacement="aironly")',
    "fill-all": 'world.fill(p, Offset(3), "air", "all")',
    "fill-destroy": 'world.fill(p, Offset(3), "air", "destroy")',
    "fill-outline": 'world.fill(p, Offset(3), "air", "outline")',
    "fill-replace": 'world.fill_replace(p, Offset(3), "air", "stone")',
    "fill-replace-b": 'world.fill_replace(p, Offset(3), world.Block("a", '
                      '{"k": False}), world.Block("b", {"k": "v", "m": 3}))',
    "setblock": 'world.setblock(p, "stone")',
    "setblock-sym": 'world.setblock(Pos(K0, K1, K2), world.Block("w", '
                    '{"n": K3}), "destroy")',
    "setblock-air": 'world.setblock(p, "stone", "aironly")',
    # entities
    "damage": "world.damage(x, K0)",
    "damage-cause": 'world.damage(x, 3, "fall")',
    "damage-by": 'world.damage(x, K0, "magic", e)',
    "damage-none": "world.damage(e, 3, None, None)",
    "effect": 'world.effect_give(x, "speed", K0)',
    "effect-amp": 'world.effect_give(e, "speed", K0, K1, False)',
    "effect-kw": 'world.effect_give(e, "speed", 9, particle=True, '
                 "amplifier=255)",
    "effect-clear": "world.effect_clear(x)",
    "enchant": 'world.enchant(x, "sharp")',
    "enchant-lv": 'world.enchant(x, "sharp", K0)',
    "event": 'world.event_entity(x, "ns:ev")',
    "kill": "world.kill(x)", "kill-e": "world.kill(e)",
    "me": 'world.msg_me(e, "hi there")',
    "say": 'world.msg_say(e, "hi there")',
    "tell": 'world.msg_tell(e, x, "hi there")',
    "item-block": 'world.replaceitem_block(p, K0, "apple")',
    "item-block-2": 'world.replaceitem_block(p, 3, world.Item("apple", K0), '
                    "K1, True)",
    "item-ent": 'world.replaceitem_entity(x, "slot.hotbar", K0, "apple", '
                "keep_old=True)",
    "item-ent-2": 'world.replaceitem_entity(e, "slot.hotbar", 1, world.Item('
                  '"bow", lock="lock_in_slot", keep_on_death=True), 7)',
    "ride": "world.ride_start_tp_ride(e, f)",
    "rider": "world.ride_start_tp_rider(x, e)",
    "rider-fill": 'world.ride_start_tp_rider(x, e, "if_group_fits")',
    "ride-stop": "world.ride_stop(x)", "ride-evict":
    "world.ride_evict_riders(e)",
    "summon-rider": 'world.summon_rider(x, "cow")',
    "summon-rider-n": 'world.summon_rider(x, "cow", "ev", "my cow")',
    "summon-rider-nm": 'world.summon_rider(e, "cow", name="bob")',
    "summon-ride": 'world.summon_ride(x, "pig", "ev", "bob")',
    "summon-ride-m": 'world.summon_ride(e, "pig", name="a b", '
                     'mode="skip_riders")',
    "spread": "world.spread(x, p, K0, K1)",
    "spread-f": "world.spread(x, p, 5.5, 0.25)",
    "spread-d": "world.spread(e, p, 5)",
    "summon": 'world.summon("cow", p)',
    "summon-n": 'world.summon("cow", p, name="my cow", event="ev")',
    "summon-pos": 'world.summon("pig", Pos(K0, K1, K2).offset(z=K3), "ev")',
    "summon-rot": 'world.summon("cow", p, rot=Rot(K0, K1))',
    "summon-dim": 'world.summon("cow", p.dim("nether"), "ev")',
    "tag-add": 'world.tag_add(x, "blue")',
    "tag-add-e": 'world.tag_add(e, "blue")',
    "tag-remove": 'world.tag_remove(x, "red")',
    "tag-remove-y": 'world.tag_remove(y, "red")',
    "tp": "world.tp(x, p)", "tp-chk": "world.tp(e, Pos(K0, 1.5, K1), True)",
    "tp-ent": "world.tp(x, Pos(e).offset(y=K0), check_for_blocks=False)",
    "rotate": "world.rotate(x, Rot(K0, K1))",
    "rotate-e": "world.rotate(e, Rot(1.5, 2).offset(K0))",
    "rotate-face": "world.rotate(x, Rot.face_entity(e))",
    "rotate-as": "world.rotate(x, Rot(e))",
    "move": "world.move(x, y=K0)", "move-f": "world.move(e, 1.5, -2, 0.25)",
    "move-chk": "world.move(x, K0, K1, K2, True)",
    "move-local": "world.move_local(x, front=K0)",
    "move-local-f": "world.move_local(e, 1.5, -2, 0.25, "
                    "check_for_blocks=True)",
    # players
    "clear-inv": "world.clear_inventory(y)",
    "clear": 'world.clear(y, "apple")',
    "clear-n": 'world.clear(y, "apple", K0, K1)',
    "clear-max": 'world.clear(y, "apple", max_count=K0)',
    "spawn-clear": "world.spawnpoint_clear(y)",
    "gamemode": 'world.gamemode(y, "creative")',
    "gamemode-d": 'world.gamemode(y, "default")',
    "give": 'world.give(y, "apple")',
    "give-n": 'world.give(y, "apple", K0)',
    "give-item": 'world.give(y, world.Item("bow", K0), amount=K1)',
    "give-comp": 'world.give(y, world.Item("pick", 2, True, {"dirt", "a:b"},'
                 ' {"stone"}, "lock_in_inventory"))',
    "give-comp-2": 'world.give(y, world.Item("pick", can_place_on={"s"}))',
    "kick": 'world.kick("Bob")', "kick-why": 'world.kick("a b", "bad luck")',
    "kick-none": 'world.kick("Bob", None)',
    "recipe": 'world.recipe(y, "r:one", True)',
    "recipe-take": 'world.recipe(y, "*", False)',
    "spawnpoint": "world.spawnpoint_set(y, p)",
    "spawnpoint-s": "world.spawnpoint_set(y, Pos(K0, K1, K2))",
    "xp-levels": "world.xp_add_levels(y, K0)",
    "xp-points": "world.xp_add_points(y, K0)",
    # a group of any kind where players are asked for
    "give-any": 'world.give(x, "apple")', "give-ent": 'world.give(e, "a")',
    "clear-any": "world.clear_inventory(x)",
    "xp-any": "world.xp_add_levels(x, K0)",
    "ability": 'world.ability(y, "mayfly", True)',
}
# questions about the world
ASK = {
    "block": 'world.is_block(p, "stone")',
    "block-b": 'world.is_block(Pos(e), world.Block("a", {"k": True}))',
    "block-dim": 'world.is_block(p.dim("nether").offset(y=1), "stone")',
    "area": "world.is_same_area(p, Offset(1, 2, 3), Offset(-4, 0.5))",
    "area-air": "world.is_same_area(p, Offset(1), Offset(y_abs=3), True)",
    "area-noair": "world.is_same_area(p, Offset(1), Offset(2), "
                  "ignore_air=False)",
    "entity": 'world.is_entity(e, Enfilter().has_tag("blue"))',
    "entity-type": 'world.is_entity(e, Enfilter().is_type("cow"))',
    "entity-no": 'world.is_entity(e, Enfilter().has_no_tag("blue", "red"))',
    "entity-all": "world.is_entity(e, Enfilter())",
    "entity-near": "world.is_entity(e, Enfilter().nearest_from(p))",
    "entity-two": 'world.is_entity(e, Enfilter().is_type("cow")'
                  ".nearest_from(p).has_tag(\"blue\"))",
    "entity-rand": 'world.is_entity(e, Enfilter().random("cow"))',
}
USE = {
    "if": "if %s:\n    /say yes\nelse:\n    /say no\n",
    "not": "if not %s:\n    /say no\n",
    "var": "v := %s\nif v:\n    /say yes\n",
    "and": "if a > 0 and %s:\n    /say yes\n",
    "or": "if %s or a > 0:\n    /say yes\n",
    "int": "r = int(%s)\n",
    "arg": "def g(v: bool):\n    if v:\n        /say yes\ng(%s)\n",
    "set": "v := True\nv = %s\nif v:\n    /say yes\n",
    "result": "inline def g() -> bool:\n    result %s\nif g():\n"
              "    /say yes\n",
    "two": "if %s:\n    /say one\nif %s:\n    /say two\n",
    "both": "if %s and %s:\n    /say both\n",
    "while": "i := 0\nwhile i < 2 and %s:\n    i += 1\n    /say more\n",
}
# one constant used by several calls
CALLS.update({
    "one-item": 'const it = world.Item("bow", 3)\nworld.give(y, it, 2)\n'
                'world.give(y, it, 7)\nworld.replaceitem_block(p, 1, it, 5)\n'
                'world.replaceitem_entity(e, "slot.hotbar", 2, it, 4)',
    "one-item-k": 'const it = world.Item("bow", K0, True, {"dirt"})\n'
                  "world.replaceitem_block(p, K1, it, K2)\n"
                  "world.give(y, it, K3)\n"
                  'world.replaceitem_entity(x, "slot.chest", 0, it)',
    "one-block": 'const bl = world.Block("log", {"n": 7})\n'
                 "world.setblock(p, bl)\nworld.fill(p, Offset(K1), bl)\n"
                 "world.fill_replace(p, Offset(2), bl, bl)\n"
                 "world.clone_only(p, Offset(1), Offset(K2), bl)\n"
                 'world.setblock(Pos(e), bl, "destroy")\n'
                 "if world.is_block(p, bl):\n    world.setblock(p, bl)",
    "one-pos": "const q = Pos(K0, 2, K1).offset(y=K2)\n"
               'world.setblock(q, "b")\nworld.tp(x, q)\n'
               'world.setblock(q.offset(x=K3), "c")\nworld.tp(e, q)\n'
               'world.setblock(q.offset(x=1).offset(x=K3), "d")\n'
               'world.setblock(q, "e")\nworld.summon("pig", q)',
    "one-off": "const o = Offset(K0, 2, K1)\n"
               'world.fill(p, o, "b")\nworld.clone(p, o, o)\n'
               'world.fill(p.offset(y=1), o, "c")\n'
               'world.fill(Pos(e), o, "d", "hollow")',
    "one-tag": 'const t = "red"\nworld.tag_add(e, t)\n'
               "world.tag_remove(x, t)\nworld.tag_add(y, t)",
})
BAD = {
    "damage-neg": "world.damage(x, -1)",
    "damage-nocause": "world.damage(x, 1, damager=e)",
    "effect-amp": 'world.effect_give(x, "s", 1, 256)',
    "enchant": 'world.enchant(x, "s", 0)',
    "fill": 'world.fill(p, Offset(3), "air", "keep")',
    "clone-mode": 'world.clone(p, Offset(1), Offset(2), "normal")',
    "give-0": 'world.give(y, "apple", 0)',
    "give-big": 'world.give(y, "apple", 32768)',
    "give-var": 'world.give(y, "apple", a)',
    "item-data": 'world.give(y, world.Item("apple", 32768))',
    "item-lock": 'world.give(y, world.Item("apple", lock="x"))',
    "item-type": "world.give(y, 3)", "gamemode": 'world.gamemode(y, "god")',
    "ability": 'world.ability(y, "mayfly", 1)',
    "spread": "world.spread(x, p, 0.5)", "spread-i":
    "world.spread(x, p, 2, 1.5)", "spread-n": "world.spread(x, p, 2, -1)",
    "kill": "world.kill(3)", "kill-none": "world.kill(None)",
    "tp": "world.tp(x, Offset(1))", "rotate": "world.rotate(x, p)",
    "msg": 'world.msg_say(x, "group")', "is-entity":
    "r = int(world.is_entity(x, Enfilter()))",
    "unknown": "world.nothing()", "missing": "world.give(y)",
    "twice": 'world.give(y, "a", player=y)', "rider": "world."
    'ride_start_tp_rider(x, e, "all")', "summon-mode":
    'world.summon_ride(x, "pig", mode="x")', "block-key":
    'world.setblock(p, world.Block("a", {1: 2}))', "block-none":
    'world.setblock(p, world.Block("a", {"k": None}))', "is-block":
    "world.is_block(p)", "recipe": 'world.recipe(y, "r", 1)',
}
END = ("for m in x:\n    /say in ${m}\n"
       "for m in y:\n    if world.is_entity(m, Enfilter().has_tag(\"blue\")):"
       "\n        /say blue ${m}\n")


def wrap(body):
    """e (and f) are the members of groups"""
    out = HEAD
    pad = ""
    for v, g in (("e", "x"), ("f", "y")):
        if any(c in body for c in ("(%s," % v, "(%s)" % v, " %s," % v,
                                   " %s)" % v)):
            out += "%sfor %s in %s:\n" % (pad, v, g)
            pad += "    "
    return out + "".join(pad + l + "\n" for l in body.rstrip("\n").split("\n"))


def case(name, body, **k):
    import re
    out = tv(name, wrap(body) + k.pop("end", ""), world=dict(
        W, **k.pop("world", {})), **k)
    return out


def arg(g, kind):
    return {"sel": lambda: g.choice(["x", "y", "e", "e"]),
            "int": lambda: "K%d" % g.randrange(3),
            "pos": lambda: g.choice(["p", "Pos(e)", "Pos(K0, 2, K1)",
                                     "p.offset(y=K1)", 'p.dim("nether")']),
            "tag": lambda: g.choice(['"red"', '"blue"'])}[kind]()


SHARED = """const it = world.Item("bow", 3)
const bl = world.Block("log", {"n": 4, "on": True})
const o = Offset(1, 2, 3)
"""


def call(g):
    k = g.randrange(11)
    if k == 7:
        return "world.give(%s, it, %s)" % (arg(g, "sel"), arg(g, "int"))
    if k == 8:
        return "world.replaceitem_block(%s, %s, it, %s)" % (
            arg(g, "pos"), arg(g, "int"), arg(g, "int"))
    if k == 9:
        return "world.setblock(%s, bl)" % arg(g, "pos")
    if k == 10:
        return "world.fill(%s, o, %s)" % (arg(g, "pos"),
                                          g.choice(["bl", '"b"']))
    if k == 0:
        return "world.tag_%s(%s, %s)" % (g.choice(["add", "remove"]),
                                         arg(g, "sel"), arg(g, "tag"))
    if k == 1:
        return "world.tp(%s, %s)" % (arg(g, "sel"), arg(g, "pos"))
    if k == 2:
        return 'world.effect_give(%s, "e", 3, 1)' % arg(g, "sel")
    if k == 3:
        return 'world.setblock(%s, "b")' % arg(g, "pos")
    if k == 4:
        return "world.ride_start_tp_rider(%s, e)" % arg(g, "sel")
    if k == 5:
        return 'world.summon("cow", p)'
    return "world.kill(%s)" % arg(g, "sel")


def program(g):
    out = ""
    for _ in range(g.randint(2, 4)):
        c = call(g)
        q = g.random()
        if q < .35:
            cond = "world.is_entity(e, Enfilter().%s)" % g.choice(
                ['has_tag("red")', 'has_tag("blue")', 'has_no_tag("blue")',
                 'is_type("cow")', 'is_type("cow").nearest_from(p)'])
            if g.random() < .3:
                cond = "not " + cond
            out += "if %s:\n    %s\n" % (cond, c)
            if g.random() < .4:
                out += "else:\n    %s\n" % call(g)
        elif q < .5:
            out += "if a > 0:\n    %s\n" % c
        elif q < .6:
            out += "x.select(Enfilter().has_tag(\"blue\"))\n" + c + "\n"
        else:
            out += c + "\n"
    # everything happens once per member of y
    return (SHARED if "it," in out or "bl" in out or "o," in out else "") + (
        "for e in y:\n" + "".join("    " + l + "\n" for l in
                                      out.split("\n") if l))


def jobs(tier, seed):
    out = []
    for n, c in CALLS.items():
        k = {}
        if n == "ability":
            k["cfg"] = {"education_edition": True}
        if n.startswith("tag"):
            k["end"] = "x.clear()\nx.select(Enfilter().has_tag(\"red\"))\n" \
                + END
        out.append(case(n, c, **k))
    for n, c in BAD.items():
        k = {}
        if n == "ability":
            k["cfg"] = {"education_edition": True}
        out.append(case("bad-" + n, c, **k))
    out.append(case("bad-edu", CALLS["ability"]))
    for n, q in ASK.items():
        for u, t in USE.items():
            if tier == "quick" and u not in ("if", "not", "var", "two") and \
                    n not in ("block", "entity", "entity-near"):
                continue
            if u == "two" and "rand" in n:
                continue
            out.append(case("ask-%s-%s" % (n, u), t.replace("%s", q)))
    # the answer follows the tags
    q = 'world.is_entity(e, Enfilter().has_tag("blue"))'
    for i, body in enumerate((
            "if %s:\n    world.tag_remove(e, \"blue\")\nelse:\n"
            "    world.tag_add(e, \"blue\")\nif %s:\n    /say on ${e}\n",
            "world.tag_add(x, \"blue\")\nif %s:\n    /say on ${e}\n",
            "v := %s\nworld.tag_remove(e, \"blue\")\nif v:\n    /say was\n"
            "if not %s:\n    /say gone\n",
            "def g():\n    if %s:\n        /say g\ng()\n"
            "world.tag_add(e, \"blue\")\ng()\n",
            "inline def g(&w) -> bool:\n    result world.is_entity("
            "w, Enfilter().has_tag(\"blue\"))\nif g(e):\n    world.tag_add("
            "y, \"blue\")\n")):
        out.append(case("follow-%d" % i, body.replace("%s", q)))
    g = rng(seed, "p30")
    for i in range(200 if tier == "quick" else 6000):
        out.append(tv("gen-%d" % i, HEAD + program(g) + END, world=W))
    return out
