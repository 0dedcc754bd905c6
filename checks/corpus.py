"""Programs that exercise the whole language and library."""
import os
from .common import PRE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENT = """entity T:
    n: int
    ok: bool
    def bump(k: int) -> int:
        self.n += k
        result self.n
    virtual def speak(k: int) -> int:
        /say T ${1}
        result k
entity U extends T:
    override def speak(k: int) -> int:
        /say U
        result k + self.n
    static def make() -> int:
        result 5
"""
G = """g := Engroup[T]()
h := Engroup[T]()
"""

# snippets: name -> (source, options)
LIB = {
    "entity-new": ENT + "x := T(\"cow\", Pos(K0, 1, 2))\nx.n = K1\n"
                        "x.ok = a > b\nr = x.n\n",
    "entity-assign": ENT + "x := T(\"cow\", Pos(0, 0, 0))\ny := x\n"
                           "y.n += K0\nx = y\nr = x.bump(K1)\n",
    "entity-virtual": ENT + "x := T(\"cow\", Pos(0, 0, 0))\n"
                            "y := U(\"pig\", Pos(0, 0, 0))\nx = y\n"
                            "r = x.speak(K0)\ns = y.speak(K1) + U.make()\n",
    "entity-if": ENT + "x := T(\"cow\", Pos(0, 0, 0))\nif a > K0:\n"
                       "    y := U(\"pig\", Pos(x))\n    x = y\n"
                       "    x.n = 3\n",
    "entity-new-method": "entity W:\n    n: int\n    new(k: int):\n"
                         "        new(type=\"cow\", pos=Pos(1, 2, 3), "
                         "name=\"a b\")\n        self.n = k\n"
                         "entity X extends W:\n    new():\n"
                         "        W.new(K0)\n        self.n += 1\n"
                         "w := X()\nr = w.n\n",
    "group": ENT + G + "g.select(Enfilter().has_tag(\"k\").is_type(\"cow\"))\n"
             "h = g\nh.remove(T(\"cow\", Pos(0, 0, 0)))\n"
             "r = g.size()\ns = int(g.is_empty())\n",
    "group-for": ENT + G + "for e in g:\n    e.n += K0\n    r += e.n\n"
                 "    if e.n > a:\n        g.remove(e)\n",
    "group-ops": ENT + G + "g += h\ng -= h\ng.intersect(h).drop(Enfilter()"
                 ".has_tag(\"q\")).filter(Enfilter().is_type(\"cow\"))\n"
                 "k := g.copy()\nr = k.size()\nx := T(\"cow\", Pos(0, 0, 0))"
                 "\nif k.has(x) and not g.is_empty():\n    s = 1\n"
                 "k.to_single().n = K0\nswap(g, k)\n",
    "extern": ENT + "g := ExternEngroup()\ng.select(Enfilter()"
              ".is_type(\"cow\"))\nh := g.resolve(T)\nfor e in h:\n"
              "    e.n = K0\n    r = e.speak(K1)\n",
    "filter": ENT + G + "g.select(Enfilter().has_tag(\"a b\", \"c\")"
              ".has_no_tag(\"d\").is_not_type(\"cow\", \"pig\")"
              ".distance_from(Pos(K0, 1, 2), min=1, max=5)"
              ".scores(\"in\", K1).is_name(\"x y\").level(1, K2))\n",
    "filter2": ENT + G + "g.select(Enfilter().nearest_from(Pos(0, 0, 0), 3)"
               ".random(\"cow\", 2).distance_from(Pos(1, 1, 1), max=3))\n"
               "h.select(Enfilter().all_players().random(limit=2))\n"
               "h.select(Enfilter().is_game_mode(\"survival\")"
               ".farthest_from(Pos(0, 0, 0), limit=4))\n",
    "filter3": ENT + G + "g.select(Enfilter().rot_vertical(-10, 10)"
               ".rot_horizontal(1, 2).inside(Pos(0, 0, 0), 1, 2, 3)"
               ".inside(Pos(4, 4, 4), 1)"
               ".has_item(\"apple\", \"1..3\").has_item(\"stick\", 2, "
               "slot_type=\"slot.weapon\", slot_num=0))\n",
    "filter-perm": ENT + G + "g.select(Enfilter().has_permission(\"camera\")"
                   ".has_no_permission(\"movement\")"
                   ".is_not_game_mode(\"creative\"))\n",
    "filter-scores": ENT + G + "g.select(Enfilter().scores(\"in\", \"1..5\")"
                     ".scores(\"o p\", \"..3\").scores(\"in\", \"7\"))\n",
    "pos": "import world\nconst p = Pos(K0, 2, 3).offset(y=1).dim(\"nether\")"
           ".align(\"xz\").local(Rot(90, 0), front=3).abs(x=K1)\n"
           "world.setblock(p, \"stone\")\n",
    "pos-ent": ENT + "import world\nx := T(\"cow\", Pos(0, 0, 0))\n"
               "world.setblock(Pos(x, \"eyes\").local(Rot(x), 1, 2, 3), "
               "\"stone\")\nworld.tp(x, Pos(x).apply(Offset(1, 2, 3)))\n"
               "world.rotate(x, Rot.face_entity(x, \"eyes\").offset(1))\n",
    "pos-abs": "import world\nworld.fill(AbsPos(1, 2, 3).offset(x=1), "
               "AbsPos(4, 5, 6), \"air\")\nworld.clone(Pos(1, 2, 3), "
               "Offset(1, 2, 3), Offset(x_abs=1, y=2), \"move\", True)\n",
    "pos-local": "import world\nworld.fill(Pos(0, 0, 0), "
                 "Offset.local(1, 2, 3), \"air\")\n",
    "world": ENT + "import world\nx := T(\"cow\", Pos(0, 0, 0))\n"
             "world.damage(x, 3, \"fire\")\n"
             "world.effect_give(x, \"speed\", 10, 1, False)\n"
             "world.effect_clear(x)\nworld.enchant(x, \"sharp\", 2)\n"
             "world.event_entity(x, \"e:f\")\nworld.msg_say(x, \"hi\")\n"
             "world.msg_me(x, \"hi\")\nworld.tag_add(x, \"a b\")\n"
             "world.tag_remove(x, \"a\")\nworld.move(x, 1.5, y=-2)\n"
             "world.move_local(x, front=3)\nworld.kill(x)\n"
             "world.spread(x, Pos(0, 0, 0), 10, 2)\n",
    "world-if": ENT + "import world\nx := T(\"cow\", Pos(0, 0, 0))\n"
                "if world.is_block(Pos(0, 0, 0), world.Block(\"a\", "
                "{\"b\": \"c\", \"d\": 1, \"e\": True})) and a > K0:\n"
                "    r = 1\nif not world.is_entity(x, Enfilter()"
                ".is_type(\"cow\").has_tag(\"z\")):\n    r = 2\n"
                "s = int(world.is_same_area(Pos(0, 0, 0), Offset(1, 1, 1), "
                "Offset(5, 5, 5), True))\n",
    "world-item": ENT + "import world\nplayer := Engroup[Entity]()\n"
                  "world.replaceitem_block(Pos(0, 0, 0), 3, world.Item("
                  "\"sword\", 5, True, {\"a\"}, {\"b\", \"c\"}, "
                  "\"lock_in_slot\"), 2, True)\n"
                  "for p in player:\n    world.kill(p)\n",
    "world-num": ENT + "import world\nx := T(\"cow\", Pos(0, 0, 0))\n"
                 "world.damage(x, K0)\nworld.effect_give(x, \"a\", K1, K2)\n"
                 "world.enchant(x, \"e\", K0)\n",
    "summon": "import world\nworld.summon(\"cow\", Pos(0, 0, 0))\n"
              "world.summon(\"cow\", Pos(0, 0, 0), \"ev\", \"na me\")\n"
              "world.summon(\"cow\", Pos(0, 0, 0), rot=Rot(1, 2))\n",
    "ride": ENT + "import world\nx := T(\"cow\", Pos(0, 0, 0))\n"
            "y := T(\"pig\", Pos(0, 0, 0))\nworld.ride_start_tp_ride(x, y)\n"
            "world.ride_start_tp_rider(x, y)\nworld.ride_stop(x)\n"
            "world.ride_evict_riders(y)\nworld.summon_rider(y, \"bat\")\n"
            "world.summon_ride(x, \"bat\", name=\"q\")\n",
    "print": "import print\nprint.tell(print.format(\"a%0b%1%%{q}\", a, "
             "a > b))\nprint.title(\"x\\\"y\\\\z\", stay_time=K0)\n"
             "print.title(print.format(\"%{q}\", q=a * b + K1), "
             "mode=print.ACTIONBAR)\nprint.title_clear()\n"
             "print.tell(print.with_font(print.format(\"%0\", r), \"red\", "
             "bold=True) + \"z\" + print.translate(\"k.l\"))\n",
    "print-names": "import print\nprint.tell(\"{}[]@a,=~^ %% \\\"\")\n"
                   "print.tell(print.format(\"\\u00e9%0\", 3))\n",
    "math": "import math\nr = math.pow(a, 5)\ns = math.pow(a, b)\n"
            "r = math.min(a, b, K0) + math.max(K1, c)\n"
            "s = math.mod(a, K2)\nr += math.floordiv(K0, b)\n"
            "s = math.max(K0, K1)\n",
    "randint": "import math\nr = math.randint(K0, K1)\n",
    "schedule": "import schedule\ndef f(n: int):\n    r += n\n"
                "schedule.register_loop(f, interval=K0, n=K1)\n"
                "const t = schedule.Task(f, n=3)\nt.after(K2)\nt.cancel()\n"
                "if t.has_schedule():\n    s = 1\n",
    "schedule2": "import schedule\ndef f(n: int):\n    r += n\n"
                 "const t = schedule.Task(f, a)\nt.on_area_loaded("
                 "Pos(0, 0, 0), Offset(1, 2, 3))\nt.on_circle_loaded("
                 "Pos(0, 0, 0), K0)\nt.on_tickingarea(\"x\")\n"
                 "schedule.register_loop(f, a + b, n=a * 2)\n",
    "music": None,
    "iface": "def f(n: int) -> int:\n    result n * 2\ninterface x/y:\n"
             "    r = f(a)\n    while r > K0:\n        r -= 1\n"
             "interface z:\n    z := K1\n    s = z + f(K1)\n",
    "struct": "struct S:\n    x: int\n    y: bool\nstruct V extends S:\n"
              "    z: int\nv := V(x=K0, y=a > K1, z=b)\nw := v\n"
              "def f(v: V) -> S:\n    result v\nt := f(w)\nr = t.x + w.z\n",
    "scb": ENT + "x := T(\"cow\", Pos(0, 0, 0))\n"
           "scb(x, \"in\") = K0\nscb(\"@a[tag=q]\", \"in\") += a\n"
           "scb(\"so me\", \"in\") = scb(x, \"in\") + b\n",
    "raw": "/execute as @a run say ${K0} ${\"x\"}\n/*\ntellraw @a "
           "{\"rawtext\":[{\"text\":\"a\"}]}\n*/\n/gamerule x true\n",
    "bools": "x := a > K0\ny: bool\ny = not x or b == K1\nz := x == y\n"
             "if x != (y and z):\n    r = int(z)\n",
    "minmax": "r = int.MAX - a\nif a > int.MAX or b < int.MIN:\n    r = 1\n"
              "if K0 < a and a < K1 and a != 5:\n    s = 1\n"
              "if not (K0 <= a <= K1):\n    s = 2\n",
    "ct": "const def f(n: int) -> list:\n    x := {}\n    i := 0\n"
          "    while i < n:\n        x.append(i * K0)\n        i += 1\n"
          "    result x\nfor i in f(4):\n    r += i\nconst m = {1: 2, \"a\": "
          "K1}\nr += m[\"a\"]\n",
    "inline": "inline def f(&x: int, const k, z=3) -> &int:\n    x += k + z\n"
              "    result x\n&q = f(a, K0)\nq += 1\n",
}

OPTS = {
    "entity-if": {}, "schedule": {"tick": True}, "schedule2": {"tick": True},
    "iface": {"ifaces": ["x/y", "z"]},
    "minmax": {}, "randint": {},
    "schedule2-": {},
}


def programs():
    """name -> (main, options)"""
    out = {}
    for n, s in LIB.items():
        if s is None:
            continue
        o = dict(OPTS.get(n, {}))
        o.setdefault("tick", False)
        out[n] = (PRE + s, o)
    for n in ("fibonacci", "prime", "numguess", "maze", "tetris"):
        with open(os.path.join(HERE, "programs", n + ".aca"),
                  encoding="utf-8") as f:
            s = f.read()
        o = {"tick": n in ("numguess", "tetris", "maze"),
             "objectives": ["numguess"], "valid": True}
        o["ifaces"] = IFACES[n]
        out["demo-" + n] = (s, o)
    return out


IFACES = {"fibonacci": [], "prime": [], "maze": ["start", "stop"],
          "numguess": ["input", "delete", "commit", "start"],
          "tetris": ["start", "game_over"]}
