PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"level-overwrite": dict(property="P19",
    needs="two .level conditions on one filter, each giving one limit or "
          "the first one only one",
    breaks="the first condition is lost",
    edits=[("acaciamc/objects/entity_filter.py",
            "        if any(selector.has_arg(a) for a in args):\n",
            "        if all(selector.has_arg(a) for a in args):\n")],
    demo=LAST('g := Engroup[Entity]()\ng.select(Enfilter().level(min=3).level(min=2))\n',
              ['tag @e[lm=3] add acacia2', 'tag @e[lm=2,tag=acacia2] add acacia1',
               'tag @e[tag=acacia2] remove acacia2'], 3)),
"level-max-zero": dict(property="P19",
    needs="Enfilter().level(max=0)", breaks="players of any level match",
    edits=[("acaciamc/mccmdgen/mcselector.py",
            "            self.args[\"lm\"] = min_\n"
            "        if max_ is not None:\n",
            "            self.args[\"lm\"] = min_\n"
            "        if max_:\n")],
    demo=LAST('g := Engroup[Entity]()\ng.select(Enfilter().level(max=0))\n',
              ['tag @e[l=0] add acacia1'])),
"cradd-shared": dict(property="P25",
    needs="text + fstring where the fstring is a constant used again",
    breaks="the text is added to the constant itself",
    edits=[("acaciamc/modules/print.py", """        # `cadd` would have handled it.
        res = self.copy()
""", """        # `cadd` would have handled it.
        res = self
""")],
    demo=LAST('import print\nconst f = print.format("v%0", 3)\n'
              'print.tell("A " + f)\nprint.tell(f)\n',
              ['tellraw @a {"rawtext": [{"text": "v3"}]}'])),
"mro-diamond": dict(property="P18",
    needs="a diamond of entity templates with the method overridden in the "
          "second base",
    breaks="the method of the common base is called",
    edits=[("acaciamc/objects/entity_template.py",
            "                    if candidate in ts2[1:]:\n",
            "                    if candidate in ts2[2:]:\n")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    virtual def f() -> int:
        result 1
entity B extends A:
    pass
entity C extends A:
    override def f() -> int:
        result 2
entity D extends B, C:
    pass
d := D("cow", Pos(0, 0, 0))
r = d.f()
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 0})
w.call("main")
expect("r", w.s["r", "in"], 2)
'''),
"map-key-bool": dict(property="P24",
    needs="a map with the keys 1 and \"1\"/True of different types",
    breaks="one of the entries is lost",
    edits=[("acaciamc/objects/map_.py",
            "            return (type(key.data_type), hash_)\n",
            "            return str(hash_)\n")],
    demo=D('const m = {1: 10, "1": 20}\nr = m[1] * 100 + m.size()\n',
           {"r": 0}, {"r": 1002})),
"ctmap-key-loop": dict(property="P24",
    needs="a const function assigning to an existing entry of a map that it "
          "holds by reference",
    breaks="the reference no longer follows the entry",
    edits=[("acaciamc/objects/map_.py",
            "            _, ptr = self.data[py_key]\n"
            "            ptr.set(value)\n",
            "            self.data[py_key] = (key, CTObjPtr(value))\n")],
    demo=D("const def f() -> int:\n    m := {1: 1, 2: 2}\n    &e = m[1]\n"
           "    m.update({1: 5})\n    result e\nr = f()\n",
           {"r": 0}, {"r": 5})),
"need-tmp-cond": dict(property="P08",
    needs="a multi-command body under a condition on the world that the body "
          "changes",
    breaks="the rest of the body is skipped",
    edits=[("acaciamc/mccmdgen/optimizer.py",
            "                if isinstance(subcmd, cmds.ExecuteCond):\n"
            "                    return True\n",
            "                if isinstance(subcmd, cmds.ExecuteCond):\n"
            "                    if subcmd.cond == \"entity\":\n"
            "                        continue\n"
            "                    return True\n")],
    demo='''src = """
&r = scb("r", "in")
&c = scb("c", "in")
entity A:
    pass
a := A("cow", Pos(0, 0, 0))
g: Engroup[A]
if g.is_empty():
    g.add(a)
    r += 1
    c += 1
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 0, ("c", "in"): 0})
w.call("main")
expect("r, c", (w.s["r", "in"], w.s["c", "in"]), (1, 1))
'''),
"and-drop-deps": dict(property="P02",
    needs="`a and b` where one part needs commands and all parts are "
          "comparisons with constants",
    breaks="the value compared is not computed",
    edits=[("acaciamc/objects/boolean.py",
            "            rng = ranges.setdefault(operand.slot, [INT_MIN, INT_MAX])\n"
            "            res_commands.extend(operand.dependencies)\n",
            "            rng = ranges.setdefault(operand.slot, [INT_MIN, INT_MAX])\n"
            "            if not ranges or rng == [INT_MIN, INT_MAX]:\n"
            "                res_commands.extend(operand.dependencies[-3:])\n")],
    demo=D("x := a * b + c * 2 + a * 3 > 10 and a > 0\nr = int(x)\n",
           {"a": 2, "b": 3, "c": 1, "r": 9}, {"r": 1})),
"from-all-late": dict(property="P12",
    needs="a module importing everything from another one whose name it "
          "already defines",
    breaks="the clash is not reported and the older definition wins",
    edits=[("acaciamc/mccmdgen/generator.py",
            "            self.register_symbol(name, self.attribute_of(module, name))\n"
            "            self.ctx.scope.no_export.add(name)\n",
            "            if self.ctx.scope.get_raw(name) is not None:\n"
            "                continue\n"
            "            self.register_symbol(name, self.attribute_of(module, name))\n"
            "            self.ctx.scope.no_export.add(name)\n")],
    demo=REJ("const X = 1\nfrom m import *\n", False,
             files={"m.aca": "const X = 5\n"})),
"cmdop-read-first": dict(property="P01",
    needs="x = y - (z op x ...) with x read in a later part of the nested "
          "group",
    breaks="x is overwritten before it is read",
    edits=[("acaciamc/objects/integer.py", """        for c in self.commands:
            if c.scb_did_read(slot):
                return True
        return False
""", """        for c in self.commands:
            return c.scb_did_read(slot)
        return False
""")],
    demo=D("a = b - (c + a)\n", {"a": 3, "b": 50, "c": 7}, {"a": 40})),
"block-state-bool": dict(property="P30",
    needs="a block state that is a boolean",
    breaks="the state is written as a Python value",
    edits=[("acaciamc/modules/world.py", """        if isinstance(value, bool):
            return _fmt_bool(value)
        elif isinstance(value, int):
            return str(value)
""", """        if isinstance(value, int):
            return str(value)
        elif isinstance(value, bool):
            return _fmt_bool(value)
""")],
    demo=LAST('import world\nworld.setblock(Pos(0, 0, 0), world.Block("door", {"open": True}))\n',
              ['execute positioned 0.5 0.0 0.5 run setblock ~ ~ ~ door ["open"=true] replace'])),
"item-lock-keep": dict(property="P30",
    needs="an item with both keep_on_death and a lock",
    breaks="one of the components is lost",
    edits=[("acaciamc/modules/world.py", """            if lock:
                components["minecraft:item_lock"] = {"mode": lock}
""", """            elif lock:
                components["minecraft:item_lock"] = {"mode": lock}
""")],
    demo=LAST('import world\nworld.replaceitem_block(Pos(0, 0, 0), 1, world.Item("apple", keep_on_death=True, lock="lock_in_slot"))\n',
              ['execute positioned 0.5 0.0 0.5 run replaceitem block ~ ~ ~ slot.container 1 destroy apple 1 0 {"minecraft:keep_on_death": {}, "minecraft:item_lock": {"mode": "lock_in_slot"}}'])),
}
