PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"align-replace": dict(property="P20",
    needs="two alignments of one position in a row",
    breaks="the first alignment is lost",
    edits=[("acaciamc/objects/position.py",
            '            self.context.append(cmds.ExecuteEnv("align", axis))\n',
            '            last = self.context[-1]\n'
            '            if isinstance(last, cmds.ExecuteEnv) and last.cmd == "align":\n'
            '                self.context.pop()\n'
            '            self.context.append(cmds.ExecuteEnv("align", axis))\n')],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().nearest_from(Pos(1.5, 2.5, 3.5).align("x").align("z")))\n',
              ["execute positioned 1.5 2.5 3.5 align x align z run tag @e[c=1] add acacia1"])),
"local-two": dict(property="P20",
    needs="two axes of a local offset made absolute",
    breaks="an offset with one local axis is accepted",
    edits=[("acaciamc/objects/position_offset.py",
            "        if 0 < self.value_types.count(CoordinateType.LOCAL) < 3:\n",
            "        if self.value_types.count(CoordinateType.LOCAL) == 2:\n")],
    demo=REJ('const x = Offset.local(1, 2, 3).abs(x=1, y=2)\n', False)
       + REJ('const x = Offset.local(1, 2, 3).abs(x=1)\n', False)),
"filter-nottype-late": dict(property="P19",
    needs="is_not_type after random, nearest_from or farthest_from",
    breaks="the condition is applied before the choice",
    edits=[("acaciamc/objects/entity_filter.py",
            "            selector = self.last_selector(compiler)\n            selector.type_n(*types)\n",
            "            selector = self.data[-1].selector\n            selector.type_n(*types)\n")],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().nearest_from(Pos(0, 0, 0)).is_not_type("cow"))\n',
              ["execute positioned 0.5 0.0 0.5 run tag @e[c=1] add acacia2",
               "tag @e[type=!cow,tag=acacia2] add acacia1",
               "tag @e[tag=acacia2] remove acacia2"], 3)),
"float-rdiv": dict(property="P07",
    needs="an int divided by a float",
    breaks="the quotient is inverted",
    edits=[("acaciamc/objects/float_.py",
            'method="__rtruediv__"', 'method="__truediv__"')],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().nearest_from(Pos(1 / 2.0, 0.0, 4.0)))\n',
              ["execute positioned 0.5 0.0 4.0 run tag @e[c=1] add acacia1"])),
"drop-among": dict(property="P17",
    needs="drop with a filter that selects a limited number of entities",
    breaks="entities outside the group are counted",
    edits=[("acaciamc/objects/entity_group.py",
            """                "tag {selected} remove %s" % self.tag,
                among_tag=self.tag
""", """                "tag {selected} remove %s" % self.tag
""")],
    demo=LAST('entity A:\n    pass\ng := Engroup[A]()\n'
              'g.drop(Enfilter().nearest_from(Pos(0, 0, 0)))\n',
              ["execute positioned 0.5 0.0 0.5 run tag @e[c=1,tag=acacia1] remove acacia1"])),
"nopermission-version": dict(property="P21",
    needs="Enfilter.has_no_permission for a version before 1.19.80",
    breaks="the selector argument is written although it does not exist",
    edits=[("acaciamc/objects/entity_filter.py",
            """        @cmethod_of(self, "has_no_permission")
        @versionlib.only(versionlib.at_least((1, 19, 80)))
""", """        @cmethod_of(self, "has_no_permission")
        @versionlib.only(versionlib.at_least((1, 19, 8)))
""")],
    demo=REJ('x := ExternEngroup()\nx.select(Enfilter().has_no_permission("camera"))\n',
             False, args=["-v", "1.19.70"])),
"mro-no-parents": dict(property="P18",
    needs="a base listed before a template that extends it",
    breaks="the inconsistent order of bases is accepted",
    edits=[("acaciamc/objects/entity_template.py",
            "            merge.append(self.parents.copy())\n",
            "            merge.append(self.parents[:1])\n")],
    demo=REJ('entity A:\n    def f():\n        pass\nentity B extends A:\n    pass\n'
             'entity C extends A, B:\n    pass\n', False)),
"list-hash-set": dict(property="P24",
    needs="two list keys with the same elements in another order",
    breaks="the keys are taken as one",
    edits=[("acaciamc/objects/list_.py",
            "        return tuple(abs(x).chash() for x in self.ptrs)\n",
            "        return frozenset(abs(x).chash() for x in self.ptrs)\n"),
           ("acaciamc/objects/list_.py",
            "        return tuple(x.hash() for x in self.items)\n",
            "        return frozenset(x.hash() for x in self.items)\n")],
    demo=D("const m = {{1, 2}: 3, {2, 1}: 4}\nr = m[{1, 2}]\n", {}, {"r": 3})),
"font-hex-case": dict(property="P13",
    needs="an upper case base prefix",
    breaks="0X1F is read as a decimal number and a name",
    edits=[("acaciamc/tokenizer.py",
            "            peek = peek.upper()\n            if peek in \"BOX\":\n",
            "            if peek in \"bOx\":\n                peek = peek.upper()\n")],
    demo=D("r = 0o17 + 0b11 + 0x1F + 0B1\n", {}, {"r": 50})),
"cancel-swap": dict(property="P22",
    needs="a task started again while it waits",
    breaks="the second start is ignored",
    edits=[("acaciamc/modules/schedule.py",
            "            commands = delay.export(self.timer, compiler)\n",
            "            tmp = IntVar.new(compiler)\n"
            "            commands = delay.export(tmp, compiler)\n"
            "            commands.append(cmds.Execute(\n"
            "                [cmds.ExecuteScoreMatch(self.timer.slot, '..0')],\n"
            "                cmds.ScbOperation(cmds.ScbOp.ASSIGN, self.timer.slot, tmp.slot)\n"
            "            ))\n")],
    demo=D("import schedule\ndef f():\n    r += 1\nconst t = schedule.Task(f)\n"
           "t.after(3)\nt.after(1)\n", {"r": 0}, {"r": 1}, entries=("main", "_acacia/tick", "_acacia/tick"))),
}
