PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"import-flag-tmp": dict(property="P12",
    needs="a module imported twice with a calculation in between whose "
          "intermediate result is 0",
    breaks="the module runs again",
    edits=[("acaciamc/compiler.py",
            "                loaded_var = self.allocate()\n",
            "                loaded_var = self.allocate_tmp()\n")],
    demo=D("import m\nr = a - b * (b - c)\nimport m as k\n",
           {"a": 5, "b": 2, "c": 2, "n": 0},
           {"n": 1, "r": 5},
           files={"m.aca": '&n = scb("n", "in")\nn += 1\n'})),
"alias-shift": dict(property="P12",
    needs="a name without an alias before one with an alias",
    breaks="the alias is given to the wrong name",
    edits=[("acaciamc/parser.py",
            "            aliases.append(self.alias())\n",
            "            alias = self.alias()\n            if alias:\n"
            "                aliases.append(alias)\n"),
           ("acaciamc/parser.py",
            "        return FromImport(meta, names, aliases, **pos)\n",
            "        aliases += [None] * (len(names) - len(aliases))\n"
            "        return FromImport(meta, names, aliases, **pos)\n")],
    demo=D("from m import x, y as z\nr = z - x\n", {"r": 0},
           {"r": 4}, files={"m.aca": "const x = 3, y = 7\n"})),
"hasitem-data-zero": dict(property="P19",
    needs="an item condition with a data value of 0",
    breaks="every data value is accepted",
    edits=[("acaciamc/mccmdgen/mcselector.py",
            "        if data is not None:\n", "        if data:\n")],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().has_item("dye", data=0))\n',
              ["tag @e[hasitem={item=dye,quantity=1..,data=0}] add acacia1"])),
"dist-two-decimals": dict(property="P19",
    needs="a distance with three decimals",
    breaks="the distance is rounded",
    edits=[("acaciamc/mccmdgen/mcselector.py",
            '            return "%s=%.3f" % (arg, value)\n',
            '            return "%s=%.*f" % (arg, 2 if "r" in arg[:1] else 3, value)\n')],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().distance_from(Pos(0, 0, 0), max=0.125))\n',
              ["execute positioned 0.5 0.0 0.5 run tag @e[r=0.125] add acacia1"])),
"flags-in-init": dict(property="P11",
    needs="a separate initialization file and a program that runs twice",
    breaks="imported modules do not run the second time",
    edits=[("acaciamc/compiler.py", """        if mod_loaded_vars:
            self.file_main.commands[:0] = [
                cmds.ScbSetConst(v, 0) for v in mod_loaded_vars
            ]
            self.file_main.commands.insert(
                0, cmds.Comment("# Reset import caching flags")
            )
        ## init
        init = self.output_mgr.generate_init()
""", """        ## init
        init = self.output_mgr.generate_init()
        if mod_loaded_vars:
            init.append(cmds.Comment("# Reset import caching flags"))
            init.extend(cmds.ScbSetConst(v, 0) for v in mod_loaded_vars)
""")],
    demo="""out, err = compile_('import m\\n', args=["-i", "init"],
                    files={"m.aca": '&n = scb("n", "in")\\nn += 1\\n'})
w = World(out, {('n', 'in'): 0})
w.call('init')
w.call('main')
w.call('main')
expect('runs', w.s['n', 'in'], 2)
"""),
"for-tag-shared": dict(property="P17",
    needs="a loop over a group inside a loop over another group of the same "
          "type, and the outer member used after the inner loop",
    breaks="the outer member is lost",
    edits=[("acaciamc/mccmdgen/generator.py",
            "                this = TaggedEntity.new_tag(iterable.template, self.compiler)\n",
            "                tags = self.__dict__.setdefault(\"_for_tags\", {})\n"
            "                if iterable.template not in tags:\n"
            "                    tags[iterable.template] = TaggedEntity.new_tag(\n"
            "                        iterable.template, self.compiler).tag\n"
            "                this = TaggedEntity(\n"
            "                    tags[iterable.template], iterable.template)\n")],
    demo="""out, err = compile_('''x := ExternEngroup()
x.select(Enfilter().has_tag("red"))
y := ExternEngroup()
y.select(Enfilter().has_tag("blue"))
for m in x:
    for n in y:
        /tag ${n} add seen
    /tag ${m} add done
''')
w = World(out)
w.ents += [{"id": "#1", "tags": {"red"}, "type": "cow"},
           {"id": "#2", "tags": {"blue"}, "type": "cow"}]
w.call('main')
expect('done', [sorted(t for t in e["tags"] if t in ("seen", "done"))
                for e in w.ents], [[], ["done"], ["seen"]])
"""),
"task-file-shared": dict(property="P22",
    needs="two tasks of one function with different keyword arguments",
    breaks="the second task uses the arguments of the first",
    edits=[("acaciamc/modules/schedule.py", """        self.target_file = cmds.MCFunctionFile()
        compiler.add_file(self.target_file)
        _res, call_cmds = target.call_withframe(
            other_arg, other_kw, compiler, location="<schedule.Task>"
        )
        self.target_file.extend(call_cmds)
""", """        files = compiler.__dict__.setdefault("_task_files", {})
        if not other_arg and id(target) in files:
            self.target_file = files[id(target)]
        else:
            self.target_file = cmds.MCFunctionFile()
            compiler.add_file(self.target_file)
            _res, call_cmds = target.call_withframe(
                other_arg, other_kw, compiler, location="<schedule.Task>"
            )
            self.target_file.extend(call_cmds)
            files[id(target)] = self.target_file
""")],
    demo="""src = '''import schedule
&r = scb("r", "in")
def f(n: int):
    r += n
const t = schedule.Task(f, n=1)
const u = schedule.Task(f, n=10)
t.after(1)
u.after(1)
'''
out, err = compile_(src)
w = World(out, {('r', 'in'): 0})
w.call('main')
for i in range(4):
    w.call('_acacia/tick')
expect('sum', w.s['r', 'in'], 11)
"""),
"restrict-int-min": dict(property="P23",
    needs="a maximum with the smallest integer",
    breaks="a command has a number that is no score",
    edits=[("acaciamc/modules/math.py", """        if ((self.is_upper and self.value == INT_MAX)
                or (not self.is_upper and self.value == INT_MIN)):
""", """        if self.is_upper and self.value == INT_MAX:
""")],
    demo="""import re
out, err = compile_('import math\\n&a = scb("a", "in")\\nx := math.max(a, int.MIN)\\n')
expect('numbers', [n for f in out.values() for n in re.findall(r'-?\\d{10,}', f)
                   if not -2**31 <= int(n) < 2**31], [])
"""),
"struct-meta-shared": dict(property="P16",
    needs="an entity type with two fields of one struct type",
    breaks="the fields share their values",
    edits=[("acaciamc/objects/struct.py", """        field_info: Dict[str, Tuple[dict, SupportsEntityField]] = {}
        for name, type_ in self.template.field_types.items():
            if not""", """        field_info: Dict[str, Tuple[dict, SupportsEntityField]] = getattr(
            self.template, "_field_info", {})
        self.template._field_info = field_info
        for name, type_ in self.template.field_types.items():
            if name in field_info:
                continue
            if not""")],
    demo=D("struct S:\n    n: int\nentity T:\n    p: S\n    q: S\n"
           "e := T(\"cow\", Pos(0, 0, 0))\ne.p.n = a\ne.q.n = b\nr = e.p.n\n",
           {"a": 4, "b": 5}, {"r": 4})),
"result-ctor-type": dict(property="P29",
    needs="a function whose result is made by a struct type other than the "
          "declared one with the same fields",
    breaks="the wrong type is accepted",
    edits=[("acaciamc/mccmdgen/generator.py", """                dt, kwds = func.pre_initialize(*table, self.compiler)
                _check(dt)
                commands""", """                dt, kwds = func.pre_initialize(*table, self.compiler)
                commands""")],
    demo=REJ("struct S:\n    n: int\nstruct T:\n    n: int\ndef f() -> S:\n    result T(n=1)\n", False)),
"not-not": dict(property="P14",
    needs="two negations in a row",
    breaks="a valid program is rejected",
    edits=[("acaciamc/parser.py",
            "            return UnaryOp(Operator.not_, self.expr_l6(), **pos)\n",
            "            return UnaryOp(Operator.not_, self.expr_l5(), **pos)\n")],
    demo=REJ("x := 1\nif not not x > 0:\n    /say a\n", True)),
}
