PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"exec-sched-ref": dict(property="P10",
    needs="a task that is only reached by a conditional call in tick and an "
          "on_area_loaded schedule, which is executed at a position",
    breaks="the function scheduled by on_area_loaded is deleted by the "
           "optimizer (only direct calls in /execute are references)",
    edits=[("acaciamc/mccmdgen/cmds.py", """    def func_ref(self) -> Optional["MCFunctionFile"]:
        return self.runs.func_ref()
""", """    def func_ref(self) -> Optional["MCFunctionFile"]:
        if isinstance(self.runs, InvokeFunction):
            return self.runs.func_ref()
        return None
""")],
    demo='''src = """
import schedule
&r = scb("r", "in")
def g():
    r += 1
const t = schedule.Task(g)
t.on_area_loaded(Pos(0, 0, 0), Offset(1, 1, 1))
"""
out, err = compile_(src)
for line in out["main.mcfunction"].split("\\n"):
    if "on_area_loaded" in line:
        f = line.split(" ")[-1]
        expect("scheduled function exists", f + ".mcfunction" in out, True)
'''),
"loop-nonpos-interval": dict(property="P22",
    needs="register_loop with an interval held in a variable that is 0 or "
          "negative at run time",
    breaks="the loop stops for good instead of running every tick",
    edits=[("acaciamc/modules/schedule.py",
            '            [cmds.ExecuteScoreMatch(timer.slot, "..0")], runs=cmd\n',
            '            [cmds.ExecuteScoreMatch(timer.slot, "0")], runs=cmd\n')],
    demo='''src = """
import schedule
&a = scb("a", "in")
&r = scb("r", "in")
def f():
    r += 1
schedule.register_loop(f, a)
"""
got, log = run(src, {"r": 0, "a": -2},
               entries=["main"] + ["_acacia/tick"] * 3)
expect("r", got["r"], 3)
'''),
"group-ctor-clear": dict(property="P17",
    needs="a group created in a function (or interface) that runs twice, "
          "non-empty at the end of the first run",
    breaks="a new group contains what was in it the last time",
    edits=[("acaciamc/objects/entity_group.py", """            return resultlib.commands(instance.clear())
""", """            return resultlib.commands([])
""")],
    demo='''src = """
entity E:
    pass
e := E("cow", Pos(0, 0, 0))
&n = scb("n", "in")
&m = scb("m", "in")
def f() -> Engroup[E]:
    result Engroup[E]()
interface t:
    g := f()
    n = g.size()
    if m > 0:
        g.add(e)
    h := Engroup[E]()
    n += h.size()
    if m > 0:
        h.add(e)
"""
out, err = compile_(src)
w = World(out, {("m", "in"): 1})
w.call("main")
w.call("t")
w.call("t")
expect("size", w.s["n", "in"], 0)
'''),
"filter-two-origins": dict(property="P19",
    needs="a filter with two conditions relative to different positions",
    breaks="both conditions are tested at one of the two positions",
    edits=[("acaciamc/objects/entity_filter.py",
            "        res.context_occupied = self.context_occupied\n", "")],
    demo='''src = """
entity E:
    pass
g: Engroup[E]
g.select(Enfilter().distance_from(Pos(1, 2, 3), max=4.0).inside(Pos(5, 6, 7), dx=1.0))
"""
out, err = compile_(src)
n = [x for x in out["main.mcfunction"].split("\\n")
     if "positioned 1" in x and "positioned 5" in x]
expect("commands at both positions", n, [])
'''),
"ctmap-copy-shared": dict(property="P24",
    needs="a map copied in a const def, then an element of the copy (or of "
          "the original) assigned",
    breaks="the copy shares its elements with the original",
    edits=[("acaciamc/objects/map_.py", """            return CTMap(self.citerate(), self.values())
        @cmethod_of(self, "keys")
        @axe.chop
        def _keys(compiler):
            return CTList(self.citerate())
""", """            res = CTMap((), ())
            res.data.update(self.data)
            return res
        @cmethod_of(self, "keys")
        @axe.chop
        def _keys(compiler):
            return CTList(self.citerate())
""")],
    demo=D("""const def f() -> int:
    m := {1: 2}
    n := m.copy()
    n[1] = 5
    result m[1]
r = f()
""", dict(a=0, b=0, c=0, r=0), dict(r=2))),
"kw-type-position": dict(property="P15",
    needs="keyword arguments given in another order than the parameters, "
          "with different types",
    breaks="a keyword argument is checked against the type of the parameter "
           "at its position in the call",
    edits=[("acaciamc/objects/functions.py", """        for arg, value in keywords.items():
            if arg not in self.args:
                raise Error(ErrorType.UNEXPECTED_KEYWORD_ARG, arg=arg)
            if res[arg] is not None:
                raise Error(ErrorType.ARG_MULTIPLE_VALUES, arg=arg)
            value = self.preconvert(arg, value)
            res[arg] = self.__type_check(arg, value, self.arg_types[arg])
""", """        for i, (arg, value) in enumerate(keywords.items(), len(args)):
            if arg not in self.args:
                raise Error(ErrorType.UNEXPECTED_KEYWORD_ARG, arg=arg)
            if res[arg] is not None:
                raise Error(ErrorType.ARG_MULTIPLE_VALUES, arg=arg)
            value = self.preconvert(arg, value)
            res[arg] = self.__type_check(
                arg, value, self.arg_types[self.args[i]]
            )
""")],
    demo=D("""def f(x: int, y: bool) -> int:
    if y:
        result x
    else:
        result 0
r = f(y=True, x=a)
""", dict(a=4, b=0, c=0, r=0), dict(r=4))),
"builtin-before-outer": dict(property="P28",
    needs="a global with the name of a builtin, used in a function",
    breaks="builtins hide globals of the same name in inner scopes",
    edits=[("acaciamc/mccmdgen/symbol.py", """        if use_outer and self.outer:
            res = self.outer.lookup(name, use_builtins=False)
            if res is not None:
                return res
        if use_builtins and self.builtins:
            res = self.builtins.lookup(name)
            if res is not None:
                return res
        return None
""", """        if use_builtins and self.builtins:
            res = self.builtins.lookup(name)
            if res is not None:
                return res
        if use_outer and self.outer:
            res = self.outer.lookup(name, use_builtins=False)
            if res is not None:
                return res
        return None
""")],
    demo=D("""def swap(x: int, y: int) -> int:
    result x * 10 + y
def f() -> int:
    result swap(a, b)
r = f()
""", dict(a=2, b=3, c=0, r=0), dict(r=23))),
"quote-backslash": dict(property="P27",
    needs="a string argument with a backslash but no quote",
    breaks="backslashes are doubled only in strings that have a quote",
    edits=[("acaciamc/mccmdgen/cmds.py",
            """            "\\\\\\\\" if char == "\\\\" else\n""",
            """            "\\\\\\\\" if char == "\\\\" and '"' in s else\n""")],
    demo='''src = """import world
world.summon("cow", Pos(1, 2, 3), name="x \\\\\\\\ y")
"""
out, err = compile_(src)
expect("name", '"x ' + chr(92) * 2 + ' y"' in out["main.mcfunction"], True)
'''),
"block-state-version": dict(property="P21",
    needs="a block with states compiled for exactly 1.20.10",
    breaks="block states are written with ':' for 1.20.10",
    edits=[("acaciamc/modules/world.py",
            "        if compiler.cfg.mc_version >= (1, 20, 10):\n            EQ",
            "        if compiler.cfg.mc_version > (1, 20, 10):\n            EQ")],
    demo='''src = """import world
world.setblock(Pos(1, 2, 3), world.Block("stone", {"k": 1}))
"""
out, err = compile_(src, ["-v", "1.20.10"])
expect("state", '["k"=1]' in out["main.mcfunction"], True)
'''),
"offset-abs-zero": dict(property="P20",
    needs="an absolute coordinate of exactly 0 in Offset(...)",
    breaks="Offset(y_abs=0.0) is ~ instead of 0",
    edits=[("acaciamc/objects/position_offset.py",
            "        if y is not None:\n            self.set(1, y, coord_type)\n",
            "        if y:\n            self.set(1, y, coord_type)\n")],
    demo='''src = """import world
world.clone(Pos(1, 2, 3), Offset(1, 1, 1), Offset(x=1, y_abs=0, z=2))
"""
out, err = compile_(src)
expect("abs", " ~1.0 0.0 ~2.0" in out["main.mcfunction"], True)
'''),
"title-fade-out": dict(property="P25",
    needs="title(...) with all times at their defaults but fade_out",
    breaks="fade_out alone is ignored",
    edits=[("acaciamc/modules/print.py", """    conf = (fade_in, stay_time, fade_out)
    if conf != _DEF_TITLE_CONFIG:
        # only set""", """    conf = (fade_in, stay_time, fade_out)
    if conf[:2] != _DEF_TITLE_CONFIG[:2]:
        # only set""")],
    demo='''src = """import print
print.title("x", fade_out=3)
"""
out, err = compile_(src)
expect("times", "times 10 70 3" in out["main.mcfunction"], True)
'''),
"reserved-subfolder": dict(property="P26",
    needs="an interface in the internal folder",
    breaks="interfaces inside the reserved folder are accepted and can "
           "collide with internal files",
    edits=[("acaciamc/compiler.py",
            '            if path == check or path.startswith(check + "/"):\n',
            '            if path == check:\n')],
    demo=REJ("interface _acacia/acalib1:\n    /say hi\n", False)),
"mod-three-dots": dict(property="P12",
    needs="an import with three or more leading dots",
    breaks="three dots mean the parent folder, like two dots",
    edits=[("acaciamc/compiler.py",
            "                _path = os.path.join(_path, os.pardir)\n",
            "                _path = os.path.join(self.main_dir, os.pardir)\n")],
    demo='''import tempfile, subprocess, shutil, sys, os
d = tempfile.mkdtemp()
try:
    os.makedirs(os.path.join(d, "p", "q"))
    with open(os.path.join(d, "m.aca"), "w") as f:
        f.write("/say up2\\n")
    with open(os.path.join(d, "p", "m.aca"), "w") as f:
        f.write("/say up1\\n")
    with open(os.path.join(d, "p", "q", "x.aca"), "w") as f:
        f.write("import ...m\\n")
    o = os.path.join(d, "out")
    subprocess.run([sys.executable, "-B", "acacia.py",
                    os.path.join(d, "p", "q", "x.aca"), "-o", o,
                    "--override-old"], check=True)
    text = "".join(open(os.path.join(r, f)).read()
                   for r, _, fs in os.walk(o) for f in fs)
    expect("module", "say up2" in text, True)
finally:
    shutil.rmtree(d)
'''),
"spread-boundary": dict(property="P30",
    needs="world.spread with interval exactly range - 1",
    breaks="a valid call is rejected",
    edits=[("acaciamc/modules/world.py",
            "    if interval + 1 > range_:\n",
            "    if interval + 1 >= range_:\n")],
    demo=REJ("""import world
entity E:
    pass
e := E("cow", Pos(0, 0, 0))
world.spread(e, Pos(1, 2, 3), 5.0, 4.0)
""", True)),
"inline-two-const": dict(property="P05",
    needs="an inline function with a const result that has two results, one "
          "in a branch",
    breaks="the last result always wins, whether its branch runs or not",
    edits=[("acaciamc/mccmdgen/generator.py", """                assert p is FuncPortType.const
                if self.ctx.inline_result is not None:
                    self.error_c(ErrorType.MULTIPLE_RESULTS)
""", """                assert p is FuncPortType.const
""")],
    demo=REJ(PRE + """inline def f() -> const int:
    result 1
    if a > 2:
        result 2
r = f()
""", False)),
"const-int-init-order": dict(property="P11",
    needs="two int constants, one of them the negation of the other",
    breaks="a constant and its negation share one score",
    edits=[("acaciamc/mccmdgen/cmds.py",
            "        if number not in self._int_consts:\n",
            "        if number not in self._int_consts \\\n"
            "                and -number not in self._int_consts:\n")],
    demo=D("r = a * 3\n", dict(a=2, b=0, c=0, r=0), dict(r=6))),
}
del BUGS["const-int-init-order"]
