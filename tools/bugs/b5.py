PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"need-tmp-second": dict(property="P08",
    needs="a conditional body with several commands which changes the second "
          "variable of the condition's comparison, inlined by the optimizer",
    breaks="the rest of the body is skipped once the variable changed",
    edits=[("acaciamc/mccmdgen/optimizer.py",
            "                    slots.add(subcmd.operand2)\n", "")],
    demo=D("if a > b:\n    b += 100\n    r += 1\n", {"a": 5, "b": 1, "r": 0},
           {"r": 1, "b": 101})),
"invoke-check-pop": dict(property="P08",
    needs="two conditional calls of one function that changes the variable "
          "of the conditions",
    breaks="the second conditional body is inlined as if the function did "
           "not touch the variable",
    edits=[("acaciamc/mccmdgen/cmds.py",
            "        self._inside_scb_check.pop()\n",
            "        if not result:\n"
            "            self._inside_scb_check.pop()\n")],
    demo=D("def f():\n    a -= 1\n    c += 1\n    c *= 2\n"
           "if a == 1:\n    f()\n    r += 1\n"
           "if a == 0:\n    f()\n    r += 2\n"
           "if a == -1:\n    f()\n    r += 4\n",
           {"a": 1, "r": 0, "c": 0}, {"r": 7, "a": -2})),
"export-bool-first": dict(property="P02",
    needs="a boolean variable assigned from a condition that reads it, but "
          "not in its first part",
    breaks="the variable becomes False (it is cleared before it is read)",
    edits=[("acaciamc/objects/boolean.py", """    for subcmd in subcmds:
        if subcmd.scb_did_read(var.slot):
            need_tmp = True
            break
""", """    for subcmd in subcmds:
        need_tmp = subcmd.scb_did_read(var.slot)
        break
""")],
    demo=D("x := c > 0\nx = a > b and x\nr = int(x)\n",
           {"a": 2, "b": 1, "c": 1, "r": 9}, {"r": 1})),
"notbool-eq": dict(property="P02",
    needs="a comparison compared with the negation of a boolean variable",
    breaks="the result is inverted",
    edits=[("acaciamc/objects/boolean.py", """        slot2 = other.slot
        invert = not invert
""", """        slot2 = other.slot
""")],
    demo=D("x := c > 0\nr = int((a > b) == (not x))\n",
           {"a": 2, "b": 1, "c": 1, "r": 9}, {"r": 0})),
"ct-cmp-last": dict(property="P05",
    needs="a chained comparison in a const function whose first part is "
          "false and last part is true",
    breaks="the chain is taken to be true",
    edits=[("acaciamc/mccmdgen/ctexecuter.py", """            if not res:
                final = False
""", """            final = res
""")],
    demo=D("const def f(x: int) -> bool:\n    result 0 < x < 10\n"
           "r = int(f(-3))\n", {"r": 9}, {"r": 0})),
"ct-boolop-type": dict(property="P29",
    needs="a wrong operand of `or`/`and` in a const function after one that "
          "decides the result",
    breaks="the program is accepted",
    edits=[("acaciamc/mccmdgen/ctexecuter.py", """            if operand.value and operator is Operator.or_:
                res = True
            elif not operand.value and operator is Operator.and_:
                res = False
""", """            if operand.value and operator is Operator.or_:
                res = True
                break
            elif not operand.value and operator is Operator.and_:
                res = False
                break
""")],
    demo=REJ(PRE + "const def f(x: int) -> bool:\n"
             "    result x > 0 or x\nr = int(f(3))\n", False)),
"comment-star-line": dict(property="P13",
    needs="a long comment with a line that starts with #, or one starting "
          "with #*#",
    breaks="the comment ends there",
    edits=[("acaciamc/tokenizer.py", "        previous_char = ''\n",
            "        previous_char = '*'\n")],
    demo=D("r = 1\n#* one\n# two\nr = 2\n*#\n", {"r": 0}, {"r": 1})),
"string-nest-depth": dict(property="P13",
    needs="string literals nested three deep in ${}",
    breaks="the rest of the expression is read as text",
    edits=[("acaciamc/tokenizer.py",
            "            self.in_string_fexpr = bool(self.string_stack)\n",
            "            self.in_string_fexpr = len(self.string_stack) == 1\n")],
    demo=LAST('/say ${"1${"2${"3${"4" + "5"}"}"}"}\n', ["say 12345"])),
"virtual-grandchild": dict(property="P18",
    needs="a virtual method overridden two levels below the static type of "
          "the object, with nothing overridden in between",
    breaks="the implementation of the base is called",
    edits=[("acaciamc/objects/functions.py",
            "        elif template.is_subtemplate_of(self.object.template):\n",
            "        elif (template is self.object.template\n"
            "              or self.object.template in template.parents):\n")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    virtual def f():
        r = 1
entity B extends A:
    pass
entity C extends B:
    override def f():
        r = 3
x: A
x = C("cow", Pos(0, 0, 0))
x.f()
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 0})
w.call("main")
expect("r", w.s["r", "in"], 3)
'''),
"entity-self-assign": dict(property="P16",
    needs="an entity variable assigned to itself, e.g. through a reference",
    breaks="the variable points to no entity",
    edits=[("acaciamc/objects/entity.py", """        # Check self-assignment
        if var.tag == self.tag:
            return []
        return super().export(var, compiler)
""", """        return super().export(var, compiler)
""")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    x: int
inline def cp(&p: A, &q: A):
    p = q
a := A("cow", Pos(0, 0, 0))
a.x = 7
cp(a, a)
r = a.x
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 0})
w.call("main")
expect("r", w.s["r", "in"], 7)
'''),
"group-copy-alias": dict(property="P17",
    needs="a copy of a group that is used without being assigned",
    breaks="methods called on the copy change the group",
    edits=[("acaciamc/objects/entity_group.py", """            res = data_type.new_var(compiler)
            return res, self.export(res, compiler)
""", """            return self
""")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    pass
a := A("cow", Pos(0, 0, 0))
b := A("cow", Pos(0, 0, 0))
g: Engroup[A]
g.add(a, b)
&h = g.copy()
h.clear()
r = g.size()
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 0})
w.call("main")
expect("r", w.s["r", "in"], 2)
'''),
"rot-zero": dict(property="P20",
    needs="a rotation set to exactly 0 in one component (Rot.abs)",
    breaks="that component is left as it was",
    edits=[("acaciamc/objects/rotation.py", "                if arg is None:\n",
            "                if not arg:\n")],
    demo='''src = """
import world
entity A:
    pass
x := A("cow", Pos(0, 0, 0))
world.rotate(x, Rot(x).abs(0.0, 90.5))
"""
out, err = compile_(src)
line = [l for l in out["main.mcfunction"].split("\\n") if "90.5" in l][0]
expect("components", [p for p in (" ~ 90.5", " 0.0 90.5") if p in line],
       [" 0.0 90.5"])
'''),
"struct-export-order": dict(property="P06",
    needs="a struct assigned to a variable of a base type, where the base is "
          "not the first part of its fields",
    breaks="other fields are copied",
    edits=[("acaciamc/objects/struct.py", """            self.vars[name].export(other_struct.vars[name], compiler)
            for name in other_struct.vars
            # `self` may have fields that `other_struct` doesn't have.
""", """            var.export(other_var, compiler)
            for var, other_var in zip(self.vars.values(),
                                      other_struct.vars.values())
""")],
    demo=D("struct A:\n    x: int\nstruct B:\n    y: int\n"
           "struct C extends A, B:\n    z: int\n"
           "p := C(x=1, y=2, z=3)\nq: B\nq = p\nr = q.y\n",
           {"r": 0}, {"r": 2})),
"init-before-dispatch": dict(property="P11",
    needs="an integer constant (or objective) that is first needed by code "
          "generated when compilation finishes (virtual method dispatchers)",
    breaks="the constant is never set",
    edits=[("acaciamc/compiler.py", """        for cb in self._before_finish_cbs:
            cb(self)
""", """        init = self.output_mgr.generate_init()
        for cb in self._before_finish_cbs:
            cb(self)
"""), ("acaciamc/compiler.py", """        ## init
        init = self.output_mgr.generate_init()
""", """        ## init
""")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    virtual inline def f(y: int):
        r = y * 37
entity B extends A:
    override inline def f(y: int):
        r = y * 39
x: A
x = B("cow", Pos(0, 0, 0))
x.f(r)
"""
out, err = compile_(src)
w = World(out, {("r", "in"): 2})
w.call("main")
expect("r", w.s["r", "in"], 78)
'''),
"name-at-inside": dict(property="P09",
    needs="a score holder or player name with @ in the middle",
    breaks="the name is written without quotes",
    edits=[("acaciamc/mccmdgen/cmds.py", '    if s.startswith("@"):\n',
            '    if "@" in s:\n')],
    demo=LAST('&x = scb("b@c", "in")\nx = 3\n',
              ['scoreboard players set "b@c" in 3'])),
"math-min-zero": dict(property="P23",
    needs="math.min of variables and the literal 0",
    breaks="the literal is ignored",
    edits=[("acaciamc/modules/math.py", """    if upper is not None:
        res.add_op(IntRestrict(upper, is_upper=True))
""", """    if upper:
        res.add_op(IntRestrict(upper, is_upper=True))
""")],
    demo=D("import math\nr = math.min(a, 5, 0)\n", {"a": 3, "r": 9},
           {"r": 0})),
"ctmap-pop-default": dict(property="P24",
    needs="pop with a default, for a key that is there, on a map in a const "
          "function",
    breaks="the key is not removed",
    edits=[("acaciamc/objects/map_.py", """            res = self.pop(key)
            if res is None:
                if default is None:
                    raise Error(ErrorType.MAP_KEY_NOT_FOUND)
                else:
                    res = abs(default)
            return res
""", """            res = self.get(key) if default is not None else self.pop(key)
            if res is None:
                if default is None:
                    raise Error(ErrorType.MAP_KEY_NOT_FOUND)
                else:
                    res = default
            return abs(res)
""")],
    demo=D("const def f(n: int) -> int:\n    m := {1: 5, 2: 6}\n"
           "    x := m.pop(n, 9)\n    result x * 10 + m.size()\n"
           "r = f(1)\n", {"r": 0}, {"r": 51})),
}
