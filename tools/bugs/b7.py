PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
def LAST(src, want, n=1, **kw):
    return ("out, err = compile_(%r%s)\nexpect('commands', out and "
            "out['main.mcfunction'].rstrip().split('\\n')[-%d:], %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), n, want))
BUGS = {
"item-str-cache": dict(property="P30",
    needs="one item given twice in different amounts",
    breaks="the first amount is used again",
    edits=[("acaciamc/modules/world.py", """        c = "" if not self.components else " " + json.dumps(self.components)
        return fmt.format(id=self.id, data=self.data, components=c)
""", """        if getattr(self, "_str", None) is None:
            c = ("" if not self.components
                 else " " + json.dumps(self.components))
            self._str = fmt.format(id=self.id, data=self.data, components=c)
        return self._str
""")],
    demo=LAST('import world\ny := ExternEngroup()\nconst it = world.Item("bow", 3)\n'
              'world.give(y, it, 2)\nworld.replaceitem_block(Pos(0, 0, 0), 1, it, 5)\n',
              ['execute positioned 0.5 0.0 0.5 run replaceitem block ~ ~ ~ slot.container 1 destroy bow 5 3'])),
"font-new-version": dict(property="P21",
    needs="a new colour in the first version that has it",
    breaks="the colour is rejected",
    edits=[("acaciamc/tokenizer.py",
            "if word in COLORS_NEW and self.mc_version >= (1, 19, 80):",
            "if word in COLORS_NEW and self.mc_version > (1, 19, 80):")],
    demo=REJ('/say \\\\#(material_gold)x\n'.replace("\\\\", "\\"), True, args=["-v", "1.19.80"])),
"unicode-bound": dict(property="P13",
    needs="the escape of the first number after the last character",
    breaks="the compiler crashes",
    edits=[("acaciamc/tokenizer.py", "if unicode >= 0x110000:",
            "if unicode > 0x110000:")],
    demo="out, err = compile_('/say \\\\U00110000\\n')\n"
         "expect('reported', (out is None, 'unexpected' in err), (True, False))\n"),
"eof-after-continued": dict(property="P13",
    needs="a file that ends with an empty continuation line",
    breaks="a valid file is rejected",
    edits=[("acaciamc/tokenizer.py", """            if self.has_content:
                res.append(self.handle_logical_newline())
            eof = True
""", """            if res:
                res.append(self.handle_logical_newline())
            eof = True
""")],
    demo=REJ("x := 1 \\\n", True)),
"dedent-four": dict(property="P13",
    needs="leaving five blocks at once and entering others afterwards",
    breaks="blocks are closed too late",
    edits=[("acaciamc/tokenizer.py",
            "            self.indent_len -= dedent_count\n",
            "            self.indent_len -= min(dedent_count, 4)\n")],
    demo=D("if a > 0:\n if b > 0:\n  if c > 0:\n   if c > 1:\n    if c > 2:\n     r = 1\n"
           "if a > 1:\n    r = 2\nr += 10\n",
           {"a": 1, "b": 1, "c": 1, "r": 0}, {"r": 10})),
"import-once-static": dict(property="P12",
    needs="a module imported first in a function that is not called",
    breaks="its statements never run",
    edits=[("acaciamc/compiler.py", """                finalcm = cm
                break
""", """                return cm.module, path
""")],
    demo=D("def f():\n    import m\nimport m\n", {"a": 0}, {"a": 7},
           files={"m.aca": '&a = scb("a", "in")\na = 7\n'})),
"reserved-case": dict(property="P26",
    needs="a main file name with capitals and an interface of that name",
    breaks="the two files collide",
    edits=[("acaciamc/compiler.py", """            check = check.lower()
            if path == check or path""", """            if path == check or path""")],
    demo=REJ("interface Main:\n    /say a\n/say b\n", False,
             args=["--main-file", "Main"])),
"fmt-unknown-escape": dict(property="P25",
    needs="a percent sign followed by another one after a character that is "
          "no placeholder",
    breaks="a percent sign is lost",
    edits=[("acaciamc/modules/print.py",
            "                self.add_text(char + second)\n                continue\n",
            "                self.add_text(char)\n                self.ptr -= second != \" \"\n                continue\n")],
    demo=LAST('import print\nprint.tell(print.format("5% of %0", 3))\n',
              ['tellraw @a {"rawtext": [{"text": "5% of 3"}]}'])),
"loop-interval-early": dict(property="P22",
    needs="a loop whose interval is an expression of a variable that the "
          "target changes",
    breaks="the interval is computed before the target runs",
    edits=[("acaciamc/modules/schedule.py", """    tick_commands.extend(dependencies)
    tick_commands.extend(interval_var""", """    tick_commands[:0] = dependencies
    tick_commands.extend(interval_var""")],
    demo="""src = '''import schedule
&a = scb("a", "in")
&r = scb("r", "in")
def f():
    r += 1
    a += 2
schedule.register_loop(f, a * 2)
'''
out, err = compile_(src)
w = World(out, {('a', 'in'): 0, ('r', 'in'): 0})
w.call('main')
seen = []
for i in range(8):
    w.call('_acacia/tick')
    seen.append(w.s['r', 'in'])
expect('calls', seen, [1, 1, 1, 1, 2, 2, 2, 2])
"""),
"ct-ref-type": dict(property="P29",
    needs="a reference with a type in a constant function",
    breaks="a wrong type is accepted",
    edits=[("acaciamc/mccmdgen/ctexecuter.py",
            "            if not dt.is_typeof(value):\n                self.error_node(node.type, ErrorType.WRONG_REF_TYPE,",
            "            if not dt.is_typeof(abs(value)) and node.type is None:\n                self.error_node(node.type, ErrorType.WRONG_REF_TYPE,")],
    demo=REJ("const def f() -> int:\n    x := 1\n    &y: bool = x\n    result x\nconst A = f()\n", False)),
"ct-shadow": dict(property="P28",
    needs="a constant function with a variable named like one outside",
    breaks="the program is rejected",
    edits=[("acaciamc/mccmdgen/ctexecuter.py",
            "            name, use_outer=False, use_builtins=False\n",
            "            name, use_builtins=False\n")],
    demo=REJ("const X = 3\nconst def f() -> int:\n    for X in {1, 2}:\n        y := X\n    result 1\nconst A = f()\n", True)),
}
