PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, compiles, **kw):
    return ("out, err = compile_(%r%s)\nexpect('compiles', out is not None, %r)\n"
            % (src, "".join(", %s=%r" % x for x in kw.items()), compiles))
BUGS = {
"result-shared": dict(property="P04",
    needs="two calls of the same function in one expression",
    breaks="the result of the first call is overwritten by the second: "
           "f(1) - f(2) is always 0",
    edits=[("acaciamc/objects/functions.py", """        result = self.result_type.new_var(compiler)
        res.extend(self.result_var.export(result, compiler))
        result.is_temporary = True
        return result, res

class InlineFunction""", """        if not arguments:
            return self.result_var, res
        result = self.result_type.new_var(compiler)
        res.extend(self.result_var.export(result, compiler))
        result.is_temporary = True
        return result, res

class InlineFunction""")],
    demo=D("def f() -> int:\n    a += 1\n    result a\nr = f() - f()\n",
           dict(a=0, b=0, c=0, r=0), dict(r=-1))),
"module-loaded-flag": dict(property="P12",
    needs="a module imported by two other modules (a diamond), with "
          "top-level code",
    breaks="a module imported twice runs its top-level code twice",
    edits=[("acaciamc/compiler.py", """                    cmds.ScbSetConst(loaded_var, 1)
                ]
""", """                    cmds.ScbSetConst(loaded_var, min(len(meta.parents), 1))
                ]
""")],
    demo="""src = '''import m
import n
&r = scb("r", "in")
r = m.k + n.k
'''
got, log = run(src, {"r": 0, "x": 0}, files={
    "m.aca": "import q\\nk := 1\\n", "n.aca": "import q\\nk := 2\\n",
    "q.aca": '&x = scb("x", "in")\\nx += 1\\n'})
expect("x", got["x"], 1)
"""),
"tok-hex-escape": dict(property="P13",
    needs="a \\U escape with eight digits",
    breaks="\\U0001F600 is rejected",
    edits=[("acaciamc/tokenizer.py",
            "            if unicode >= 0x110000:\n",
            "            if unicode >= 0x10000:\n")],
    demo='''out, err = compile_("/say \\\\U0001F600\\n")
expect("text", out and out["main.mcfunction"].splitlines()[-1], "say \\U0001F600")
'''),
"parse-cmp-chain-last": dict(property="P14",
    needs="a unary minus in front of an operand with a call or an attribute "
          "that is an operand of a multiplication following a unary operator",
    breaks="-a * b % c: a unary minus applies to the whole product",
    edits=[("acaciamc/parser.py", """            return UnaryOp(Operator.negative, self.expr_l2(), **pos)
""", """            return UnaryOp(Operator.negative, self.expr_l3(), **pos)
""")],
    demo=D("r = -a / b * c\n", dict(a=7, b=2, c=3, r=0), dict(r=-9))
    .replace("-9", "-9") + D("r = -a % b - c\ns = 0\n" if 0 else
                             "r = - a - b % -c * b\n",
                             dict(a=-7, b=5, c=3, r=0), dict(r=-3))),
"axe-kw-pos": dict(property="P15",
    needs="a language function given an argument both by position and by "
          "keyword, with at least two positional arguments",
    breaks="an argument given twice is accepted; the keyword wins",
    edits=[("acaciamc/tools/axe.py", """            if arg_name in arg_got:
                raise AcaciaError(ErrorType.ARG_MULTIPLE_VALUES, arg=arg_name)
""", """            if arg_name in arg_got[:1]:
                raise AcaciaError(ErrorType.ARG_MULTIPLE_VALUES, arg=arg_name)
""")],
    demo=REJ("import math\n&r = scb(\"r\", \"in\")\nr = math.pow(2, 3, exp=4)\n",
             False)),
"cast-first-def": dict(property="P18",
    needs="upcast to a template that inherits a virtual method overridden "
          "in the middle of a hierarchy of three or more",
    breaks="upcast(e, C).f() runs the root's implementation instead of the "
           "nearest one in C's method resolution order",
    edits=[("acaciamc/objects/entity_template.py",
            "                if best is None or i < best[0]:\n",
            "                if best is None or i < best[0] - 1:\n")],
    demo='''src = """
&r = scb("r", "in")
entity A:
    virtual def f():
        r = 1
entity B extends A:
    override def f():
        r = 2
entity C extends B:
    override def f():
        r = 3
c := C("cow", Pos(0, 0, 0))
&b = upcast(c, B)
b.f()
"""
got, log = run(src, {"r": 0})
expect("r", got["r"], 2)
'''),
"summon-rot-version": dict(property="P21",
    needs="mc_version exactly 1.19.70",
    breaks="for 1.19.70 (the first version with summon rotation) the old "
           "summon syntax is generated",
    edits=[("acaciamc/objects/entity_template.py",
            'if compiler.cfg.mc_version >= (1, 19, 70) else ""',
            'if compiler.cfg.mc_version > (1, 19, 70) else ""')],
    demo='''src = """
entity E:
    pass
e := E("cow", Pos(0, 0, 0))
"""
out, err = compile_(src, ["--mc-version", "1.19.70"])
expect("rot", "summon cow ~ -75 ~ 0 0 *" in out["main.mcfunction"], True)
'''),
"const-def-leak": dict(property="P28",
    needs="a name declared in the body of a for loop in a const function "
          "and declared again after the loop",
    breaks="a loop body in a const function does not have a scope of its "
           "own: its names leak",
    edits=None, demo=""),
"from-all-noexport": dict(property="P12",
    needs="from m import * in a module that is imported itself",
    breaks="names a module gets by from ... import * are exported by it",
    edits=[("acaciamc/mccmdgen/generator.py", """            self.register_symbol(name, self.attribute_of(module, name))
            self.ctx.scope.no_export.add(name)
""", """            self.register_symbol(name, self.attribute_of(module, name))
        self.ctx.scope.no_export.update(module.attribute_table.no_export)
""")],
    demo=REJ("import m\n&r = scb(\"r\", \"in\")\nr = m.k\n", False,
             files={"m.aca": "from q import *\nz := 1\n",
                    "q.aca": "k := 4\n"})),
"egroup-matches": dict(property="P29",
    needs="a group of a base template used where a group of a derived one is "
          "expected, in an assignment (not as a method argument)",
    breaks="a group of base entities is accepted as a group of derived ones",
    edits=[("acaciamc/objects/entity_group.py", """        return (isinstance(other, EGroupDataType) and
                other.template.is_subtemplate_of(self.template))

    def new_var(self, compiler):
        return EntityGroup""", """        return (isinstance(other, EGroupDataType) and
                (other.template.is_subtemplate_of(self.template)
                 or self.template.is_subtemplate_of(other.template)))

    def new_var(self, compiler):
        return EntityGroup""")],
    demo=REJ("entity A:\n    pass\nentity B extends A:\n    pass\n"
             "g: Engroup[A]\nh: Engroup[B]\nh = g\n", False)),
"ref-arg-type": dict(property="P29",
    needs="a default value of a wrong type for a parameter of a function",
    breaks="def f(a: int = True) is accepted",
    edits=[("acaciamc/mccmdgen/generator.py", """            if (defaults[arg] is not None
                and types[arg] is not None
                and not types[arg].is_type_of(defaults[arg])):
                self.error_c(
                    ErrorType.UNMATCHED_ARG_DEFAULT_TYPE,
                    arg=arg, arg_type=str(types[arg]),
                    default_type=str(defaults[arg].data_type)
                )
        return args, types, defaults, ports
""", """            if (defaults[arg] is not None
                and types[arg] is not None
                and ports[arg] is not FuncPortType.by_value
                and not types[arg].is_type_of(defaults[arg])):
                self.error_c(
                    ErrorType.UNMATCHED_ARG_DEFAULT_TYPE,
                    arg=arg, arg_type=str(types[arg]),
                    default_type=str(defaults[arg].data_type)
                )
        return args, types, defaults, ports
""")],
    demo=REJ("def f(a: int, b: int = True):\n    pass\n", False)),
"scb-quote-name": dict(property="P27",
    needs="a scoreboard player or objective name with a special character "
          "that needs quotes, such as a comma or an equals sign",
    breaks="names with '=' in them are written without quotes",
    edits=None, demo=""),
"ride-fill": dict(property="P30",
    needs="", breaks="", edits=None, demo=""),
}
BUGS = {k: v for k, v in BUGS.items() if v["edits"]}
