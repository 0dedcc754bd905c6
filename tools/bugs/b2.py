PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, pre=PRE, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (pre + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
def REJ(src, bad, ok=True):
    return ("out, err = compile_(%r)\nexpect('compiles', out is not None, %r)\n"
            % (src, bad))
BUGS = {
"while-reuse-dep": dict(property="P03",
    needs="a while loop whose condition needs commands (an arithmetic "
          "comparison) and whose body changes an operand",
    breaks="the condition's operands are computed before the loop only: "
           "later iterations test the first iteration's value when the "
           "body is longer than the condition",
    edits=[("acaciamc/mccmdgen/generator.py", """                file.extend(dep)
                file.write(cmds.Execute(
                    subcmds, runs=cmds.InvokeFunction(body_file)
""", """                if file is self.current_file or len(dep) < 4:
                    file.extend(dep)
                file.write(cmds.Execute(
                    subcmds, runs=cmds.InvokeFunction(body_file)
""")],
    demo=D("while a * 2 + b * 2 < c and r < 20:\n    a += 1\n    r += 1\n",
           dict(a=0, b=0, c=6, r=0), dict(r=3, a=3))),
"elif-shared-else": dict(property="P03",
    needs="an if without a then-body effect but with an else branch, under "
          "a constant-free compound condition that is negated",
    breaks="if c: pass / else: X runs X without the commands the condition "
           "depends on",
    edits=[("acaciamc/mccmdgen/generator.py", """                self.current_file.extend(dependencies)
                self.current_file.write(cmds.Execute(
                    subcmds, runs=cmds.InvokeFunction(
                        body_file if has_then else else_body_file
""", """                if has_then:
                    self.current_file.extend(dependencies)
                self.current_file.write(cmds.Execute(
                    subcmds, runs=cmds.InvokeFunction(
                        body_file if has_then else else_body_file
""")],
    demo=D("if a + b > c * 2:\n    pass\nelse:\n    r = 1\n",
           dict(a=9, b=9, c=1, r=0), dict(r=0))),
"inline-ref-twice": dict(property="P05",
    needs="an inline function called twice with different by-value "
          "arguments in one expression, the parameter being modified",
    breaks="a by-value parameter of an inline function is passed by "
           "reference when the argument is a variable, so that changing "
           "it changes the caller's variable",
    edits=None, demo=""),
"struct-depth": dict(property="P06",
    needs="struct inheritance of depth three: the value of the most derived "
          "struct used where the root one is expected",
    breaks="a great-grandchild of a struct is not accepted as that struct",
    edits=[("acaciamc/objects/struct_template.py",
            "        return any(base.is_subtemplate_of(template) for base in self.bases)\n",
            "        return any(template in base.bases for base in self.bases)\n")],
    demo=REJ("struct A:\n    x: int\nstruct B extends A:\n    y: int\n"
             "struct C extends B:\n    z: int\nstruct D extends C:\n    w: int\n"
             "d := D(x=1, w=2)\na: A\na = d\n", True)),
"const-mod-sign": dict(property="P07",
    needs="a constant remainder whose divisor is negative while the "
          "dividend is positive",
    breaks="the constant 7 % -3 is folded to -1; the game computes 1",
    edits=[("acaciamc/objects/integer.py",
            "    return res if a >= 0 else -res\n",
            "    return res if (a >= 0) == (b >= 0) else -res\n")],
    demo=D("r = 7 % -3 + a\n", dict(a=0, b=0, c=0, r=0), dict(r=1))),
"mcstr-comma": dict(property="P09",
    needs="a tag or name with an exclamation mark in it",
    breaks="the name is written without quotes and the selector means the "
           "opposite (a negation)",
    edits=None, demo=""),
"opt-entry-call": dict(property="P10",
    needs="a function file that becomes empty and is called through an "
          "execute with a condition by two files",
    breaks="calls to an empty function that has been removed are kept, "
           "so that a call refers to a file that is not written",
    edits=[("acaciamc/mccmdgen/optimizer.py", """        for file in self.files:
            for i, command in enumerate(file.commands):
                ref = command.func_ref()
                if ref is not None and ref in removed:
""", """        for file in self.files:
            for i, command in enumerate(file.commands):
                ref = command.func_ref()
                if isinstance(command, cmds.ScheduleFunction):
                    continue
                if ref is not None and ref in removed:
""")],
    demo="""src = '''import schedule
def f():
    pass
const t = schedule.Task(f)
t.on_tickingarea("area")
'''
out, err = compile_(src)
names = [k[:-11] for k in out or {} if k.endswith('.mcfunction')]
bad = [l for v in (out or {"": "schedule none"}).values() for l in v.split('\\n')
       if l.startswith('schedule') and l.split()[-1] not in names]
expect('missing', bad, [])
"""),
"group-filter-keep": dict(property="P17",
    needs=".filter executed twice on the same group, with an entity that "
          "stopped satisfying the filter in between",
    breaks="entities selected by an earlier run of .filter stay in the "
           "group although they do not satisfy the filter any more",
    edits=[("acaciamc/objects/entity_group.py", """            cmds.append("tag @e[tag={0}] remove {0}".format(tmp))
            return self, cmds
""", """            return self, cmds
""")],
    demo='''src = """
entity E:
    pass
g: Engroup[E]
e := E("cow", Pos(0, 0, 0))
interface add:
    g.add(e)
interface f:
    g.filter(Enfilter().has_tag("k"))
interface t:
    &n = scb("n", "in")
    n = g.size()
"""
out, err = compile_(src)
w = World(out)
w.call("main")
w.call("add")
x = w.ents[-1]
x["tags"].add("k")
w.call("f")
x["tags"].discard("k")
w.call("f")
w.call("t")
expect("size", w.s[("n", "in")], 0)
'''),
"entity-alias-self": dict(property="P16",
    needs="an entity variable assigned to itself through a reference",
    breaks="after &y = x; x = y the variable refers to no entity",
    edits=[("acaciamc/objects/entity.py", """        # Check self-assignment
        if var.tag == self.tag:
            return []
        return super().export(var, compiler)
""", """        # Check self-assignment
        if var is self:
            return []
        return super().export(var, compiler)
""")],
    demo='''src = """
entity E:
    v: int
x := E("cow", Pos(0, 0, 0))
&y = x
x.v = 5
&r = scb("r", "in")
r = 0
struct S:
    e: E
s := S(e=x)
t := S(e=x)
t.e.v += 1
x = y
r = x.v
interface go:
    &z = upcast(x, E)
    x = z
    r = 50
    r = x.v + 1
"""
out, err = compile_(src)
w = World(out)
w.call("main")
w.call("go")
expect("r", w.s[("r", "in")], 7)
'''),
"sel-copy-shared": dict(property="P19",
    needs="a filter used to derive two others that add a condition of the "
          "same kind (tags, names, scores) as the base filter has",
    breaks="adding a tag to a derived filter also adds it to the filter it "
           "is derived from",
    edits=[("acaciamc/mccmdgen/mcselector.py", """        res.args = deepcopy(self.args)
""", """        res.args = dict(self.args)
""")],
    demo='''src = """
entity E:
    pass
const f = Enfilter().has_tag("a")
const g = f.has_tag("b")
x: Engroup[E]
x.select(f)
"""
out, err = compile_(src)
w = World(out)
w.ents = [{"id": "#1", "tags": {"a"}, "type": "cow"}]
w.call("main")
expect("tags", len(w.ents[0]["tags"]), 2)
'''),
"pos-copy-shared": dict(property="P20",
    needs="two positions derived from the same base position",
    breaks="deriving a position changes the one it is derived from",
    edits=[("acaciamc/objects/position.py", """        res.context = self.context.copy()
""", """        res.context = self.context
""")],
    demo='''src = """
import world
const p = Pos(1, 2, 3)
const q = p.dim("nether")
world.setblock(p, "stone")
"""
out, err = compile_(src)
expect("dim", any("nether" in v for v in out.values()), False)
'''),
"has-schedule-zero": dict(property="P22",
    needs="has_schedule asked when exactly no tick is left (after(0), or in "
          "the tick in which the task is going to run)",
    breaks="a schedule that runs in the coming tick is reported as absent",
    edits=[("acaciamc/modules/schedule.py",
            "                Operator.greater_equal, IntLiteral(0), compiler\n",
            "                Operator.greater, IntLiteral(0), compiler\n")],
    demo='''src = """
import schedule
&r = scb("r", "in")
def f():
    r += 10
const t = schedule.Task(f)
t.after(0)
if t.has_schedule():
    r += 1
"""
got, log = run(src, {"r": 0})
expect("r", got["r"], 1)
'''),
"math-pow-square": dict(property="P23",
    needs="math.pow with a literal exponent that has at least two non-leading "
          "one bits (7, 11, 13, ...)",
    breaks="pow(x, 7) is computed with one factor too few",
    edits=[("acaciamc/modules/math.py",
            """                res.add_op(IntXOpSelf(y, "*"))
""", """                res.add_op(IntXOpSelf(y, "*" if e > 3 else "="))
""")],
    demo=D("import math\nr = math.pow(a, 7)\n",
           dict(a=3, b=0, c=0, r=0), dict(r=3 ** 7))),
"list-insert-alias": dict(property="P24",
    needs="a list of a const function that is copied and changed through an "
          "element assignment afterwards",
    breaks="a copy shares its elements with the list it was copied from",
    edits=[("acaciamc/objects/list_.py", """        return CTObjPtr(abs(element))
""", """        return element if isinstance(element, CTObjPtr) \\
            else CTObjPtr(element)
""")],
    demo='''src = """
const def f(x: list) -> int:
    l := {1, 2, 3}
    m := l.copy()
    m[0] = 10
    result l[0]
&r = scb("r", "in")
r = f({1})
"""
got, log = run(src, {"r": 0})
expect("r", got["r"], 1)
'''),
"font-gap": dict(property="P25",
    needs="with_font around text with an inner with_font followed by exactly "
          "one more piece of text",
    breaks="text after an inner font is displayed without the outer font",
    edits=[("acaciamc/modules/print.py",
            "                if start_levels == 0 and i != length - 1:\n",
            "                if start_levels == 0 and i < length - 2:\n")],
    demo='''src = """
import print
print.tell(print.with_font(print.format("a%0b", print.with_font("x", "red")), "green"))
"""
out, err = compile_(src)
line = out["main.mcfunction"]
import json
raw = json.loads(line[line.index("{"):line.rindex("}") + 1])
text = "".join(c["text"] for c in raw["rawtext"])
expect("text", text.count("\\xa7a"), 2)
'''),
"interface-case": dict(property="P26",
    needs="an interface below the internal folder whose name differs in "
          "case, or a configured folder name with capitals",
    breaks="a configured main file or internal folder name with capital "
           "letters is not reserved any more",
    edits=[("acaciamc/compiler.py", """            check = check.lower()
            if path == check""", """            if path == check""")],
    demo='''src = """
interface Lib/x:
    /say a
"""
import sys
p = """
import sys, os, tempfile
from acaciamc.compiler import Compiler, Config
d = tempfile.mkdtemp()
f = os.path.join(d, "m.aca")
open(f, "w").write(%r)
from acaciamc.error import Error
try:
    Compiler(f, Config(internal_folder="Lib"))
    print("accepted")
except Error:
    print("rejected")
import shutil; shutil.rmtree(d)
""" % src
r = subprocess.run([sys.executable, "-B", "-c", p], capture_output=True, text=True)
expect("result", r.stdout.strip(), "rejected")
'''),
}
BUGS = {k: v for k, v in BUGS.items() if v["edits"]}
