"""P29: operations are type checked: the valid ones compile and compute, the
others are rejected with a diagnostic."""
from .common import *

BOUNDS = ("every operator with every pair of 19 kinds of operands (23 in thorough), every "
          "statement, argument, result, field and container position with "
          "every kind; 68 places for entities and groups with 20 "
          "kinds of operands; 48 places in const functions with 18 kinds of "
          "values held in literals, variables, elements, arguments and loop "
          "variables (a quarter of them in quick); random expressions of "
          "depth 3 mixing kinds; ints "
          "symbolic (int32)")
OUTSIDE = ("a reference to the result of copy() or of a struct's "
           "constructor; positions (P20); float "
           "arithmetic values; comparison of functions and types")
ASSUMPTIONS = ass_arith()

PRE2 = """import print
struct S:
    u: int
    v: bool
struct T extends S:
    w: int
struct V:
    u: int
    v: bool
def fn(n: int) -> int:
    result n + 1
inline def inl(n: int) -> int:
    result n + 2
const def ct(n: int) -> int:
    result n
f := a > b
p := S(u=a, v=f)
q := T(u=b, v=f, w=c)
o := V(u=c, v=f)
"""
KINDS = {
    "int": "a", "const": "K0", "intexpr": "(a + b)", "bool": "f",
    "boolexpr": "(a > b)", "True": "True", "str": '"s"', "float": "1.5",
    "None": "None", "list": "{1, 2}", "map": "{1: 2}", "struct": "p",
    "sub": "q", "type": "int", "tmpl": "S", "func": "fn", "inline": "inl",
    "fstr": 'print.format("%0", a)', "mod": "print",
    "other": "o", "ctor": "S(u=a, v=f)", "ctor-sub": "T(u=a, v=f, w=c)",
    "ctor-other": "V(u=a, v=f)",
}
BIN = ["+", "-", "*", "/", "%", "<", "==", "!=", ">=", "and", "or"]
POS = {
    "decl-int": "v1: int = {}\nr = v1\n", "decl-bool": "v1: bool = {}\n",
    "decl-struct": "v1: S = {}\nr = v1.u\n", "decl-none": "v1: None = {}\n",
    "decl-sub": "v1: T = {}\n", "auto": "v1 := {}\n",
    "type": "v1: {}\n", "assign-int": "r = {}\n", "assign-bool": "f = {}\n",
    "assign-struct": "p = {}\nr = p.u\n", "assign-sub": "q = {}\n",
    "assign-field": "p.u = {}\nr = p.u\n", "assign-boolfield": "p.v = {}\n",
    "target": "{} = 1\n", "aug-int": "r += {}\n", "aug-bool": "f += {}\n",
    "aug-mul": "r *= {}\n", "aug-target": "{} += 1\n",
    "if": "if {}:\n    r = a\n", "while": "while {}:\n    f = False\n",
    "elif": "if a > c:\n    r = a\nelif {}:\n    r = b\n",
    "for": "for i in {}:\n    r += 1\n", "not": "f = not {}\n",
    "neg": "r = -{}\n", "pos": "r = +{}\n", "call": "{}(1)\n",
    "call0": "{}()\n", "sub": "r = {}[0]\n", "attr": "r = {}.u\n",
    "attr2": "{}.nothing\n", "arg": "r = fn({})\n",
    "arg-inline": "r = inl({})\n", "arg-ct": "r = ct({})\n",
    "result": "def g() -> int:\n    result {}\nr = g()\n",
    "result-bool": "def g() -> bool:\n    result {}\nf = g()\n",
    "result-none": "def g():\n    result {}\ng()\n",
    "result-inline": "inline def g() -> int:\n    result {}\nr = g()\n",
    "result-const": "inline def g() -> const int:\n    result {}\nr = g()\n",
    "result-ref": "inline def g() -> &int:\n    result {}\nr = g()\n",
    "result-ct": "const def g() -> int:\n    result {}\nr = g()\n",
    "param-type": "def g(n: {}):\n    pass\n",
    "result-struct": "def g() -> S:\n    result {}\nr = g().u\n",
    "result-sub": "def g() -> T:\n    result {}\nr = g().w\n",
    "result-struct-i": "inline def g() -> S:\n    result {}\nr = g().u\n",
    "result-sref": "inline def g() -> &S:\n    result {}\nr = g().u\n",
    "struct-default": "def g(n: S = {}) -> int:\n    result n.u\nr = g()\n",
    "struct-arg-sub": "def g(n: T) -> int:\n    result n.w\nr = g({})\n",
    "struct-arg-ref": "inline def g(&n: S) -> int:\n    result n.u\n"
                      "r = g({})\n",
    "struct-ref": "&v1: S = {}\nv1.u = 3\n",
    "struct-nest": "struct Z:\n    z: S\nv1 := Z(z={})\nr = v1.z.u\n",
    "struct-nest2": "struct Z:\n    z: S\nv1 := Z()\nv1.z = {}\nr = v1.z.u\n",
    "result-type": "def g() -> {}:\n    pass\n",
    "default": "def g(n={}) -> int:\n    result a\nr = g()\n",
    "default-int": "def g(n: int = {}) -> int:\n    result n\nr = g()\n",
    "inline-const": "inline def g(const n) -> int:\n    result 1\n"
                    "r = g({})\n",
    "inline-const-int": "inline def g(const n: int) -> int:\n"
                        "    result n\nr = g({})\n",
    "inline-ref": "inline def g(&n: int):\n    n += 1\ng({})\n",
    "inline-bool": "inline def g(n: bool) -> int:\n    if n:\n"
                   "        r = 1\n    result r\nr = g({})\n",
    "struct-arg": "def g(n: S) -> int:\n    result n.u\nr = g({})\n",
    "field": "r = S(u={}, v=f).u\n", "field-bool": "p = S(u=a, v={})\n",
    "field-type": "struct Z:\n    z: {}\nz := Z()\n",
    "extends": "struct Z extends {}:\n    z: int\nz := Z()\n",
    "elem": "r = {{{}, 1}}.size()\n", "key": "r = {{{}: 1}}.size()\n",
    "value": "r = {{1: {}}}.size()\n", "const": "const v1 = {}\n",
    "ref": "&v1 = {}\n", "ref-int": "&v1: int = {}\nv1 += 1\n",
    "index": "r = {{1, 2, 3}}[{}]\n", "format": 'print.format("%0", {})\n',
    "tell": "print.tell({})\n", "interp": 'print.tell("<${{{}}}>")\n',
    "cmd": "/say ${{{}}}\n", "int()": "r = int({})\n",
    "swap": "swap(r, {})\n", "swap-bool": "swap(f, {})\n",
    "swap-struct": "swap(p, {})\nr = p.u\n",
    "upcast": "v1 := upcast({}, S)\nr = v1.u\n",
    "upcast-type": "v1 := upcast(q, {})\n", "scb": 's = scb({}, "in")\n',
    "expr": "{}\n",
}

# the same, inside compile-time functions
CKINDS = {
    "int": "2", "const": "K0", "True": "True", "str": '"s"',
    "float": "1.5", "None": "None", "list": "{1, 2}", "map": "{1: 2}",
    "type": "int", "tmpl": "S", "func": "fn", "ctfn": "ct", "mod": "print",
    "var": "a", "fstr": 'print.format("%0", a)', "cmp": "K0 > 1",
    "sum": "(K0 + 1)", "copy": "{1, 2}.copy()",
}
CFORMS = {"lit": ("", "{}"), "var": ("    v0 := {}\n", "v0"),
          "elem": ("    w := {{1, {}}}\n", "w[1]"),
          "value": ('    w := {{"k": {}}}\n', 'w["k"]'),
          "arg": None, "loop": None}
CPOS = {
    "auto": "x := {}\n", "int": "x: int = {}\n", "bool": "x: bool = {}\n",
    "str": "x: str = {}\n", "list": "x: list = {}\n",
    "map": "x: map = {}\n", "nonetype": "x: None = {}\n",
    "float": "x: float = {}\n", "type": "x: {} = 1\n",
    "ref": "&x = {}\n", "ref-int": "&x: int = {}\nx += 1\nz = x\n",
    "ref-bool": "&x: bool = {}\n", "ref-str": "&x: str = {}\n",
    "ref-list": "&x: list = {}\n", "ref-set": "&x = {}\nx = 5\nz = 1\n",
    "assign": "z = {}\n", "target": "{} = 5\n", "aug": "z += {}\n",
    "aug-mul": "z *= {}\n", "aug-target": "{} += 1\n",
    "if": "if {}:\n    z = 2\n", "elif": "if K0 > 2:\n    z = 2\n"
    "elif {}:\n    z = 3\n", "while": "while {}:\n    result 5\n",
    "for": "for i in {}:\n    z += 1\n", "not": "x := not {}\n",
    "neg": "z = -{}\n", "pos": "z = +{}\n", "add": "z = {} + 1\n",
    "radd": "z = 1 + {}\n", "strcat": 'x: str = "x" + {}\n',
    "lt": "x: bool = {} < 3\n", "eq": "x: bool = 2 == {}\n",
    "chain": "x: bool = 1 < 2 < {}\n", "and": "x := True and {}\n",
    "or": "x := {} or False\n",
    "or-late": "x := True or {}\n", "and-late": "x := False and {}\n",
    "or-late2": "x := 1 == 1 or False or {}\n",
    "and-late3": "x := not (2 < 1) and 2 < 1 and {}\nz = 2\n",
    "or-late-if": "if z == 1 or {}:\n    z = 4\n",
    "chain-late": "x: bool = 3 < 1 < {}\n", "call": "{}(1)\n", "call0": "{}()\n",
    "sub": "z = {}[0]\n", "index": "z = {{1, 2, 3}}[{}]\n",
    "key": "x := {{{}: 1}}\nz = x.size()\n", "keyget": "z = {{1: 3}}[{}]\n",
    "attr": "z = {}.size()\n", "method": "{}.append(1)\n",
    "append": "x := {{1}}.copy()\nx.append({})\nz = x.size()\n",
    "arg-int": "z = ct({})\n", "kw-int": "z = ct(n={})\n",
    "arg-bool": "z = ctb({})\n", "arg-any": "x := cta({})\n",
    "range": "for i in list.range({}):\n    z += 1\n",
    "slice": "z = {{1, 2, 3}}.slice(0, {}).size()\n",
    "interp": 'x := "<${{{}}}>"\n', "expr": "{}\n",
    "result": "result {}\n", "delete": "x := {{1, 2}}.copy()\n"
    "x.pop({})\nz = x[0]\n",
}
CPRE = """const def ctb(n: bool) -> int:
    if n:
        result 3
    result 4
const def cta(n) -> Any:
    result n
"""


def ct_program(form, kind, pos):
    def ind(t, k=1):
        return "".join("    " * k + ln + "\n" for ln in t.splitlines())
    t = CPOS[pos]
    if form == "arg":
        return (CPRE + "const def g(v0) -> int:\n    z := 1\n"
                + ind(t.format("v0")) + "    result z\nr = g(%s)\n" % kind)
    if form == "loop":
        return (CPRE + "const def g() -> int:\n    z := 1\n    for v0 in {%s}"
                ":\n" % kind + ind(t.format("v0"), 2)
                + "    result z\nr = g()\n")
    pre, x = CFORMS[form]
    return (CPRE + "const def g() -> int:\n" + pre.format(kind)
            + "    z := 1\n" + ind(t.format(x.format(kind)))
            + "    result z\nr = g()\n")


# entities and groups
PRE3 = """entity A:
    n: int
    def get() -> int:
        result self.n
entity B extends A:
    m: int
entity C:
    n: int
struct S:
    e: A
    g: Engroup[A]
x := A("cow", Pos(0, 0, 0))
y := B("cow", Pos(0, 0, 0))
z := C("cow", Pos(0, 0, 0))
x.n = a
y.n = b
z.n = c
y.m = 1
g := Engroup[A]()
h := Engroup[B]()
i := Engroup[C]()
w := ExternEngroup()
g.add(x)
h.add(y)
f := a > b
"""
EKINDS = {
    "ent": "x", "sub": "y", "other": "z", "group": "g", "subgroup": "h",
    "othergroup": "i", "extern": "w", "filter": "Enfilter()",
    "pos": "Pos(0, 0, 0)", "tmpl": "A", "gtype": "Engroup[B]", "int": "a",
    "const": "K0", "bool": "f", "str": '"s"', "None": "None",
    "up": "upcast(y, A)", "single": "g.to_single()", "copy": "h.copy()",
    "list": "{x, y}",
}
EPOS = {
    "decl": "v1: A = {}\nr = v1.n\n", "decl-sub": "v1: B = {}\nr = v1.m\n",
    "decl-group": "v1: Engroup[A] = {}\nr = v1.size()\n",
    "decl-subgroup": "v1: Engroup[B] = {}\nr = v1.size()\n",
    "decl-extern": "v1: ExternEngroup = {}\nr = v1.size()\n",
    "decl-int": "v1: int = {}\nr = v1\n", "auto": "v1 := {}\n",
    "assign": "x = {}\nr = x.n\n", "assign-sub": "y = {}\nr = y.m\n",
    "assign-group": "g = {}\nr = g.size()\n",
    "assign-subgroup": "h = {}\nr = h.size()\n",
    "assign-extern": "w = {}\nr = w.size()\n",
    "assign-field": "x.n = {}\nr = x.n\n",
    "assign-int": "r = {}\n", "aug-group": "g += {}\nr = g.size()\n",
    "sub-group": "h -= {}\nr = h.size()\n",
    "aug-extern": "w += {}\nr = w.size()\n",
    "extend": "g.extend({})\nr = g.size()\n",
    "intersect": "h.intersect({})\nr = h.size()\n",
    "subtract": "w.subtract({})\nr = w.size()\n",
    "add": "g.add({})\nr = g.size()\n", "remove": "h.remove({})\n"
    "r = h.size()\n", "extern-add": "w.add({})\nr = w.size()\n",
    "has": "r = int(g.has({}))\n", "extern-has": "r = int(w.has({}))\n",
    "filter": "g.filter({})\nr = g.size()\n",
    "select": "w.select({})\n",
    "resolve": "v1 := w.resolve({})\n",
    "arg": "def fn(e: A) -> int:\n    result e.n\nr = fn({})\n",
    "arg-sub": "def fn(e: B) -> int:\n    result e.m\nr = fn({})\n",
    "arg-group": "def fn(e: Engroup[A]) -> int:\n    result e.size()\n"
                 "r = fn({})\n",
    "arg-subgroup": "def fn(e: Engroup[B]) -> int:\n    result e.size()\n"
                    "r = fn({})\n",
    "arg-inline": "inline def fn(e: A) -> int:\n    result e.n\n"
                  "r = fn({})\n",
    "arg-ref": "inline def fn(&e: A) -> int:\n    result e.n\n"
               "r = fn({})\n",
    "arg-ref-group": "inline def fn(&e: Engroup[A]) -> int:\n"
                     "    result e.size()\nr = fn({})\n",
    "arg-const": "inline def fn(const e: A) -> int:\n"
                 "    result e.n\nr = fn({})\n",
    "default": "def fn(e={}) -> int:\n    result a\nr = fn()\n",
    "result": "def fn() -> A:\n    result {}\nr = fn().n\n",
    "result-sub": "def fn() -> B:\n    result {}\nr = fn().m\n",
    "result-group": "def fn() -> Engroup[A]:\n    result {}\n"
                    "r = fn().size()\n",
    "result-inline": "inline def fn() -> Engroup[B]:\n    result {}\n"
                     "r = fn().size()\n",
    "result-ref": "inline def fn() -> &A:\n    result {}\nr = fn().n\n",
    "struct-field": "q := S()\nq.e = {}\nr = q.e.n\n",
    "struct-group": "q := S()\nq.g = {}\nr = q.g.size()\n",
    "struct-init": "q := S(e={})\nr = q.e.n\n",
    "struct-init-group": "q := S(g={})\nr = q.g.size()\n",
    "upcast": "r = upcast({}, A).n\n", "upcast-type": "r = upcast(y, {}).n\n",
    "for": "for v1 in {}:\n    r += 1\n", "method": "r = {}.get()\n",
    "attr": "r = {}.n\n", "attr-set": "{}.n = 1\n", "size": "r = {}.size()\n",
    "ref": "&v1: A = {}\nr = v1.n\n", "ref-group": "&v1: Engroup[A] = {}\n"
    "r = v1.size()\n", "ref-auto": "&v1 = {}\n", "const": "const v1 = {}\n",
    "type": "v1: {}\n", "type-arg": "v1 := Engroup[{}]()\n",
    "extends": "entity D extends {}:\n    k: int\n",
    "field-type": "entity D:\n    k: {}\n", "cmd": "/say ${{{}}}\n",
    "swap": "swap(x, {})\nr = x.n\n", "swap-group": "swap(g, {})\n"
    "r = g.size()\n", "if": "if {}:\n    r = 1\n", "not": "f = not {}\n",
    "plus": "r = {} + 1\n", "eq": "f = {} == x\n", "eq2": "f = x == {}\n",
    "call": "{}()\n", "sub": "r = {}[0]\n", "scb": 's = scb({}, "in")\n',
    "elem": "r = {{{}}}.size()\n", "Pos": "const v1 = Pos({})\n",
    "expr": "{}\n", "inherit-method": "entity D extends B:\n"
    "    def own(o: A) -> int:\n        result o.n\n"
    'd := D("cow", Pos(0, 0, 0))\nr = d.own({})\n',
    "new-arg": 'entity D extends B:\n    new(o: B):\n'
               '        new(type="cow", pos=Pos(0, 0, 0))\n'
               "        self.m = o.m\nd := D({})\nr = d.m\n",
}
EWORLD = {"types": ["cow", "player"], "tags": [], "objs": ["in"]}


def jobs(tier, seed):
    r = rng(seed, "p29")
    out = []
    ks = list(KINDS)
    plain = [k for k in ks if k != "other" and not k.startswith("ctor")]
    for op in BIN:
        for x in plain:
            # all pairs with one program per left operand would stop at the
            # first error; every pair is its own program
            for y in plain if tier == "quick" else ks:
                if tier == "quick" and x not in VALUES and \
                        y not in VALUES and r.random() < .8:
                    continue
                e = "%s %s %s" % (KINDS[x], op, KINDS[y])
                rb = op in ("<", "==", "!=", ">=", "and", "or")
                stmt = "f = %s\nif f:\n    r = 1\n" if rb else "r = %s\n"
                if not rb and r.random() < .3:
                    stmt = "const v1 = %s\n"
                m = "%s\n" % (stmt % e)
                out.append(("%s %s %s" % (x, op, y), m))
    for n, t in POS.items():
        for x in ks:
            if "ref" in n and x.startswith("ctor"):
                continue    # a reference to a fresh struct
            out.append(("%s %s" % (n, x), t.format(KINDS[x])))
    for i in range(250 if tier == "quick" else 8000):
        out.append(("expr%d" % i, rand(r)))
    i = 0
    for pos in CPOS:
        for k, e in CKINDS.items():
            for form in CFORMS:
                i += 1
                if tier == "quick" and (i + i // 6) % 4:
                    continue
                if (pos, k) in (("while", "True"), ("while", "cmp"),
                                ("range", "sum"), ("range", "const")):
                    continue    # endless or huge loops
                out.append(("ct:%s %s %s" % (pos, form, k),
                            ct_program(form, e, pos)))
    out = [tv("t:" + n, PRE2 + m, max_paths=12) for n, m in out]
    for n, t in EPOS.items():
        for x, e in EKINDS.items():
            if x == "copy" and "ref" in n:
                continue    # a reference to a fresh group
            out.append(tv("e:%s %s" % (n, x), PRE3 + t.format(e), world=EWORLD,
                          max_paths=12, K=2))
    return out


VALUES = ["int", "const", "boolexpr", "str", "list", "struct"]


def rand(r):
    def e(t, d):
        if r.random() < .08:
            t = r.choice(["int", "bool", "other"])
        if t == "other":
            return r.choice(list(KINDS.values()))
        if t == "int":
            k = r.randrange(9 if d else 3)
            if k < 3:
                return ["a", "K0", "p.u"][k]
            if k == 3:
                return "fn(%s)" % e("int", d - 1)
            if k == 4:
                return "inl(%s)" % e("int", d - 1)
            if k == 5:
                return "-" + e("int", 0)
            if k == 6:
                return "int(%s)" % e("bool", d - 1)
            return "(%s %s %s)" % (e("int", d - 1), r.choice("+-*"),
                                   e("int", d - 1))
        k = r.randrange(6 if d else 2)
        if k < 2:
            return ["f", "p.v"][k]
        if k == 2:
            return "(not %s)" % e("bool", d - 1)
        if k == 3:
            return "(%s %s %s)" % (e("bool", d - 1), r.choice(
                ["and", "or", "==", "!="]), e("bool", d - 1))
        return "(%s %s %s)" % (e("int", d - 1), r.choice(
            ["<", ">=", "==", "!="]), e("int", d - 1))
    t = r.choice(["int", "bool"])
    x = e(t, 3)
    return r.choice({"int": ["r = %s\n", "r += %s\n", "p.u = %s\nr = p.u\n",
                             "r = fn(%s)\n", "v1 := %s\nr = v1\n",
                             'print.tell(print.format("%%0", %s))\n'],
                     "bool": ["f = %s\nif f:\n    r = 1\n",
                              "if %s:\n    r = 1\n", "p.v = %s\n",
                              "while %s and r == 0:\n    r = 1\n"]}[t]) % x
