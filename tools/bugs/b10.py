from b9 import PRE, D, REJ, LAST
BUGS = {
"extern-resolve-id": dict(property="P18",
    needs="a method with several implementations called on entities that came "
          "from resolve with a derived template",
    breaks="the resolved entities run the wrong implementation",
    edits=[("acaciamc/objects/extern_egroup.py",
            "            template.runtime_id\n        ))\n",
            "            template.mro_[-1].runtime_id\n        ))\n")],
    demo=""),
"abspos-zero": dict(property="P20",
    needs="an AbsPos coordinate replaced by zero",
    breaks="the coordinate keeps its old value",
    edits=[("acaciamc/objects/position_absolute.py",
            "                if value is not None:\n                    self.set_abs(i, value)\n",
            "                if value:\n                    self.set_abs(i, value)\n")],
    demo=LAST('const p = AbsPos(1, 2, 3).abs(y=0.0)\nx := ExternEngroup()\nx.select(Enfilter().nearest_from(p))\n',
              ["execute positioned 1.5 0.0 3.5 run tag @e[c=1] add acacia1"])),
"kw-no-typecheck": dict(property="P15",
    needs="a keyword argument of a wrong type",
    breaks="the call is accepted",
    edits=[("acaciamc/objects/functions.py",
            "            value = self.preconvert(arg, value)\n            res[arg] = self.__type_check(arg, value, self.arg_types[arg])\n        # if any",
            "            res[arg] = self.preconvert(arg, value)\n        # if any")],
    demo=REJ('struct S:\n    x: int\nstruct U:\n    x: int\ndef f(s: S):\n    &r = scb("r", "in")\n    r = s.x\nu := U(x=1)\nf(s=u)\n', False)),
"name-n-quote": dict(property="P27",
    needs="is_not_name with a name that needs quotes",
    breaks="the selector is malformed",
    edits=[("acaciamc/mccmdgen/mcselector.py",
            '        self.args["name!"].extend(map(mc_str, names))\n',
            '        self.args["name!"].extend(names)\n')],
    demo=LAST('x := ExternEngroup()\nx.select(Enfilter().is_not_name("a b"))\n',
              ['tag @e[name=!"a b"] add acacia1'])),
"swap-struct-left": dict(property="P06",
    needs="swap of structs with a bool field",
    breaks="the bool fields are not exchanged",
    edits=[("acaciamc/objects/struct.py",
            "            for name in self.vars\n        ))",
            "            for name in list(self.vars)[:2]\n        ))")],
    demo=D("struct S:\n    x: int\n    y: int\n    z: int\nu := S(x=a, y=b, z=c)\nv := S(x=b, y=c, z=a)\nswap(u, v)\nr = u.z\n",
           {"a": 1, "b": 2, "c": 3}, {"r": 1})),
"swap-tmp-order": dict(property="P17",
    needs="swap of two groups",
    breaks="both groups end up with the same entities",
    edits=[("acaciamc/mccmdgen/expr.py",
            "            *x.export(tmp, compiler),\n            *y.export(x, compiler),\n            *tmp.export(y, compiler)\n",
            "            *y.export(tmp, compiler),\n            *y.export(x, compiler),\n            *tmp.export(y, compiler)\n")],
    demo="out, err = compile_('entity A:\\n    pass\\ng := Engroup[A]()\\nh := Engroup[A]()\\nswap(g, h)\\n')\nexpect('commands', out and out['main.mcfunction'].count('tag @e[tag=acacia1] add acacia3'), 1)\n"),
"ct2rt-kw": dict(property="P13",
    needs="\\u escape", breaks="", edits=[("acaciamc/tokenizer.py", "NOPE", "")], demo=""),
}
del BUGS["ct2rt-kw"], BUGS["extern-resolve-id"]
