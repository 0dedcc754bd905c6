PRE = '&a = scb("a", "in")\n&b = scb("b", "in")\n&c = scb("c", "in")\n&r = scb("r", "in")\n'
def D(body, scores, want, **kw):
    return ("src = %r\ngot, log = run(src, %r%s)\nexpect('scores', {k: got[k] "
            "for k in %r}, %r)\n" % (PRE + body, scores, "".join(
                ", %s=%r" % x for x in kw.items()), list(want), want))
BUGS = {
"arith-tmp-assign": dict(property="P01",
    needs="the assignment's target is the first operand of a nested group "
          "(a = b - a * c), so that the target is overwritten while needed",
    breaks="an expression whose nested group reads the assignment target "
           "uses the already overwritten value",
    edits=[("acaciamc/objects/integer.py", """        for c in self.commands:
            if c.scb_did_read(slot):
                return True
        return False
""", """        for c in self.commands[1:]:
            if c.scb_did_read(slot):
                return True
        return False
""")],
    demo=D("a = b - (a * c)\n", dict(a=3, b=10, c=2, r=0), dict(a=4))),
"and-nested-range": dict(property="P02",
    needs="an and-group nested in another one (through a variable-free "
          "sub-expression in parentheses) that bounds a variable less "
          "tightly than an earlier operand does",
    breaks="a nested lower bound replaces a tighter one: a > 5 and "
           "(a > 3 and b > 0) accepts a == 4",
    edits=[("acaciamc/objects/boolean.py",
            "                rng[0] = max(min_, rng[0])\n",
            "                rng[0] = min_ if min_ != INT_MIN else rng[0]\n")],
    demo=D("if a > 5 and (a > 3 and b > 0):\n    r = 1\n",
           dict(a=4, b=1, c=0, r=0), dict(r=0))),
"not-or-deps": dict(property="P02",
    needs="the negation of an or (or the else-only use of it) whose operand "
          "needs commands to be computed",
    breaks="not (a + b > c or ...) tests a stale temporary",
    edits=[("acaciamc/objects/boolean.py", """    def unarynot(self, compiler):
        return WildBool(
            self.subcmds.copy(), self.dependencies.copy(),
            self.ranges.copy()
        )
""", """    def unarynot(self, compiler):
        return WildBool(
            self.subcmds.copy(), [], self.ranges.copy()
        )
""")],
    demo=D("if not (a + b > c or a == b):\n    r = 1\n",
           dict(a=5, b=6, c=1, r=0), dict(r=0))),
"default-arg-once": dict(property="P04",
    needs="a parameter that is left to its default in a second call after "
          "the function body (or an earlier call) changed the parameter",
    breaks="the second call sees the parameter's old value, not the default",
    edits=[("acaciamc/objects/functions.py", """        for arg, value in arguments.items():
            res.extend(value.export(self.arg_vars[arg], compiler))
        # Call function
""", """        for arg, value in arguments.items():
            if value is self._exported_args.get(arg):
                continue
            self._exported_args[arg] = value
            res.extend(value.export(self.arg_vars[arg], compiler))
        # Call function
"""), ("acaciamc/objects/functions.py", """        # Allocate a var for result value
        self.result_var""", """        # The value each argument holds (do not export it again)
        self._exported_args: Dict[str, AcaciaExpr] = {}
        # Allocate a var for result value
        self.result_var""")],
    demo=D("def f(x=3) -> int:\n    x += a\n    result x\nr = f()\nb = f()\n",
           dict(a=1, b=0, c=0, r=0), dict(r=4, b=4))),
"inline-cond-right": dict(property="P08",
    needs="an inlined if whose condition compares two variables and whose "
          "body assigns the right one before its last command",
    breaks="the rest of an inlined if body is skipped or run wrongly after "
           "the body changed the right operand of the condition",
    edits=[("acaciamc/mccmdgen/optimizer.py",
            "                    slots.add(subcmd.operand1)\n"
            "                    slots.add(subcmd.operand2)\n",
            "                    slots.add(subcmd.operand1)\n")],
    demo=D("if a < b:\n    b = c\n    r = 1\n",
           dict(a=1, b=5, c=0, r=0), dict(r=1, b=0))),
}
