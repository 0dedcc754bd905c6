"""Independent parser of Acacia (the oracle of P14): tokens of rlex -> tuples.

Written from the grammar; nodes are (class name, field, field, ...) in the
order of FIELDS.
"""
from .rlex import Lex, is_

FIELDS = {
    "Module": "body", "ArgumentTable": "args", "CallTable": "args keywords",
    "TypeSpec": "content", "FunctionPort": "type port",
    "FormattedStr": "content", "ExprStatement": "value", "Pass": "",
    "If": "condition body else_body", "While": "condition body",
    "FuncDef": "name data", "NormalFuncData": "arg_table returns body",
    "InlineFuncData": "arg_table returns body",
    "ConstFuncData": "arg_table returns body", "InterfaceDef": "path body",
    "EntityField": "name type", "EntityMethod": "content qualifier",
    "NewMethod": "data", "EntityTemplateDef": "name parents body new_method",
    "VarDef": "target type value", "AutoVarDef": "target value",
    "Assign": "target value", "ConstDef": "names types values",
    "ReferenceDef": "name type value", "Command": "content",
    "AugmentedAssign": "target operator value", "Import": "meta name",
    "FromImport": "meta id2name", "FromImportAll": "meta",
    "For": "name expr body", "StructField": "name type",
    "StructDef": "name bases body", "Result": "value",
    "NewCall": "primary call_table", "Literal": "value",
    "StrLiteral": "content", "Self": "", "Identifier": "name",
    "UnaryOp": "operator operand", "BinOp": "left operator right",
    "Call": "func table", "Attribute": "object attr",
    "Subscript": "object subscripts",
    "CompareOp": "left operators operands", "BoolOp": "operator operands",
    "ListDef": "items", "MapDef": "keys values",
}
BIN = {"*": "multiply", "/": "divide", "%": "mod", "+": "add", "-": "minus"}
CMP = {"==": "equal_to", "!=": "unequal_to", ">": "greater", "<": "less",
       ">=": "greater_equal", "<=": "less_equal"}
PORTS = {"&": "by_reference", "const": "const"}


class SyntaxErr(Exception):
    pass


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    @property
    def k(self):
        return self.t[self.i][0]

    @property
    def v(self):
        return self.t[self.i][1]

    def ahead(self):
        return self.t[self.i + 1][0] if self.i + 1 < len(self.t) else None

    def take(self, *kinds):
        """Consume the current token if it is one of kinds."""
        if self.k in kinds:
            self.i += 1
            return self.t[self.i - 1][0]
        return None

    def need(self, kind):
        if self.k != kind:
            raise SyntaxErr("%s for %s" % (self.k, kind))
        self.i += 1
        return self.t[self.i - 1][1]

    def name(self):
        return self.need("IDENTIFIER")

    # ------------------------------------------------------- expressions
    def expr(self):
        return self.junction("or", "or_", lambda: self.junction(
            "and", "and_", self.negation))

    def junction(self, word, op, operand):
        xs = [operand()]
        while self.take(word):
            xs.append(operand())
        return xs[0] if len(xs) == 1 else ("BoolOp", op, xs)

    def negation(self):
        n = 0
        while self.take("not"):
            n += 1
        e = self.comparison()
        for _ in range(n):
            e = ("UnaryOp", "not_", e)
        return e

    def comparison(self):
        left = self.binary(0)
        ops, xs = [], []
        while self.k in CMP:
            ops.append(CMP[self.take(*CMP)])
            xs.append(self.binary(0))
        return ("CompareOp", left, ops, xs) if ops else left

    def binary(self, level):
        if level == 2:
            return self.signed()
        e = self.binary(level + 1)
        while self.k in (("+", "-"), ("*", "/", "%"))[level]:
            o = BIN[self.take(*BIN)]
            e = ("BinOp", e, o, self.binary(level + 1))
        return e

    def signed(self):
        o = self.take("+", "-")
        if o:
            return ("UnaryOp", "positive" if o == "+" else "negative",
                    self.signed())
        return self.suffixed()

    def suffixed(self):
        e = self.atom()
        while True:
            if self.k == "." and self.ahead() != "new":
                self.i += 1
                e = ("Attribute", e, self.name())
            elif self.k == "(":
                e = ("Call", e, self.call())
            elif self.k == "[":
                e = ("Subscript", e, self.many("[", "]", self.expr))
            else:
                return e

    def many(self, a, b, item):
        """a item, item, ... b with an optional comma at the end."""
        self.need(a)
        xs = []
        while not self.take(b):
            xs.append(item())
            if not self.take(","):
                self.need(b)
                break
        return xs

    def call(self):
        pos, kw = [], []

        def arg():
            if self.ahead() == "=":
                n = self.name()
                if any(is_(n, m) for m, _ in kw):
                    raise SyntaxErr("twice")
                self.need("=")
                kw.append((n, self.expr()))
            elif kw:
                raise SyntaxErr("positional after keyword")
            else:
                pos.append(self.expr())
        self.many("(", ")", arg)
        return ("CallTable", pos, kw)

    def atom(self):
        k = self.k
        if k in ("INTEGER", "FLOAT"):
            return ("Literal", self.need(k))
        if self.take("True"):
            return ("Literal", True)
        if self.take("False"):
            return ("Literal", False)
        if self.take("None"):
            return ("Literal", None)
        if k == "IDENTIFIER":
            return ("Identifier", self.name())
        if k == "STRING_BEGIN":
            return self.string()
        if self.take("self"):
            return ("Self",)
        if self.take("("):
            e = self.expr()
            self.need(")")
            return e
        if self.take("{"):
            return self.braces()
        raise SyntaxErr(k)

    def braces(self):
        if self.take("}"):
            return ("ListDef", [])
        if self.take(":"):
            self.need("}")
            return ("MapDef", [], [])
        xs = [self.expr()]
        ys = []
        ismap = bool(self.take(":"))
        if ismap:
            ys.append(self.expr())
        while self.take(","):
            if self.k == "}":
                break
            xs.append(self.expr())
            if ismap:
                self.need(":")
                ys.append(self.expr())
        self.need("}")
        return ("MapDef", xs, ys) if ismap else ("ListDef", xs)

    def parts(self):
        out = []
        while True:
            if self.k == "TEXT_BODY":
                out.append(self.need("TEXT_BODY"))
            elif self.take("DOLLAR_LBRACE"):
                out.append(self.expr())
                self.need("}")
            else:
                return out

    def string(self):
        out = []
        if self.k != "STRING_BEGIN":
            # `interface` without a path: an empty literal is accepted here
            return ("StrLiteral", ("FormattedStr", out))
        while self.take("STRING_BEGIN"):
            out += self.parts()
            self.need("STRING_END")
        return ("StrLiteral", ("FormattedStr", out))

    def type(self):
        return ("TypeSpec", self.expr())

    # -------------------------------------------------------- statements
    def module(self):
        out = []
        while not self.take("END_MARKER"):
            out.append(self.statement())
        return ("Module", out)

    def block(self, item):
        self.need("NEW_LINE")
        self.need("INDENT")
        out = []
        while not self.take("DEDENT"):
            out.append(item())
        return out

    def body(self):
        self.need(":")
        return self.block(self.statement)

    def statement(self):
        k = self.k
        if k == "if":
            self.i += 1
            return self.cond()
        if self.take("while"):
            c = self.expr()
            return ("While", c, self.body())
        if self.take("for"):
            n = self.name()
            self.need("in")
            e = self.expr()
            return ("For", n, e, self.body())
        if self.take("interface"):
            p = self.need("INTERFACE_PATH") if self.k == "INTERFACE_PATH" \
                else self.string()
            return ("InterfaceDef", p, self.body())
        if k in ("def", "inline") or k == "const" and self.ahead() == "def":
            return self.function()
        if self.take("entity"):
            return self.entity()
        if self.take("struct"):
            n = self.name()
            bs = self.extends()
            self.need(":")
            return ("StructDef", n, bs, self.block(self.field))
        s = self.simple()
        self.need("NEW_LINE")
        return s

    def cond(self):
        c = self.expr()
        b = self.body()
        if self.take("elif"):
            return ("If", c, b, [self.cond()])
        if self.take("else"):
            return ("If", c, b, self.body())
        return ("If", c, b, [])

    def simple(self):
        if self.take("pass"):
            return ("Pass",)
        if self.take("const"):
            xs = self.many("(", ")", self.constant) if self.k == "(" else \
                self.row(self.constant)
            return ("ConstDef",) + tuple([x[i] for x in xs]
                                         for i in range(3))
        if self.take("&"):
            return ("ReferenceDef",) + self.constant()
        if self.take("COMMAND_BEGIN"):
            xs = self.parts()
            self.need("COMMAND_END")
            return ("Command", ("FormattedStr", xs))
        if self.take("import"):
            m = self.meta()
            return ("Import", m, self.alias(m[-1]))
        if self.take("from"):
            m = self.meta()
            self.need("import")
            if self.take("*"):
                return ("FromImportAll", m)

            def one():
                n = self.name()
                return (n, self.alias(n))
            return ("FromImport", m, self.many("(", ")", one)
                    if self.k == "(" else self.row(one))
        if self.take("result"):
            return ("Result", self.expr())
        if self.take("new"):
            return ("NewCall", None, self.call())
        e = self.expr()
        if self.take("="):
            return ("Assign", e, self.expr())
        o = self.take(*[b + "=" for b in BIN])
        if o:
            return ("AugmentedAssign", e, BIN[o[0]], self.expr())
        if self.k in (":", ":="):
            if e[0] != "Identifier":
                raise SyntaxErr("target")
            if self.take(":="):
                return ("AutoVarDef", e[1], self.expr())
            self.need(":")
            t = self.type()
            return ("VarDef", e[1], t, self.expr() if self.take("=")
                    else None)
        if self.take("."):
            self.need("new")
            return ("NewCall", e, self.call())
        return ("ExprStatement", e)

    def row(self, item):
        xs = [item()]
        while self.take(","):
            xs.append(item())
        return xs

    def constant(self):
        n = self.name()
        t = self.type() if self.take(":") else None
        self.need("=")
        return (n, t, self.expr())

    def meta(self):
        dots = 0
        while self.take("."):
            dots += 1
        ns = [self.name()]
        while self.take("."):
            ns.append(self.name())
        return ("ModuleMeta", dots, ns[:-1], ns[-1])

    def alias(self, default):
        return self.name() if self.take("as") else default

    def function(self):
        kind = self.take("inline", "const") or ""
        self.need("def")
        return ("FuncDef", self.name(), self.funcdata(kind))

    def port(self, kind):
        p = self.take("const", "&")
        if p and kind != "inline":
            raise SyntaxErr("port")
        return PORTS.get(p, "by_value")

    def funcdata(self, kind):
        seen = []
        dflt = [False]

        def arg():
            p = self.port(kind)
            n = self.name()
            t = self.type() if self.take(":") else None
            d = self.expr() if self.take("=") else None
            if d is None and dflt[0]:
                raise SyntaxErr("default")
            dflt[0] = d is not None
            if kind == "" and t is None and d is None:
                raise SyntaxErr("type")
            if any(is_(n, m) for m in seen):
                raise SyntaxErr("twice")
            seen.append(n)
            return (n, ("FunctionPort", t, p), d)
        args = self.many("(", ")", arg)
        ret = None
        if self.take("->"):
            p = self.port(kind)
            ret = self.type()
            if kind != "":
                ret = ("FunctionPort", ret, p)
        return ({"": "Normal", "inline": "Inline", "const": "Const"}[kind]
                + "FuncData", ("ArgumentTable", args), ret, self.body())

    def extends(self):
        return self.row(self.expr) if self.take("extends") else []

    def field(self):
        if self.take("pass"):
            r = ("Pass",)
        else:
            n = self.name()
            self.need(":")
            r = ("StructField", n, self.type())
        self.need("NEW_LINE")
        return r

    def entity(self):
        n = self.name()
        bs = self.extends()
        self.need(":")
        xs = self.block(self.member)
        news = [x for x in xs if x[0] == "NewMethod"]
        if len(news) > 1:
            raise SyntaxErr("new")
        return ("EntityTemplateDef", n, bs,
                [x for x in xs if x[0] != "NewMethod"],
                news[0] if news else None)

    def member(self):
        if self.k in ("pass", "IDENTIFIER"):
            r = self.field()
            return ("EntityField",) + r[1:] if r[0] != "Pass" else r
        if self.k == "new" or self.k == "inline" and self.ahead() == "new":
            kind = self.take("inline") or ""
            self.need("new")
            return ("NewMethod", self.funcdata(kind))
        q = self.take("virtual", "override", "static")
        if self.k == "const" and q != "static":
            raise SyntaxErr("const method")
        return ("EntityMethod", self.function(), q or "none")


def parse(text):
    return Parser(Lex(text).run()).module()
