"""Independent parser of (a subset of) Acacia source text.

Used only by the reference evaluator; shares no code with /repo.  AST nodes are
tuples (kind, ...).
"""
import re

TOK = re.compile(r"""
  (?P<float>\d+\.\d+)
 |(?P<int>0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|\d+)
 |(?P<name>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op>->|:=|==|!=|<=|>=|\+=|-=|\*=|/=|%=|[-+*/%<>=(){}\[\],.:&])
""", re.X)

KW = {"if", "elif", "else", "while", "for", "in", "def", "inline", "const",
      "struct", "entity", "extends", "interface", "import", "from", "as",
      "pass", "result", "new", "and", "or", "not", "True", "False", "None",
      "self", "virtual", "override", "static"}


class ParseError(Exception):
    pass


def NEW_FONTS():
    """Are there material colors? (set by the reference interpreter)"""
    return True


STYLES = dict(zip(
    "black dark_blue dark_green dark_aqua dark_red dark_purple gold gray "
    "dark_gray blue green aqua red light_purple yellow white "
    "minecoin_gold".split(), "0123456789abcdefg"), reset="r", bold="l",
    italic="o", obfuscated="k")
MATERIALS = dict(zip("quartz iron netherite redstone copper gold emerald "
                     "diamond lapis amethyst".split(), "hijmnpqstu"))
ESC = {"x": 2, "u": 4, "U": 8}


def escape(s, i, in_string):
    """(text, next index) of the character or escape sequence at s[i]."""
    if s[i] != "\\" or i + 1 >= len(s):
        return s[i], i + 1
    d = s[i + 1]
    if d in "\\$" or (d == '"' and in_string):
        return d, i + 2
    if d == "#":
        if s[i + 2:i + 3] != "(":
            return "\xa7", i + 2
        k = s.find(")", i)
        if k < 0:
            raise ParseError("unclosed font")
        out = ""
        for f in s[i + 3:k].split(","):
            f = f.strip()
            if f in STYLES:
                out += "\xa7" + STYLES[f]
            elif f.startswith("material_") and f[9:] in MATERIALS and \
                    NEW_FONTS():
                out += "\xa7" + MATERIALS[f[9:]]
            else:
                raise ParseError("no such font")
        return out, k + 1
    if d in ESC:
        n = ESC[d]
        code = s[i + 2:i + 2 + n]
        if len(code) < n or re.search("[^0-9a-fA-F]", code) or \
                int(code, 16) >= 0x110000:
            raise ParseError("bad escape")
        return chr(int(code, 16)), i + 2 + n
    return "\\", i + 1


def lex_string(s, i):
    """s[i] == '"'. Returns (parts, next index); parts: str | token list."""
    i += 1
    parts = []
    cur = ""
    while True:
        if i >= len(s):
            raise ParseError("unclosed string")
        c = s[i]
        if c == '"':
            i += 1
            break
        if c == "\\":
            t, i = escape(s, i, True)
            cur += t
            continue
        if s.startswith("${", i):
            j = match_brace(s, i + 2)
            if cur:
                parts.append(cur)
            cur = ""
            parts.append(lex_line(s[i + 2:j]))
            i = j + 1
            continue
        cur += c
        i += 1
    if cur:
        parts.append(cur)
    return parts, i


def match_brace(s, i):
    d = 1
    while i < len(s):
        if s[i] == '"':
            _, i = lex_string(s, i)
            continue
        if s[i] == "{":
            d += 1
        elif s[i] == "}":
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ParseError("unclosed ${")


def lex_line(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in " \t\n":
            i += 1
            continue
        if c == "#":
            break
        if c == '"':
            parts, i = lex_string(s, i)
            out.append(("str", parts))
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError("bad character %r" % c)
        i = m.end()
        if m.group("float"):
            out.append(("float", float(m.group("float"))))
        elif m.group("int"):
            t = m.group("int")
            base = {"x": 16, "b": 2, "o": 8}.get(t[1:2].lower(), 10)
            out.append(("int", int(t, 0) if base != 10 else int(t)))
        elif m.group("name"):
            n = m.group("name")
            out.append(("kw" if n in KW else "name", n))
        else:
            out.append(("op", m.group("op")))
    return out


def logical_lines(src):
    """[(indent, tokens | ("cmd", parts))]"""
    out = []
    buf = None
    for raw in src.split("\n"):
        if buf is not None:
            buf += "\n" + raw
        else:
            st = raw.strip()
            if not st or st.startswith("#"):
                continue
            indent = len(raw) - len(raw.lstrip(" "))
            buf = st
        if buf.startswith("/"):
            text = buf[1:]
            parts = []
            i = 0
            cur = ""
            while i < len(text):
                if text.startswith("${", i):
                    j = match_brace(text, i + 2)
                    if cur:
                        parts.append(cur)
                    cur = ""
                    parts.append(lex_line(text[i + 2:j]))
                    i = j + 1
                else:
                    t, i = escape(text, i, False)
                    cur += t
            if cur:
                parts.append(cur)
            out.append((indent, ("cmd", parts)))
            buf = None
            continue
        toks = lex_line(buf)
        d = sum((t == ("op", "(")) + (t == ("op", "[")) + (t == ("op", "{"))
                - (t == ("op", ")")) - (t == ("op", "]")) - (t == ("op", "}"))
                for t in toks)
        if d > 0:
            continue
        out.append((indent, toks))
        buf = None
    return out


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("end", None)

    def at(self, *vals):
        t = self.peek()
        return t[0] in ("op", "kw") and t[1] in vals

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def eat(self, v):
        t = self.next()
        if t[0] not in ("op", "kw") or t[1] != v:
            raise ParseError("expected %s, got %r" % (v, t))

    def name(self):
        t = self.next()
        if t[0] != "name":
            raise ParseError("expected name, got %r" % (t,))
        return t[1]

    def done(self):
        return self.i >= len(self.t)

    # precedence climbing; every level is left associative
    LEVELS = [("or",), ("and",)]

    def expr(self):
        e = self.conj()
        if self.at("or"):
            xs = [e]
            while self.at("or"):
                self.next()
                xs.append(self.conj())
            return ("or", xs)
        return e

    def conj(self):
        e = self.neg()
        if self.at("and"):
            xs = [e]
            while self.at("and"):
                self.next()
                xs.append(self.neg())
            return ("and", xs)
        return e

    def neg(self):
        if self.at("not"):
            self.next()
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        e = self.sum()
        ops = []
        while self.at("==", "!=", "<", "<=", ">", ">="):
            o = self.next()[1]
            ops.append((o, self.sum()))
        return ("cmp", e, ops) if ops else e

    def sum(self):
        e = self.prod()
        while self.at("+", "-"):
            o = self.next()[1]
            e = ("bin", o, e, self.prod())
        return e

    def prod(self):
        e = self.unary()
        while self.at("*", "/", "%"):
            o = self.next()[1]
            e = ("bin", o, e, self.unary())
        return e

    def unary(self):
        if self.at("+", "-"):
            o = self.next()[1]
            return ("un", o, self.unary())
        return self.post()

    def post(self):
        e = self.atom()
        while True:
            if self.at("."):
                if self.peek(1) == ("kw", "new"):
                    return e
                self.next()
                e = ("attr", e, self.name())
            elif self.at("("):
                e = ("call", e) + self.args()
            elif self.at("["):
                self.next()
                xs = self.seq("]")
                e = ("sub", e, xs)
            else:
                return e

    def args(self):
        self.eat("(")
        pos, kw = [], []
        while not self.at(")"):
            if self.peek()[0] == "name" and self.peek(1) == ("op", "="):
                n = self.name()
                self.next()
                kw.append((n, self.expr()))
            else:
                if kw:
                    raise ParseError("positional after keyword")
                pos.append(self.expr())
            if self.at(","):
                self.next()
            else:
                break
        self.eat(")")
        return pos, kw

    def seq(self, close):
        xs = []
        while not self.at(close):
            xs.append(self.expr())
            if self.at(","):
                self.next()
            else:
                break
        self.eat(close)
        return xs

    def atom(self):
        k, v = self.next()
        if k in ("int", "float"):
            return (k, v)
        if k == "name":
            return ("name", v)
        if k == "str":
            parts = list(v)
            while self.peek()[0] == "str":
                parts += self.next()[1]
            return ("str", [p if isinstance(p, str) else whole(p)
                            for p in parts])
        if k == "kw" and v in ("True", "False"):
            return ("bool", v == "True")
        if k == "kw" and v == "None":
            return ("none",)
        if k == "kw" and v == "self":
            return ("self",)
        if k == "op" and v == "(":
            e = self.expr()
            self.eat(")")
            return e
        if k == "op" and v == "{":
            if self.at("}"):
                self.next()
                return ("list", [])
            if self.at(":"):
                self.next()
                self.eat("}")
                return ("map", [])
            a = self.expr()
            if self.at(":"):
                self.next()
                items = [(a, self.expr())]
                while self.at(","):
                    self.next()
                    if self.at("}"):
                        break
                    x = self.expr()
                    self.eat(":")
                    items.append((x, self.expr()))
                self.eat("}")
                return ("map", items)
            xs = [a]
            while self.at(","):
                self.next()
                if self.at("}"):
                    break
                xs.append(self.expr())
            self.eat("}")
            return ("list", xs)
        raise ParseError("unexpected %r" % ((k, v),))


def whole(toks):
    p = P(toks)
    e = p.expr()
    if not p.done():
        raise ParseError("trailing tokens %r" % (toks,))
    return e


def parse(src):
    lines = logical_lines(src)
    body, i = block(lines, 0, 0)
    if i != len(lines):
        raise ParseError("bad indentation")
    return body


def block(lines, i, indent):
    out = []
    while i < len(lines) and lines[i][0] == indent:
        s, i = stmt(lines, i, indent)
        out.append(s)
    return out, i


def sub(lines, i, indent):
    """block belonging to the header at line i"""
    if i + 1 >= len(lines) or lines[i + 1][0] <= indent:
        raise ParseError("empty block")
    return block(lines, i + 1, lines[i + 1][0])


def params(p):
    """[(port, name, type, default)]"""
    p.eat("(")
    out = []
    while not p.at(")"):
        port = ""
        if p.at("&"):
            p.next()
            port = "&"
        elif p.at("const"):
            p.next()
            port = "const"
        n = p.name()
        ty = d = None
        if p.at(":"):
            p.next()
            ty = p.expr()
        if p.at("="):
            p.next()
            d = p.expr()
        out.append((port, n, ty, d))
        if p.at(","):
            p.next()
        else:
            break
    p.eat(")")
    return out


def funcdef(p, kind, name, lines, i, indent):
    ps = params(p)
    rport, rty = "", None
    if p.at("->"):
        p.next()
        if p.at("&"):
            p.next()
            rport = "&"
        elif p.at("const"):
            p.next()
            rport = "const"
        rty = p.expr()
    p.eat(":")
    body, j = sub(lines, i, indent)
    return ("def", kind, name, ps, rport, rty, body), j


def stmt(lines, i, indent):
    toks = lines[i][1]
    if isinstance(toks, tuple) and toks[0] == "cmd":
        return ("cmd", [x if isinstance(x, str) else whole(x)
                        for x in toks[1]]), i + 1
    p = P(toks)
    k, v = p.peek()
    if k == "kw":
        if v == "pass":
            return ("pass",), i + 1
        if v == "if":
            p.next()
            c = p.expr()
            p.eat(":")
            body, j = sub(lines, i, indent)
            return _else(("if", c, body), lines, j, indent)
        if v == "while":
            p.next()
            c = p.expr()
            p.eat(":")
            body, j = sub(lines, i, indent)
            return ("while", c, body), j
        if v == "for":
            p.next()
            n = p.name()
            p.eat("in")
            e = p.expr()
            p.eat(":")
            body, j = sub(lines, i, indent)
            return ("for", n, e, body), j
        if v == "result":
            p.next()
            return ("result", p.expr()), i + 1
        if v == "def":
            p.next()
            n = p.name()
            return funcdef(p, "normal", n, lines, i, indent)
        if v == "inline" and p.peek(1) == ("kw", "def"):
            p.next()
            p.next()
            n = p.name()
            return funcdef(p, "inline", n, lines, i, indent)
        if v == "const" and p.peek(1) == ("kw", "def"):
            p.next()
            p.next()
            n = p.name()
            return funcdef(p, "const", n, lines, i, indent)
        if v == "const":
            p.next()
            paren = p.at("(")
            if paren:
                p.next()
            defs = []
            while not p.done() and not p.at(")"):
                n = p.name()
                ty = None
                if p.at(":"):
                    p.next()
                    ty = p.expr()
                p.eat("=")
                defs.append((n, ty, p.expr()))
                if p.at(","):
                    p.next()
            return ("const", defs), i + 1
        if v == "import":
            p.next()
            return ("import",) + modname(p, True), i + 1
        if v == "from":
            p.next()
            m, _ = modname(p, False)
            p.eat("import")
            if p.at("*"):
                return ("from", m, None), i + 1
            if p.at("("):
                p.next()
            names = []
            while not p.done() and not p.at(")"):
                n = p.name()
                a = n
                if p.at("as"):
                    p.next()
                    a = p.name()
                names.append((n, a))
                if p.at(","):
                    p.next()
            return ("from", m, names), i + 1
        if v == "struct":
            p.next()
            n = p.name()
            bases = extends(p)
            p.eat(":")
            body, j = struct_body(lines, i, indent)
            return ("struct", n, bases, body), j
        if v == "entity":
            p.next()
            n = p.name()
            bases = extends(p)
            p.eat(":")
            body, j = entity_body(lines, i, indent)
            return ("entity", n, bases, body), j
        if v == "interface":
            p.next()
            path = ""
            if p.peek()[0] == "str":
                path = p.next()[1]
                path = ("str", [x if isinstance(x, str) else whole(x)
                                for x in path])
            else:
                while not p.at(":"):
                    path += str(p.next()[1])
            p.eat(":")
            body, j = sub(lines, i, indent)
            return ("interface", path, body), j
        if v == "new":
            p.next()
            return ("new", None) + p.args(), i + 1
    if k == "op" and v == "&":
        p.next()
        n = p.name()
        ty = None
        if p.at(":"):
            p.next()
            ty = p.expr()
        p.eat("=")
        return ("ref", n, ty, p.expr()), i + 1
    e = p.expr()
    if p.done():
        return ("expr", e), i + 1
    if p.at("."):
        p.next()
        p.eat("new")
        return ("new", e) + p.args(), i + 1
    op = p.next()[1]
    if op == "=":
        r = ("assign", e, p.expr())
    elif op == ":=":
        r = ("auto", e[1], p.expr())
    elif op in ("+=", "-=", "*=", "/=", "%="):
        r = ("aug", op[0], e, p.expr())
    elif op == ":":
        ty = p.expr()
        val = None
        if p.at("="):
            p.next()
            val = p.expr()
        r = ("var", e[1], ty, val)
    else:
        raise ParseError("bad statement %r" % (toks,))
    if not p.done():
        raise ParseError("trailing tokens %r" % (toks,))
    return r, i + 1


def _else(head, lines, j, indent):
    els = []
    if j < len(lines) and lines[j][0] == indent and \
            not isinstance(lines[j][1], tuple):
        p = P(lines[j][1])
        if p.at("else"):
            els, j = sub(lines, j, indent)
        elif p.at("elif"):
            p.next()
            c = p.expr()
            p.eat(":")
            body, j2 = sub(lines, j, indent)
            s, j = _else(("if", c, body), lines, j2, indent)
            els = [s]
    return head + (els,), j


def modname(p, alias):
    dots = 0
    while p.at("."):
        p.next()
        dots += 1
    ns = [p.name()]
    while p.at("."):
        p.next()
        ns.append(p.name())
    a = ns[-1]
    if alias and p.at("as"):
        p.next()
        a = p.name()
    return ((dots, ns), a)


def extends(p):
    out = []
    if p.at("extends"):
        p.next()
        out.append(p.expr())
        while p.at(","):
            p.next()
            out.append(p.expr())
    return out


def struct_body(lines, i, indent):
    ind = lines[i + 1][0]
    if ind <= indent:
        raise ParseError("empty block")
    i += 1
    out = []
    while i < len(lines) and lines[i][0] == ind:
        p = P(lines[i][1])
        if p.at("pass"):
            i += 1
            continue
        n = p.name()
        p.eat(":")
        out.append((n, p.expr()))
        i += 1
    return out, i


def entity_body(lines, i, indent):
    ind = lines[i + 1][0]
    if ind <= indent:
        raise ParseError("empty block")
    i += 1
    out = []
    while i < len(lines) and lines[i][0] == ind:
        p = P(lines[i][1])
        if p.at("pass"):
            i += 1
            continue
        if p.peek()[0] == "name":
            n = p.name()
            p.eat(":")
            out.append(("field", n, p.expr()))
            i += 1
            continue
        qual = None
        kind = "normal"
        while True:
            if p.at("virtual", "override", "static"):
                qual = p.next()[1]
            elif p.at("inline", "const"):
                kind = p.next()[1]
            else:
                break
        if p.at("new"):
            p.next()
            d, i = funcdef(p, kind, "<new>", lines, i, ind)
            out.append(("new", d))
        else:
            p.eat("def")
            n = p.name()
            d, i = funcdef(p, kind, n, lines, i, ind)
            out.append(("method", qual, d))
    return out, i
