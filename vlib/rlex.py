"""Independent tokenizer of Acacia source text (the oracle of P13 and P14).

Works on plain strings and on strings with symbolic characters: every decision
on a character goes through `H`, which is Python's own operation on concrete
text.  A token is (kind, value, pos); pos is None where it is not judged.
"""
from .sym import H

KEYWORDS = ("True def interface inline entity extends self if elif else while "
            "pass and or not result import as from None for in struct virtual "
            "override const static new False").split()
TWO = "-> := == != <= >= += -= *= /= %=".split()
ONE = "()[]{}:,+-*/%><=.@&"
OPEN = {"(": ")", "[": "]", "{": "}"}
DIGITS = "0123456789"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
PATH = frozenset(LETTERS + DIGITS + ".-_/")
HEX = frozenset(DIGITS + "abcdefABCDEF")
STYLES = dict(zip("black dark_blue dark_green dark_aqua dark_red dark_purple "
                  "gold gray dark_gray blue green aqua red light_purple yellow "
                  "white minecoin_gold".split(), "0123456789abcdefg"))
STYLES.update(reset="r", bold="l", italic="o", obfuscated="k")
MATERIALS = dict(zip("quartz iron netherite redstone copper gold emerald "
                     "diamond lapis amethyst".split(), "hijmnpqstu"))


class LexError(Exception):
    def __init__(self, kind, pos=None):
        super().__init__(kind)
        self.kind = kind
        self.pos = pos


class Unspecified(Exception):
    pass


def is_(c, x):
    return c is not None and bool(H.eq(c, x))


def among(c, xs):
    return c is not None and bool(H.in_(c, xs))


def alpha(c):
    return c is not None and (bool(H.callm(c, "isalpha")) or is_(c, "_"))


class Lex:
    def __init__(self, text, version=(1, 20, 20)):
        self.lines = text.split("\n")
        self.n = 0                  # current line
        self.i = 0                  # current column, from 0
        self.version = version
        self.out = []
        self.stack = []             # open brackets: (char, pos)
        self.levels = [0]
        self.path_next = False

    # cursor: None at the end of the line
    def c(self, k=0):
        l = self.lines[self.n]
        return l[self.i + k] if self.i + k < len(l) else None

    def last(self):
        return self.n == len(self.lines) - 1

    def pos(self):
        return (self.n + 1, self.i + 1)

    def put(self, kind, value=None, pos=None):
        self.out.append((kind, value, pos))

    # ------------------------------------------------------------- lines
    def run(self):
        while self.logical():
            pass
        while self.levels.pop():
            self.put("DEDENT")
        self.put("END_MARKER")
        return self.out

    def logical(self):
        """One logical line; False after the last one."""
        spaces = 0
        while is_(self.c(), " "):
            spaces += 1
            self.i += 1
        self.start = len(self.out)
        self.fresh = spaces         # indentation still to be applied
        self.spanned = False        # a comment crossed a line break
        self.code(None)
        more = not self.last()
        if len(self.out) > self.start:
            if self.path_next:
                raise LexError("INTERFACE_PATH_EXPECTED")
            self.put("NEW_LINE")
        self.n += 1
        self.i = 0
        return more

    def physical_end(self, backslash):
        if self.fresh is None:
            return
        if len(self.out) == self.start and not backslash:
            return
        if self.spanned:
            raise Unspecified
        n, self.fresh = self.fresh, None
        at = self.start
        if n > self.levels[-1]:
            self.levels.append(n)
            self.out.insert(at, ("INDENT", None, None))
            self.start += 1
            return
        if n not in self.levels:
            raise LexError("INVALID_DEDENT")
        while self.levels[-1] != n:
            self.levels.pop()
            self.out.insert(at, ("DEDENT", None, None))
            self.start += 1

    def next_line(self):
        self.n += 1
        self.i = 0

    # -------------------------------------------------------------- code
    def code(self, inside):
        """Tokens up to the end of the logical line, or (inside a formatted
        expression) up to and including its closing brace."""
        base = len(self.stack)
        while True:
            c = self.c()
            if is_(c, " "):
                self.i += 1
            elif c is None or is_(c, "\\"):
                back = c is not None
                if inside == "line":
                    raise LexError("UNCLOSED_FEXPR")
                if back:
                    self.i += 1
                    if self.c() is not None:
                        raise LexError("CHAR_AFTER_CONTINUATION", self.pos())
                    if self.last():
                        raise LexError("EOF_AFTER_CONTINUATION")
                if self.last():
                    if inside:
                        raise LexError("UNCLOSED_FEXPR")
                    if self.stack:
                        raise LexError("UNCLOSED_BRACKET", self.stack[-1][1])
                self.physical_end(back)
                if self.last():
                    return
                if not (back or self.stack):
                    return
                if inside is None and self.fresh is not None:
                    # nothing yet: cannot happen with an open bracket
                    raise AssertionError
                self.next_line()
            elif is_(c, "#"):
                if is_(self.c(1), "*"):
                    self.i += 2
                    self.comment(inside)
                else:
                    self.i = len(self.lines[self.n])
            elif self.path_next:
                self.path_next = False
                if is_(c, '"'):
                    self.string()
                    continue
                p = self.pos()
                s = ""
                while among(self.c(), PATH):
                    s += self.c()
                    self.i += 1
                if not s:
                    raise LexError("INTERFACE_PATH_EXPECTED")
                self.put("INTERFACE_PATH", s, p)
            elif among(c, DIGITS):
                self.number()
            elif alpha(c):
                self.word()
            elif is_(c, '"'):
                self.string()
            elif is_(c, "/") and len(self.out) == self.start:
                self.command()
            else:
                if self.op(c) and inside and len(self.stack) < base:
                    return

    def op(self, c):
        p = self.pos()
        d = self.c(1)
        if d is not None:
            for t in TWO:
                if is_(c, t[0]) and is_(d, t[1]):
                    self.put(t, None, p)
                    self.i += 2
                    return False
        for t in ONE:
            if is_(c, t):
                break
        else:
            raise LexError("INVALID_CHAR", p)
        closed = False
        if t in OPEN:
            self.stack.append((t, p))
        elif t in OPEN.values():
            if not self.stack:
                raise LexError("UNMATCHED_BRACKET", p)
            if OPEN[self.stack.pop()[0]] != t:
                raise LexError("UNMATCHED_BRACKET_PAIR", p)
            closed = True
        self.put(t, None, p)
        self.i += 1
        return closed

    def comment(self, inside):
        star = False
        while True:
            c = self.c()
            if c is None:
                if inside == "line":
                    raise LexError("UNCLOSED_FEXPR")
                if self.last():
                    raise LexError("UNCLOSED_FEXPR" if self.in_string_expr
                                   else "UNCLOSED_LONG_COMMENT")
                self.physical_end(False)
                if self.fresh is not None:
                    self.spanned = True
                self.next_line()
                star = False
                continue
            self.i += 1
            if star and is_(c, "#"):
                return
            star = is_(c, "*")
    in_string_expr = False

    def number(self):
        p = self.pos()
        base = 10
        if is_(self.c(), "0") and self.c(1) is not None:
            for ch, b in (("bB", 2), ("oO", 8), ("xX", 16)):
                if among(self.c(1), ch):
                    base = b
                    self.i += 2
                    break
        s = ""
        legal = DIGITS[:base] if base <= 10 else HEX
        while among(self.c(), legal):
            s += self.c()
            self.i += 1
        if base == 10 and is_(self.c(), ".") and among(self.c(1), DIGITS):
            s += "."
            self.i += 1
            while among(self.c(), DIGITS):
                s += self.c()
                self.i += 1
            self.put("FLOAT", H.callb(float, s), p)
            return
        if not s:
            raise LexError("INTEGER_REQUIRED")
        self.put("INTEGER", H.callb(int, s, base), p)

    def word(self):
        p = self.pos()
        s = ""
        while alpha(self.c()) or among(self.c(), DIGITS):
            s += self.c()
            self.i += 1
        for k in KEYWORDS:
            if is_(s, k):
                self.put(k, None, p)
                self.path_next = k == "interface"
                return
        self.put("IDENTIFIER", s, p)

    # ----------------------------------------------------- strings, commands
    def string(self):
        p = self.pos()
        self.i += 1
        self.put("STRING_BEGIN", None, None)
        text = ""
        while True:
            c = self.c()
            if c is None:
                raise LexError("UNCLOSED_QUOTE")
            if is_(c, '"'):
                break
            if is_(c, "\\") and is_(self.c(1), '"'):
                text += '"'
                self.i += 2
                continue
            text = self.piece(text, "line")
        self.i += 1
        self.flush(text)
        self.put("STRING_END")

    def command(self):
        self.put("COMMAND_BEGIN")
        self.i += 1
        long = is_(self.c(), "*")
        if long:
            self.i += 1
        text = ""
        while True:
            c = self.c()
            if c is None:
                if not long:
                    break
                if self.last():
                    raise LexError("UNCLOSED_LONG_COMMAND")
                self.physical_end(False)
                text += " "
                self.next_line()
                continue
            if long and is_(c, "*") and is_(self.c(1), "/"):
                self.i += 2
                break
            text = self.piece(text, "long" if long else "line")
        self.flush(text)
        self.put("COMMAND_END")

    def flush(self, text):
        if text:
            self.put("TEXT_BODY", text)

    def piece(self, text, inside):
        """One character, escape or formatted expression of a text."""
        c = self.c()
        if is_(c, "$") and is_(self.c(1), "{"):
            self.flush(text)
            self.put("DOLLAR_LBRACE")
            self.i += 1
            self.stack.append(("{", self.pos()))
            self.i += 1
            self.code(inside)
            return ""
        self.i += 1
        if not is_(c, "\\"):
            return text + c
        d = self.c()
        if is_(d, "$"):
            self.i += 1
            return text + "$"
        if is_(d, "\\"):
            self.i += 1
            return text + "\\"
        if is_(d, "#"):
            self.i += 1
            if not is_(self.c(), "("):
                return text + "\xa7"
            self.i += 1
            return text + self.styles()
        for e, n in (("x", 2), ("u", 4), ("U", 8)):
            if is_(d, e):
                self.i += 1
                s = ""
                for _ in range(n):
                    if not among(self.c(), HEX):
                        raise LexError("INVALID_UNICODE_ESCAPE")
                    s += self.c()
                    self.i += 1
                v = H.callb(int, s, 16)
                if v > 0x10ffff:
                    raise LexError("INVALID_UNICODE_ESCAPE")
                return text + H.callb(chr, v)
        return text + "\\"

    def styles(self):
        out = ""
        word = ""
        while True:
            c = self.c()
            if c is None:
                raise LexError("UNCLOSED_FONT")
            end = is_(c, ")")
            if end or is_(c, ","):
                out += "\xa7" + self.style(H.callm(word, "strip"))
                word = ""
            else:
                word += c
            self.i += 1
            if end:
                return out

    def style(self, w):
        for k, v in STYLES.items():
            if is_(w, k):
                return v
        if H.ge(self.version, (1, 19, 80)):
            for k, v in MATERIALS.items():
                if is_(w, "material_" + k):
                    return v
        raise LexError("INVALID_FONT")
