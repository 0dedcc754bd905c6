"""P15: arguments reach the parameters they are meant for."""
import os
import shutil
import tempfile
from .common import *
from vlib import unit, tv as tvm
from vlib.sym import H

BOUNDS = ("callables of 0-4 parameters (functions, inline and constant "
          "functions, methods, virtual methods, static functions, "
          "constructors, structs, nested and aliased functions; int, bool, "
          "reference and constant parameters; defaults), called 1-3 times "
          "with every mixture of positional, keyword and left-out arguments, "
          "all values symbolic over int32; argument and parameter names with "
          "up to 3 symbolic characters of a 5-letter alphabet, for language "
          "callables and for library functions with positional-only, "
          "keyword-only, *args and **kwds parameters")
OUTSIDE = ("overloaded library functions take positional arguments only; "
           "parameters whose values are entities or containers")
ASSUMPTIONS = ass_arith()

OUT = ["o0", "o1", "o2", "o3"]
HEAD = PRE + "".join('&%s = scb("%s", "in")\n' % (o, o) for o in OUT)
EXTS = EXT + OUT
AN = ["p", "q", "u", "v"]
# names that code inside the compiler may use for itself
ODD = ["compiler", "implementation", "all_args", "args", "keywords", "kwds",
       "name", "value", "func", "instance", "cls", "owner", "node", "source",
       "arg", "type_", "fields", "caller", "context", "var", "target"]
KINDS = ["def", "inline", "const", "method", "virtual", "override",
         "vinline", "static", "new", "struct", "nested", "alias", "minline",
         ]


class Sig:
    """a callable and a way to call it"""

    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        names = AN[:] if r.random() < .75 else r.sample(ODD, 4)
        r.shuffle(names)
        self.ps = []
        d = False
        for nm in names[:n]:
            d = d or (r.random() < .3 and kind != "struct")
            port = ""
            if kind in ("inline", "vinline", "minline"):
                port = r.choice(["", "", "const", "&"])
            ty = r.choice(["int", "int", "int", "bool"])
            self.ps.append((nm, port, ty, d))

    def lit(self, ty):
        L.n += 1
        return "K%d" % L.n if ty == "int" else L.r.choice(["True", "False"])

    def params(self):
        out = []
        for n, port, ty, d in self.ps:
            if port == "&":
                t = "&%s: %s" % (n, ty)
                if d:
                    v = self.r.choice("abc") if ty == "int" else "t"
                    t = (t + " = " if self.r.random() < .5 else
                         "&%s=" % n) + v
                out.append(t)
                continue
            dv = self.lit(ty) if d else None
            if port == "const":
                t = "const " + n + (": " + ty if self.r.random() < .5 else "")
            elif self.kind == "const":
                t = n + (": " + ty if self.r.random() < .5 else "")
            else:
                t = n + (": " + ty if not d or self.r.random() < .5 else "")
            out.append(t + (("=" if ":" not in t else " = ") + dv if d
                            else ""))
        return ", ".join(out)

    def order(self):
        """defaults follow"""
        self.ps.sort(key=lambda p: p[3])

    def body(self, ind):
        out = []
        for i, (n, port, ty, d) in enumerate(self.ps):
            e = n if ty == "int" else "int(%s)" % n
            out.append("%s%s = %s" % (ind, OUT[i], e))
            if port == "&":
                out.append("%s%s = %s" % (ind, n, "%s + 1" % n
                                          if ty == "int" else "not " + n))
            elif port == "" and self.r.random() < .4 and \
                    self.kind not in ("struct",):
                # by value: the caller's variable stays
                out.append("%s%s = %s" % (ind, n, "a - b" if ty == "int"
                                          else "a > b"))
        if not out:
            out.append(ind + "r += 1")
        return "\n".join(out) + "\n"

    def define(self):
        self.order()
        k = self.kind
        P = self.params()
        if k in ("def", "alias"):
            s = "def f(%s):\n%s" % (P, self.body("    "))
            self.callee = "f"
            if k == "alias":
                s += "const g = f\n"
                self.callee = "g"
        elif k == "nested":
            s = "def f0():\n    def f(%s):\n%s" % (P, self.body("        "))
            self.callee, self.ind = "f", "    "
        elif k == "inline":
            s = "inline def f(%s):\n%s" % (P, self.body("    "))
            self.callee = "f"
        elif k == "const":
            ws = self.r.sample([1, 10, 100, 1000], len(self.ps))
            e = " + ".join("%s * %d" % (n if t == "int" else "tr(%s)" % n, w)
                           for (n, _, t, _), w in zip(self.ps, ws)) or "7"
            s = "const def tr(x: bool) -> int:\n    if x:\n        result 1\n" \
                "    else:\n        result 0\n"
            s += "const def f(%s) -> int:\n    result %s\n" % (P, e)
            self.callee = "f"
        elif k == "struct":
            s = "struct S:\n" + "".join("    %s: %s\n" % (n, t)
                                        for n, _, t, _ in self.ps) + \
                ("" if self.ps else "    pass\n")
            self.callee = "S"
        else:
            q = {"method": "def", "virtual": "virtual def",
                 "override": "virtual def", "vinline": "virtual inline def",
                 "static": "static def", "new": "new",
                 "minline": "inline def"}[k]
            nm = "" if k == "new" else " f"
            pre = "        new('cow', Pos(0, 0, 0))\n".replace("'", '"') \
                if k == "new" else ""
            s = "entity E:\n    w: int\n    %s%s(%s):\n%s%s" % (
                q, nm, P, pre, self.body("        "))
            if k == "override":
                s += "entity F extends E:\n    override def f(%s):\n%s" % (
                    P, self.body("        "))
            self.callee = "E" if k == "new" else "E.f" if k == "static" \
                else "e.f"
            if k in ("static", "new"):
                pass
            elif k == "override":
                s += 'e: E\ne1 := E("cow", Pos(0, 0, 0))\n' \
                     'e2 := F("cow", Pos(0, 0, 0))\n' \
                     'e = e1\nif a > b:\n    e = e2\n'
            else:
                s += 'e := E("cow", Pos(0, 0, 0))\n'
            if k == "method" and self.r.random() < .3:
                s += "const m = e.f\n"
                self.callee = "m"
        return s

    def value(self, port, ty, cvar=False):
        if ty == "bool":
            if port == "&":
                return "t"
            if port == "const" or self.kind == "const":
                return self.r.choice(["True", "False"])
            return self.r.choice(["a > b", "t", "True", "False", "not t",
                                  "b >= K0 and a < c"])
        if port == "&":
            return self.r.choice(["a", "b", "c", "r"])
        if port == "const" or self.kind == "const":
            return self.r.choice([self.lit("int"), self.lit("int"), "-3"])
        return self.r.choice(["a", "b", "c", "a + b", "b * c - a",
                              self.lit("int")])

    def args(self):
        n = len(self.ps)
        k = 0 if self.kind == "struct" else self.r.randint(0, n)
        out = [self.value(p, t) for _, p, t, _ in self.ps[:k]]
        kws = []
        for nm, p, t, d in self.ps[k:]:
            if (d and self.r.random() < .55) or (
                    self.kind == "struct" and self.r.random() < .3):
                continue
            kws.append((nm, self.value(p, t)))
        self.r.shuffle(kws)
        return out, kws

    def bad(self):
        """an argument list that binds no parameter list"""
        for _ in range(50):
            pos, kw = self.args()
            x = self.r.choice(["many", "unknown", "twice", "missing", "type",
                               "const", "ref"])
            need = [n for n, p, t, d in self.ps if not d]
            if x == "many":
                pos = [self.value(p, t) for _, p, t, _ in self.ps] + ["a"]
                if self.kind == "const":
                    pos[-1] = "1"
                return pos, []
            if x == "unknown":
                i = self.r.randint(0, len(kw))
                return pos, kw[:i] + [("w", self.value("", "int"))] + kw[i:]
            if x == "twice" and pos:
                i = self.r.randrange(len(pos))
                n, p, t, d = self.ps[i]
                return pos, kw + [(n, self.value(p, t))]
            if x == "twice" and kw:
                return pos, kw + [self.r.choice(kw)]
            if x == "missing" and need and self.kind != "struct":
                n = self.r.choice(need)
                i = [p[0] for p in self.ps].index(n)
                kws = dict(kw)
                for m, v in zip([p[0] for p in self.ps][i + 1:], pos[i + 1:]):
                    kws[m] = v
                kws.pop(n, None)
                return pos[:i], list(kws.items())
            if x == "type" and self.ps:
                i = self.r.randrange(len(self.ps))
                n, p, t, d = self.ps[i]
                if self.kind == "const" or p == "const":
                    continue
                v = "a" if t == "bool" else "a > b"
                if p == "&":
                    v = "a" if t == "bool" else "t"
                if i < len(pos):
                    pos[i] = v
                else:
                    kw = [y for y in kw if y[0] != n] + [(n, v)]
                return pos, kw
            if x in ("const", "ref"):
                c = [i for i, p in enumerate(self.ps)
                     if (p[1] == "const" or self.kind == "const")
                     and x == "const" or p[1] == "&" and x == "ref"]
                if c:
                    i = self.r.choice(c)
                    n, p, t, d = self.ps[i]
                    v = ("a" if t == "int" else "t") if x == "const" else \
                        ("a + b" if t == "int" else "True")
                    if i < len(pos):
                        pos[i] = v
                    else:
                        kw = [y for y in kw if y[0] != n] + [(n, v)]
                    return pos, kw
        return ["a"] * 7, []

    def text(self, pos, kw):
        xs = pos + ["%s=%s" % x for x in kw]
        tail = "," if xs and self.r.random() < .1 else ""
        return "%s(%s%s)" % (self.callee, ", ".join(xs), tail)

    def call(self, bad=False, i=0):
        t = self.text(*(self.bad() if bad else self.args()))
        if self.kind == "const":
            return "%s = %s\n" % (self.r.choice(["r", "s", "o0", "o1"]), t)
        if self.kind == "struct":
            s = "z%d := %s\n" % (i, t)
            if bad:
                return s
            got = {x.split("=")[0] for x in t[2:-1].replace(" ", "").split(
                ",")}
            for j, (n, _, ty, _) in enumerate(self.ps):
                if n in got:
                    s += "%s = %s\n" % (OUT[j], "z%d.%s" % (i, n)
                                        if ty == "int" else
                                        "int(z%d.%s)" % (i, n))
            return s
        return t + "\n"


class L:
    n = 0
    r = None


def program(r, kind, bad):
    L.n, L.r = 0, r
    s = Sig(r, kind)
    src = "t := a > c\n" + s.define()
    body = ""
    n = r.choice([1, 2, 2, 3]) if not bad else r.choice([1, 2])
    at = r.randrange(n)
    for i in range(n):
        c = s.call(bad and i == at, i)
        if r.random() < .2 and kind not in ("struct",) and not bad:
            c = "if b > %d:\n    %s" % (i, c)
        body += c
        if i + 1 < n and r.random() < .4:
            for j in range(len(s.ps)):
                body += "s = s * 3 + o%d\n" % j
    if kind == "nested":
        body = "".join("    " + x + "\n" for x in body.splitlines())
        body += "f0()\n"
    return src + body + "s = s + int(t)\n"


# --------------------------------------------------------- symbolic names
# (parameters, call): ? is a symbolic character.  * _ defaults to 9.
ALPHA = "abcd_"
NAMES = {
    "kw": (["ab", "cd"], "?b=1, cd=2"),
    "kw-2": (["ab", "cd"], "1, ??=2"),
    "kw-both": (["ab", "cd"], "?b=1, c?=2"),
    "kw-swap": (["ab", "ba"], "??=1, ??=2"),
    "kw-default": (["ab", "cd=9"], "1, ??=2"),
    "kw-default-2": (["ab=8", "cd=9"], "??=2"),
    "kw-default-3": (["ab=8", "cd=9", "d=7"], "1, ?=2"),
    "kw-three": (["a", "b", "c"], "1, ?=2, ?=3"),
    "kw-three-2": (["a", "b", "c"], "?=1, ?=2, ?=3"),
    "kw-three-3": (["a", "b=8", "c=9"], "?=1, ?=2"),
    "kw-len": (["a", "ab", "abc=9"], "?=1, a?=2, ab?=3"),
    "kw-one": (["a"], "?=1"),
    "kw-none": ([], "?=1"),
    "kw-pos": (["a", "b"], "1, 2, ?=3"),
    "kw-four": (["a", "b", "c=8", "d=9"], "1, ?=2, ?=3"),
    "kw-four-2": (["a=6", "b=7", "c=8", "d=9"], "?=1, ?=2"),
    "par": (["a?", "ab"], "1, 2"),
    "par-2": (["??", "ab"], "1, ab=2"),
    "par-3": (["?", "?", "b"], "1, 2, b=3"),
    "par-default": (["?", "?=8", "c=9"], "1, c=2"),
    "par-kw": (["?", "?"], "?=1, ?=2"),
    "par-kw-default": (["?=8", "?=9"], "?=1"),
    "par-kw-default-2": (["?", "?=9"], "1, ?=2"),
}
KW_KINDS = ["inline", "const", "constarg", "minline", "static", "def"]
# library functions: parameters with / (positional-only before it), *
# (keyword-only after it), *n and **n; called as above
LIB = {
    "pos-only": (["a", "b", "/", "c"], "1, 2, ?=3"),
    "pos-only-2": (["a", "/", "b", "c=9"], "1, ?=2, ?=3"),
    "pos-only-kwds": (["a", "/", "b", "**k"], "1, ?=2, ?=3"),
    "pos-only-default": (["a", "b=8", "/", "c=9"], "1, ?=2"),
    "pos-only-three": (["a", "b=8", "/", "c=9"], "1, 2, 3"),
    "star": (["a", "*", "b", "c=9"], "1, ?=2, ?=3"),
    "star-2": (["a", "*", "b"], "?=1, ?=2"),
    "star-3": (["a", "*", "b"], "1, 2"),
    "args": (["a", "*x"], "1, 2, 3"),
    "args-0": (["a", "*x"], "1"),
    "args-kw": (["a", "*x", "b=9"], "1, 2, ?=3"),
    "args-kw-2": (["a", "*b", "c"], "1, ?=2"),
    "args-kw-3": (["a", "b", "*c"], "?=1, ?=2"),
    "kwds": (["a", "**k"], "1, ?=2, ?=3"),
    "kwds-2": (["a", "b=8", "**k"], "1, ??=2"),
    "kwds-3": (["**k"], "?=1, ?=2"),
    "kwds-name": (["a", "**b"], "1, ?=2"),
    "kwds-args": (["a", "*b", "**c"], "1, 2, ?=3, ?=4"),
    "kwds-late": (["a", "/", "b", "*", "c=9", "**d"], "1, ?=2, ?=3"),
    "kwds-0": (["a", "*b", "**c"], "1"),
    "plain": (["a", "b", "c=9"], "1, ?=2, ?=3"),
    "plain-2": (["a", "b", "c=9"], "?=1, ?=2"),
    "plain-3": (["a=7", "b=8", "c=9"], "?=1, ?=2"),
    "plain-4": (["a=7", "b=8", "c=9"], "1, ?=2"),
    "plain-5": (["ab", "ac", "bc=9"], "??=1, ?c=2"),
    "plain-6": (["a", "b"], "1, 2, ?=3"),
    "plain-7": (["a", "b"], "1, 2, 3"),
}


def same(a, b):
    return len(a) == len(b) and all(bool(H.eq(x, y)) for x, y in zip(a, b))


def compile_(files):
    d = tempfile.mkdtemp(prefix="vp", dir=tvm.TMP)
    try:
        for n, s in files.items():
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(s)
        try:
            return tvm.compile_case(os.path.join(d, "prog.aca"),
                                    os.path.join(d, "o"), {})
        except tvm.CompileError as e:
            return str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class No(Exception):
    pass


def bind(params, pos, kw):
    """{parameter: value}; the binding rules of the language (and of Python
    for / * *n **n).  A parameter is (kind, name, default)."""
    out = []
    used = [False] * len(params)
    val = [None] * len(params)
    slots = [i for i, p in enumerate(params) if p[0] in "pn"]
    star = [i for i, p in enumerate(params) if p[0] == "A"]
    dstar = [i for i, p in enumerate(params) if p[0] == "K"]
    for i in star:
        val[i], used[i] = list(pos[len(slots):]), True
    if len(pos) > len(slots) and not star:
        raise No("too many")
    for i, v in zip(slots, pos):
        val[i], used[i] = v, True
    extra = []
    for k, v in kw:
        for j, p in enumerate(params):
            if p[0] in "pnk" and same(p[1], k):
                if p[0] == "p":
                    raise No("positional only")
                if used[j]:
                    raise No("twice")
                val[j], used[j] = v, True
                break
        else:
            if not dstar:
                raise No("unknown")
            extra.append((k, v))
    for i, (k, v) in enumerate(extra):
        if any(same(k, k2) for k2, _ in extra[:i]):
            raise No("twice")
    for i in dstar:
        val[i], used[i] = extra, True
    for i, p in enumerate(params):
        if not used[i]:
            if p[2] is None:
                raise No("missing")
            val[i] = p[2]
    return val


def holes(inp, text, tag):
    return "".join(inp.among("%s%d" % (tag, i), ALPHA) if c == "?" else c
                   for i, c in enumerate(text))


def ident(s):
    return not any(bool(H.eq(s, k)) for k in ())


def probe(params):
    """A library module with one function of these parameters."""
    s = ("from acaciamc.tools import axe, resultlib\n"
         "from acaciamc.objects import BinaryFunction\n"
         "from acaciamc.mccmdgen import cmds\n"
         "from acaciamc.mccmdgen.expr import *\n"
         "from acaciamc.compiler import Compiler\n"
         "def show(x):\n"
         "    if isinstance(x, list):\n"
         "        return '[' + ' '.join(show(y) for y in x) + ']'\n"
         "    if isinstance(x, dict):\n"
         "        return '{' + ' '.join(k + ':' + show(y) for k, y in "
         "x.items()) + '}'\n"
         "    return str(x)\n@axe.chop\n")
    names = []
    for p in params:
        if p == "/":
            s += "@axe.slash\n"
        elif p == "*":
            s += "@axe.star\n"
        elif p.startswith("**"):
            s += "@axe.kwds(%r, axe.LiteralInt())\n" % p[2:]
            names.append(p[2:])
        elif p.startswith("*"):
            s += "@axe.star_arg(%r, axe.LiteralInt())\n" % p[1:]
            names.append(p[1:])
        else:
            n, _, d = p.partition("=")
            s += "@axe.arg(%r, axe.LiteralInt()%s)\n" % (
                n, ", default=" + d if d else "")
            names.append(n)
    s += "def f(compiler, %s):\n" % ", ".join(names)
    s += "    return resultlib.commands([cmds.Cmd('say %s' %% (%s))])\n" % (
        " ".join("%s=%%s" % n for n in names),
        "".join("show(%s), " % n for n in names))
    s += ("def acacia_build(compiler):\n"
          "    return {'f': BinaryFunction(f)}\n")
    return s


def name_spec(job, inp):
    pars = []
    for i, p in enumerate(job["params"]):
        n, _, d = p.partition("=")
        pars.append((holes(inp, n, "p%d" % i), d))
    pos, kw = [], []
    for i, a in enumerate(job["call"].split(", ")):
        n, eq, v = a.partition("=")
        if eq:
            kw.append((holes(inp, n, "k%d" % i), v))
        else:
            pos.append(a)
    call = ", ".join(pos + ["%s=%s" % x for x in kw])
    k = job["part"]
    # the reference
    try:
        params, mode, outn = [], "n", []
        if k == "lib":
            slash = any(p == "/" for p, _ in pars)
            mode = "p" if slash else "n"
        for n, d in pars:
            if n == "/":
                mode = "n"
            elif n == "*":
                mode = "k"
            elif n.startswith("**"):
                params.append(("K", n[2:], None))
                outn.append(n[2:])
            elif n.startswith("*"):
                params.append(("A", n[1:], None))
                outn.append(n[1:])
                mode = "k"
            else:
                params.append((mode, n, d or None))
                outn.append(n)
        for i, x in enumerate(outn):
            if k != "lib" and any(same(x, y) for y in outn[:i]):
                raise No("parameter twice")
        for i, x in enumerate(kw):
            if any(same(x[0], y[0]) for y in kw[:i]):
                raise No("keyword twice")
        vals = bind(params, pos, kw)
        want = []
        for v in vals:
            if isinstance(v, list):
                v = "{%s}" % " ".join("%s:%s" % x for x in v) \
                    if v and isinstance(v[0], tuple) else \
                    "[%s]" % " ".join(v) if v else v
            want.append(v)
        for i, p in enumerate(params):
            if want[i] == []:
                want[i] = "[]" if p[0] == "A" else "{}"
    except No as e:
        want = e
    # the program
    if k == "lib":
        files = {"probe.py": probe(job["params"]),
                 "prog.aca": "import probe\nprobe.f(%s)\n" % call}
        text = None if isinstance(want, No) else "say " + " ".join(
            "%s=%s" % x for x in zip(outn, want))
    else:
        b = "/say " + " ".join("${%s}" % n for n, _ in pars)
        ty = "" if k in ("const", "constarg") else ": int"
        P = ", ".join(("const " if k in ("constarg", "inline", "minline")
                       else "") + n + ty + (" = " + d if d else "")
                      for n, d in pars)
        if k == "const":
            e = " + ".join("%s * %d" % (n, 10 ** i)
                           for i, (n, _) in enumerate(pars)) or "0"
            src = "const def f(%s) -> int:\n    result %s\n" \
                  "const w = f(%s)\n/say ${w}\n" % (P, e, call)
        elif k in ("inline", "constarg"):
            src = "inline def f(%s):\n    %s\nf(%s)\n" % (P, b, call)
        elif k == "minline":
            src = "entity E:\n    static inline def f(%s):\n        %s\n" \
                  "E.f(%s)\n" % (P, b, call)
        else:
            e = "\n".join('    x%d = %s' % (i, n)
                          for i, (n, _) in enumerate(pars)) or "    pass"
            d = "".join('&x%d = scb("x%d", "in")\n' % (i, i)
                        for i in range(len(pars)))
            if k == "static":
                e = e.replace("    ", "        ")
                src = d + "entity E:\n    static def f(%s):\n%s\nE.f(%s)\n" % (
                    P, e, call)
            else:
                src = d + "def f(%s):\n%s\nf(%s)\n" % (P, e, call)
        files = {"prog.aca": src}
        text = None
        if not isinstance(want, No):
            if k == "const":
                text = "say %d" % sum(int(v) * 10 ** i
                                      for i, v in enumerate(want))
            elif k in ("def", "static"):
                text = want
            else:
                text = "say " + " ".join(want)
    got = compile_(files)
    show = files["prog.aca"] if inp.concrete else job["name"]
    if isinstance(got, str):
        return [(not isinstance(want, No),
                 "%s is rejected: %s" % (show, got))]
    if isinstance(want, No):
        return [(True, "%s is accepted (%s)" % (show, want))]
    if isinstance(text, list):
        try:
            val = execute(got)
        except Exception as e:
            raise unit.Skip
        return [(val.get("x%d" % i) != int(v),
                 "%s sets parameter %d to %s, not %s" % (
                     show, i, val.get("x%d" % i), v))
                for i, v in enumerate(text)]
    lines = [l for f in got.values() for l in f.split("\n")
             if l.startswith("say ")]
    if len(lines) != 1:
        return [(True, "%s gives %d commands" % (show, len(lines)))]
    return [(unit.differ(lines[0], text),
             "%s gives %r, not %r" % (show, lines[0], text))]


def execute(files):
    """values of the x<i> of a straight-line program of set and copy"""
    val = {}

    def run(path):
        for l in files[path].split("\n"):
            w = l.split(" ")
            if l.startswith("scoreboard players set"):
                val[w[3], w[4]] = int(w[5])
            elif l.startswith("scoreboard players operation") and \
                    w[5] == "=":
                val[w[3], w[4]] = val[w[6], w[7]]
            elif l.startswith("function "):
                for p in files:
                    if p.endswith(w[1] + ".mcfunction"):
                        run(p)
                        break
                else:
                    raise KeyError(w[1])
            elif l and not l.startswith(("#", "scoreboard objectives")):
                raise KeyError(l)
    run([p for p in files if p.endswith("main.mcfunction")][0])
    return {k[0]: v for k, v in val.items()}


def run_unit(job):
    return unit.run(job, name_spec, "p15", 600, 8, 2)


def replay(data):
    return unit.replay(data, name_spec)


def jobs(tier, seed):
    r = rng(seed, "p15")
    out = []
    for n, (ps, call) in NAMES.items():
        for k in KW_KINDS:
            out.append({"kind": "unit", "module": "p15", "part": k,
                        "name": "names-%s-%s" % (k, n), "params": ps,
                        "call": call})
    for n, (ps, call) in LIB.items():
        out.append({"kind": "unit", "module": "p15", "part": "lib",
                    "name": "lib-" + n, "params": ps, "call": call})
    n = 14 if tier == "quick" else 160
    for k in KINDS:
        for i in range(n):
            bad = i % 5 in (2, 4)
            opts = {}
            if k in ("method", "virtual", "override", "vinline", "static",
                     "new", "minline"):
                opts["world"] = {}
            if i % 4 == 3:
                opts["cfg"] = {"optimizer": False}
            out.append(tv("%s-%s%d" % (k, "bad" if bad else "call", i),
                          program(r, k, bad), pre=HEAD, ext=EXTS, **opts))
    return out
