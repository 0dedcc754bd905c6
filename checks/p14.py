"""P14: syntax trees."""
from .common import *
from vlib import unit, rlex, rast
from vlib import sym

BOUNDS = ("expressions with up to 3 operators in every combination of 18 "
          "binary and 4 prefix operators; every single-token edit (replace, "
          "delete, insert one of 70 tokens) of the corpus programs, chosen "
          "symbolically; windows of up to 2 symbolic characters")
OUTSIDE = "programs further than one edit away from the corpus; the position "\
    "and wording of syntax errors"
ASSUMPTIONS = ["trees are compared field by field without positions"]

CORPUS = [
    "x: int\n", "x: int = 1 + y\n", "x := -a.b(c)[d, 2]\n", "a.b = c\n",
    "a[1] += not b\n", "/say ${a + 1} b\n", "pass\n",
    "const A = 1, B: bool = not x\n", "const (A = 1,\n  B: int = 2,)\n",
    "&r = a\n", "&r: int = f(1)\n", "import a.b as c\n", "import ..a\n",
    "from .m import a, b as c\n", "from m import (a as b, c,)\n",
    "from m import *\n", "result a or b\n", "new(a, b=1)\n",
    "T.new(type=\"cow\")\n", "a.b.new()\n", "f(a, b=c, d=-1,)\n",
    "{a, 1.5, \"x\" \"y\",}\n", "{a: 1, b: {}}\n", "{:}\n", "{1:2,}\n",
    "if a:\n  b\nelif c:\n  d\nelse:\n  e\n", "while a < b <= c:\n  pass\n",
    "for i in {1, 2}:\n  f(i)\n", "interface a/b:\n  pass\n",
    "interface \"p${a}\":\n  /x\n",
    "def f(a: int, b=1, c: bool = x) -> int:\n  result a\n",
    "inline def f(&a, const b: int = 2, c=3) -> &int:\n  result a\n",
    "const def f(a, b: list = {}) -> map:\n  result {:}\n",
    "struct S extends A, b.C:\n  x: int\n  pass\n",
    "entity E extends A:\n  x: int\n  pass\n  def f(self: E):\n    pass\n"
    "  new(a: int):\n    new()\n",
    "entity E:\n  virtual def f() -> bool:\n    result True\n"
    "  override inline def g(const a):\n    pass\n"
    "  static const def h():\n    pass\n  inline new():\n    pass\n",
    "(self.a).b(None)(True)[False]\n", "a == b != c and d\n",
    "- + a * b % c / d - e\n", "not not a or not b == c\n",
    "\"a${b}c\" \"d\"\n", "(a)\n", "a.b: int\n", "(a): int\n", "a = b = c\n",
    "f(a=1, a=2)\n", "f(a=1, 2)\n", "def f(a=1, b: int):\n  pass\n",
    "def f(a):\n  pass\n", "inline def f(a, a):\n  pass\n",
    "def f(&a: int):\n  pass\n", "def f() -> &int:\n  pass\n",
    "entity E:\n  new():\n    pass\n  new():\n    pass\n",
    "entity E:\n  const def f():\n    pass\n",
    "entity E:\n  virtual x: int\n", "if a:\nb\n", "if a: b\n",
    "a.new\n", "x = a.new()\n", "{a, b: c}\n", "{a: b, c}\n", "f(,)\n",
    "a[]\n", "def f(a,):\n  pass\n", "from m import a,\n", "struct S:\n  x\n",
    "if a:\n  b\n  if c:\n    d\n  e\nf\n", "else:\n  a\n",
    "entity E:\n  const new():\n    pass\n", "interface:\n  pass\n",
    "entity E:\n  static new():\n    pass\n",
    "entity E:\n  virtual const def f():\n    pass\n",
]
TOKENS = ("( ) [ ] { } : , + - * / % == != > < >= <= += -= *= /= %= = -> . @ "
          ":= & 1 2.5 x \"s\" True def interface inline entity extends self if "
          "elif else while pass and or not result import as from None for in "
          "struct virtual override const static new").split() + [
              "\n", "\n  ", "\n    ", "\n\n", "x y", "\"${z}\"", "x.y",
              "/c", "()", "\\\n", "a=1", "${"]
BINARY = "+ - * / % == != > < >= <= and or . , = := -".split()
PREFIX = ["", "-", "not ", "+"]


def jobs(tier, seed):
    r = rng(seed, "p14")
    out = []

    def unit_(name, **kw):
        out.append(dict(kw, kind="unit", module="p14", name=name))
    for i in range(4):
        for j in range(4):
            unit_("ops3-%d%d" % (i, j), mode="ops", pre=[i, j],
                  full=tier != "quick")
    unit_("ops-prefix", mode="prefix")
    for i, src in enumerate(CORPUS):
        toks = cut(src)
        n = len(toks)
        at = list(range(n + 1))
        if tier == "quick":
            at = r.sample(at, min(len(at), 7))
        for p in at:
            unit_("edit%d-%d" % (i, p), mode="edit", src=i, at=p)
        for _ in range(1 if tier == "quick" else 6):
            unit_("win%d-%d" % (i, _), mode="win", src=i,
                  at=r.randrange(len(src)), w=r.choice([0, 1, 1, 1, 2]))
    return out


def cut(src):
    """Rough pieces of a source text (only used to choose edit points)."""
    import re
    return re.findall(r'\n *|"[^"]*"|/say.*|/x|\w+| +|[-:+*/%=!<>]=|->|.',
                      src)


def source(job, inp):
    m = job["mode"]
    if m == "ops":
        ops = [inp.pick("o%d" % i, BINARY) for i in range(
            3 if job.get("full") else 2)]
        pre = [PREFIX[i] for i in job["pre"]] + ["", ""]
        third = [] if job.get("full") else [
            ["+", "%", "<", "==", "and", "or"][sum(job["pre"]) % 6]]
        s = "x = " + pre[0] + "a"
        for o, p, v in zip(ops + third, pre[1:], "bcd"):
            s += " %s %s%s" % (o, p, v)
        return s + "\n"
    if m == "prefix":
        ps = [inp.pick("p%d" % i, PREFIX + ["("]) for i in range(3)]
        t = inp.pick("t", ["", ".b", "(1)", "[1]", " + 1", ") * 2", ")",
                           " < 2", "))"])
        return "".join(ps) + "a" + t + "\n"
    src = CORPUS[job["src"]]
    if m == "win":
        p, w = job["at"], job["w"]
        new = "".join(inp.char(str(i)) for i in range(w or 1))
        return src[:p] + new + src[p + w:]
    toks = cut(src)
    p = job["at"]
    kind = inp.pick("kind", ["replace", "insert", "delete"]) \
        if p < len(toks) else "insert"
    if kind == "delete":
        return "".join(toks[:p] + toks[p + 1:])
    t = inp.pick("tok", TOKENS)
    return "".join(toks[:p]) + " " * (t.isalnum()) + t + \
        " " * t.isalnum() + "".join(toks[p + (kind == "replace"):])


def dump(x):
    import enum
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (list, tuple)):
        return [dump(y) for y in x]
    if isinstance(x, dict):
        return [(k, dump(v)) for k, v in x.items()]
    n = type(x).__name__
    if n == "ArgumentTable":
        return (n, [(a, dump(get(x.types, a)), dump(get(x.default, a)))
                    for a in x.args])
    if n == "ModuleMeta":
        return (n, x.leading_dots, list(x.parents), x.last_name)
    if n in rast.FIELDS:
        return (n,) + tuple(dump(getattr(x, f))
                            for f in rast.FIELDS[n].split())
    return x


def get(d, k):
    return sym.H.getitem(d, k)


def real_tree(src):
    import io
    from acaciamc.tokenizer import Tokenizer
    from acaciamc.parser import Parser
    from acaciamc.error import Error
    try:
        return dump(Parser(Tokenizer(io.StringIO(src, newline="\n"),
                                     (1, 20, 20))).module())
    except Error as e:
        return ("syntax error", e.type.name)


def ref_tree(src):
    try:
        return rast.parse(src)
    except (rast.SyntaxErr, rlex.LexError) as e:
        return ("syntax error", str(e))
    except rlex.Unspecified:
        raise unit.Skip


def spec(job, inp):
    src = source(job, inp)
    a = real_tree(src)
    b = ref_tree(src)
    show = "tree of %r: %r, expected %r" % (src, a, b) if inp.concrete \
        else "trees differ"
    ea, eb = a[0] == "syntax error", b[0] == "syntax error"
    if ea or eb:
        return [(ea != eb, show)]
    return [(unit.differ(a, b), show)]


def run_unit(job):
    return unit.run(job, spec, "p14", max_paths=20000, seconds=20,
                    witnesses=1)


def replay(data):
    return unit.replay(data, spec)
