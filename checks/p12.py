"""P12: modules."""
from .common import *
from .progen import PG

BOUNDS = ("up to 5 user modules (in folders up to three deep below and two "
          "above the main file's), imports at top level and "
          "in functions, interfaces, branches and loops; all literals and "
          "initial scores symbolic over int32; every export/alias form of "
          "the language; the main file run up to 2 times")
OUTSIDE = "modules written in Python other than the builtin ones"
ASSUMPTIONS = ass_arith()

CNT = "x := K0\n/say load\ndef inc():\n    x += 1\n"

# name -> (files, body, entries, pre?)
H = {}


def case(name, body, entry=None, **files):
    H[name] = (dict((k.replace("__", "."), v) for k, v in files.items()),
               body, entry)


case("attr", "import m\nr = m.x", m=CNT)
case("attr-call", "import m\nm.inc()\nm.inc()\nr = m.x", m=CNT)
case("alias", "import m as q\nq.inc()\nr = q.x", m=CNT)
case("from", "from m import x, inc\ninc()\nr = x\nx = a\ns = x", m=CNT)
case("from-alias", "from m import x as y, inc as up\nup()\nr = y\nx := b\n"
     "s = x", m=CNT)
case("from-alias-twice", "from m import x as p, x as q\np = a\nr = q", m=CNT)
case("from-paren", "from m import (x, inc as up)\nup()\nr = x", m=CNT)
case("star", "from m import *\ninc()\nr = x", m=CNT)
case("once-two-imports", "import m\nimport m as n\nm.inc()\nr = n.x", m=CNT)
case("once-import-from", "import m\nm.inc()\nfrom m import x\nr = x", m=CNT)
case("once-from-import", "from m import inc\ninc()\nimport m\nr = m.x", m=CNT)
case("shared-state", "import m\nfrom m import inc\ninc()\nm.inc()\nr = m.x",
     m=CNT)
case("assign-through", "import m\nm.x = a\nm.inc()\nfrom m import x\nr = x",
     m=CNT)
case("order", "/say before\nimport m\n/say after\nr = m.x", m=CNT)
case("order-two", "import m\nimport n\nr = m.x - n.y",
     m=CNT, n="y := 5\n/say n\n")
case("nested", "import n\nr = n.get()\ns = n.q",
     n="import m\nq := m.x * 2\n/say n\ndef get() -> int:\n"
       "    m.inc()\n    result m.x + q\n", m=CNT)
case("diamond", "import p\nimport q\nr = p.v + q.v\nimport m\ns = m.x",
     p="import m\nm.inc()\nv := m.x\n/say p\n",
     q="import m\nm.inc()\nv := m.x\n/say q\n", m=CNT)
case("no-reexport-import", "import n\nr = n.m.x", n="import m\ny := 1\n",
     m=CNT)
case("no-reexport-from", "import n\nr = n.x", n="from m import x\ny := x\n",
     m=CNT)
case("no-reexport-from-alias", "from n import z\nr = z",
     n="from m import x as z\ny := z\n", m=CNT)
case("no-reexport-star", "import n\nr = n.x", n="from m import *\ny := x\n",
     m=CNT)
case("star-not-reexported", "from n import *\nr = x",
     n="from m import *\ny := x\n", m=CNT)
case("star-no-reexport-ok", "x := 3\nfrom n import *\nr = y\ns = x",
     n="from m import *\ny := x\n", m=CNT)
case("reexport-ref", "import n\nn.z = a\nimport m\nr = m.x",
     n="import m\n&z = m.x\n", m=CNT)
case("private-attr", "import m\nr = m._x", m="_x := K0\ny := _x\n")
case("private-from", "from m import _x\nr = _x", m="_x := K0\ny := _x\n")
case("private-star", "from m import *\nr = y\n_x := a\ns = _x",
     m="_x := K0\ny := _x\n")
case("private-star-hidden", "from m import *\nr = _x",
     m="_x := K0\ny := _x\n")
case("private-works", "import m\nr = m.get()\nm.up()\ns = m.get()",
     m="_x := K0\n&q = scb(\"a\", \"in\")\ndef get() -> int:\n"
       "    result _x\ndef up():\n    _x += q\n")
case("missing-attr", "import m\nr = m.z", m=CNT)
case("missing-from", "from m import z\nr = 1", m=CNT)
case("missing-module", "import zz\nr = 1", m=CNT)
case("missing-folder", "import q.m\nr = 1", m=CNT)
case("clash-from", "x := 1\nfrom m import x\nr = x", m=CNT)
case("clash-star", "x := 1\nfrom m import *\nr = x", m=CNT)
case("clash-import", "m := 1\nimport m\nr = 1", m=CNT)
case("clash-two", "from m import x\nfrom n import x\nr = x", m=CNT,
     n="x := 2\n")
case("name-after", "import m\nx := a\nr = m.x\ns = x\nm.x = b\nr += x", m=CNT)
case("same-names", "import m\nimport n\nm.f()\nn.f()\nr = m.x\ns = n.x",
     m="x := K0\ndef f():\n    x += 1\n", n="x := K1\ndef f():\n    x -= 1\n")
case("module-uses-own-global", "x := a\nfrom m import inc, get\ninc()\n"
     "r = get()\ns = x",
     m="x := K0\ndef inc():\n    x += 1\ndef get() -> int:\n    result x\n")
case("module-no-main-scope", "y := a\nimport m\nr = 1",
     m="def f() -> int:\n    result y\n")
case("circular", "import m\nr = 1", m="import n\nx := 1\n",
     n="import m\ny := 2\n")
case("circular-self", "import m\nr = 1", m="import m\nx := 1\n")
case("circular-main", "import m\nr = 1", m="import main\nx := 1\n")
case("circular-in-func", "import m\nr = 1",
     m="import n\nx := 1\n", n="def f():\n    import m\ny := 2\n")
case("folder", "import lib.m\nr = m.x\nm.inc()\ns = m.x", lib__m=CNT)
case("folder-from", "from lib.m import x, inc\ninc()\nr = x", lib__m=CNT)
case("folder-alias", "import lib.m as q\nr = q.x", lib__m=CNT)
case("folder-two", "import lib.m as p\nimport m as q\np.inc()\nr = p.x\n"
     "s = q.x", lib__m=CNT, m="x := 77\n")
case("folder-import-sibling", "import lib.n as n\nr = n.y",
     lib__n="import lib.m\ny := m.x + 1\n", lib__m=CNT)
case("dot", "import .m\nr = m.x", m=CNT)
case("dot-from", "from .m import x, inc\ninc()\nr = x", m=CNT)
case("dot-same-module", "import m\nm.inc()\nimport .m as n\nr = n.x", m=CNT)
case("dot-user-math", "import .math as um\nimport math\nr = um.max(a, b)\n"
     "s = math.max(a, b)", math="def max(x: int, y: int) -> int:\n"
     "    result x - y\n")
case("builtin-priority", "import math\nr = math.max(a, b)",
     math="def max(x: int, y: int) -> int:\n    result x - y\n")
case("builtin-from", "from math import max, min as lo\nr = max(a, b)\n"
     "s = lo(a, b)")
case("builtin-star", "from math import *\nr = max(a, b) - min(b, c)")
case("builtin-in-module", "import m\nr = m.f(a)\nimport math\n"
     "s = math.mod(b, 7)", m="import math\ndef f(x: int) -> int:\n"
     "    result math.mod(x, 7)\n")
case("builtin-missing", "from math import nope\nr = 1")
case("builtin-runtime-twice", "import math\nr = math.mod(a, 5)\n"
     "def f() -> int:\n    import math as mm\n    result mm.mod(b, 5)\n"
     "s = f()")
case("const", "import m\nr = a + m.C\ns = m.f(2)",
     m="const C = K0\nconst def f(n: int) -> int:\n    result n * 3\n")
case("const-from", "from m import C, D\nr = a + C\ns = D",
     m="const C = K0\nconst D = 5\n")
case("const-assign", "import m\nm.C = 3", m="const C = K0\n")
case("func-assign", "import m\nm.f = 3", m="def f():\n    pass\n")
case("struct", "import m\np := m.P(x=a, y=b)\nr = m.f(p)\np.x = K0\n"
     "s = m.f(p)", m="struct P:\n    x: int\n    y: int\n"
     "def f(p: P) -> int:\n    result p.x - p.y\n")
case("struct-from", "from m import P as Q, f\np := Q(x=a, y=K0)\nr = f(p)",
     m="struct P:\n    x: int\n    y: int\n"
     "def f(p: P) -> int:\n    result p.x - p.y\n")
case("struct-var", "import m\nm.p.x = a\nm.up()\nr = m.p.x\ns = m.p.y",
     m="struct P:\n    x: int\n    y: int\np := P(x=K0, y=K1)\n"
     "def up():\n    p.x += p.y\n")
case("struct-extends", "import m\nstruct Q extends m.P:\n    z: int\n"
     "q := Q(x=a, y=b, z=c)\nr = m.f(q)", m="struct P:\n    x: int\n"
     "    y: int\ndef f(p: P) -> int:\n    result p.x - p.y\n")
case("inline", "import m\nr = m.f(a)\nx := b\nm.g(x)\ns = x",
     m="k := K0\ninline def f(x: int) -> int:\n    k += 1\n"
       "    result x + k\ninline def g(&v: int):\n    v += k\n")
case("bool", "import m\nif m.flag:\n    r = 1\nm.flag = a > b\n"
     "if m.flag:\n    s = 1", m="flag := False\n")
case("list", "import m\nfor x in m.L:\n    r += x\ns = m.L[1]",
     m="const L = {1, 2, 3}\n")
case("alias-module-const", "import m\nconst q = m\nq.inc()\nr = q.x", m=CNT)
case("module-as-value", "import m\nx := m", m=CNT)
case("decl-only", "import m\nr = m.f(a)",
     m="def f(x: int) -> int:\n    result x + 1\n")
case("empty", "import m\nr = a", m="")
case("only-comment", "import m\nr = a", m="# nothing\n")
case("module-reads-scores", "a = 5\nimport m\nr = m.x",
     m="&q = scb(\"a\", \"in\")\nx := q + 1\n")
case("import-in-func", "def f() -> int:\n    import m\n    m.inc()\n"
     "    result m.x\nr = f()\ns = f()", m=CNT)
case("import-in-func-and-top", "def f() -> int:\n    import m\n"
     "    m.inc()\n    result m.x\nimport m\nm.x = a\nr = f()\ns = m.x",
     m=CNT)
case("import-after-func", "def f() -> int:\n    import m\n    m.inc()\n"
     "    result m.x\nr = f()\nimport m\ns = m.x\nm.inc()\ns += f()", m=CNT)
case("import-in-uncalled", "def f() -> int:\n    import m\n    result m.x\n"
     "import m\nr = m.x", m=CNT)
case("import-in-if", "if a > b:\n    import m\n    m.inc()\n    r = m.x",
     m=CNT)
case("import-in-if-then-top", "if a > b:\n    /say yes\n    import m\n"
     "    m.inc()\nimport m as n\nn.inc()\nr = n.x", m=CNT)
case("import-in-else", "if a > b:\n    r = 1\nelse:\n    from m import x\n"
     "    r = x\nimport m\nm.x += 1\ns = m.x", m=CNT)
case("import-both", "if a > b:\n    import m\n    m.inc()\nelse:\n"
     "    import m as k\n    k.x = 9\nimport m as n\nr = n.x", m=CNT)
case("import-in-while", "i := 0\nwhile i < a:\n    import m\n    m.inc()\n"
     "    r = m.x\n    i += 1", m=CNT)
case("import-in-for", "for i in {1, 2}:\n    import m\n    m.inc()\n"
     "    r = m.x * i", m=CNT)
case("import-in-inline", "inline def f() -> int:\n    import m\n"
     "    m.inc()\n    result m.x\nr = f()\ns = f()", m=CNT)
case("import-in-interface", "interface go:\n    import m\n    m.inc()\n"
     "    r = m.x", ["main", "go", "go"], m=CNT)
case("import-top-and-interface", "import m\nm.x = a\ninterface go:\n"
     "    import m as n\n    n.inc()\n    r = n.x",
     ["main", "go", "go"], m=CNT)
case("interface-in-module", "import m\nm.x = a\nr = m.x",
     ["main", "up", "up", "show"],
     m=CNT + "interface up:\n    inc()\ninterface show:\n    s = x\n"
     .replace("s = x", "inc()\n    /say shown"))
case("interface-module-result", "import m\nr = m.x\n"
     "interface look:\n    s = m.x", ["main", "up", "look"],
     m=CNT + "interface up:\n    x += K1\n")
case("interface-clash", "import m\ninterface up:\n    r = 1",
     m=CNT + "interface up:\n    x += K1\n")
case("interface-module-twice", "import m\nimport m as n\nr = n.x",
     ["main", "up"], m=CNT + "interface up:\n    x += K1\n")
case("main-again", "import m\nm.inc()\nr = m.x\ns += 1", ["main", "main"],
     m=CNT)
case("main-again-nested", "import n\nn.up()\nr = n.get()",
     ["main", "main"], n="import m\ndef up():\n    m.inc()\n"
     "def get() -> int:\n    result m.x\n", m=CNT)
case("module-if", "import m\nr = m.x", m="x := K0\n&q = scb(\"a\", \"in\")\n"
     "if q > 3:\n    x = q\n    y := 1\nelse:\n    x = 0\n")
case("module-while", "import m\nr = m.x", m="x := 1\n&q = scb(\"a\", \"in\")\n"
     "while x < q:\n    x *= 2\n")
case("module-calls-own", "import m\nr = m.x\nm.f()\ns = m.x",
     m="x := 1\ndef f():\n    x = x * 2 + K0\nf()\nf()\n")
case("uninitialised", "import m\nm.x = a\nr = m.x", m="x: int\n")
case("chain", "import p1\nr = p1.v",
     p1="import p2\nv := p2.v + 1\n/say 1\n",
     p2="import p3\nv := p3.v * 2\n/say 2\n",
     p3="import p4\nv := p4.v - 3\n/say 3\n", p4="v := K0\n/say 4\n")
case("order-of-side-effects", "import p\nr = 1\nimport q\ns = q.v",
     p="&r = scb(\"r\", \"in\")\nr = 7\n/say p\n",
     q="&r = scb(\"r\", \"in\")\nv := r\n/say q\n")
case("shadow-in-func", "import m\ndef f() -> int:\n    x := 3\n"
     "    result x + m.x\nr = f()\nm.inc()\ns = f()", m=CNT)
case("swap-module-vars", "import m\nimport n\nswap(m.x, n.y)\nr = m.x\n"
     "s = n.y", m=CNT, n="y := K1\n")
case("aug-module-var", "import m\nm.x += a\nm.x *= 2\nr = m.x", m=CNT)
case("ref-module-var", "import m\n&v = m.x\nv = a\nm.inc()\nr = v", m=CNT)
case("error-in-module", "import m\nr = 1", m="x := y\n")
case("error-in-module-func", "import m\nr = 1",
     m="def f() -> int:\n    result zz\n")
case("task-in-module", "import m\nr = m.x", ["main", "tick", "tick", "tick"],
     m=CNT + "import schedule\nschedule.register_loop(inc, 2)\n")
case("default-arg", "import m\nr = m.f()\ns = m.f(a)",
     m="const D = K0\ndef f(x: int = D) -> int:\n    result x * 2\n")
case("inner-func", "import m\nr = m.f(a) + m.f(b)",
     m="def f(x: int) -> int:\n    def g(y: int) -> int:\n"
       "        result y * 2\n    result g(x) + 1\n")


# imports from the folders above the main file's (which is in p/q)
X1 = "x := K0 + 1\n/say up1\n"
X2 = "x := K0 + 2\n/say up2\n"
UP = {
    "up1": ({"m": CNT, "<m": X1, "<<m": X2}, "import ..m\nr = m.x"),
    "up2": ({"m": CNT, "<m": X1, "<<m": X2}, "import ...m\nr = m.x"),
    "up-all": ({"m": CNT, "<m": X1, "<<m": X2},
               "import m\nimport ..m as n\nimport ...m as k\nr = m.x\n"
               "r += n.x * 10\ns = k.x"),
    "up-from": ({"m": CNT, "<m": X1, "<<m": X2},
                "from ..m import x as y\nfrom ...m import x as z\nr = y\n"
                "s = z"),
    "up-star": ({"<m": X1, "<<m": X2}, "from ...m import *\nr = x"),
    "up-missing1": ({"m": CNT, "<<m": X2}, "import ..m\nr = 1"),
    "up-missing2": ({"m": CNT, "<m": X1}, "import ...m\nr = 1"),
    "up-none": ({"<m": X1, "<<m": X2}, "import m\nr = 1"),
    "up-dot-none": ({"<m": X1, "<<m": X2}, "import .m\nr = 1"),
    "up-folder1": ({"<lib.m": X1, "<<lib.m": X2, "lib.m": CNT},
                   "import ..lib.m as m\nr = m.x\nimport lib.m as k\n"
                   "s = k.x"),
    "up-folder2": ({"<lib.m": X1, "<<lib.m": X2, "lib.m": CNT},
                   "import ...lib.m as m\nr = m.x\nimport .lib.m as k\n"
                   "s = k.x"),
    "up-down": ({"m": CNT, "<m": X1},
                "import ...p.q.m as k\nk.inc()\nimport m\nr = m.x\n"
                "import ..q.m as j\nj.inc()\ns = m.x"),
    "up-down1": ({"m": CNT, "<m": X1},
                 "import ...p.m as k\nk.x = a\nimport ..m\nr = m.x"),
    "up-main": ({"<m": X1}, "import ..q.main as k\nr = 1"),
    "up-own-main": ({"<main": X1}, "import ..main as k\nr = k.x"),
    "up-builtin": ({"<math": X1}, "import ..math as k\nr = k.x\n"
                   "import math\ns = math.max(a, b)"),
    "up-module-dots": ({"<m": "import .n\nx := n.x\n",
                        "n": X2, "<n": CNT}, "import ..m\nr = m.x"),
    "up-module-dots2": ({"<lib.m": "import ..n as n\nx := n.x\n",
                         "n": X2, "<n": CNT, "<lib.n": X1},
                        "import ..lib.m as m\nr = m.x"),
    "up-module-none": ({"<m": "import n\nx := n.x\n", "n": X2,
                        "<n": CNT}, "import ..m\nr = m.x"),
    "up-once": ({"<m": CNT, "n": "import ..m\nm.inc()\ny := m.x\n"},
                "import ..m as k\nk.inc()\nimport n\nr = n.y\ns = k.x"),
    "folder-deep": ({"f.g.h.m": CNT, "f.g.m": X1, "f.m": X2},
                    "import f.g.h.m as m\nm.inc()\nr = m.x\n"
                    "import .f.g.m as k\ns = k.x"),
    "folder-and-file": ({"m": CNT, "m.m": X1, "m.m.m": X2},
                        "import m\nimport m.m as n\nimport m.m.m as k\n"
                        "r = m.x * 10 + n.x\ns = k.x"),
}


def jobs(tier, seed):
    r = rng(seed, "p12")
    out = []
    for n, (files, b, e) in H.items():
        kw = {"files": files}
        if e:
            kw["entry"] = e
        out.append(tv(n, b, **kw))
        out.append(tv("noopt-" + n, b, cfg={"optimizer": False}, **kw))
    for n, (files, b) in UP.items():
        out.append(tv(n, b, files=files, dir="p/q"))
        if n.startswith("folder"):
            out.append(tv("root-" + n, b, files=files))
    for i in range(160 if tier == "quick" else 600):
        out.append(randcase(r, i))
    return out


def randcase(r, i):
    """Random module graph; every module keeps a counter others touch."""
    n = r.choice([2, 3, 4])
    files = {}
    for k in range(n):
        t = "v := %s\n/say m%d\n" % (r.choice(["K0", "K1", str(k)]), k)
        deps = [d for d in range(k + 1, n) if r.random() < .6]
        for d in deps:
            f = r.randrange(4)
            if f == 0:
                t += "import m%d\nv += m%d.v\nm%d.up()\n" % (d, d, d)
            elif f == 1:
                t += "from m%d import v as w%d, up as u%d\nu%d()\n" \
                     "v -= w%d\n" % (d, d, d, d, d)
            elif f == 2:
                t += "import m%d as z%d\nz%d.v = v * 2\n" % (d, d, d)
            else:
                t += "def late%d():\n    import m%d\n    m%d.up()\n" \
                     "    v += m%d.v\nlate%d()\n" % (d, d, d, d, d)
        t += "def up():\n    v += %s\n" % r.choice(["1", "K2", "v"])
        files["m%d" % k] = t
    body = ""
    for k in r.sample(range(n), r.choice([1, min(2, n)])):
        g = r.randrange(3)
        if g == 0:
            body += "import m%d\nm%d.up()\nr += m%d.v\n" % (k, k, k)
        elif g == 1:
            body += "if a > %s:\n    import m%d\n    m%d.up()\n" \
                    "    s -= m%d.v\n" % (r.choice(["b", "K0"]), k, k, k)
        else:
            body += "from m%d import v as x%d, up as y%d\ny%d()\n" \
                    "r -= x%d\n" % (k, k, k, k, k)
    k = r.randrange(n)
    body += "import m%d as last\nlast.up()\ns += last.v\n" % k
    e = ["main"] + (["main"] if r.random() < .3 else [])
    return tv("graph%d" % i, body, files=files, entry=e,
              cfg={"optimizer": i % 3 != 2})
