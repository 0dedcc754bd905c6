"""P25: formatted text and the output functions of the print module."""
from vlib import unit
from vlib.sym import H
from .common import *

BOUNDS = ("formatted strings of up to 6 parts with text over an alphabet "
          "that includes every character with a meaning in rawtext JSON or "
          "in format patterns; all printed ints/bools symbolic (int32); "
          "nested formatting, concatenation, fonts (all colors), stored "
          "strings, every output function and mode; format patterns "
          "with up to 3 characters that can be anything")
OUTSIDE = ("section signs written by the user; text whose stored expression "
           "is evaluated again after its operands changed; entity targets "
           "(see P16/P19)")
ASSUMPTIONS = ass_arith(["rawtext JSON and section-sign codes render as in "
                         "the game: a color code keeps the other flags, r "
                         "resets all"])

P = "import print\n"
# patterns of print.format with holes ("?"): any character
PATS = ["?", "??", "???", "%?", "%??", "a%?b", "?%0?", "%{?}", "%{??}", "%{?",
        "%0?%1", "%?%?", "%{k?}", "%{1?}", "%{?}%?", "?%{k}?", "%%?", "%?%{k}",
        "%1%?0", "?%", "%{0}?}", "{%?}", "% ?%2", "%{?0}", "%a?%k", "%{k}?%{kk}"]
X = "x := a\nf := a > b\n"
Q = '\\"'
HAND = {
    "plain": 'print.tell("hello")',
    "empty": 'print.tell("")',
    "arg0": 'print.tell(print.format("%0", a))',
    "args": 'print.tell(print.format("v=%0 w=%1", a, b))',
    "args-rev": 'print.tell(print.format("%1-%0", a, b))',
    "args-rep": 'print.tell(print.format("%0%0 %0", a))',
    "braces": 'print.tell(print.format("%{0} and %{1}", a, b))',
    "braces-10": 'print.tell(print.format("%{10}%1", 0, b, 2, 3, 4, 5, 6, 7,'
                 ' 8, 9, a))',
    "digit-then-digit": 'print.tell(print.format("%10", a, b))',
    "names": 'print.tell(print.format("%{p} %{q}", p=a, q=b))',
    "names-mix": 'print.tell(print.format("%{p} %0 %{q} %1", a, K0, q=b, '
                 'p=c))',
    "percent": 'print.tell(print.format("100%% of %0%%", a))',
    "percent-end": 'print.tell(print.format("50%", a))',
    "percent-other": 'print.tell(print.format("%a %- %0", a))',
    "percent-plain": 'print.tell("%0 %% %{x}")',
    "percent-percent-digit": 'print.tell(print.format("%%0 %0", a))',
    "const": 'print.tell(print.format("%0 %1", K0, K1))',
    "const-neg": 'print.tell(print.format("%0 %1", -5, int.MIN))',
    "bool": 'print.tell(print.format("%0 %1", a > b, True))',
    "bool-false": 'print.tell(print.format("%0%1", False, not (a == K0)))',
    "bool-var": X + 'print.tell(print.format("%0", f))',
    "str-arg": 'print.tell(print.format("%0 is %1", "name", a))',
    "str-arg-percent": 'print.tell(print.format("%0|%1", "%1%%", a))',
    "str-arg-empty": 'print.tell(print.format("%0%1", "", a))',
    "fstr-arg": 'print.tell(print.format("<%0>", print.format("%0", a)))',
    "fstr-nested": 'const p = print.format("(%0,%1)", a, K0)\n'
                   'print.tell(print.format("%0 then %1", p, '
                   'print.format("%0!", p)))',
    "concat": 'print.tell(print.format("%0", a) + print.format(" %0", b))',
    "concat-str": 'print.tell("x" + print.format("%0", a) + "y" + "z")',
    "concat-strs": 'print.tell("ab" + "cd")',
    "concat-keep": 'const p = print.format("%0", a)\nconst q = p + "!"\n'
                   'print.tell(p)\nprint.tell(q)\nprint.tell("<" + p)\n'
                   'print.tell(p)',
    "concat-keep2": 'const p = print.format("%0", a)\n'
                    'const q = print.format("%0", b)\nconst s1 = p + q\n'
                    'const s2 = q + p\nprint.tell(s1)\nprint.tell(s2)\n'
                    'print.tell(p)\nprint.tell(q)',
    "concat-self": 'const p = print.format("%0,", a + 1)\nprint.tell(p + p)',
    "expr": 'print.tell(print.format("%0 %1", a + b, a * K0 - b))',
    "expr-many": 'print.tell(print.format("%0 %1 %2 %3", a + 1, b + 2, '
                 '(a - b) * (b - c), c - a))',
    "expr-nested": 'print.tell(print.format("%0 %1", a - (b - (c - a)), '
                   '(a + b) * (b + c)))',
    "expr-minus": 'print.tell(print.format("%0", -a))',
    "call": 'def f(x: int) -> int:\n    result x * 2\n'
            'print.tell(print.format("%0 %1 %2", f(a), f(b), f(a) - f(b)))',
    "call-twice": 'def f(x: int) -> int:\n    result x + K0\n'
                  'print.tell(print.format("%0", f(a)) + '
                  'print.format(" %0", f(b)))',
    "field": 'struct S:\n    u: int\n    v: int\np := S(u=a, v=b)\n'
             'print.tell(print.format("%0/%1", p.u, p.v))',
    "stored-var": 'const p = print.format("%0", x)\nprint.tell(p)\nx = b\n'
                  'print.tell(p)',
    "stored-exprs": 'const p = print.format("%0 ", a + 1)\n'
                    'const q = print.format("%0 ", b + 1)\n'
                    'print.tell(p + q)\nprint.tell(q + p)',
    "stored-expr-later": 'const p = print.format("%0 ", a + 1)\n'
                         'y := (b - c) * (c - a)\nprint.tell(p)\nr = y\n'
                         'print.tell(print.format("%0 %1 %2", b + c, p, '
                         'c - b))',
    "stored-expr-live": 'const p = print.format("%0 ", (a + 1) * (b + 2))\n'
                        'inline def f() -> int:\n    print.tell(p)\n'
                        '    result c\nr = (b - c) * (c - a) + f()',
    "stored-two-exprs": 'const p = print.format("%0 %1 ", a + 1, b - 1)\n'
                        'const q = print.format("%0 %1 ", b * 2, a * 3)\n'
                        'print.tell(print.format("%1 %0", p, q))',
    "stored-bools": 'const p = print.format("%0", a > b)\n'
                    'const q = print.format("%0", not (b > c))\n'
                    'print.tell(p + q)',
    "in-func": 'def f(x: int, y: bool):\n    print.tell(print.format('
               '"%0 %1 %2", x, y, a))\nf(a, b > a)\nf(K0, True)',
    "in-inline": 'inline def f(x: int, const s):\n    print.tell('
                 'print.format("%0 " + s, x))\nf(a, "p")\nf(b + 1, "%1q")'
                 .replace("%1q", "q"),
    "inline-fstr": 'inline def f(const s):\n    print.tell("[" + s + "]")\n'
                   'f("a")\nf(print.format("%0", a))\n'
                   'f(print.format("%0", a + b))',
    "in-if": 'if a > b:\n    print.tell(print.format("%0 > %1", a, b))\n'
             'else:\n    print.tell(print.format("%0 <= %1", a, b))',
    "in-while": 'i := 0\nwhile i < 3:\n    print.tell(print.format('
                '"%0: %1", i, i * a))\n    i += 1',
    "in-for": 'for i in {1, K0, 3}:\n    print.tell(print.format("%0: %1", '
              'i, a + i))',
    "in-interface": 'interface go:\n    print.tell(print.format("%0", a))\n'
                    '    a += 1',
    "list-str": 'for s1 in {"p", "q r", "%0"}:\n'
                '    print.tell(s1)\n'
                '    print.tell(print.format("<%0%1>", s1, a))',
    "interp": 'const N = K0\nprint.tell("n = ${N}, ${N + 1} ${"s"}!")'
              .replace('${"s"}', '${1}'),
    "interp-fmt": 'const N = 1\nprint.tell(print.format("%${N} %0", a, b))',
    "escapes": 'print.tell("q' + Q + ' b\\\\ t' + Q + Q + ' n")',
    "escape-n": 'print.tell("a\\nb")',
    "escape-x": 'print.tell("\\x41\\u0042 \\u00e9")',
    "json-chars": 'print.tell("{}[]:,")\nprint.tell("a: {\\"text\\": 1}")',
    "unicode": 'print.tell("\u00e9\u4e2d\u6587 \u00fc")',
    "digits": 'print.tell(print.format("1%02%13", a, b))',
    "numbers-in-text": 'print.tell("007 -5 12345678901 3.5")',
    "backslash-percent": 'print.tell(print.format("\\\\%0\\\\", a))',
    "quote-arg": 'print.tell(print.format("%0' + Q + '%1", "' + Q + '", a))',
    "braces-text": 'print.tell(print.format("{%0}{%{0}}", a))',
    "mode-title": 'print.title("t")\nprint.title(print.format("%0", a))',
    "mode-all": 'print.title("p", mode=print.TITLE)\n'
                'print.title("q", mode=print.SUBTITLE)\n'
                'print.title(print.format("%0", a + 1), '
                'mode=print.ACTIONBAR)',
    "mode-str": 'print.title("p", mode="subtitle")',
    "mode-bad": 'print.title("p", mode="top")',
    "times": 'print.title("p", fade_in=1, stay_time=2, fade_out=3)',
    "times-one": 'print.title(print.format("%0", a * b), stay_time=K0)',
    "times-default": 'print.title("p", fade_in=10, stay_time=70, '
                     'fade_out=20)',
    "times-two": 'print.title("p", mode="actionbar", fade_in=K0, '
                 'fade_out=K1)\nprint.title("q")',
    "times-if": 'if a > b:\n    print.title(print.format("%0", a), '
                'fade_out=5)\nelse:\n    print.title("n")',
    "times-var": 'print.title("p", fade_in=a)',
    "clear": 'print.title("p")\nprint.title_clear()',
    "translate": 'print.tell(print.translate("item.apple.name"))',
    "translate-fmt": 'print.tell(print.format("%0 of %1", a, '
                     'print.translate("item.apple.name")))',
    "translate-concat": 'print.tell("a " + print.translate("k.v") + " b")',
    "int-text": 'print.tell(a)', "none-text": 'print.tell(None)',
    "bool-text": 'print.tell(True)', "no-text": 'print.tell()',
    "fmt-missing": 'print.tell(print.format("%0 %1", a))',
    "fmt-missing-name": 'print.tell(print.format("%{p}", q=a))',
    "fmt-unclosed": 'print.tell(print.format("%{0", a))',
    "fmt-unused": 'print.tell(print.format("n", a, q=b))',
    "fmt-empty-name": 'print.tell(print.format("%{}", a))',
    "fmt-no-pattern": 'print.tell(print.format())',
    "fmt-none": 'print.tell(print.format("%0", None))',
    "fmt-func": 'def f():\n    pass\nprint.tell(print.format("%0", f))',
    "fmt-var-pattern": 'print.tell(print.format(a))',
    "add-int": 'print.tell("a" + 1)',
    "add-int2": 'print.tell(print.format("%0", a) + a)',
    "mul-str": 'print.tell("a" * 2)',
    "font": 'print.tell(print.with_font("x", "red"))',
    "font-flags": 'print.tell(print.with_font("x", bold=True, italic=True, '
                  'obfuscated=True) + "y")',
    "font-default": 'print.tell(print.with_font("x", "default") + "y")',
    "font-flag-false": 'print.tell(print.with_font("x", "blue", bold=False, '
                       'italic=True))',
    "font-then-plain": 'print.tell(print.with_font("x", "red") + "y" + '
                       'print.with_font("z", "gold", bold=True) + "w")',
    "font-num": 'print.tell(print.with_font(print.format("%0", a), "aqua") '
                '+ print.format("%0", b))',
    "font-nested": 'print.tell(print.with_font(print.format("Hello %0!", '
                   'print.with_font("world", "red", bold=True)), '
                   '"green"))',
    "font-nested-start": 'print.tell(print.with_font(print.format('
                         '"%0 end", print.with_font("s", "red")), '
                         'bold=True))',
    "font-nested-end": 'print.tell(print.with_font(print.format("begin %0",'
                       ' print.with_font("s", italic=True)), "blue"))',
    "font-nested-only": 'print.tell(print.with_font(print.with_font("s", '
                        '"red"), bold=True) + "t")',
    "font-nested-two": 'print.tell(print.with_font(print.with_font("s", '
                       'bold=True) + print.with_font("t", italic=True), '
                       '"green") + "u")',
    "font-nested-mid": 'print.tell(print.with_font("a" + print.with_font('
                       '"b", "red") + "c" + print.with_font("d", "blue") + '
                       '"e", "green", italic=True))',
    "font-nested-3": 'print.tell(print.with_font("a" + print.with_font("b" '
                     '+ print.with_font("c", "red") + "d", "blue", '
                     'bold=True) + "e", "green"))',
    "font-keep": 'const p = print.format("%0", a)\n'
                 'const q = print.with_font(p, "red")\nprint.tell(p)\n'
                 'print.tell(q)\nprint.tell(p + q + p)',
    "font-reuse": 'const q = print.with_font("x", "red")\n'
                  'print.tell(q + q)\nprint.tell(print.with_font("a" + q, '
                  '"blue") + q)',
    "font-bad": 'print.tell(print.with_font("x", "reddish"))',
    "font-var": 'print.tell(print.with_font("x", bold=a > b))',
    "font-title": 'print.title(print.with_font(print.format("%0", a), '
                  '"yellow"), mode="subtitle")',
}
COLORS = """black dark_blue dark_green dark_aqua dark_red dark_purple gold
gray dark_gray blue green aqua red light_purple yellow white minecoin_gold
material_quartz material_iron material_netherite material_redstone
material_copper material_gold material_emerald material_diamond
material_lapis material_amethyst""".split()


def jobs(tier, seed):
    r = rng(seed, "p25")
    out = []
    for n, b in HAND.items():
        kw = {}
        if n == "in-interface":
            kw["entry"] = ["main", "go", "go"]
        if "x" in b and "x :=" not in b:
            b = "x := a\n" + b if n == "stored-var" else b
        out.append(tv(n, P + b, **kw))
        if n[:3] in ("con", "exp", "sto", "cal", "in-", "inl", "boo"):
            out.append(tv("noopt-" + n, P + b, cfg={"optimizer": False},
                          **kw))
    for i in range(0, len(COLORS), 3):
        b = "".join('print.tell(print.with_font("x", "%s") + "y")\n' % c
                    for c in COLORS[i:i + 3])
        out.append(tv("colors%d" % i, P + b))
    g = rng(seed, "p25pat")
    pats = list(PATS)
    for i in range(40 if tier == "quick" else 800):
        t = "".join(g.choice(["%0", "%1", "%{2}", "%{k}", "%%", "%", "a", " ",
                              "{", "}", "%x", "7", "%{kk}"])
                    for _ in range(g.randint(2, 5)))
        for _ in range(g.choice([1, 1, 2])):
            q = g.randrange(len(t) + 1)
            t = t[:q] + "?" + t[q + g.randint(0, 1):]
        pats.append(t)
    for t in pats:
        out.append({"kind": "unit", "module": "p25", "name": "pat-" + t,
                    "pat": t, "sec": 6 if tier == "quick" else 60})
    for i in range(1200 if tier == "quick" else 6000):
        out.append(tv("fmt%d" % i, P + randprog(r),
                      cfg={"optimizer": i % 4 != 3}, max_paths=60))
    return out


CHARS = ["a", "B", " ", "_", "|", "%%", "\\\\", Q, "{", "}", "[", "]", ":",
         ",", "'", "\u00e9", "/", "@", "#", "<", "%z", "=", "~", "\\n"]
VALS = ["a", "b", "K0", "K1", "a + b", "b - K0", "(a - b) * (b - c)", "-a",
        "a > b", "not (a == b)", "True", "x", "x * 2", "g(a)", "g(b) + 1"]


def text(r):
    return "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 2, 4])))


def fexpr(r, d, known):
    k = r.random()
    if k < .12:
        return '"%s"' % text(r).replace("%%", "%").replace("%z", "z")
    if k < .2 and known:
        return r.choice(known)
    if d and k < .35:
        return "%s + %s" % (fexpr(r, d - 1, known), fexpr(r, d - 1, known))
    if d and k < .5:
        return 'print.with_font(%s, "%s"%s)' % (
            fexpr(r, d - 1, known), r.choice(COLORS),
            r.choice(["", ", bold=True", ", italic=True"]))
    n = r.choice([1, 1, 2, 3])
    args = []
    kws = []
    pat = text(r)
    for i in range(n):
        v = r.choice(VALS) if not d or r.random() < .8 else \
            fexpr(r, d - 1, known)
        if r.random() < .2:
            nm = "k%d" % len(kws)
            kws.append("%s=%s" % (nm, v))
            pat += "%%{%s}" % nm
        else:
            pat += ("%%%d" if r.random() < .6 else "%%{%d}") % len(args)
            args.append(v)
        pat += text(r)
    return 'print.format("%s"%s)' % (pat, "".join(
        ", " + x for x in args + kws))


def randprog(r):
    b = "def g(n: int) -> int:\n    result n * 2 - K0\nx := b\n"
    known = []
    for i in range(r.choice([0, 1, 2])):
        b += "const p%d = %s\n" % (i, fexpr(r, 1, known))
        known.append("p%d" % i)
    for i in range(r.choice([1, 2, 3])):
        e = fexpr(r, 2, known)
        k = r.randrange(5)
        if k < 3:
            b += "print.tell(%s)\n" % e
        elif k == 3:
            b += 'print.title(%s, mode="%s"%s)\n' % (
                e, r.choice(["title", "subtitle", "actionbar"]),
                r.choice(["", ", fade_in=K1", ", stay_time=5"]))
        else:
            b += "if a > b:\n    print.tell(%s)\n" % e
    return b


# ------------------------------------------------- patterns, character-wise
class Reject(Exception):
    pass


def want(pat):
    """Parts of the formatted text: characters, or the score of an argument"""
    out = []
    i = 0

    def arg(name):
        if name and all(bool(H.in_(c, "0123456789")) for c in name):
            n = 0
            for c in name:
                n = n * 10 + next(d for d in range(10)
                                  if bool(H.eq(c, str(d))))
            if n > 2:
                raise Reject
            out.append(("s", "v%d" % n))
            return
        for k, v in (("k", "v3"), ("kk", "v4")):
            if len(name) == len(k) and bool(H.eq(name, k)):
                out.append(("s", v))
                return
        raise Reject
    while i < len(pat):
        c = pat[i]
        i += 1
        if not bool(H.eq(c, "%")):
            out.append(("t", c))
            continue
        if i == len(pat):
            out.append(("t", "%"))
            break
        d = pat[i]
        i += 1
        if bool(H.eq(d, "%")):
            out.append(("t", "%"))
        elif bool(H.eq(d, "{")):
            name = ""
            while True:
                if i == len(pat):
                    raise Reject
                i += 1
                if bool(H.eq(pat[i - 1], "}")):
                    break
                name += pat[i - 1]
            arg(name)
        elif bool(H.in_(d, "0123456789")):
            arg(d)
        else:
            out.append(("t", "%" + d))
    res = []
    for k, v in out:
        if k == "t" and res and res[-1][0] == "t":
            res[-1] = ("t", res[-1][1] + v)
        else:
            res.append((k, v))
    return res


def spec(job, inp):
    import json
    from . import p27
    src = 'import print\n'
    for i in range(5):
        src += '&v%d = scb("v%d", "in")\n' % (i, i)
    pat, esc = "", ""
    for i, c in enumerate(job["pat"]):
        if c == "?":
            c = inp.char(str(i), "\n\r")
            if bool(H.in_(c, '"\\')):
                esc += "\\"
            elif pat and bool(H.eq(c, "{")) and bool(H.eq(pat[-1], "$")):
                raise unit.Skip      # starts an expression
        elif c == "{" and pat and bool(H.eq(pat[-1], "$")):
            raise unit.Skip
        pat += c
        esc += c
    src += 'print.tell(print.format("%s", v0, v1, v2, k=v3, kk=v4))\n' % esc
    try:
        exp = want(pat)
    except Reject:
        exp = None
    out = p27.compile_(src)
    show = "%r gives %r" % (src, out if isinstance(out, str) else
                            out.get("main.mcfunction")) if inp.concrete \
        else "pattern"
    if exp is None:
        return [(not isinstance(out, str), "bad pattern accepted: " + show)]
    if isinstance(out, str):
        return [(True, "valid pattern rejected: " + show)]
    last = out["main.mcfunction"].rstrip("\n").split("\n")[-1]
    if not last.startswith("tellraw @a "):
        return [(True, "no output: " + show)]
    got = json.loads(last[11:])["rawtext"]
    if len(got) != len(exp):
        return [(True, "text shown: " + show)]
    bads = []
    for p, (k, v) in zip(got, exp):
        if (k == "t") != ("text" in p):
            return [(True, "text shown: " + show)]
        if k == "t":
            bads.append((unit.differ(p["text"], v), "text shown: " + show))
        else:
            bads.append((p != {"score": {"name": v, "objective": "in"}},
                         "value shown: " + show))
    return bads or [(False, "")]


def run_unit(job):
    return unit.run(job, spec, "p25", max_paths=3000,
                    seconds=job.get("sec", 6), witnesses=1)


def replay(data):
    return unit.replay(data, spec)
