"""P13: tokens."""
from .common import *
from vlib import unit, rlex

BOUNDS = ("source texts of up to 6 lines around windows of up to 8 symbolic "
          "characters, each ranging over U+0000..U+024F; symbolic mc_version")
OUTSIDE = "characters above U+024F; a multi-line comment followed by code " \
    "on its closing line at the start of a logical line"
ASSUMPTIONS = ["a symbolic character is not a line break (line breaks are at "
               "fixed places of a text)"]

UNPLACED = {"INDENT", "DEDENT", "NEW_LINE", "END_MARKER", "TEXT_BODY",
            "STRING_BEGIN", "STRING_END", "COMMAND_BEGIN", "COMMAND_END",
            "DOLLAR_LBRACE"}

# ? is a symbolic character; d a symbolic digit, h a hex digit, w a letter,
# s a space or a letter
TEXTS = {
    "any1": "?", "any2": "??", "any2b": " ??\n", "any3": "a??b\n",
    "ops": "a ??b", "ops2": "a?? b", "ops3": "(a??)\n",
    "ident": "a??=1\n", "kw-if": "i?\n", "kw-if2": "if?\n", "kw-in": "?n x",
    "kw-as": "a?\n", "kw-or": "?r", "kw-def": "de??", "kw-not": "n?t?",
    "kw-new": "x.?ew", "kw-True": "Tru?", "kw-none": "Non? ", "kw-and": "an?d",
    "kw-const": "cons?", "kw-self": "?elf", "kw-in2": "?in?",
    "num": "?1?", "num2": "1??2", "num3": "0??1", "num4": "0x??",
    "num5": "0b?1?", "num6": "0o?7?", "num7": "12?34", "num8": "1.?5",
    "num9": "1.5??", "num10": "0X?.1", "num11": "0?", "num12": "00?1",
    "digits": "ddddddddd+1\n", "hex": "0xhhhhhhhh\n", "hexU": "0Xhhh,1\n",
    "float": "d.d\n", "float2": "1.d.2",
    "str1": '"?"', "str2": '"??"\n', "str3": 'x = "a??b"\n',
    "str-esc": '"\\?"', "str-esc2": '"\\??"', "str-esc3": '"a\\\\?"',
    "str-x": '"\\x??"', "str-x2": '"\\xhh"', "str-u": '"\\uhhhh"',
    "str-u2": '"\\u00??"', "str-U": '"\\U0000hhhh"',
    "str-U4": '"\\U000hhhhh"', "str-U5": '"\\U0010hhhh"',
    "str-U6": '"a\\U00hhhhhhb"', "str-U7": '"\\U0001F6h?"',
    "str-U8": '"\\Uhhhhhhhh"', "str-U9": '/say \\U000hhhhh\n',
    "str-u3": '"\\uhhhh\\xhh"',
    "str-U2": '"\\U00?00041"', "str-U3": '"\\U00110000?"',
    "str-x3": '"\\x4?1"', "str-x4": '"\\x?"', "str-q": '"\\"?"',
    "str-q2": '"?\\""', "str-nl": '"?\n"',
    "str-dollar": '"$?a}"', "str-dollar2": '"?{a}"', "str-dollar3": '"\\${?"',
    "str-fexpr": '"${?}"', "str-fexpr2": '"a${b}?"', "str-fexpr3": '"${a}?{b}"',
    "str-fexpr4": '"${"?"}"', "str-fexpr5": '"${ {a} ?"',
    "str-fexpr6": '"${a\n?}"', "str-fexpr7": '"${(a?}"',
    "str-fexpr8": '"${"${a?}"}b?"', "str-two": '"a"?"b"',
    "font": '"\\#?"', "font2": '"\\#(?)"', "font3": '"\\#(re?)"',
    "font4": '"\\#(red?bold)"', "font5": '"\\#( red ,?bold)"',
    "font6": '"\\#(material_quart?)"', "font7": '"\\#(gol? )"',
    "font8": '"\\#(??ld)"', "font9": '"\\#(blue,?)"', "font10": '"\\#(a?\n"',
    "font11": '"\\#(dark_?ed)"', "font12": '"\\#(italic)\\#(reset)?"',
    "font13": '/say \\#(?reen) x\n', "font14": '"\\#(material_?apis)"',
    "cmd": "/??", "cmd2": "/say ?\n", "cmd3": "/?? \nx", "cmd4": "/a ?{b} c",
    "cmd5": "/a \\?{b} c", "cmd6": "/a ${b?} c", "cmd7": "/a ${b} ?\nc",
    "cmd8": "  /x ?\n", "cmd9": "/x # ?", "cmd10": '/x "?\\?"',
    "cmd11": "/x ${a\n?}", "cmd12": "/a ${{b}?} c", "cmd13": "/\\x4? \\u00?0",
    "cmd14": "/a\\\n?b", "cmd15": '/a ${"?"} b', "cmd16": '/a ${"${b}?"} c?',
    "long": "/*?*/", "long2": "/* a ?/ b */", "long3": "/* *? */\nx",
    "long4": "/* a\n ?b\n*/", "long5": "/* a ${b?} c */", "long6": "/*??",
    "long7": "/* ${a\n?b} */", "long8": "/* a */?", "long9": "/* a ${b\n?",
    "long10": "/*a\n\n  *? b*/ c", "long11": "x ?* a */",
    "long12": "/* \\?\n*/", "long13": "/*?", "long14": "/* ${ {?\n} } */",
    "comment": "#?\nx", "comment2": "x ?y\n", "comment3": "#*?*#x",
    "comment4": "#* a *?\n b *# x", "comment5": "x #*?\n*?*#",
    "comment6": "x #* a *# ?\n", "comment7": "#*?", "comment8": "#?*#",
    "comment9": "(#* \n?*#)", "comment10": "#*\n*?", "comment11": "a#*?\nb",
    "comment12": "a #* *?*# b", "comment13": "#*\n?*#\nx",
    "comment14": '"${a #*?*# }"', "comment15": '"#?*"',
    "bracket": "(?)", "bracket2": "(a\n?)", "bracket3": "[{(?]}",
    "bracket4": "?)", "bracket5": "{a: [b?]}", "bracket6": "(\n  ?\n)\nx",
    "bracket7": "((a)?", "bracket8": "(a\\\n?", "bracket9": "[a}?",
    "back": "a ?\nb", "back2": "a\\?\nb", "back3": "a \\\n?b\n",
    "back4": "a \\\n\n?b", "back5": "a\\?", "back6": "if a:\n  b \\\n?c\n",
    "back7": "a \\\n/?b", "back8": "\\\n?x", "back9": "a \\\n#?\nb",
    "indent": "if a:\n ?b\n", "indent2": "if a:\n  b\n?c\n",
    "indent3": "a:\n  b:\n    c\n  ?d\n?e", "indent4": "a\n?  b\nc",
    "indent5": " a\n?b", "indent6": "a:\n  b\n\n?\n  c\n",
    "indent7": "a:\n  b\n#?\n  c\n", "indent8": "a:\n s b\n s c\n",
    "indent9": "a:\nsssb\nssc\n", "indent10": "a:\n  b:\n   c\nssd\nse\n",
    "indent11": "a:\n  (b,\n?c)\nd", "indent12": "a:\n  /*b\n?c*/\n  d\ne",
    "indent13": "a:\n  b\n ?", "indent14": "a:\n  b:\n    c\nss#?\nd",
    "indent17": "a:\n b:\n  c:\n   d:\n    e:\n     f:\n      g\nssh:\n i\n j\n",
    "indent18": "a:\n b:\n  c:\n   d:\n    e:\n     f\n?g\nsh:\n  i:\n   j\nk\n",
    "indent19": "a:\n b:\n  c:\n   d:\n    e:\n     f:\n      g:\n       h\n"
                "ssssi:\nsssj\nk\n",
    "indent15": "a:\n  #*?*# b\n", "indent16": "a:\n   b\n  \n?d",
    "iface": "interface ?:", "iface2": "interface ??", "iface3":
    "interface a?b:", "iface4": 'interface "?":\n', "iface5":
    "interface?a", "iface6": "interface?\n", "iface7": "interface \\\n?:",
    "iface8": "interface a/b?", "iface9": "(interface\n?)", "iface10":
    "interface #?\n", "iface11": "interfac? x-y", "iface12":
    'interface "a${?}":', "iface13": "interface a(?", "iface14":
    "interface x.?-y",
    "eof": "a?", "eof2": "(a?", "eof3": "a:\n b?", "eof4": "/*a?", "eof5":
    '"${a?', "eof6": "/${a?", "eof7": '/* ${"?"', "eof8": "a:\n  b\n ?",
    "dedents": "a:\n b:\n  c:\n   d\n?e", "words": "www www\n",
    "words2": "wwdwd = www", "mix": "x?=?1", "mix2": "f(?, ?)",
    "path": "a.?b", "path2": "a?.b", "unary": "-?-a", "at": "?@",
    "walrus": "a:?b", "walrus2": "a:?=b", "arrow": "-?>", "neq": "!?a",
    "neq2": "a?=b", "three": "a?==b", "three2": "a=?=b",
}

CORPUS = [
    "x := 1\nif x > 2:\n    y := x * 3\nelse:\n    pass\n",
    "def f(a: int, b=3) -> int:\n    result a + b\n\nf(1, b=2)\n",
    "interface a/b-c.d:\n    /say ${x} \\$ \\\\\n",
    'print.tell("a ${x + {1, 2}[0]} \\#(red,bold)b\\x41")\n',
    "/* execute as @a\n   run say ${x}\n*/\ny = 0x1F\n",
    "entity T extends U:\n  x: int\n  virtual def m(self) -> bool:\n"
    "    result not (a and b)\n",
    "const A = {1: \"x\", 2: \"y\",}, B = -1.5\n",
    "from .m.n import a as b, c\n#* long\n comment *#\nimport m\n",
    "struct S:\n  a: int\n  b: bool\n\n&r = s.a\nr %= 0b101\n",
    "while a <= 0o17 or \\\n    b != c:\n  a += 1 # c\n",
    "for i in {1, 2.5}:\n  new(\n    a, b=c\n  )\n",
]


def jobs(tier, seed):
    r = rng(seed, "p13")
    out = []
    for n, t in TEXTS.items():
        out.append({"kind": "unit", "module": "p13", "name": n, "text": t})
    k = 120 if tier == "quick" else 3000
    for i in range(k):
        src = r.choice(CORPUS)
        w = r.choice([1, 1, 1, 2] if tier == "quick" else [1, 2, 2, 3])
        p = r.randrange(0, len(src) - w + 1)
        if "\n" in src[p:p + w]:
            w = 1
        mode = r.random()
        if mode < .5:
            s = src[:p] + "\0" * w + src[p + w:]       # replace
        elif mode < .8:
            s = src[:p] + "\0" * w + src[p:]           # insert
        else:
            s = src[:p] + "\0" + src[p + w + 2:]       # shorten
        out.append({"kind": "unit", "module": "p13", "name": "win%d" % i,
                    "text": s, "hole": "\0"})
    if tier != "quick":
        for j in out:
            j["long"] = True
    return out


DOM = {"d": "0123456789", "h": "0123456789abcdefABCDEF",
       "w": "adefinorstuAFTN_lcx", "s": " b"}


def source(job, inp):
    t = job["text"]
    if job.get("hole"):
        out = ""
        for i, c in enumerate(t):
            out += inp.char(str(i)) if c == job["hole"] else c
        return out
    special = {"digits": "d", "hex": "h", "hexU": "h", "float": "d",
               "float2": "d", "str-x2": "h", "str-u": "h", "str-U": "h",
               "str-U4": "h", "str-U5": "h", "str-U6": "h", "str-U7": "h",
               "str-U8": "h", "str-U9": "h", "str-u3": "h",
               "indent8": "s", "indent9": "s", "indent10": "s",
               "indent14": "s", "indent17": "s", "indent18": "s",
               "indent19": "s", "words": "w", "words2": "wd"}.get(
                   job["name"], "")
    out = ""
    for i, c in enumerate(t):
        if c == "?":
            out += inp.char(str(i))
        elif c in special and not (job["name"] == "hex" and i < 2):
            out += inp.among(str(i), DOM[c])
        else:
            out += c
    return out


def real_tokens(src, version):
    import io
    from acaciamc.tokenizer import Tokenizer, TokenType
    from acaciamc.error import Error
    tk = Tokenizer(io.StringIO(src, newline="\n"), version)
    out = []
    try:
        while True:
            t = tk.get_next_token()
            k = t.type.value
            out.append((k, t.value, None if k in UNPLACED
                        else (t.lineno, t.col)))
            if t.type is TokenType.end_marker:
                return ("tokens", out)
            if len(out) > 500:
                return ("endless", None)
    except Error as e:
        return ("error", e.type.name, tuple(e.location.linecol))


def ref_tokens(src, version):
    try:
        out = rlex.Lex(src, version).run()
        return ("tokens", [(k, v, None if k in UNPLACED else p)
                           for k, v, p in out])
    except rlex.LexError as e:
        return ("error", e.kind, e.pos)
    except rlex.Unspecified:
        raise unit.Skip


def spec(job, inp):
    src = source(job, inp)
    ver = (1, inp.int("minor", 16, 21), inp.int("patch", 0, 99)) \
        if "material" in src else (1, 20, 20)
    a = real_tokens(src, ver)
    b = ref_tokens(src, ver)
    if inp.concrete:
        show = "tokens of %r: %r, expected %r" % (src, a, b)
    else:
        show = "tokens differ"
    if a[0] != b[0]:
        return [(True, show)]
    if a[0] == "error":
        bad = a[1] != b[1] or (b[2] is not None and a[2] != b[2])
        return [(bad, show)]
    ka = [(k, p) for k, _, p in a[1]]
    kb = [(k, p) for k, _, p in b[1]]
    if ka != kb:
        return [(True, show)]
    return [(unit.differ([v for _, v, _ in a[1]], [v for _, v, _ in b[1]]),
             show)]


def run_unit(job):
    return unit.run(job, spec, "p13", max_paths=60000 if job.get("long")
                    else 4000, seconds=300 if job.get("long") else 15)


def replay(data):
    return unit.replay(data, spec)
