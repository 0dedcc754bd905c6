"""P27: raw commands and strings reach the game unchanged."""
import os
import shutil
import tempfile
from .common import *
from vlib import unit, rlex, rast, sym, tv as tvm
from vlib.sym import H

BOUNDS = ("windows of up to 5 symbolic characters (each U+0000..U+024F) at "
          "every place of a raw command and of a string literal, through the "
          "whole compiler; string arguments in 30 kinds of commands")
OUTSIDE = ("line breaks and carriage returns inside a name (a function file "
           "cannot express them); characters above U+024F; json.dumps itself")
ASSUMPTIONS = [
    "the game reads a word that starts with a quote up to the next quote, "
    "decoding \\\" and \\\\; any other word ends at one of "
    " ,@~^/$&\"'!#%+*=[{]}\\|<>` or a line break",
    "a score holder that starts with @ is a selector and * means everyone"]

STOP = frozenset(" ,@~^/$&\"'!#%+*=[{]}\\|<>`\n")
T = "entity T:\n    pass\n"
G = "x := ExternEngroup()\nx.select(Enfilter()%s)\n"

# name: (source, template of the last line(s) of main); in sources ? is a
# symbolic character; in templates {n} is a word that reads as the n-th string
# literal of the source, {{n}} its raw text
WORDS = {
    "set-target": ('&v = scb("??", "o")\nv = 5\n',
                   "scoreboard players set {0} o 5"),
    "set-target3": ('&v = scb("???", "o")\nv = 5\n',
                    "scoreboard players set {0} o 5"),
    "set-obj": ('&v = scb("t", "???")\nv = 5\n',
                "scoreboard players set t {1} 5"),
    "set-both": ('&v = scb("?b", "c?")\nv = 5\n',
                 "scoreboard players set {0} {1} 5"),
    "add": ('&v = scb("a?", "b?")\nv += 3\n',
            "scoreboard players add {0} {1} 3"),
    "op": ('&v = scb("a?", "b?")\n&w = scb("?a", "o")\nv *= w\n',
           "scoreboard players operation {0} {1} *= {2} o"),
    "cond": ('&v = scb("a?", "b?")\nif v == 1:\n    /say x\n',
             "execute if score {0} {1} matches 1 run say x"),
    "cond-not": ('&v = scb("a?", "b?")\nif v != 1:\n    /say x\n',
                 ("execute if score {0} {1} matches !1 run say x",
                  "execute unless score {0} {1} matches 1 run say x")),
    "cond-two": ('&v = scb("a?", "b")\n&w = scb("b", "c?")\nif v < w:\n'
                 "    /say x\n",
                 "execute if score {0} b < b {3} run say x"),
    "tag": (G % '.has_tag("a??")', "tag @e[tag={0}] add acacia1"),
    "tag2": (G % '.has_tag("?", "b?")',
             "tag @e[tag={0},tag={1}] add acacia1"),
    "no-tag": (G % '.has_no_tag("?b?")', "tag @e[tag=!{0}] add acacia1"),
    "name": (G % '.is_name("???")', "tag @e[name={0}] add acacia1"),
    "not-name": (G % '.is_not_name("a??", "?")',
                 "tag @e[name=!{0},name=!{1}] add acacia1"),
    "scores": (G % '.scores("?b?", 3)', "tag @e[scores={{{0}=3}}] add "
               "acacia1"),
    "summon": ('import world\nworld.summon("cow", Pos(1.0, 2.0, 3.0), "ev", '
               '"???")\n', "execute positioned 1.0 2.0 3.0 run summon cow "
               "~ ~ ~ 0 0 ev {2}"),
    "tag-add": (G % "" + 'import world\nworld.tag_add(x, "?a?")\n',
                "tag @e[tag=acacia1] add {0}"),
    "tag-remove": (G % "" + 'import world\nworld.tag_remove(x, "?a?")\n',
                   "tag @e[tag=acacia1] remove {0}"),
    "kick": ('import world\nworld.kick("???")\n', "kick {0}"),
    "kick-why": ('import world\nworld.kick("a?", "why ??")\n',
                 "kick {0} {!1}"),
    "recipe": (G % "" + 'import world\nworld.recipe(x, "a?", True)\n',
               "recipe give @e[tag=acacia1,type=player] {0}"),
    "rider": (G % "" + 'import world\nworld.summon_rider(x, "cow", '
              'name="??")\n',
              "ride @e[tag=acacia1] summon_rider cow * {1}"),
    "ride": (G % "" + 'import world\nworld.summon_ride(x, "cow", '
             'name="??")\n',
             "ride @e[tag=acacia1] summon_ride cow reassign_rides *  {1}"),
}
# raw commands: the last line is the concatenation of the parts
RAW = {
    "any": "/a??\n", "any3": "/a ???b\n", "space": "/ ?\n", "tail": "/a ??\n",
    "quoted": '/say "?" ?\n', "value": 'const s = "?a?"\n/say ${s}?\n',
    "value2": 'const s = "a?", t = "?"\n/${s} ${t}${s}\n',
    "num": "/say ${12?}\n", "num2": "/say ${1}?${2}\n",
    "esc": "/say \\?\n", "esc2": "/say \\??a\n", "dollar": "/say $?a}\n",
    "json": '/tellraw @a {"rawtext":[{"text":"??"}]}\n',
    "selector": "/say @e[name=?]\n", "hash": "/?say #a\n",
    "in-def": "def f():\n    /say ??\nf()\n",
    "in-if": '&v = scb("a", "b")\nif v == 1:\n    /say ??\n',
    "in-inline": "inline def f(const s):\n    /say ${s}?\nf(\"??\")\n",
    "in-list": 'const l = {"a?", "?"}\n/say ${l[1]} ${l[0]}\n',
    "multi": "/*say ?\n ?b*/\n", "multi2": "/* say ?? */\n",
    "font": "/say \\#(red)?\\#(bold)\n", "str-cat": 'const s = "a?" "?b"\n'
    "/say ${s}\n", "nested": 'const s = "a?"\nconst t = "${s}?"\n/x ${t}\n',
    "map": 'const m = {"a": "?b"}\n/x ${m["a"]}\n',
    "brace": "/{?\n", "percent": "/say %??\n", "back-end": "/say a\\\\?\n",
}
# printed text: the parts of the JSON text concatenate to the string
JSON = {
    "tell": ('import print\nprint.tell("a??")\n', "tellraw @a "),
    "tell3": ('import print\nprint.tell("???")\n', "tellraw @a "),
    "title": ('import print\nprint.title("?b?")\n', "titleraw @a title "),
    "const": ('import print\nconst s = "?a"\nprint.tell("${s}?")\n',
              "tellraw @a "),
    "sub": ('import print\nprint.title("?", mode=print.SUBTITLE)\n',
            "titleraw @a subtitle "),
    "bar": ('import print\nprint.title("?", mode=print.ACTIONBAR)\n',
            "titleraw @a actionbar "),
}


def jobs(tier, seed):
    out = []

    def add(kind, name, src, tpl):
        out.append({"kind": "unit", "module": "p27", "part": kind,
                    "name": "%s-%s" % (kind, name), "src": src, "tpl": tpl})
    for d, k in ((WORDS, "word"), (JSON, "json")):
        for n, (s, t) in d.items():
            add(k, n, s, t)
    for n, s in RAW.items():
        add("raw", n, s, None)
    for n in range(1, 5 if tier == "quick" else 7):
        for f in ("mc_str", "mc_selector", "mc_wc_selector"):
            out.append({"kind": "unit", "module": "p27", "part": "quote",
                        "name": "%s-%d" % (f, n), "fn": f, "n": n})
    # windows in commands and strings of the corpus
    g = rng(seed, "p27")
    for i in range(70 if tier == "quick" else 4000):
        w = g.randint(1, 2)
        if g.random() < .5:
            t = g.choice(["/give @s apple 1 0 {\"a\": [\"b c\"]}\n",
                          "/execute as @a[tag=!\"x y\"] run say \\\"hi\\\"\n",
                          "/say ${K} and \\${K} \\\\ ${K}\n",
                          "/title @a times ${K} 20 ${K}0\n",
                          "/say \\x41\\u00e9 z \\#(blue,bold)q\n"])
            p = g.randrange(1, len(t) - w)
            t = t[:p] + "?" * w + t[p + (w if g.random() < .6 else 0):]
            add("raw", "win%d" % i, 'const K = "k%s"\n' % g.choice(
                ["", " ", "7"]) + t, None)
        else:
            n, (s, t) = g.choice(sorted(WORDS.items()))
            ps = [p for p in range(len(s)) if s[p] == "?"]
            p = g.choice(ps)
            s = s[:p] + "?" * g.randint(1, 2) + s[p + 1:]
            add("word", "%s-win%d" % (n, i), s, t)
    for j in out:
        j["sec"] = 6 if tier == "quick" else 60
    return out


def source(job, inp):
    """Raw commands: the program text; every hole is any character."""
    out = ""
    for i, c in enumerate(job["src"]):
        out += inp.char(str(i), "\n\r") if c == "?" else c
    return out


def escaped(job, inp):
    """(program text, values of its string literals): every hole is any
    character of a string value, written the way the language asks for."""
    out, vals, inside = "", [], False
    for i, c in enumerate(job["src"]):
        if c == '"':
            if not inside:
                vals.append("")
            inside = not inside
        elif inside:
            if c == "?":
                c = inp.char(str(i), "\n\r")
                if bool(H.in_(c, '"\\')):
                    out += "\\"
                elif vals[-1] and bool(H.eq(c, "{")) and \
                        bool(H.eq(vals[-1][-1], "$")):
                    raise unit.Skip      # ${ starts an expression
            vals[-1] += c
        out += c
    return out, vals


def compile_(src):
    d = tempfile.mkdtemp(prefix="vp", dir=tvm.TMP)
    try:
        main = os.path.join(d, "main.aca")
        with open(main, "w", encoding="utf-8", newline="") as f:
            f.write(src)
        try:
            return tvm.compile_case(main, os.path.join(d, "o"), {})
        except tvm.CompileError as e:
            return str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Bad(Exception):
    pass


# ------------------------------------------------------- reading the source
class Env:
    """Constant evaluation of the few forms used here."""

    def __init__(self, mod):
        self.names = {}
        self.funcs = {}
        self.cmds = []
        self.block(mod[1])

    def block(self, stmts):
        for s in stmts:
            r = self.stmt(s)
            if r is not None:
                return r

    def stmt(self, s):
        k = s[0]
        if k == "ConstDef":
            for n, v in zip(s[1], s[3]):
                self.bind(n, self.val(v))
        elif k == "Command":
            self.cmds.append(self.fstr(s[1]))
        elif k == "FuncDef":
            self.funcs[s[1]] = s[2]
        elif k == "ExprStatement" and s[1][0] == "Call":
            self.call(s[1])
        elif k == "If":
            self.block(s[2])
        elif k == "Result":
            return self.val(s[1])
        elif k == "ReferenceDef":
            pass
        else:
            raise unit.Skip

    def bind(self, n, v):
        for k in self.names:
            if bool(H.eq(k, n)):
                raise unit.Skip
        self.names[n] = v

    def call(self, e):
        if e[1][0] != "Identifier" or e[1][1] not in self.funcs or \
                e[2][2]:
            raise unit.Skip
        f = self.funcs[e[1][1]]
        old = dict(self.names)
        for p, v in zip(f[1][1], e[2][1]):
            self.names[p[0]] = self.val(v)
        r = self.block(f[3])
        self.names = old
        return r

    def fstr(self, f):
        out = ""
        for p in f[1]:
            if isinstance(p, str):
                out += p
            else:
                v = self.val(p)
                if isinstance(v, bool) or not (type(v) is int or
                                               isinstance(v, str)):
                    raise unit.Skip
                out += str(v) if type(v) is int else v
        return out

    def val(self, e):
        k = e[0]
        if k == "Literal":
            return e[1]
        if k == "StrLiteral":
            return self.fstr(e[1])
        if k == "Identifier":
            for n, v in self.names.items():
                if bool(H.eq(e[1], n)):
                    return v
        if k == "ListDef":
            return [self.val(x) for x in e[1]]
        if k == "MapDef":
            return [(self.val(x), self.val(y)) for x, y in zip(e[1], e[2])]
        if k == "Call":
            return self.call(e)
        if k == "Subscript":
            o, i = self.val(e[1]), self.val(e[2][0])
            if o and isinstance(o[0], tuple):
                for x, y in o:
                    if bool(H.eq(x, i)):
                        return y
            elif isinstance(i, int) and 0 <= i < len(o):
                return o[i]
        raise unit.Skip


def read_word(s, i):
    """(text, next index) of the word of a command at s[i:]."""
    out = ""
    if i < len(s) and bool(H.eq(s[i], '"')):
        i += 1
        while True:
            if i >= len(s):
                raise Bad("quoted word never ends")
            c = s[i]
            if bool(H.eq(c, '"')):
                return out, i + 1
            if bool(H.eq(c, "\\")):
                i += 1
                if i >= len(s) or not bool(H.in_(s[i], '\\"')):
                    raise Bad("bad escape")
                c = s[i]
            out += c
            i += 1
    while i < len(s) and not bool(H.in_(s[i], STOP)):
        out += s[i]
        i += 1
    if not out:
        raise Bad("word is missing")
    return out, i


def match(line, tpl, strs):
    """[bad] conditions of `line` against the template."""
    i = j = 0
    bads = []
    while j < len(tpl):
        c = tpl[j]
        if tpl.startswith("{{", j) or tpl.startswith("}}", j):
            j += 2
        elif c == "{":
            e = tpl.index("}", j)
            k = tpl[j + 1:e]
            j = e + 1
            if k.startswith("!"):
                t = strs[int(k[1:])]
                w, i = line[i:i + len(t)], i + len(t)
            else:
                t = strs[int(k)]
                w, i = read_word(line, i)
            bads.append(unit.differ(w, t))
            continue
        else:
            j += 1
        if i >= len(line):
            raise Bad("line ends early")
        if not bool(H.eq(line[i], c)):
            raise Bad("line has other text")
        i += 1
    if i != len(line):
        raise Bad("line goes on")
    return bads


def spec(job, inp):
    if job["part"] == "quote":
        return quote(job, inp)
    tree, want, strs = (), None, None
    if job["part"] == "raw":
        src = source(job, inp)
        try:
            tree = rast.parse(src)
        except (rast.SyntaxErr, rlex.LexError):
            tree = None
        except rlex.Unspecified:
            raise unit.Skip
        if tree is not None:
            env = Env(tree)
            if len(env.cmds) != 1:
                raise unit.Skip
            want = env.cmds[0]
    else:
        src, strs = escaped(job, inp)
        domain(job, strs)
        if job["name"] == "json-const":
            strs = [strs[0] + strs[1][4:]]
    out = compile_(src)
    show = "%r gives %r" % (src, out if isinstance(out, str) else
                            out.get("main.mcfunction")) \
        if inp.concrete else job["part"]
    if tree is None:
        return [(not isinstance(out, str), "invalid program accepted: " +
                 show)]
    if isinstance(out, str):
        return [(True, "valid program rejected: " + show)]
    text = out["main.mcfunction"]
    lines = text.split("\n")
    while lines and lines[-1] == "":
        lines.pop()
    if job["part"] == "raw":
        if want is None:
            raise unit.Skip
        if bool(H.in_("\n", want)):
            raise unit.Skip
        if not blank(want):
            last = lines[-1] if lines else ""
            if job["name"] == "raw-in-if":
                want = "execute if score a b matches 1 run " + want
            return [(unit.differ(last, want), "command text: " + show)]
        raise unit.Skip
    last = lines[-1] if lines else ""
    if job["part"] == "json":
        import json
        try:
            head = last[:len(job["tpl"])]
            if head != job["tpl"]:
                raise Bad("another command")
            rt = json.loads(last[len(head):])["rawtext"]
            got = "".join(p["text"] for p in rt)
        except (ValueError, KeyError, Bad) as e:
            return [(True, "unreadable: " + show)]
        return [(unit.differ(got, strs[-1]), "text shown: " + show)]
    why = None
    tpls = job["tpl"]
    for tpl in [tpls] if isinstance(tpls, str) else tpls:
        try:
            return [(b, "argument: " + show) for b in match(last, tpl, strs)]
        except Bad as e:
            why = why or "%s: %s" % (e, show)
    return [(True, why)]


def blank(s):
    return all(bool(H.eq(c, " ")) for c in s)


def domain(job, strs):
    n = job["name"].split("-win")[0]
    for i, s in enumerate(strs):
        if job["part"] == "word":
            if bool(H.in_("\n", s)):
                raise unit.Skip
    if n.split("word-")[-1].startswith(("set", "add", "op", "cond")):
        for s in strs[::2]:
            if s and bool(H.eq(s[0], "@")) or s and bool(H.eq(s, "*")):
                raise unit.Skip
    if n == "word-recipe" and bool(H.eq(strs[0], "*")):
        raise unit.Skip


def quote(job, inp):
    from acaciamc.mccmdgen import cmds
    s = "".join(inp.char(str(i), "\n\r") for i in range(job["n"]))
    out = getattr(cmds, job["fn"])(s)
    show = "%s(%r) gives %r" % (job["fn"], s, out) if inp.concrete \
        else "quoting"
    if job["fn"] != "mc_str" and bool(H.eq(s[0], "@")) or \
            job["fn"] == "mc_wc_selector" and bool(H.eq(s, "*")):
        return [(unit.differ(out, s), show)]
    try:
        w, i = read_word(out, 0)
    except Bad as e:
        return [(True, "%s: %s" % (e, show))]
    if i != len(out):
        return [(True, "word goes on: " + show)]
    return [(unit.differ(w, s), show)]


def run_unit(job):
    return unit.run(job, spec, "p27", max_paths=3000, seconds=job.get("sec", 6),
                    witnesses=1)


def replay(data):
    return unit.replay(data, spec)
