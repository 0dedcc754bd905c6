"""Static well-formedness of emitted command text (Bedrock grammar).

Knows nothing of the compiler.  Every line of every file is parsed, executed
or not; numerals may be symbolic, their constraints become obligations.
"""
import json
import re
from . import dom, mc
from .mc import McError, split_ws, split_commas, tokens_with_pos, unquote

WORD = re.compile(r"[a-z_]+$")
NUM = re.compile(r"-?\d+$")
FLOAT = re.compile(r"-?\d+(\.\d+)?$")
SUB = {"as", "at", "positioned", "align", "anchored", "facing", "in",
       "rotated", "if", "unless", "run"}
# characters that end an unquoted word
ENDS = re.compile(r"""[,@~^/$&"'!#%+*=\[{\]}\\|<>`]""")
HASNUM = re.compile(r"-?\d{38,}")
SELVARS = ("a", "e", "p", "r", "s", "initiator")
SINGLE = {"c", "r", "rm", "x", "y", "z", "dx", "dy", "dz", "l", "lm", "rx",
          "rxm", "ry", "rym", "scores", "haspermission", "hasitem"}
MULTI = {"tag", "type", "name", "family", "m"}


class WF:
    def __init__(self, out, files, external=("in",)):
        self.w = mc.World({})
        self.w.fresh = False
        self.files = files
        self.out = out
        self.bad = []            # (kind, condition)
        self.objectives = set(external)
        self.used_obj = []
        self.calls = []          # (file, target)
        self.where = ""

    def err(self, msg, c=True):
        self.bad.append(("%s in %s" % (msg, self.where), c))

    def num(self, tok):
        v = self.w.num(tok, True)
        return v

    def run(self):
        for p, t in sorted(self.files.items()):
            if "\r" in t or any(ord(c) < 32 and c != "\n" for c in t):
                self.where = p
                self.err("control character")
            lines = t.split("\n")
            for i, l in enumerate(lines):
                if not l.strip() or l.startswith("#"):
                    continue
                self.where = "%s:%d: %s" % (p, i + 1, l[:160])
                self.file = p
                try:
                    self.line(l)
                except McError as e:
                    self.err(str(e))
                except (IndexError, ValueError) as e:
                    self.err("truncated command")
        for o, where in self.used_obj:
            if o not in self.objectives:
                self.bad.append(("objective %s is never created: %s" % (
                    o, where), True))
        for g, c, m in self.w.oblig:
            self.bad.append((m, dom.not_(c)))
        for g, m in self.w.problems:
            self.bad.append((m, True))
        return self.bad

    def line(self, l):
        l = l.strip()
        if l.startswith("/"):
            self.err("slash in a function file")
        self.command(l)

    def command(self, l):
        word = l.split(" ", 1)[0]
        if not WORD.match(word):
            raise McError("not a command: %r" % l[:80])
        f = getattr(self, "c_" + word, None)
        if f:
            return f(l)
        # free text commands
        if word in ("say", "me", "kick"):
            return
        if word in ("tell", "msg", "w"):
            w = tokens_with_pos(l)
            self.sel(w[1][0])
            return
        for t in split_ws(l)[1:]:
            self.word(t)

    def word(self, t):
        if t.startswith("@"):
            self.sel(t)
        elif HASNUM.fullmatch(t) or NUM.match(t):
            self.num(t)
        elif t[:1] in "~^" or FLOAT.match(t):
            self.coord(t)

    def coord(self, t):
        body = t[1:] if t[:1] in "~^" else t
        if body == "":
            return
        if HASNUM.fullmatch(body.split(".")[0]):
            return
        if not re.match(r"-?\d+(\.\d+)?$|-?\.\d+$", body):
            raise McError("bad coordinate %r" % t)

    def coords(self, ts):
        for t in ts:
            if not (t[:1] in "~^" or HASNUM.match(t) or
                    re.match(r"-?[\d.]", t)):
                raise McError("bad coordinate %r" % t)
            self.coord(t)
        loc = [t.startswith("^") for t in ts]
        if any(loc) and not all(loc):
            raise McError("local and world coordinates mixed: %s" %
                          " ".join(ts))

    def holder(self, t):
        if t.startswith("@"):
            self.sel(t)
        elif not t:
            raise McError("empty score holder")
        elif t != "*":
            self.bare(t)

    def bare(self, t):
        if not t.startswith('"') and ENDS.search(t):
            raise McError("unquoted word %r" % t)

    def obj(self, t):
        self.bare(t)
        o = unquote(t)
        self.used_obj.append((o, self.where))

    def rng(self, t):
        self.w.in_range(0, t, True)

    def sel(self, s):
        var, args = self.w.parse_sel(s)
        if var not in SELVARS:
            raise McError("unknown selector @%s" % var)
        if re.search(r"\[,|,,|,\]$", s):
            raise McError("empty selector argument")
        seen = set()
        for k, v in args:
            if k in SINGLE:
                if k in seen:
                    raise McError("duplicate selector argument %s" % k)
                seen.add(k)
            elif k not in MULTI:
                raise McError("unknown selector argument %s" % k)
            neg = v.startswith("!")
            b = v[1:] if neg else v
            if neg and k in SINGLE:
                raise McError("selector argument %s cannot be negated" % k)
            if k in ("name", "type", "m") and not neg:
                if k in seen:
                    raise McError("duplicate selector argument %s" % k)
                seen.add(k)
            if k in MULTI:
                if b.startswith('"'):
                    unquote(b)
                elif (" " in b or ENDS.search(b)):
                    raise McError("unquoted text %r" % b)
                elif b == "" and k not in ("tag",):
                    raise McError("empty %s" % k)
            elif k == "scores":
                if b[:1] != "{" or b[-1:] != "}":
                    raise McError("bad scores %r" % b)
                for p in split_commas(b[1:-1]):
                    o, e, r = p.rpartition("=")
                    if not e or not o.strip():
                        raise McError("bad scores %r" % b)
                    self.rng(r.strip())
            elif k == "hasitem":
                if b[:1] not in "[{" or b[-1:] not in "]}":
                    raise McError("bad hasitem %r" % b)
            elif k == "haspermission":
                if b[:1] != "{" or b[-1:] != "}":
                    raise McError("bad haspermission")
            elif k in ("c", "l", "lm"):
                v = self.num(b)
                if k == "c":
                    self.err("c=0", dom.eq(v, 0))
            elif k in ("x", "y", "z"):
                self.coord(b)
            elif not FLOAT.match(b) and not HASNUM.match(b):
                raise McError("bad number %r" % b)

    def c_scoreboard(self, l):
        w = split_ws(l)
        if w[1] == "objectives":
            if w[2] == "add":
                if len(w) not in (5, 6) or w[4] != "dummy":
                    raise McError("bad objectives add")
                if unquote(w[3]) in self.objectives:
                    self.err("objective created twice")
                self.objectives.add(unquote(w[3]))
            return
        if w[1] != "players":
            raise McError("bad scoreboard command")
        op = w[2]
        self.holder(w[3])
        if op in ("set", "add", "remove"):
            if len(w) != 6:
                raise McError("bad scoreboard command")
            self.obj(w[4])
            self.num(w[5])
        elif op == "random":
            if len(w) != 7:
                raise McError("bad scoreboard command")
            self.obj(w[4])
            lo, hi = self.num(w[5]), self.num(w[6])
            self.err("random range is empty", dom.gt(lo, hi))
        elif op == "operation":
            if len(w) != 8 or w[5] not in ("=", "+=", "-=", "*=", "/=", "%=",
                                           "<", ">", "><"):
                raise McError("bad operation")
            self.obj(w[4])
            self.holder(w[6])
            self.obj(w[7])
        elif op not in ("reset", "test", "list"):
            raise McError("bad scoreboard command")

    def c_execute(self, l):
        w = tokens_with_pos(l)
        i = 1
        while True:
            if i >= len(w):
                raise McError("execute without run")
            t = w[i][0]
            if t not in SUB:
                raise McError("bad execute subcommand %r" % t)
            if t == "run":
                return self.command(l[w[i + 1][1]:])
            a = [x[0] for x in w[i + 1:]]
            if t in ("as", "at"):
                self.sel(a[0])
                i += 2
            elif t in ("if", "unless"):
                if a[0] == "score":
                    self.holder(a[1])
                    self.obj(a[2])
                    if a[3] == "matches":
                        self.rng(a[4])
                        i += 6
                    else:
                        if a[3] not in ("=", "<", "<=", ">", ">="):
                            raise McError("bad comparison %r" % a[3])
                        self.holder(a[4])
                        self.obj(a[5])
                        i += 7
                elif a[0] == "entity":
                    self.sel(a[1])
                    i += 3
                elif a[0] == "block":
                    self.coords(a[1:4])
                    i += 6
                    while w[i][0] not in SUB:
                        i += 1
                elif a[0] == "blocks":
                    self.coords(a[1:4])
                    self.coords(a[4:7])
                    self.coords(a[7:10])
                    if a[10] not in ("all", "masked"):
                        raise McError("bad scan mode")
                    i += 12
                else:
                    raise McError("bad condition %r" % a[0])
            elif t == "positioned":
                if a[0] == "as":
                    self.sel(a[1])
                    i += 3
                else:
                    self.coords(a[:3])
                    i += 4
            elif t == "rotated":
                if a[0] == "as":
                    self.sel(a[1])
                else:
                    for x in a[:2]:
                        if x.startswith("^"):
                            raise McError("local rotation")
                        self.coord(x)
                i += 3
            elif t == "facing":
                if a[0] == "entity":
                    self.sel(a[1])
                    if a[2] not in ("eyes", "feet"):
                        raise McError("bad anchor %r" % a[2])
                else:
                    self.coords(a[:3])
                i += 4
            elif t == "align":
                if not re.match(r"[xyz]{1,3}$", a[0]) or \
                        len(set(a[0])) != len(a[0]):
                    raise McError("bad axes %r" % a[0])
                i += 2
            elif t == "anchored":
                if a[0] not in ("eyes", "feet"):
                    raise McError("bad anchor %r" % a[0])
                i += 2
            else:
                i += 2

    def c_function(self, l):
        w = l.split(" ")
        if len(w) != 2 or not w[1]:
            raise McError("bad function command")
        self.calls.append((self.file, w[1]))

    def c_schedule(self, l):
        w = split_ws(l)
        if w[1] != "on_area_loaded":
            raise McError("bad schedule command")
        self.calls.append((self.file, w[-1]))

    def c_tag(self, l):
        w = split_ws(l)
        if len(w) != 4 or w[2] not in ("add", "remove"):
            raise McError("bad tag command")
        self.holder(w[1])

    def c_tellraw(self, l):
        w = mc.split_pos(l, 2)
        self.holder(w[1])
        self.json(w[2])

    def c_titleraw(self, l):
        w = split_ws(l)
        self.holder(w[1])
        if w[2] in ("reset", "clear"):
            if len(w) != 3:
                raise McError("bad titleraw")
            return
        if w[2] == "times":
            if len(w) != 6:
                raise McError("bad titleraw times")
            for x in w[3:]:
                self.num(x)
            return
        if w[2] not in ("title", "subtitle", "actionbar"):
            raise McError("bad titleraw mode")
        self.json(mc.split_pos(l, 3)[3])

    def json(self, s):
        try:
            js = json.loads(s)
        except ValueError:
            raise McError("bad json %r" % s[:80])
        self.rawtext(js)

    def rawtext(self, js):
        if not isinstance(js, dict) or set(js) != {"rawtext"} or \
                not isinstance(js["rawtext"], list):
            raise McError("bad rawtext")
        for c in js["rawtext"]:
            if not isinstance(c, dict):
                raise McError("bad rawtext component")
            k = set(c)
            if k == {"text"} or k == {"translate"} or k == {"selector"}:
                if not isinstance(list(c.values())[0], str):
                    raise McError("bad rawtext component")
            elif k == {"score"}:
                s = c["score"]
                if set(s) != {"name", "objective"}:
                    raise McError("bad score component")
                self.holder(s["name"])
                self.used_obj.append((s["objective"], self.where))
            elif k == {"translate", "with"}:
                if isinstance(c["with"], dict):
                    self.rawtext(c["with"])
            else:
                raise McError("bad rawtext component %r" % (c,))

    def pos_cmd(self, l, shape):
        w = split_ws(l)
        for i, k in shape:
            if k == 3:
                self.coords(w[i:i + 3])
        for t in w[1:]:
            if not t.startswith(("~", "^")):
                self.word(t)

    def c_setblock(self, l):
        self.pos_cmd(l, [(1, 3)])

    def c_fill(self, l):
        self.pos_cmd(l, [(1, 3), (4, 3)])

    def c_clone(self, l):
        self.pos_cmd(l, [(1, 3), (4, 3), (7, 3)])

    def c_summon(self, l):
        self.pos_cmd(l, [(2, 3)])

    def c_tp(self, l):
        self.pos_cmd(l, [(2, 3)])
