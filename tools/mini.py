"""A small interpreter of generated commands, for demonstrations."""
import os
import re
import shutil
import subprocess
import sys
import tempfile


def compile_(src, args=(), files=()):
    """Compile with /repo's compiler; {path: text} or None on an error."""
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "main_src.aca")
        for n, s in [("main_src.aca", src)] + list(dict(files).items()):
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
        o = os.path.join(d, "out")
        r = subprocess.run([sys.executable, "-B", "acacia.py", p, "-o", o,
                            "--override-old"] + list(args),
                           capture_output=True, text=True)
        if r.returncode or not os.path.isdir(o):
            return None, r.stderr + r.stdout
        out = {}
        for root, _, fs in os.walk(o):
            for f in fs:
                q = os.path.join(root, f)
                out[os.path.relpath(q, o)] = open(q).read()
        return out, r.stderr + r.stdout
    finally:
        shutil.rmtree(d)


def wrap(v):
    return (v + 2**31) % 2**32 - 2**31


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class World:
    """Scores, tags and functions; positions are not modelled (what is found
    at the summoning place is the entity summoned last)."""

    def __init__(self, out, scores=None):
        self.f = {k[:-11]: v.split("\n") for k, v in out.items()
                  if k.endswith(".mcfunction")}
        self.s = dict(scores or {})
        self.log = []
        self.steps = 0
        self.ents = [{"id": "#P", "tags": set(), "type": "player"}]
        self.who = None
        self.sched = []

    def call(self, path):
        for line in self.f[path]:
            if line.strip() and not line.startswith("#"):
                self.cmd(line)

    def inrange(self, v, r):
        if r.startswith("!"):
            return not self.inrange(v, r[1:])
        if ".." not in r:
            return v == int(r)
        a, b = r.split("..")
        return (not a or int(a) <= v) and (not b or v <= int(b))

    def select(self, sel):
        """entities chosen by a selector"""
        m = re.match(r"@([a-z]+)(?:\[(.*)\])?$", sel)
        if not m:
            raise SystemExit("not modelled: " + sel)
        var, args = m.group(1), m.group(2) or ""
        es = list(self.ents)
        if var == "s":
            es = [e for e in es if e is self.who]
        elif var in "ap":
            es = [e for e in es if e["type"] == "player"]
        lim = None
        for a in re.findall(r"[a-z]+=(?:\{[^}]*\}|\"[^\"]*\"|[^,]*)", args):
            k, v = a.split("=", 1)
            v = v.strip('"')
            if k == "tag":
                es = [e for e in es if (v.lstrip("!") in e["tags"]) !=
                      v.startswith("!")]
            elif k == "type":
                es = [e for e in es if (v.lstrip("!") == e["type"]) !=
                      v.startswith("!")]
            elif k == "c":
                lim = int(v)
            elif k == "scores":
                for x in v.strip("{}").split(","):
                    o, r = x.split("=")
                    es = [e for e in es if
                          (e["id"], o) in self.s and
                          self.inrange(self.s[e["id"], o], r)]
            elif k in ("x", "y", "z", "dx", "dy", "dz"):
                es = es[-1:] if len(self.ents) > 1 else []
            else:
                raise SystemExit("not modelled: " + sel)
        return es if lim is None else es[:lim] if lim > 0 else es[lim:]

    def slots(self, name):
        if name.startswith("@"):
            return [e["id"] for e in self.select(name)]
        return [name]

    def cmd(self, line):
        self.steps += 1
        if self.steps > 100000:
            raise SystemExit("does not terminate")
        w = line.split(" ")
        if w[0] == "execute":
            return self.execute(w, 1)
        if w[0] == "function":
            return self.call(w[1])
        if w[0] == "tag":
            for e in self.select(w[1]):
                (e["tags"].add if w[2] == "add" else
                 e["tags"].discard)(w[3].strip('"'))
            return
        if w[0] == "summon":
            self.ents.append({"id": "#%d" % len(self.ents), "tags": set(),
                              "type": w[1]})
            return
        if w[0] == "tp":
            return
        if w[0] == "scoreboard" and w[1] == "players":
            for n in self.slots(w[3]):
                self.score(w, (n, w[4]))
            return
        if w[0] == "scoreboard" and w[1] == "objectives":
            return
        self.log.append(line)

    def score(self, w, k):
        v = self.s.get(k, 0)
        if w[2] in ("set", "add", "remove"):
            n = int(w[5])
            self.s[k] = wrap(n if w[2] == "set" else v + n
                             if w[2] == "add" else v - n)
            return
        if w[2] != "operation":
            raise SystemExit("not modelled: " + " ".join(w))
        for n in self.slots(w[6]):
            j = (n, w[7])
            v = self.s.get(k, 0)
            u = self.s.get(j, 0)
            op = w[5]
            if op == "><":
                self.s[k], self.s[j] = u, v
                continue
            if op in ("/=", "%=") and u == 0:
                continue
            self.s[k] = wrap({
                "=": lambda: u, "+=": lambda: v + u, "-=": lambda: v - u,
                "*=": lambda: v * u, "/=": lambda: tdiv(v, u),
                "%=": lambda: v - tdiv(v, u) * u,
                "<": lambda: min(u, v), ">": lambda: max(u, v)}[op]())

    def execute(self, w, i):
        if w[i] == "run":
            return self.cmd(" ".join(w[i + 1:]))
        if w[i] == "as":
            old = self.who
            for e in self.select(w[i + 1]):
                self.who = e
                self.execute(w, i + 2)
            self.who = old
            return
        if w[i] == "at":
            for e in self.select(w[i + 1]):
                self.execute(w, i + 2)
            return
        if w[i] == "positioned":
            return self.execute(w, i + 4 if w[i + 1] != "as" else i + 3)
        if w[i] not in ("if", "unless"):
            raise SystemExit("not modelled: " + " ".join(w))
        neg = w[i] == "unless"
        if w[i + 1] == "entity":
            ok = bool(self.select(w[i + 2]))
            i += 3
        elif w[i + 1] == "score":
            a = self.slots(w[i + 2])
            v = self.s.get((a[0], w[i + 3]), 0) if a else None
            if w[i + 4] == "matches":
                ok = v is not None and self.inrange(v, w[i + 5])
                i += 6
            else:
                b = self.slots(w[i + 5])
                u = self.s.get((b[0], w[i + 6]), 0) if b else None
                ok = None not in (u, v) and {
                    "=": v == u, "<": v < u, ">": v > u,
                    "<=": v <= u, ">=": v >= u}[w[i + 4]]
                i += 7
        else:
            raise SystemExit("not modelled: " + " ".join(w))
        if bool(ok) != neg:
            self.execute(w, i)


def run(src, scores, entries=("main",), args=(), files=()):
    """Final scores of objective "in" and the other commands run."""
    out, err = compile_(src, args, files)
    if out is None:
        raise SystemExit("does not compile: " + err)
    w = World(out, {(k, "in"): v for k, v in scores.items()})
    for e in entries:
        w.call(e)
    return {k[0]: v for k, v in w.s.items() if k[1] == "in"}, w.log


def expect(what, got, want):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)
    print("ok", what)
