"""P26: interfaces, files and names are where the program and configuration
put them."""
import argparse
import contextlib
import io
import os
import shutil
import tempfile
from .common import *
from vlib import unit, tv as tvm
from vlib.sym import H

BOUNDS = ("interface paths of up to 4 symbolic characters (U+0000..U+024F), "
          "alone, inside longer paths and against a second interface; "
          "configured names with up to 3 symbolic characters; command line "
          "values of up to 6 symbolic characters; interface bodies called up "
          "to 3 times in any order with symbolic inputs under 7 layouts")
OUTSIDE = ("interfaces whose body has no command (the compiler does not emit "
           "a file for them); Config objects that the command line would "
           "refuse; numerals that only int() of Python accepts; "
           "file systems that do not distinguish letter case")
ASSUMPTIONS = ass_arith(["a function path is a sequence of names of letters, "
                         "digits and .()_- joined by single slashes, none of "
                         "them . or .."])

OKCH = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
        ".()_-")

# ------------------------------------------------------------- path programs
# (name, source pieces: ? is a symbolic character; interfaces in quotes)
PATHS = {
    "len-1": ["?"], "len-2": ["??"], "len-3": ["???"], "len-4": ["????"],
    "len-0": [""],
    "in": ["a?b"], "in-2": ["a??b"], "end": ["a/b?"], "end-2": ["ab??"],
    "start": ["?/a"], "start-2": ["??/a"], "mid-3": ["a/???/b"],
    "main": ["m?in"], "main-2": ["ma??"], "main-sub": ["main?x"],
    "main-after": ["?/main"], "main-prefix": ["?main"],
    "internal": ["_acaci?"], "internal-sub": ["_acacia?x"],
    "internal-2": ["?acacia?f"], "tick": ["_aca?ia/tick"],
    "init": ["ini?"], "init-sub": ["init?a"],
    "dots": ["a/.?/b"], "dots-2": ["?.?/m"], "dots-3": ["..?"],
    "two": ["?a", "a?"], "two-2": ["?/?", "a/b"], "two-case": ["a?c", "ABC"],
    "two-sub": ["a?b", "a/b"], "two-pre": ["a?", "ab"],
    "three": ["?", "?", "a"],
}
# unquoted paths: the characters that such a path can be written with
PLAIN = {
    "plain-1": ["a?"], "plain-2": ["?b?"], "plain-main": ["mai?"],
    "plain-dot": ["a.?"], "plain-sub": ["a/?"], "plain-end": ["ab/?"],
    "plain-two": ["?a", "a?"],
}
CFGS = {
    "": {}, "root": {"root_folder": "lib/x"},
    "names": {"main_file": "go", "internal_folder": "inner"},
    "init": {"split_init": True},
    "init-2": {"split_init": True, "init_file": "Set", "main_file": "Main2",
               "root_folder": "q", "optimizer": False},
    "case": {"main_file": "MAIN", "internal_folder": "ACACIA_"},
}
# configured names with holes
CONFIG = {
    "cfg-main": ({"main_file": "m?"}, ["mb"]),
    "cfg-main-2": ({"main_file": "?b"}, ["a?"]),
    "cfg-main-case": ({"main_file": "?B"}, ["Ab"]),
    "cfg-internal": ({"internal_folder": "i?"}, ["ib/f"]),
    "cfg-internal-2": ({"internal_folder": "??"}, ["??/f"]),
    "cfg-init": ({"init_file": "i?", "split_init": True}, ["ib"]),
    "cfg-init-off": ({"init_file": "i?"}, ["ib"]),
    "cfg-root": ({"root_folder": "r?"}, ["rb", "main2"]),
    "cfg-root-2": ({"root_folder": "m?in"}, ["?ain/x"]),
    "cfg-all": ({"main_file": "a?", "internal_folder": "b?",
                 "init_file": "c?", "split_init": True}, ["?b"]),
}
# ------------------------------------------------------------ running bodies
RUN = {
    "one": ("interface p/q:\n    r += a\n", ["p/q"]),
    "twice": ("interface p:\n    r += a\n    s = r * 2\n", ["p", "p"]),
    "two": ("interface p:\n    r += a\ninterface q:\n    r -= b\n",
            ["p", "q", "p"]),
    "shared": ("x := a\ninterface p:\n    x += K0\n    r = x\ninterface q/p:"
               "\n    s = x\n", ["p", "q/p", "p"]),
    "local": ("interface p:\n    x := a\n    x += K0\n    r += x\n",
              ["p", "p"]),
    "order": ("r = a\ninterface p:\n    r += b\nr *= 2\n", ["p"]),
    "call": ("def f(n: int) -> int:\n    result n + K0\ninterface p:\n"
             "    r = f(r)\n    s = f(s)\n", ["p", "p"]),
    "branch": ("interface p:\n    if a > K0:\n        r += 1\n"
               "        s += 2\n    else:\n        r -= 1\n        s -= b\n",
               ["p", "p"]),
    "loop": ("interface p:\n    i := 0\n    while i < 2:\n        r += a\n"
             "        i += 1\n", ["p", "p"]),
    "say": ("interface p:\n    /say hi\ninterface P2:\n    /say ho\n",
            ["P2", "p"]),
    "inline": ("inline def f(&x: int):\n    x += a\ninterface p:\n"
               "    f(r)\ninterface q:\n    f(s)\n", ["q", "p"]),
    "const": ("const k = 7\ninterface p:\n    const j = k + 1\n"
              "    r = j\n", ["p"]),
    "only": ("interface p:\n    r = a\ninterface q:\n    pass\n", ["p"]),
    "arith": ("interface p:\n    r = a * b + c * (a - K0)\ninterface q:\n"
              "    s = r / 3 + r % 7\n", ["p", "q"]),
    "quoted": ('interface "x-y/(z).w":\n    r += a\n', ["x-y/(z).w"]),
    "path-const": ('const n = "k"\ninterface "p/${n}":\n    r += a\n',
                   ["p/k"]),
}
LAY = [
    {}, {"root_folder": "lib/x"}, {"main_file": "go", "internal_folder": "i"},
    {"split_init": True}, {"optimizer": False},
    {"scoreboard": "sb", "entity_tag": "tg"},
    {"split_init": True, "init_file": "st", "root_folder": "q", "scoreboard":
     "z_", "optimizer": False},
]
ENTS = """entity T:
    v: int
    def f():
        self.v += 1
x := T("cow", Pos(0, 0, 0))
x.v = 3
y := Engroup[T]()
y.select(Enfilter().is_type("cow"))
for e in y:
    r += e.v
interface p:
    x.f()
    r = x.v
"""
# -------------------------------------------------------------- command line
CLI = ("scoreboard main-file init-file internal-folder root root-2 root-3 "
       "version version-2 version-3 version-4 version-bad inline entity-tag "
       "flags init-default init-main init-main-case none combined").split()


def jobs(tier, seed):
    out = []

    def add(kind, name, **k):
        out.append(dict({"kind": "unit", "module": "p26", "part": kind,
                         "name": name}, **k))
    g = rng(seed, "p26")
    for n, ps in PATHS.items():
        cs = CFGS
        if tier == "quick":
            cs = {"": CFGS[""]}
            if len(ps) == 1:
                k = g.choice(sorted(CFGS))
                cs[k] = CFGS[k]
            if n.startswith("init"):
                cs.update({k: CFGS[k] for k in ("init", "init-2")})
        for c, cfg in cs.items():
            add("path", "path-%s%s" % (n, c and "-" + c), paths=ps, cfg=cfg)
    for n, ps in PLAIN.items():
        add("plain", n, paths=ps, cfg={})
    for n, (cfg, ps) in CONFIG.items():
        add("path", n, paths=ps, cfg=cfg)
    for n in CLI:
        add("cli", "cli-" + n)
    for n in ("override", "override-bad", "override-off", "missing-out"):
        add("run", "run-" + n)
    for i, (n, (body, entry)) in enumerate(RUN.items()):
        lay = LAY if tier != "quick" else [LAY[0], LAY[1 + i % 6]]
        for k, cfg in enumerate(lay):
            out.append(tv("run-%s-%d" % (n, k), body, cfg=cfg, K=2,
                          entry=["main"] + entry))
            out.append(tv("names-%s-%d" % (n, k), body, cfg=cfg, K=2,
                          judge="layout", ifaces=sorted(set(entry))))
    for k, cfg in enumerate(LAY):
        out.append(tv("names-ents-%d" % k, ENTS, cfg=cfg, judge="layout",
                      ifaces=["p"], K=2))
        out.append(tv("names-sched-%d" % k, "import schedule\ndef f():\n"
                      "    r += 1\nschedule.register_loop(f)\nconst t = "
                      "schedule.Task(f)\nt.after(K0)\ninterface p:\n    f()\n",
                      cfg=cfg, judge="layout", ifaces=["p"], K=2))
    return out


# --------------------------------------------------------------- path units

def holes(inp, text, tag, chars=None):
    out = ""
    for i, c in enumerate(text):
        if c == "?":
            c = inp.char("%s%d" % (tag, i), "\n\r\"\\") if chars is None else \
                inp.among("%s%d" % (tag, i), chars)
        out += c
    return out


def isin(c, chars):
    return bool(H.in_(c, chars))


def same(a, b):
    """equal as text"""
    return len(a) == len(b) and all(bool(H.eq(x, y)) for x, y in zip(a, b))


def low(c):
    """letter case does not distinguish paths (only ASCII is legal)"""
    from vlib import sym
    if not sym.is_sym_str(c):
        return c.lower()
    for u in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
        if bool(H.eq(c, u)):
            return u.lower()
    return c


def legal(path, reserved, taken):
    if not path or not all(isin(c, OKCH + "/") for c in path):
        return False
    segs = [""]
    for c in path:
        if isin(c, "/"):
            segs.append("")
        else:
            segs[-1] += c
    for s in segs:
        if not s or same(s, ".") or same(s, ".."):
            return False
    lo = [low(c) for c in path]
    for r in reserved:
        r = [low(c) for c in r]
        if len(lo) >= len(r) and all(bool(H.eq(x, y)) for x, y in
                                     zip(lo, r)) and (
                len(lo) == len(r) or isin(path[len(r)], "/")):
            return False
    return not any(same(lo, t) for t in taken)


def compile_(src, cfg):
    d = tempfile.mkdtemp(prefix="vp", dir=tvm.TMP)
    try:
        main = os.path.join(d, "prog.aca")
        with open(main, "w", encoding="utf-8", newline="") as f:
            f.write(src)
        written = {}
        L = tvm.real()
        try:
            comp = L["C"].Compiler(main, L["C"].Config(**cfg))

            def write(content, path):
                # records instead of writing: paths may hold any character
                if path in written:
                    written["twice"] = path
                written[path] = content
            comp._write_file = write
            comp.output("OUT")
        except L["ER"].Error as e:
            return e.type.name
        return written
    finally:
        shutil.rmtree(d, ignore_errors=True)


def path_spec(job, inp, chars=None):
    cfg = {}
    for k, v in job["cfg"].items():
        if isinstance(v, str) and "?" in v:
            v = holes(inp, v, k, "abABmMn_1" if "root" in k else "abABmcC_")
        cfg[k] = v
    paths = [holes(inp, p, "p%d" % i, chars)
             for i, p in enumerate(job["paths"])]
    if len(cfg) == 4 and any(same(cfg[x], cfg[y]) for x, y in (
            ("main_file", "init_file"),)):
        raise unit.Skip
    for p in paths:
        if any(isin(c, "$") for c in p) and any(isin(c, "{") for c in p):
            raise unit.Skip              # ${ starts an expression
    src = "/say main\n"
    for i, p in enumerate(paths):
        q = p if job["part"] == "plain" else '"%s"' % p
        src += "interface %s:\n    /say body %d\n" % (q, i)
    full = dict(main_file="main", internal_folder="_acacia",
                init_file="init", root_folder="", split_init=False)
    full.update(cfg)
    got = compile_(src, cfg)
    reserved = [full["main_file"], full["internal_folder"]]
    if full["split_init"]:
        reserved.append(full["init_file"])
    taken, ok = [], True
    for p in paths:
        if not legal(p, reserved, taken):
            ok = False
            break
        taken.append([low(c) for c in p])
    show = "paths %r under %r" % (paths, cfg) if inp.concrete else "paths"
    if isinstance(got, str):
        return [(ok, "%s rejected: %s" % (show, got))]
    if not ok:
        return [(True, "%s accepted" % show)]
    pre = "OUT/" + (full["root_folder"] + "/" if full["root_folder"] else "")
    want = {pre + full["main_file"]: "say main"}
    if full["split_init"]:
        want[pre + full["init_file"]] = None
    for i, p in enumerate(paths):
        want[pre + p] = "say body %d" % i
    bad = []
    if "twice" in got:
        bad.append((True, "%s: %s written twice" % (show, got["twice"])))
        got.pop("twice")
    names = {k: k + ".mcfunction" for k in want}
    for k in sorted(set(got) - set(names.values())):
        bad.append((True, "%s: unexpected file %r" % (show, k)))
    for k, text in want.items():
        if names[k] not in got:
            bad.append((True, "%s: no file %r" % (show, names[k])))
        elif text is not None:
            lines = [l for l in got[names[k]].split("\n") if l and
                     not l.startswith(("#", "scoreboard objectives add "))]
            if lines != [text]:
                bad.append((True, "%s: %r holds %r" % (show, k, lines)))
    return bad


# ------------------------------------------------------------------ CLI units

def args_of(argv):
    from acaciamc import cli
    return cli.build_argparser().parse_args(argv)


class Fatal(Exception):
    pass


def config(ns):
    """Config or "fatal" of the real command line."""
    from acaciamc import cli
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return cli.get_config(ns)
    except SystemExit as e:
        return "fatal %s" % e.code


def is_id(s):
    if not s:
        return False
    for i, c in enumerate(s):
        if bool(H.eq(c, "_")) or bool(H.callm(c, "isalpha")):
            continue
        if i == 0 or not isin(c, "0123456789"):
            return False
    return True


def cli_spec(job, inp):
    from acaciamc.compiler import Config
    kind = job["name"][4:]
    ns = args_of(["x.aca"])
    want = {"encoding": "utf-8"}
    fatal = False

    def text(n, tag="t", chars=None):
        return holes(inp, "?" * n, tag, chars)

    def bad(*a):
        cfg = config(ns)
        show = "arguments %r" % {k: v for k, v in vars(ns).items() if v} \
            if inp.concrete else "arguments"
        if cfg == "fatal 1":
            return [(not fatal, "%s refused" % show)]
        if isinstance(cfg, str):
            return [(True, "%s: %s" % (show, cfg))]
        if fatal:
            return [(True, "%s accepted" % show)]
        w = Config(**want)
        out = []
        for f, x, y in zip(cfg._fields, cfg, w):
            if f == "mc_version":
                if len(x) != len(y):
                    out.append((True, "%s: %s is %r" % (show, f, x)))
                    continue
                for p, q in zip(x, y):
                    out.append((H.ne(p, q), "%s: %s is %r" % (show, f, x)))
            else:
                out.append((unit.differ(x, y), "%s: %s is %r" % (show, f, x)))
        return out

    simple = {"scoreboard": "scoreboard", "main-file": "main_file",
              "init-file": "init_file", "internal-folder": "internal_folder"}
    if kind in simple:
        f = simple[kind]
        v = text(inp.pick("n", [1, 2, 3, 4]))
        setattr(ns, f, v)
        want[f] = v
        if f == "init_file":
            want["split_init"] = True
            fatal = same([low(c) for c in v], "main")
        fatal = fatal or not is_id(v)
    elif kind.startswith("root"):
        n = {"root": 4, "root-2": 5, "root-3": 6}[kind]
        v = text(n, chars=None if n == 4 else "ab/1_-.")
        ns.function_folder = v
        segs = [""]
        for c in v:
            if isin(c, "/"):
                segs.append("")
            else:
                segs[-1] += c
        segs = [s for s in segs if s]
        fatal = not all(is_id(s) for s in segs)
        want["root_folder"] = "/".join(segs)
    elif kind.startswith("version"):
        shape = {"version": ["1.?", "1.??", "?.??"],
                 "version-2": ["1.19.?", "1.19.??", "1.19.0??", "1.?9.?0"],
                 "version-3": ["1.??.?", "?.?.?", "1.2?.??", "??.1.1"],
                 "version-4": ["1.19.??.1", "1.19.50?", "1.19.4?.9", "1.???",
                               "1.1??.?"],
                 "version-bad": ["???", "1?20", "1.2?.", "?1.20", "1.?.20",
                                 "1.20?"]}[kind]
        s = inp.pick("shape", shape)
        v = holes(inp, s, "v", "0123456789." if kind != "version-bad" else
                  "0123456789.ab-")
        ns.mc_version = v
        parts = [""]
        for c in v:
            if isin(c, "."):
                parts.append("")
            else:
                parts[-1] += c
        ok = len(parts) > 1
        for p in parts:
            if p and isin(p[0], "-") and len(p) > 1 and \
                    all(isin(c, "0") for c in p[1:]):
                raise unit.Skip           # -0
            ok = ok and bool(p) and all(isin(c, "0123456789") for c in p)
        if not ok:
            fatal = True
        else:
            t = []
            for p in parts:
                x = 0
                for c in p:
                    d = 0
                    for k in range(1, 10):
                        if bool(H.eq(c, str(k))):
                            d = k
                            break
                    x = x * 10 + d
                t.append(x)
            fatal = tuple(t) < (1, 19, 50)
            want["mc_version"] = tuple(t)
    elif kind == "inline":
        n = inp.int("n", -2**20, 2**20)
        ns.max_inline_file_size = n
        fatal = bool(H.lt(n, 0)) if not inp.concrete else n < 0
        want["max_inline_file_size"] = n
    elif kind == "entity-tag":
        v = text(3)
        ns.entity_tag = want["entity_tag"] = v
        # it is written in commands without quotes
        fatal = any([isin(c, " ,@~^/$&\"'!#%+*=[{]}\\|<>`\n") for c in v])
    elif kind == "flags":
        for a, f, pos in (("debug_comments",) * 2 + (True,),
                          ("education_edition",) * 2 + (True,),
                          ("no_optimize", "optimizer", False)):
            on = bool(inp.bool(a)) if not inp.concrete else inp.bool(a)
            setattr(ns, a, on)
            want[f] = on == pos
        on = bool(inp.bool("init"))
        if on:
            ns.init_file = args_of(["x.aca", "-i"]).init_file
            want["split_init"] = True
    elif kind == "init-default":
        v = text(4, chars="initINIT_a")
        ns.main_file = want["main_file"] = v
        ns.init_file = args_of(["x.aca", "-i"]).init_file
        want["split_init"] = True
        fatal = same([low(c) for c in v], "init")
    elif kind.startswith("init-main"):
        v, w = text(2, "t", "aAb_1"), text(2, "u", "aAb_1")
        ns.main_file = want["main_file"] = v
        ns.init_file = want["init_file"] = w
        want["split_init"] = True
        fatal = not (is_id(v) and is_id(w)) or same(
            [low(c) for c in v], [low(c) for c in w])
    elif kind == "combined":
        v, w = text(2, "t", "aA1-"), text(2, "u", "ab/1")
        ns = args_of(["x.aca", "-d", "-e", "-O", "-s", "sc", "-t", "tg", "-v",
                      "1.20.1", "--max-inline-file-size", "3"])
        ns.main_file, ns.function_folder = v, w
        segs = [""]
        for c in w:
            if isin(c, "/"):
                segs.append("")
            else:
                segs[-1] += c
        segs = [s for s in segs if s]
        fatal = not (is_id(v) and all(is_id(s) for s in segs))
        want.update(debug_comments=True, education_edition=True,
                    optimizer=False, scoreboard="sc", entity_tag="tg",
                    mc_version=(1, 20, 1), max_inline_file_size=3,
                    main_file=v, root_folder="/".join(segs))
    return bad()


def run_spec(job, inp):
    """The whole command: what happens to an older output."""
    from acaciamc import cli
    kind = job["name"][4:]
    d = tempfile.mkdtemp(prefix="vp", dir=tvm.TMP)
    try:
        n = inp.among("n", "0123456789")
        bad_src = kind == "override-bad" and bool(H.in_(n, "02468"))
        src = "/say ${%s}\n" % n + ("x = 1\n" if bad_src else "")
        with open(os.path.join(d, "prog.aca"), "w", newline="") as f:
            f.write(src)
        out = os.path.join(d, "out", "deep" if kind == "missing-out" else "")
        argv = [os.path.join(d, "prog.aca"), "-o", out.rstrip("/"), "-f", "r"]
        old = os.path.join(d, "out", "r", "old.mcfunction")
        keep = os.path.join(d, "out", "keep.mcfunction")
        if kind != "missing-out":
            os.makedirs(os.path.dirname(old))
            for p in (old, keep):
                with open(p, "w") as f:
                    f.write("say old")
            if kind != "override-off":
                argv.append("-u")
        code = 0
        gone = []

        def rmtree(p):
            if not os.path.realpath(p).startswith(os.path.realpath(d) + "/"):
                raise Fatal(p)
            gone.append(os.path.relpath(os.path.realpath(p),
                                        os.path.realpath(d)))
            if os.path.isdir(p):
                shutil.rmtree(p)
        real, cli.try_rmtree = cli.try_rmtree, rmtree
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                cli.run(args_of(argv))
        except SystemExit as e:
            code = e.code
        finally:
            cli.try_rmtree = real
        fail = bad_src or kind == "missing-out"
        bad = [((code != 0) != fail, "exit %r" % (code,))]
        if kind != "missing-out":
            gonew = kind != "override-off" and not fail
            bad.append((os.path.exists(old) == gonew,
                        "old output %s" % ("kept" if gonew else "lost")))
            bad.append((not os.path.exists(keep), "other files lost"))
            bad.append((os.path.exists(os.path.join(
                d, "out", "r", "main.mcfunction")) == fail, "main file"))
        else:
            bad.append((os.path.exists(out), "folder created"))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec(job, inp):
    if job["part"] == "path":
        return path_spec(job, inp)
    if job["part"] == "plain":
        return path_spec(job, inp, OKCH.replace("(", "").replace(")", "") + "/")
    if job["part"] == "cli":
        return cli_spec(job, inp)
    return run_spec(job, inp)


def run_unit(job):
    return unit.run(job, spec, "p26", 600, 8, 2)


def replay(data):
    return unit.replay(data, spec)
