"""Judgements of one compilation other than comparison with the reference.

judge(case, out, err, lits, ext, K, model) -> (premises, [(kind, bad)])
where every condition may be symbolic (model is None) or concrete.
"""
import json
import re
import z3
from . import dom, mc, wf


def cfg_of(case, model=None):
    from .tv import sym_cfg
    c = dict(root_folder="", internal_folder="_acacia", main_file="main",
             scoreboard="acacia", entity_tag="acacia", split_init=False,
             init_file="init", optimizer=True)
    c.update(sym_cfg(case.get("cfg", {}), model))
    return c


def files_of(out):
    from .tv import functions
    return functions(out)


def crash(err):
    return [("crash: " + err[1], True)] if err[0] == "crash" else []


def must(case, err):
    """err is acceptable unless the case is known to be valid"""
    b = crash(err)
    if not b and case.get("valid"):
        b = [("valid program rejected: " + err[1], True)]
    return [], b


def wellformed(case, out, err, lits, ext, K, model):
    if err:
        return must(case, err)
    w = wf.WF(out, files_of(out), external=set(case.get(
        "objectives", ())) | {"in"})
    return [], w.run()


def join(*xs):
    return "/".join(x.strip("/") for x in xs if x)


def closure(case, out, err, lits, ext, K, model):
    if err:
        return must(case, err)
    bad = []
    fs = files_of(out)
    c = cfg_of(case, model)
    w = wf.WF(out, fs)
    w.run()
    raw = set(case.get("rawcalls", ()))
    for f, t in w.calls:
        if t not in fs and t not in raw:
            bad.append(("%s calls missing function %s" % (f, t), True))
    seen = {}
    for p in fs:
        if p.lower() in seen:
            bad.append(("functions %s and %s differ only in letter case"
                        % (p, seen[p.lower()]), True))
        seen[p.lower()] = p
    root = c["root_folder"]
    if join(root, c["main_file"]) not in fs:
        bad.append(("main function missing", True))
    if c["split_init"] and join(root, c["init_file"]) not in fs:
        bad.append(("init function missing", True))
    for i in case.get("ifaces", ()):
        if join(root, i) not in fs:
            bad.append(("interface %s missing" % i, True))
    if case.get("tick") is not None:
        tick = join(root, c["internal_folder"], "tick")
        has = "tick.json" in out
        if has != case["tick"]:
            bad.append(("tick.json %s" % ("present" if has else "missing"),
                        True))
        if has:
            try:
                js = json.loads(out["tick.json"])
                if js != {"values": [tick]}:
                    bad.append(("tick.json is %r" % js, True))
            except ValueError:
                bad.append(("tick.json is not JSON", True))
            if tick not in fs:
                bad.append(("tick function missing", True))
    allowed = {join(root, c["main_file"])} | {
        join(root, i) for i in case.get("ifaces", ())}
    if c["split_init"]:
        allowed.add(join(root, c["init_file"]))
    pre = join(root, c["internal_folder"]) + "/"
    for p in out:
        q = p[:-len(".mcfunction")] if p.endswith(".mcfunction") else p
        if p == "tick.json" or q in allowed or q.startswith(pre):
            continue
        bad.append(("unexpected file %s" % p, True))
    # reachable only: an optimized project keeps no dead function
    if c["optimizer"] and not case.get("rawcalls"):
        reach = set(allowed)
        if "tick.json" in out:
            reach |= set(json.loads(out["tick.json"])["values"])
        todo = list(reach)
        adj = {}
        for f, t in w.calls:
            adj.setdefault(f, set()).add(t)
        while todo:
            for t in adj.get(todo.pop(), ()):
                if t not in reach:
                    reach.add(t)
                    todo.append(t)
        for p in fs:
            if p not in reach:
                bad.append(("unreachable function %s kept" % p, True))
    return [], bad


def entry_paths(case, out, model, names):
    c = cfg_of(case, model)
    res = []
    for e in names:
        if e == "tick":
            if "tick.json" in out:
                res += json.loads(out["tick.json"])["values"]
        elif e == "main":
            res.append(join(c["root_folder"], c["main_file"]))
        elif e == "init":
            res.append(join(c["root_folder"], c["init_file"]))
        else:
            res.append(join(c["root_folder"], e))
    return res


def mkworld(case, out, ext, K, model, fresh, prefix=""):
    w = mc.World(files_of(out), loop_bound=K + 1, fresh=fresh, prefix=prefix)
    w.objectives.add("in")
    for n, v in ext.items():
        w.scores[(n, "in")] = v
        w.isset[(n, "in")] = True
    if model is not None:
        mw = model["world"]
        w.oracle_value = lambda key: bool(mw.get("world:" + key, False))
        w.randoms = lambda i, lo, hi: mw.get("rnd%d" % i, lo)
        w.init_value = lambda s: mw.get("init:%s%s/%s" % (
            prefix, s[0] if isinstance(s[0], str) else s[0].name, s[1]), 0)
    else:
        draws = {}

        def rnd(i, lo, hi):
            from .sym import E
            r = z3.BitVec("rnd%d" % i, 32)
            E.assume(dom.bo(dom.and_(dom.le(lo, r), dom.le(r, hi))))
            return r
        w.randoms = rnd
    return w


def init(case, out, err, lits, ext, K, model):
    """Fresh world; a world whose generated scores hold anything at all; and
    a fresh world where the program has already run once."""
    if err:
        return must(case, err)
    once = ["main"] if not cfg_of(case)["split_init"] else ["init", "main"]
    entries = once + case.get("entry", [])
    bad, prem, ws = [], [], []
    for fresh, prefix in ((True, ""), (False, "w!")):
        w = mkworld(case, out, ext, K, model, fresh, prefix)
        try:
            for p in entry_paths(case, out, model, entries):
                w.call(p)
        except mc.McError as e:
            return [], [("malformed: %s" % e, True)]
        prem += [dom.not_(u) for u in w.unwind]
        prem += [dom.not_(g) for g, _ in w.nondet]
        ws.append(w)
    f, a = ws
    for g, what in f.undef:
        bad.append(("score %s/%s read before it is set" % (
            what[0] if isinstance(what[0], str) else what[0].name, what[1]),
            g))
    for g, m in f.problems:
        bad.append((m, g))
    for n in case.get("ext", []):
        bad.append(("score %s depends on the state before main" % n, dom.ne(
            f.scores.get((n, "in"), 0), a.scores.get((n, "in"), 0))))
    if model is None:
        bad.append(("effects depend on the state before main",
                    dom.log_diff(f.log, a.log)[1]))
    else:
        bad.append(("effects depend on the state before main",
                    dom.conc_log(f.log) != dom.conc_log(a.log)))
    return prem, bad


TAG = re.compile(r"\btag=!?([A-Za-z_]\w*)|\btag \S+ (?:add|remove) (\w+)")
OBJ = re.compile(r"^scoreboard objectives add (\S+) dummy$")


def layout(case, out, err, lits, ext, K, model):
    """Files and generated names are the configured ones."""
    if err:
        return [], crash(err) or [("valid program rejected: " + err[1], True)]
    c = cfg_of(case, model)
    fs = files_of(out)
    bad = []
    root = c["root_folder"]
    once = [join(root, c["main_file"])]
    if c["split_init"]:
        once.append(join(root, c["init_file"]))
    once += [join(root, i) for i in case.get("ifaces", ())]
    for p in once:
        if p not in fs:
            bad.append(("no function %s" % p, True))
    inner = join(root, c["internal_folder"]) + "/"
    for p in fs:
        if p not in once and not p.startswith(inner):
            bad.append(("unexpected function %s" % p, True))
    if "tick.json" in out:
        for t in json.loads(out["tick.json"])["values"]:
            if not t.startswith(inner) or t not in fs:
                bad.append(("tick.json names %s" % t, True))
    for p in out:
        if p != "tick.json" and not p.endswith(".mcfunction"):
            bad.append(("unexpected file %s" % p, True))
    for p, text in fs.items():
        for line in text.split("\n"):
            m = OBJ.match(line)
            if m and p not in (once[1] if c["split_init"] else once[0],):
                bad.append(("%s: %s outside the initialization" % (p, line),
                            True))
            if m and not m.group(1).startswith(c["scoreboard"]):
                bad.append(("objective %s" % m.group(1), True))
            for m in TAG.finditer(line):
                t = m.group(1) or m.group(2)
                if not t.startswith(c["entity_tag"]) and t not in (
                        "T",):
                    bad.append(("tag %s" % t, True))
    w = wf.WF(out, fs, external={"in"})
    return [], bad + w.run()


JUDGES = {"layout": layout, "wf": wellformed, "closure": closure, "init": init}
