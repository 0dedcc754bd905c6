"""Translation validation of compiled Acacia programs.

A case is a program whose integer literals K0, K1, ... and external scores
(objective "in") are symbolic.  The real compiler runs symbolically over it
(one path per class of literals it distinguishes); each path's emitted
command text is interpreted symbolically and compared by the solver with the
reference semantics of the source.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import dom, instr, sym, mc
from .ref import Ref, Reject
from .sym import E, Unsupported, SymInt
from .text import SymText

SENT = 1900000000
TMP = "/dev/shm" if os.path.isdir("/dev/shm") else None
_loaded = {}


def real(symbolic=True):
    """Import the compiler from /repo (instrumented when symbolic)."""
    if _loaded:
        return _loaded
    if symbolic:
        instr.install(sym.H)
    else:
        sys.path.insert(0, instr.REPO)
        sys.dont_write_bytecode = True
    import acaciamc
    import acaciamc.ast as A
    import acaciamc.compiler as C
    import acaciamc.error as ER
    if symbolic:
        orig = A.Literal.__init__

        def lit(self, value, *a, **k):
            if type(value) is int and SENT <= value < SENT + 1000:
                value = lit_value(value - SENT)
            orig(self, value, *a, **k)
        A.Literal.__init__ = lit
    _loaded.update(C=C, ER=ER, A=A)
    return _loaded


def lit_value(i):
    c = _cur["lits"]
    n = "K%d" % i
    if n not in c:
        lo, hi = _cur["ranges"].get(n, (-2**31, 2**31 - 1))
        c[n] = E.sym32("k%d" % i, lo, hi)
    return c[n]


_cur = {}


def render(src, lits):
    """Replace K0.. by concrete literals (or sentinels when lits is None)."""
    def rep(m):
        if lits is None:
            return str(SENT + int(m.group(1)))
        v = lits[m.group(0)]
        if v == -2**31:
            return "int.MIN"
        return str(v) if v >= 0 else "(%d)" % v
    return re.sub(r"\bK(\d+)\b", rep, src)


def write_case(case, lits, d):
    # "dir": folder of the main file; a module named "<<m" is two folders up
    sub = [x for x in case.get("dir", "").split("/") if x]
    for n, s in case.get("files", {}).items():
        k = n.lstrip("<")
        p = os.path.join(d, *sub[:len(sub) - len(n) + len(k)], *k.split("."))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".aca", "w", encoding="utf-8") as f:
            f.write(render(s, lits))
    main = os.path.join(d, *sub, "main.aca")
    os.makedirs(os.path.dirname(main), exist_ok=True)
    with open(main, "w", encoding="utf-8") as f:
        f.write(render(case["main"], lits))
    return main


def read_out(o):
    res = {}
    for root, _, fs in os.walk(o):
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, o).replace(os.sep, "/")
            with open(p, encoding="utf-8", newline="") as fh:
                res[rel] = fh.read()
    return res


class CompileError(Exception):
    pass


def sym_cfg(cfg, model=None):
    """["sym", name, lo, hi] stands for a symbolic configuration value."""
    def val(v):
        if isinstance(v, (list, tuple)) and v[:1] == ["sym"]:
            n = "cfg:" + v[1]
            if model is not None:
                return model["world"].get(n, v[2])
            return E.symint(n, v[2], v[3])
        if isinstance(v, list):
            return [val(x) for x in v]
        return v
    return {k: val(v) for k, v in cfg.items()}


def compile_case(main, outdir, cfg, model=None):
    L = real()
    c = sym_cfg(cfg, model)
    if "mc_version" in c:
        c["mc_version"] = tuple(c["mc_version"])
    try:
        comp = L["C"].Compiler(main, L["C"].Config(**c))
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        comp.output(outdir)
    except L["ER"].Error as e:
        raise CompileError(getattr(e, "type", None) and e.type.name
                           or str(e)) from e
    return read_out(outdir)


def functions(out):
    return {k[:-len(".mcfunction")]: v for k, v in out.items()
            if k.endswith(".mcfunction")}


def make_world(case, files, ext, K):
    w = mc.World(files, loop_bound=K)
    w.objectives.add("in")
    for n, v in ext.items():
        w.scores[(n, "in")] = v
        w.isset[(n, "in")] = True
    return w


def run_world(case, w, out):
    entry = case.get("entry") or ["main"]
    for e in entry:
        if e == "tick":
            tj = json.loads(out["tick.json"]) if "tick.json" in out else \
                {"values": []}
            for p in tj["values"]:
                w.call(p)
        elif e == "fire":
            w.fire()
        else:
            cfg = case.get("cfg", {})
            root = cfg.get("root_folder", "")
            if e == "main":
                if cfg.get("split_init") and w.inits == 0:
                    w.inits = 1
                    w.call(join(root, cfg.get("init_file", "init")))
                e = cfg.get("main_file", "main")
            w.call(join(root, e))


def join(root, path):
    return root + "/" + path if root else path


def run_ref(case, r):
    r.run(case["main"])
    first = True
    for e in (case.get("entry") or ["main"]):
        if e == "main":
            if not first:
                r.rerun()
            first = False
            continue
        if e == "tick":
            r.tick()
        elif e == "fire":
            r.fire()
        else:
            r.run_entry(e)


def ref_class(case):
    from .refent import RefEnt
    return RefEnt


def default_world_hook(w, case, symbolic):
    pass


def sym_case(case, hook=None):
    """Explore one case; yields (kind, info) results."""
    K = case.get("K", 3)
    E.forkmode = bool(case.get("fork"))
    E.feas_ms = case.get("feas_ms", 10000)
    _cur["ranges"] = {k: tuple(v) for k, v in case.get("ranges", {}).items()}
    L = real()
    d = tempfile.mkdtemp(prefix="vp", dir=TMP)
    try:
        main = write_case(case, None, d)
        outdir = os.path.join(d, "out!")

        def once():
            _cur["lits"] = {}
            SymText.table = []
            names = sorted(set(re.findall(
                r"\bK\d+\b", case["main"] +
                "".join(case.get("files", {}).values()))))
            for n in names:
                lit_value(int(n[1:]))
            for c in case.get("require", []):
                E.assume(eval_require(c, _cur["lits"]))
            ext = {n: z3.BitVec("x!" + n, 32) for n in case.get("ext", [])}
            err = None
            out = None
            if "pair" in case:
                lits = {n: (v.k if isinstance(v, SymInt) else v)
                        for n, v in _cur["lits"].items()}
                return judge_pair(case, main, outdir, lits, ext, K)
            try:
                out = compile_case(main, outdir, case.get("cfg", {}))
            except CompileError as e:
                err = ("reject", str(e))
            except (Unsupported, sym.Infeasible, sym.OutOfTime):
                raise
            except RecursionError as e:
                err = ("crash", "RecursionError")
            except Exception as e:
                err = ("crash", "%s: %s" % (type(e).__name__, e))
            lits = {n: (v.k if isinstance(v, SymInt) else v)
                    for n, v in _cur["lits"].items()}
            if "judge" in case:
                return judge_custom(case, out, err, lits, ext, K)
            return judge_sym(case, out, err, lits, ext, K)
        for r in sym.explore(once, max_paths=case.get("max_paths", 400),
                             deadline=case.get("deadline")):
            yield r
    finally:
        E.forkmode = False
        shutil.rmtree(d, ignore_errors=True)


def eval_require(c, lits):
    env = {n: v for n, v in lits.items()}
    return eval(c, {"__builtins__": {}}, env)


def judge_sym(case, out, err, lits, ext, K):
    """Returns a result dict for the current path."""
    rc = ref_class(case)
    r = rc(case.get("files", {}), lits,
           {(n, "in"): v for n, v in ext.items()}, K)
    r.main_dir = case.get("dir", "")
    r.setup(case)
    definite = None
    try:
        run_ref(case, r)
    except Reject as e:
        definite = str(e)
    rej = dom.or_(*r.reject) if r.reject else False
    rej = dom.or_(rej, definite is not None)
    res = {"status": "ok", "err": err, "cmds": 0}
    qs = Queries(E.pc, case.get("timeout", 10000 if E.forkmode else 5000))

    def cex(kind, conds, extra=""):
        m = qs.sat(*conds)
        if m == "unknown":
            res["status"] = "unknown"
            res.setdefault("unknowns", []).append(kind)
            return False
        if m is None:
            return False
        res["status"] = "cex"
        res["kind"] = kind
        res["detail"] = extra
        res["model"] = extract_model(m, lits, ext)
        return True

    if err is not None:
        res["rejected"] = True
        may = dom.or_(*r.mayreject) if r.mayreject else False
        ok = [] if err[0] == "crash" else [dom.not_(rej), dom.not_(may)]
        if not cex(err[0], ok, err[1]):
            m = qs.sat(timeout=3000)
            if m not in (None, "unknown"):
                res["witness"] = extract_model(m, lits, ext)
        return res
    if case.get("judge_reject", True):
        if cex("accepted", [rej], definite or "constant error"):
            return res
    if definite is not None:
        return res
    files = functions(out)
    w = make_world(case, files, ext, K + 1)
    hook_setup(case, w, r)
    try:
        run_world(case, w, out)
    except mc.McError as e:
        cex("malformed", [dom.not_(rej)], str(e))
        return res
    res["cmds"] = w.ops
    base = [dom.not_(rej)] + [dom.bo(a) for a in r.assume] + \
        [dom.not_(u) for u in r.unwind]
    base = [z3.simplify(x) for x in base if x is not True]
    k = qs.sat(*base, timeout=3000)
    if k is None:
        res["status"] = "vacuous"
        return res
    if k == "unknown":
        res["reach_unknown"] = 1
    else:
        res["witness"] = extract_model(k, lits, ext)
    parts, whole = log_parts(w, r)
    todo = single_bads(w, r)
    for kind, b in todo:
        if cex(kind, base + [b]):
            return res
    if parts is not None:
        for p in parts:
            if qs.sat(*base, p) is not None:
                break
        else:
            return res
    cex("effects", base + [whole])
    return res


def judge_custom(case, out, err, lits, ext, K):
    from .judges import JUDGES
    res = {"status": "ok", "err": err, "cmds": 0, "rejected": err is not None}
    prem, bads = JUDGES[case["judge"]](case, out, err, lits, ext, K, None)
    qs = Queries(E.pc, case.get("timeout", 10000 if E.forkmode else 5000))
    base = [dom.bo(p) for p in prem if p is not True]
    k = qs.sat(*base, timeout=3000)
    if k is None:
        res["status"] = "vacuous"
        return res
    if k != "unknown":
        res["witness"] = extract_model(k, lits, ext)
    for kind, b in bads:
        if b is False:
            continue
        m = qs.sat(*base, dom.bo(b))
        if m == "unknown":
            res["status"] = "unknown"
        elif m is not None:
            res.update(status="cex", kind=kind, detail=kind,
                       model=extract_model(m, lits, ext))
            return res
    return res


def concrete_judge(case, out, err, lits, ext, model):
    from .judges import JUDGES
    prem, bads = JUDGES[case["judge"]](case, out, err, lits, ext,
                                       case.get("Kc", 40), model)
    if not all(p is True for p in prem):
        return None
    for kind, b in bads:
        if b is not False:
            return kind
    return None


def compile_err(f):
    try:
        return f(), None
    except CompileError as e:
        return None, "reject"
    except (Unsupported, sym.Infeasible, sym.OutOfTime):
        raise
    except Exception as e:
        return None, "crash %s: %s" % (type(e).__name__, e)


def judge_pair(case, main, outdir, lits, ext, K):
    """Same program, two configurations: same observable behaviour."""
    res = {"status": "ok", "err": None, "cmds": 0}
    worlds = []
    errs = []
    for i, cfg in enumerate(case["pair"]):
        out, err = compile_err(lambda: compile_case(main, outdir, cfg))
        errs.append(err)
        if err is not None:
            continue
        w = make_world(case, functions(out), ext, K + 1)
        pair_setup(case, w)
        try:
            run_world(case, w, out)
        except mc.McError as e:
            errs[-1] = "malformed"
            continue
        res["cmds"] += w.ops
        worlds.append(w)
    qs = Queries(E.pc, case.get("timeout", 10000 if E.forkmode else 5000))

    def cex(kind, conds, extra=""):
        m = qs.sat(*conds)
        if m is None:
            return False
        if m == "unknown":
            res["status"] = "unknown"
            return False
        res.update(status="cex", kind=kind, detail=extra,
                   model=extract_model(m, lits, ext))
        return True
    if any(errs):
        res["rejected"] = True
        if len(set(errs)) > 1:
            cex("one configuration fails", [True], repr(errs))
        return res
    a, b = worlds
    base = [dom.not_(u) for w in worlds for u in w.unwind]
    base += [dom.not_(g) for w in worlds for g, _ in w.nondet]
    base = [z3.simplify(dom.bo(x)) for x in base]
    k = qs.sat(*base, timeout=3000)
    if k is None:
        res["status"] = "vacuous"
        return res
    if k != "unknown":
        res["witness"] = extract_model(k, lits, ext)
    for n in case.get("ext", []):
        v = [w.scores.get((n, "in"), 0) for w in worlds]
        if cex("score " + n, base + [dom.bo(dom.ne(*v))]):
            return res
    parts, whole = dom.log_diff(a.log, b.log)
    if parts is not None:
        for p in parts:
            if qs.sat(*base, p) is not None:
                break
        else:
            return res
    cex("effects", base + [whole])
    return res


def pair_setup(case, w):
    pass


def concrete_pair(case, model):
    lits, ext = model["lits"], model["ext"]
    outs = []
    d = tempfile.mkdtemp(prefix="vp", dir=TMP)
    try:
        main = write_case(case, lits, d)
        for cfg in case["pair"]:
            outs.append(compile_err(lambda: compile_case(
                main, os.path.join(d, "out!"), cfg, model)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if outs[0][1] != outs[1][1]:
        return "configurations %r: %r and %r" % (
            case["pair"], outs[0][1], outs[1][1])
    if outs[0][1]:
        return None
    ws = []
    for out, _ in outs:
        w = make_world(case, functions(out), ext, case.get("Kc", 40) + 1)
        w.oracle_value = lambda key: bool(model["world"].get(
            "world:" + key, False))
        w.randoms = lambda i, lo, hi: model["world"].get("rnd%d" % i, lo)
        pair_setup(case, w)
        try:
            run_world(case, w, out)
        except mc.McError as e:
            w.bad = str(e)
        if any(g is not False for g in w.unwind) or \
                any(g is not False for g, _ in w.nondet):
            return None
        ws.append(w)
    bad = [getattr(w, "bad", None) for w in ws]
    if bad[0] != bad[1]:
        return "malformed output under one configuration: %r" % bad
    if bad[0]:
        return None
    a, b = [dom.conc_log(w.log) for w in ws]
    if a != b:
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                return "observable effect %d: %r under %r, %r under %r" % (
                    i, x, case["pair"][0], y, case["pair"][1])
    for n in case.get("ext", []):
        x, y = [w.scores.get((n, "in"), 0) for w in ws]
        if x != y:
            return "score %s: %r under %r, %r under %r" % (
                n, x, case["pair"][0], y, case["pair"][1])
    return None


class Queries:
    """Two-stage satisfiability: uninterpreted nonlinear terms, then real."""

    def __init__(self, pc, timeout):
        self.abs = z3.Solver()
        self.abs.set("timeout", timeout)
        self.npc = 0
        self.pc = E.pc if pc is E.pc else list(pc)
        self.timeout = timeout

    def sat(self, *conds, timeout=None):
        """None (unsat) | model | "unknown" """
        cs = []
        for c in conds:
            if c is True:
                continue
            if c is False:
                return None
            c = z3.simplify(c)
            if z3.is_false(c):
                return None
            if not z3.is_true(c):
                cs.append(c)
        while self.npc < len(self.pc):      # lemmas may arrive later
            self.abs.add(self.pc[self.npc])
            self.npc += 1
        k = sym.check(self.abs, *cs)
        if k == z3.unsat:
            return None
        real = [dom.concretise(c) for c in cs]
        if k == z3.sat and all(a.eq(b) for a, b in zip(cs, real)) and \
                all(dom.concretise(c).eq(c) for c in self.pc):
            return self.abs.model()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*[dom.concretise(c) for c in self.pc])
        s.add(*real)
        if k == z3.sat:
            # try the abstract model's inputs first: often already a model
            m = self.abs.model()
            fix = [d() == m[d] for d in m.decls() if d.arity() == 0
                   and z3.is_bv(d()) ]
            if sym.check(s, *fix) == z3.sat:
                return s.model()
        k = sym.check(s)
        if k == z3.sat:
            return s.model()
        return None if k == z3.unsat else "unknown"


def log_parts(w, r):
    return dom.log_diff(w.log, r.log)


def single_bads(w, r):
    bs = []
    for u in w.unwind:
        bs.append(("nontermination", u))
    for g, c, m in w.oblig:
        bs.append((m, dom.and_(g, dom.not_(c))))
    for g, m in w.problems:
        bs.append((m, g))
    for g, what in w.undef:
        bs.append(("unset score read", g))
    for k, v in r.ext.items():
        bs.append(("score", dom.ne(w.scores.get(k, 0), v)))
    for c in r.final_checks(w):
        bs.append(("final state", dom.not_(c)))
    out = []
    seen = set()
    for kind, b in bs:
        if b is False:
            continue
        if b is True:
            out.append((kind, b))
            continue
        b = z3.simplify(b)
        if z3.is_false(b) or b.get_id() in seen:
            continue
        seen.add(b.get_id())
        out.append((kind, b))
    return out


def hook_setup(case, w, r):
    from . import refent
    refent.setup_world(case, w, r)


def extract_model(m, lits, ext):
    def val(e):
        if isinstance(e, int):
            return e
        return m.eval(e, model_completion=True).as_signed_long()
    world = {}
    for d in m.decls():
        n = d.name()
        if n.startswith(("world:", "rnd", "ent:", "cfg:", "init:")):
            v = m[d]
            world[n] = z3.is_true(v) if z3.is_bool(v) else v.as_signed_long()
    return {"lits": {n: val(v) for n, v in lits.items()},
            "ext": {n: val(v) for n, v in ext.items()},
            "world": world}


def path_model(case):
    """A model of the current (possibly abandoned) path's condition."""
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*[dom.concretise(c) for c in E.pc])
    if sym.check(s) != z3.sat:
        return None
    lits = {n: (v.k if isinstance(v, SymInt) else v)
            for n, v in _cur["lits"].items()}
    return extract_model(s.model(), lits, {
        n: z3.BitVec("x!" + n, 32) for n in case.get("ext", [])})


# ------------------------------------------------------------------ concrete

def concrete(case, model):
    """Run the real (uninstrumented) compiler on the concrete program."""
    if "pair" in case:
        return concrete_pair(case, model)
    lits, ext = model["lits"], model["ext"]
    K = case.get("K", 3)
    d = tempfile.mkdtemp(prefix="vp", dir=TMP)
    try:
        main = write_case(case, lits, d)
        err = out = None
        try:
            out = compile_case(main, os.path.join(d, "out!"),
                               case.get("cfg", {}), model)
        except CompileError as e:
            err = ("reject", str(e))
        except Exception as e:
            err = ("crash", "".join(traceback.format_exception_only(
                type(e), e)).strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if "judge" in case:
        return concrete_judge(case, out, err, lits, ext, model)
    # the reference may need more iterations than the symbolic bound
    r = ref_class(case)(case.get("files", {}), lits,
                        {(n, "in"): v for n, v in ext.items()},
                        case.get("Kc", 40))
    r.model = model["world"]
    r.main_dir = case.get("dir", "")
    r.setup(case, model["world"])
    definite = None
    try:
        run_ref(case, r)
    except Reject as e:
        definite = str(e)
    rej = any(x is True for x in r.reject) or definite is not None
    if err is not None:
        rej = rej or any(x is True for x in r.mayreject)
        if rej and err[0] == "crash":
            return "no diagnostic: invalid program crashes the compiler: " \
                + err[1]
        if rej:
            return None
        return "valid program %s: %s" % (
            "rejected" if err[0] == "reject" else "crashes the compiler",
            err[1])
    if rej:
        if not case.get("judge_reject", True):
            return None
        return "invalid program accepted (%s)" % (definite or
                                                  "constant error")
    if not all(a is True for a in r.assume) or \
            any(u is not False for u in r.unwind):
        return None
    w = make_world(case, functions(out), ext, case.get("Kc", 40) + 1)
    w.oracle_value = lambda key: bool(model["world"].get("world:" + key,
                                                         False))
    w.randoms = lambda i, lo, hi: model["world"].get("rnd%d" % i, lo)
    hook_setup(case, w, r)
    try:
        run_world(case, w, out)
    except mc.McError as e:
        return "malformed output: %s" % e
    for g in w.unwind:
        if g:
            return "generated commands do not terminate within %d steps" \
                % w.K
    for g, c, msg in w.oblig:
        if g and not c:
            return "violated: %s" % msg
    for g, msg in w.problems:
        if g:
            return msg
    for g, what in w.undef:
        if g:
            return "reads unset score %r" % (what,)
    a, b = dom.conc_log(w.log), dom.conc_log(r.log)
    if a != b:
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                return "observable effect %d: commands give %r, source " \
                    "semantics give %r" % (i, x, y)
    for k, v in r.ext.items():
        if w.scores.get(k, 0) != v:
            return "score %r: commands give %r, source semantics give %r" \
                % (k, w.scores.get(k, 0), v)
    for c in r.final_checks(w):
        if c is not True:
            return "final state differs"
    return None


def confirm(case, model):
    """Replay in a separate, uninstrumented interpreter."""
    from .replay import SERVER
    return SERVER.ask({"kind": "tv", "case": case, "model": model})


WITNESSES = 4


def run_case(case):
    """Full check of one case; returns a summary dict."""
    st0 = dict(sym.STATS.__dict__)
    t = time.time()
    res = {"name": case["name"], "paths": 0, "ok": 0, "rejected": 0,
           "vacuous": 0, "unknown": 0, "unsupported": 0, "budget": 0,
           "unconfirmed": 0, "violations": [], "notes": [], "cmds": 0}
    res["witnesses"] = 0

    def validate(model, why):
        """The symbolic run and the real code must agree on a witness."""
        res["witnesses"] += 1
        c = confirm(case, model)
        if c.get("violation"):
            res["violations"].append(
                {"data": {"kind": "tv", "case": case, "model": model},
                 "what": c["violation"], "sig": why})

    stream = sym_case(dict(case, deadline=t + case.get("case_s", 200)))
    forked = False
    while True:
        try:
            if res["unknown"] and not forked:
                raise StopIteration
            kind, v = next(stream)
        except StopIteration:
            if res["unknown"] and not forked and not res["violations"]:
                # some merged query was too hard: one path per branch
                forked = True
                res["forked"] = 1
                for k in ("paths", "ok", "rejected", "vacuous", "unknown",
                          "unsupported", "budget", "unconfirmed", "cmds"):
                    res[k] = 0
                fc = dict(case, fork=True, max_paths=case.get(
                    "max_fork_paths", 80), deadline=time.time() + case.get(
                        "fork_s", 25))
                stream = sym_case(fc)
                continue
            break
        if len(res["violations"]) >= 2:
            break
        if kind == "unsupported":
            res["unsupported"] += 1
            res["notes"].append(v[:200])
            m = path_model(case)
            if m is not None and res["witnesses"] < 3 * WITNESSES:
                validate(m, "path outside the encoding: " + v[:80])
            continue
        if kind == "budget":
            res["budget"] += v
            continue
        res["paths"] += 1
        res["cmds"] += v["cmds"]
        if v.get("rejected"):
            res["rejected"] += 1
        if v["status"] == "cex":
            c = confirm(case, v["model"])
            if c.get("violation"):
                res["violations"].append(
                    {"data": {"kind": "tv", "case": case,
                              "model": v["model"]},
                     "what": c["violation"], "sig": v["kind"]})
            else:
                res["unconfirmed"] += 1
                res["notes"].append("unconfirmed %s %s %s" % (
                    v["kind"], v.get("detail", ""), c.get("error", ""))
                    + json.dumps(v["model"]))
        else:
            res[v["status"]] = res.get(v["status"], 0) + 1
            if v.get("witness") and res["witnesses"] < WITNESSES:
                validate(v["witness"], "witness of a proved path")
    for k in st0:
        res["st_" + k] = sym.STATS.__dict__[k] - st0[k]
    res["wall"] = time.time() - t
    return res
