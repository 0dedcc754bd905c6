"""Unit-level checks: a function of /repo against a reference, symbolically.

A specification is `spec(job, inp)`: it draws inputs from `inp`, runs the real
(instrumented) code and returns [(bad, message)], `bad` being a Python bool, a
SymBool or a z3 term.  The same function runs concretely for the replay.
"""
import time
import traceback
import z3
from . import sym
from .sym import E, H, SymInt, SymBool


class Skip(Exception):
    """The input is outside the property's domain."""


class SymInput:
    concrete = False

    def __init__(self):
        self.words = {}

    def int(self, name, lo=-2**31, hi=2**31 - 1):
        return E.symint("in:" + name, lo, hi)

    def char(self, name, avoid="\n"):
        c = E.symchar("ch:" + name)
        no = {ord(x) for x in avoid}
        E.restrict(c, [o for o in range(sym.DOMAIN_MAX + 1) if o not in no])
        return c

    def among(self, name, chars):
        c = E.symchar("ch:" + name)
        E.restrict(c, sorted({ord(x) for x in chars}))
        return c

    def bool(self, name):
        return SymBool(z3.Bool("b:" + name))

    def pick(self, name, xs):
        """One of xs (a fork per element, decided by the solver)."""
        k = E.symint("pick:" + name, 0, len(xs) - 1)
        lo, hi = 0, len(xs) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if E.decide(k.e <= mid):
                hi = mid
            else:
                lo = mid + 1
        return xs[lo]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            E.assume(cond)
        elif not cond:
            raise sym.Infeasible


class ConcInput:
    concrete = True

    def __init__(self, model):
        self.m = model

    def int(self, name, lo=-2**31, hi=2**31 - 1):
        return self.m.get("in:" + name, min(max(0, lo), hi))

    def char(self, name, avoid="\n"):
        return chr(self.m.get("ch:" + name, 97))

    def among(self, name, chars):
        return chr(self.m.get("ch:" + name, ord(chars[0])))

    def bool(self, name):
        return bool(self.m.get("b:" + name, False))

    def pick(self, name, xs):
        return xs[self.m.get("pick:" + name, 0)]

    def assume(self, cond):
        if not cond:
            raise Skip


def term(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, (bool, int)):
        return z3.BoolVal(bool(b))
    return b


def model_dict(m):
    out = {}
    for d in m.decls():
        x = m[d]
        n = d.name()
        if z3.is_bool(x):
            out[n] = z3.is_true(x)
        elif z3.is_bv(x):
            out[n] = x.as_long() if n.startswith("ch:") else \
                x.as_signed_long()
    return out


def run(job, spec, module, max_paths=400, seconds=10, witnesses=3):
    from . import tv
    tv.real()
    res = {"name": job["name"], "paths": 0, "ok": 0, "violations": [],
           "notes": [], "unknown": 0, "unsupported": 0, "vacuous": 0,
           "cmds": 0, "unconfirmed": 0, "witnesses": 0, "budget": 0}

    def once():
        try:
            bads = spec(job, SymInput())
        except (sym.Unsupported, sym.Infeasible, sym.OutOfTime):
            raise
        except Skip:
            return ("skip",)
        except Exception as e:
            return ("crash", "%s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc()[-600:]))
        live = []
        for b, msg in bads:
            t = z3.simplify(term(b))
            if not z3.is_false(t):
                live.append((t, msg))
        if not live:
            return ("ok", None)
        return ("cond", live)
    t0 = time.time()

    def ask(m, sig):
        data = {"kind": "unit", "module": module, "job": job,
                "model": model_dict(m)}
        from .replay import SERVER
        c = SERVER.ask(data)
        if c.get("violation"):
            res["violations"].append({"data": data, "what": c["violation"],
                                      "sig": sig})
            return True
        return c

    for kind, v in sym.explore(once, max_paths=max_paths,
                               deadline=t0 + seconds):
        if kind == "budget":
            res["budget"] += 1
            continue
        if kind != "ok":
            res["unsupported"] += 1
            if len(res["notes"]) < 5:
                res["notes"].append("%s %s" % (kind, v))
            continue
        res["paths"] += 1
        if v[0] == "skip":
            res["vacuous"] += 1
            continue
        if v[0] == "ok":
            # the path condition itself decides: no input violates
            res["ok"] += 1
            if res["witnesses"] < witnesses:
                if sym.check(E.solver) == z3.sat:
                    res["witnesses"] += 1
                    if ask(E.solver.model(), "witness") is True:
                        break
            continue
        if v[0] == "crash":
            sig = "crash: " + v[1].split("\n")[0]
            r = sym.check(E.solver)
        else:
            sig = v[1][0][1]
            E.solver.push()
            E.solver.set("timeout", 8000)
            E.solver.add(z3.Or([b for b, _ in v[1]]))
            r = sym.check(E.solver)
        if r == z3.unsat:
            res["ok"] += 1
        elif r == z3.unknown:
            res["unknown"] += 1
        else:
            c = ask(E.solver.model(), sig)
            if c is True:
                break
            res["unconfirmed"] += 1
            if len(res["notes"]) < 8:
                res["notes"].append("unconfirmed %r %r" % (sig, c))
    return res


def replay(data, spec):
    from . import tv
    tv.real(symbolic=False)
    try:
        bads = spec(data["job"], ConcInput(data["model"]))
    except Skip:
        return None
    except Exception as e:
        return "crash: %s: %s" % (type(e).__name__, e)
    for b, msg in bads:
        if isinstance(b, z3.ExprRef):
            b = z3.is_true(z3.simplify(b))
        if b:
            return msg
    return None


def differ(a, b):
    """SymBool/bool: a != b for nested tuples of payload values."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return True
        ts = [differ(x, y) for x, y in zip(a, b)]
        if any(t is True for t in ts):
            return True
        ts = [t.e for t in ts if isinstance(t, SymBool)]
        return SymBool(z3.Or(ts)) if ts else False
    if isinstance(a, bool) != isinstance(b, bool):
        return True
    if type(a) is str or type(b) is str:
        if type(a) is not type(b):
            return True
        r = sym.str_eq(a, b) if (sym.is_sym_str(a) or sym.is_sym_str(b)) \
            else a == b
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r
    if isinstance(a, float) != isinstance(b, float):
        return True
    r = H.ne(a, b)
    return r
