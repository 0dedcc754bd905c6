#!/usr/bin/env python3
"""Check runner.

    run.py check ID [--tier quick|thorough]
    run.py replay FILE
    run.py setup
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/veriftools/pyvenv/bin/python3"


def reexec():
    if os.environ.get("VP_REEXEC"):
        return
    py = VENV if os.path.exists(VENV) else "python3-vt"
    env = dict(os.environ, VP_REEXEC="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    os.execvpe(py, [py, os.path.join(ROOT, "run.py")] + sys.argv[1:], env)


COVERED = set()


def monitor():
    """Record which functions of the code under test are executed."""
    m = sys.monitoring
    m.use_tool_id(4, "vp")
    repo = os.path.realpath(os.environ.get("VP_REPO", "/repo")) + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(repo):
            COVERED.add("%s:%s" % (f[len(repo):], code.co_qualname))
        return m.DISABLE
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


def do_job(job):
    from vlib import sym
    st0 = dict(sym.STATS.__dict__)
    t = time.time()
    if job["kind"] == "tv":
        from vlib import tv
        r = tv.run_case(job["case"])
    else:
        m = importlib.import_module("checks." + job["module"])
        r = m.run_unit(job)
    r.setdefault("name", job.get("name"))
    for k, v in sym.STATS.__dict__.items():
        r["st_" + k] = v - st0[k]
    r["wall"] = time.time() - t
    return r


def worker(conn):
    monitor()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        before = set(COVERED)
        try:
            r = do_job(job)
        except BaseException as e:
            r = {"name": job_name(job), "error": "%s: %s" % (
                type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
        r["covered"] = sorted(COVERED - before)
        conn.send(r)
    try:
        from vlib.replay import SERVER
        SERVER.stop()
    except Exception:
        pass


def job_name(job):
    return job["case"]["name"] if job["kind"] == "tv" else job["name"]


class Slot:
    def __init__(self, ctx):
        self.ctx = ctx
        self.proc = None
        self.job = None
        self.spawn()

    def spawn(self):
        self.conn, child = self.ctx.Pipe()
        self.proc = self.ctx.Process(target=worker, args=(child,), daemon=False)
        self.proc.start()
        child.close()

    def give(self, job):
        self.job = job
        self.t = time.time()
        self.conn.send(job)

    def kill(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def run_jobs(jobs, nproc, deadline, job_timeout, stop_after=int(os.environ.get("VP_MAXV", "8"))):
    ctx = mp.get_context("fork")
    res = []
    queue = list(reversed(jobs))
    slots = [Slot(ctx) for _ in range(min(nproc, max(1, len(jobs))))]
    nviol = 0
    while True:
        busy = False
        for s in slots:
            if s.job is None and queue and time.time() < deadline and \
                    nviol < stop_after:
                s.give(queue.pop())
            if s.job is not None:
                busy = True
        if not busy:
            break
        mp.connection.wait([s.conn for s in slots if s.job is not None], 1.0)
        for s in slots:
            if s.job is None:
                continue
            try:
                got = s.conn.poll()
                if got:
                    r = s.conn.recv()
            except (EOFError, OSError):
                got = True
                r = {"name": job_name(s.job), "error": "worker died"}
                s.kill()
                s.spawn()
            if got:
                r["job"] = s.job
                res.append(r)
                nviol += len(r.get("violations", []))
                s.job = None
            elif time.time() - s.t > job_timeout or \
                    time.time() > deadline + 30:
                res.append({"name": job_name(s.job), "job": s.job,
                            "timeout": True})
                s.kill()
                s.spawn()
                s.job = None
    for s in slots:
        try:
            s.conn.send(None)
        except OSError:
            pass
        s.proc.join(3)
        if s.proc.is_alive():
            s.proc.kill()
    return res, [job_name(j) for j in queue]


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key[len("case="):]] = text
    return out


def check(pid, tier, seed):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    m = importlib.import_module("checks." + pid.lower())
    from vlib import tv
    import vlib.instr
    jobs = m.jobs(tier, seed)
    if tier == "quick":
        for j in jobs:
            if j["kind"] == "tv":
                j["case"].setdefault("timeout", 2500)
                j["case"].setdefault("feas_ms", 1500)
                j["case"].setdefault("fork_s", 8)
                j["case"].setdefault("case_s", 12)
                j["case"].setdefault("max_fork_paths", 40)
    if getattr(m, "PRELOAD", True):
        tv.real()
    budget = getattr(m, "BUDGET", {}).get(
        tier, 100 if tier == "quick" else 5400)
    jt = getattr(m, "JOB_TIMEOUT", {}).get(
        tier, 40 if tier == "quick" else 600)
    nproc = int(os.environ.get("VP_JOBS", min(8, os.cpu_count() or 4)))
    res, left = run_jobs(jobs, nproc, t0 + budget, jt)
    known = known_findings(pid)
    tot = {}
    covered = set()
    viols = []
    notes = []
    timeouts = []
    errors = []
    for r in res:
        covered.update(r.get("covered", []))
        for k, v in r.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        if r.get("timeout"):
            timeouts.append(r["name"])
        if r.get("error"):
            errors.append({"name": r["name"], "error": r["error"],
                           "trace": r.get("trace", "")})
        for n in r.get("notes", []):
            notes.append("%s: %s" % (r["name"], n))
        for v in r.get("violations", []):
            viols.append((r["name"], v))
    rc = 0
    nnew = 0
    rdir = os.path.join(ROOT, "replays")
    shown = set()
    for name, v in viols:
        if name in known:
            if name not in shown:
                shown.add(name)
                print("KNOWN-FINDING: property=%s case=%s %s" % (
                    pid, name, known[name]))
            continue
        rc = 1
        nnew += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, nnew))
        data = dict(v["data"], what=v["what"], property=pid, name=name)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        if nnew <= 10:
            print("  %s: %s" % (name, str(v["what"])[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
    wall = time.time() - t0
    npaths = int(tot.get("paths", 0))
    samples = []
    step = max(1, len(jobs) // 5)
    for j in jobs[::step][:6]:
        if j["kind"] == "tv":
            samples.append({"name": j["case"]["name"],
                            "program": j["case"]["main"],
                            "symbolic_scores": j["case"].get("ext", [])})
        else:
            samples.append({k: j[k] for k in j if k != "kind"})
    lit = {
        "symbolic_programs": len([j for j in jobs if j["kind"] == "tv"]),
        "symbolic_units": len([j for j in jobs if j["kind"] != "tv"]),
        "jobs_run": len(res),
        "jobs_not_run_budget": len(left),
        "paths_explored": npaths,
        "paths_proved": int(tot.get("ok", 0)),
        "paths_rejected_as_required": int(tot.get("rejected", 0)),
        "paths_vacuous": int(tot.get("vacuous", 0)),
        "paths_unknown": int(tot.get("unknown", 0)),
        "paths_unsupported": int(tot.get("unsupported", 0)),
        "paths_over_budget": int(tot.get("budget", 0)),
        "unconfirmed_counterexamples": int(tot.get("unconfirmed", 0)),
        "commands_interpreted": int(tot.get("cmds", 0)),
        "witnesses_replayed_on_real_code": int(tot.get("witnesses", 0)),
        "solver_queries": int(tot.get("st_queries", 0)),
        "solver_s": round(tot.get("st_solver_s", 0.0), 2),
        "job_timeouts": timeouts,
        "job_errors": errors[:20],
        "notes": notes[:40],
        "bounds": getattr(m, "BOUNDS", ""),
        "outside_bounds": getattr(m, "OUTSIDE", ""),
        "functions_encoded": sorted(covered),
        "functions_encoded_count": len(covered),
        "source_files": sorted(vlib.instr.LOADED),
    }
    level = getattr(m, "LEVEL", "translation_validation")
    if level == "translation_validation":
        lit["programs"] = npaths
        lit["disagreements_checked"] = int(tot.get("st_queries", 0))
        lit["samples"] = samples
    else:
        lit["explanation"] = m.EXPLANATION
        lit["samples"] = samples
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": lit,
          "assumptions": getattr(m, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": nnew}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d paths (%d proved, %d rejected as required, "
          "%d vacuous, %d unknown, %d unsupported, %d over budget, "
          "%d unconfirmed), %d queries, %.1f s solver, %.1f s wall" % (
              pid, tier, len(res), npaths, tot.get("ok", 0),
              tot.get("rejected", 0), tot.get("vacuous", 0),
              tot.get("unknown", 0), tot.get("unsupported", 0),
              tot.get("budget", 0), tot.get("unconfirmed", 0),
              tot.get("st_queries", 0), tot.get("st_solver_s", 0.0), wall))
    if errors or timeouts or left:
        print("note: %d job errors, %d job timeouts, %d jobs not started" % (
            len(errors), len(timeouts), len(left)))
        for e in errors[:5]:
            print("  error in %s: %s" % (e["name"], e["error"]))
            if os.environ.get("VP_DEBUG"):
                print(e["trace"])
    if os.environ.get("VP_DEBUG"):
        for n in notes[:40]:
            print("  note", n[:300])
        slow = sorted(res, key=lambda r: -r.get("wall", 999))[:5]
        print("  slowest:", [(r["name"], round(r.get("wall", -1), 1))
                             for r in slow])
        if timeouts:
            print("  timeouts:", timeouts)
    return rc


def setup():
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    import z3
    print("z3", z3.get_version_string())
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("id")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("setup")
    a = ap.parse_args()
    if a.cmd == "check":
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return check(a.id, tier, seed)
    if a.cmd == "replay":
        sys.path.insert(0, ROOT)
        sys.argv = ["replay", a.file]
        from vlib import replay
        return 1 if replay.main() else 0
    return setup()


if __name__ == "__main__":
    reexec()
    sys.exit(main())
