"""Concrete replay against the real, uninstrumented code.

    python3-vt -m vlib.replay FILE     replay one counterexample file
    python3-vt -m vlib.replay serve    JSON lines on stdin/stdout (harness)
"""
import importlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replay(data):
    """None when the property holds on this input, else a description."""
    if data.get("kind") == "tv":
        from . import tv
        tv.real(symbolic=False)
        return tv.concrete(data["case"], data["model"])
    m = importlib.import_module("checks." + data["module"])
    return m.replay(data)


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        try:
            r = {"violation": replay(json.loads(line))}
        except BaseException as e:
            r = {"violation": None, "error": "%s: %s" % (type(e).__name__, e)}
        out.write(json.dumps(r) + "\n")
        out.flush()


class Server:
    """Client side: one uninstrumented interpreter per worker."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0")
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "vlib.replay", "serve"],
            cwd=ROOT, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL)

    def ask(self, data, timeout=60):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(data).encode() + b"\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {"violation": None, "error": "timeout"}
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.stop()
            return {"violation": None, "error": "replay server: %s" % e}

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


SERVER = Server()


def main():
    if sys.argv[1] == "serve":
        return serve()
    with open(sys.argv[1]) as f:
        data = json.load(f)
    v = replay(data)
    if v:
        print("VIOLATED: " + str(v))
        print(json.dumps({k: data[k] for k in data if k != "case"}, indent=1))
        if "case" in data:
            print("--- program\n" + data["case"]["main"])
            for n, s in data["case"].get("files", {}).items():
                print("--- module %s\n%s" % (n, s))
    else:
        print("property holds on this input")
    return v


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
