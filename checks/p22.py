"""P22: scheduled functions (tick file)."""
from .common import *

BOUNDS = ("up to 7 ticks after the main file; up to 3 loops/tasks at once; "
          "intervals and delays symbolic over int32 (whatever is due within "
          "the ticks run); action histories (restart / cancel / nothing "
          "before every tick) chosen by symbolic scores; targets are normal, "
          "inline and alias functions with constant, variable and default "
          "arguments")
OUTSIDE = ("on_area_loaded and on_circle_loaded (same mechanism as on_tickingarea, with a position); loops "
           "registered inside a branch that is not executed; arguments whose "
           "value depends on when they are evaluated")
ASSUMPTIONS = ass_arith(["every tick runs the functions of tick.json once, "
                         "after the main file ran"])

S = "import schedule\n"
F = "def f():\n    /say f\n    r += 1\n"
G = "def g(x: int):\n    /say g\n    s = s * 3 + x\n"
ACT = """interface step:
    if a == 1:
        t.after(K0)
    elif a == 2:
        t.cancel()
    elif a == 3:
        t.after(K1)
    a = b
    b = c
    c = 0
"""
T = "tick"
# name -> (body, entries)
HAND = {
    "loop-default": (F + "schedule.register_loop(f)", [T] * 3),
    "loop-1": (F + "schedule.register_loop(f, 1)", [T] * 3),
    "loop-2": (F + "schedule.register_loop(f, interval=2)", [T] * 6),
    "loop-3": (F + "schedule.register_loop(f, 3)", [T] * 7),
    "loop-K": (F + "schedule.register_loop(f, interval=K0)", [T] * 6),
    "loop-var": (F + "schedule.register_loop(f, interval=a)", [T] * 6),
    "loop-expr": (F + "schedule.register_loop(f, a + b)", [T] * 5),
    "loop-expr2": (F + "schedule.register_loop(f, (a - b) * (c - a))",
                   [T] * 3),
    "loop-var-changes": ("def f():\n    r += 1\n    a += 1\n"
                         "schedule.register_loop(f, a)", [T] * 5),
    "loop-args": (G + "schedule.register_loop(g, 2, 7)\n", [T] * 4),
    "loop-args-kw": (G + "schedule.register_loop(g, interval=2, x=K0)\n",
                     [T] * 4),
    "loop-args-var": (G + "x := a\nschedule.register_loop(g, 2, x)\n"
                      "interface go:\n    x += 1", [T, "go", T, T, "go", T]),
    "loop-arg-1": (G + "schedule.register_loop(g, 1, K0)\n", [T] * 3),
    "loop-arg-default": ("def g(x=K0, y: int = K1):\n    r += x\n    s -= y\n"
                         "schedule.register_loop(g, 1, y=a)", [T] * 2),
    "loop-inline": ("inline def f(x: int):\n    y := x + r\n    r = y\n"
                    "    /say inl\nschedule.register_loop(f, 2, a)", [T] * 4),
    "loop-inline-1": ("inline def f(const x):\n    r += x\n    /say inl\n"
                      "schedule.register_loop(f, 1, K0)", [T] * 2),
    "two-loops": (F + G + "schedule.register_loop(f, K0)\n"
                  "schedule.register_loop(g, K1, a)", [T] * 5),
    "two-loops-order": ("def f():\n    r = r * 2 + 1\n"
                        "def g():\n    r = r * 2\n"
                        "schedule.register_loop(f, 2)\n"
                        "schedule.register_loop(g, 3)", [T] * 7),
    "same-target-twice": (F + "schedule.register_loop(f, 2)\n"
                          "schedule.register_loop(f, 3)", [T] * 7),
    "loop-empty": ("def f():\n    pass\nschedule.register_loop(f, 2)\n"
                   "r = a", [T] * 3),
    "loop-cond": ("def f():\n    if a > K0:\n        /say big\n"
                  "        a -= 1\n    else:\n        s += 1\n"
                  "schedule.register_loop(f, 2)", [T] * 5),
    "loop-while": ("def f():\n    i := 0\n    while i < 2:\n        r += a\n"
                   "        i += 1\nschedule.register_loop(f, 2)", [T] * 3),
    "loop-result": ("def f(x: int) -> int:\n    r += x\n    result r\n"
                    "schedule.register_loop(f, 2, a)\ns = f(b)", [T] * 4),
    "task-once": (F + "const t = schedule.Task(f)\nt.after(K0)", [T] * 6),
    "task-const-decl": (F + "const t = schedule.Task(f)\nt.after(K0)",
                        [T] * 4),
    "task-3": (F + "const t = schedule.Task(f)\nt.after(3)", [T] * 7),
    "task-0": (F + "const t = schedule.Task(f)\nt.after(0)", [T] * 3),
    "task-never": (F + "const t = schedule.Task(f)\n", [T] * 3),
    "task-var": (F + "const t = schedule.Task(f)\nt.after(a)\na += 1", [T] * 5),
    "task-expr": (F + "const t = schedule.Task(f)\nt.after(a * 2 - b)", [T] * 4),
    "task-override": (F + "const t = schedule.Task(f)\nt.after(K0)\nt.after(K1)",
                      [T] * 5),
    "task-override-later": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                            "interface go:\n    t.after(K1)",
                            [T, T, "go", T, T, T]),
    "task-cancel": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                    "interface go:\n    t.cancel()", [T, T, "go", T, T]),
    "task-cancel-restart": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                            "t.cancel()\nt.after(K1)", [T] * 4),
    "task-args": (G + "const t = schedule.Task(g, K0)\nt.after(K1)", [T] * 4),
    "task-args-kw": (G + "x := a\nconst t = schedule.Task(g, x=x)\nt.after(2)\n"
                     "x = b", [T] * 4),
    "task-two": (F + G + "const t = schedule.Task(f)\nconst u = schedule.Task(g, a)\n"
                 "t.after(K0)\nu.after(K1)", [T] * 5),
    "task-two-same-fn": (G + "const t = schedule.Task(g, 1)\n"
                         "const u = schedule.Task(g, 2)\nt.after(K0)\n"
                         "u.after(K1)", [T] * 4),
    "task-two-same-kw": (G + "const t = schedule.Task(g, x=K2)\n"
                         "const u = schedule.Task(g, x=a)\nt.after(K0)\n"
                         "u.after(K1)", [T] * 4),
    "loop-two-same-kw": (G + "schedule.register_loop(g, 2, x=K2)\n"
                         "schedule.register_loop(g, interval=3, x=a)\n"
                         "schedule.register_loop(g, x=K1)", [T] * 4),
    "task-has": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                 "interface go:\n    if t.has_schedule():\n        s += 1\n"
                 "    else:\n        s += 100", ["go", T, "go", T, T, "go"]),
    "task-has-var": (F + "const t = schedule.Task(f)\nx := t.has_schedule()\n"
                     "t.after(a)\ny := t.has_schedule()\nt.cancel()\n"
                     "z := t.has_schedule()\n"
                     "r = int(x) + int(y) * 2 + int(z) * 4", [T]),
    "task-not-has": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                     "interface go:\n    if not t.has_schedule() and a > b:"
                     "\n        t.after(K1)", [T, "go", T, "go", T, T]),
    "task-timer": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                   "interface go:\n    s = t._timer", [T, "go", T, T, "go"]),
    "task-self-restart": ("const box = {1}\ndef f():\n    /say f\n"
                          "const t = schedule.Task(f)\nt.after(1)\n"
                          "def again():\n    t.after(K0)\n"
                          "const u = schedule.Task(again)\nu.after(2)", [T] * 6),
    "task-in-loop": (F + "const t = schedule.Task(f)\ndef g():\n"
                     "    t.after(2)\nschedule.register_loop(g, 4)",
                     [T] * 7),
    "task-starts-task": (F + "const t = schedule.Task(f)\ndef g():\n"
                         "    /say g\n    t.after(K0)\n"
                         "const u = schedule.Task(g)\nu.after(1)", [T] * 5),
    "task-started-by-later": (F + "def h():\n    /say h\n"
                              "const t = schedule.Task(f)\n"
                              "const u = schedule.Task(h)\nt.after(2)\n"
                              "u.after(2)", [T] * 4),
    "task-inline": ("inline def f(x: int):\n    /say i\n    r += x\n"
                    "const t = schedule.Task(f, a)\nt.after(K0)", [T] * 3),
    "task-unless": (F + "const t = schedule.Task(f)\nif a > b:\n"
                    "    t.after(K0)\nelse:\n    t.after(K1)", [T] * 4),
    "task-in-func": (F + "const t = schedule.Task(f)\ndef start(n: int):\n"
                     "    t.after(n)\nstart(a)\ninterface go:\n"
                     "    start(b)", [T, T, "go", T, T]),
    "loop-and-task": (F + G + "schedule.register_loop(f, 2)\n"
                      "const t = schedule.Task(g, a)\nt.after(K0)", [T] * 5),
    "task-cancel-in-loop": (F + "const t = schedule.Task(f)\ndef stop():\n"
                            "    /say stop\n    t.cancel()\n"
                            "schedule.register_loop(stop, 3)\n"
                            "interface go:\n    t.after(K0)",
                            [T, "go", T, T, T]),
    "main-again": (F + "const t = schedule.Task(f)\nt.after(K0)\n"
                   "schedule.register_loop(f, 3)",
                   [T, T, "main", T, T, T]),
    "history": (F + "const t = schedule.Task(f)\n" + ACT,
                ["step", T, "step", T, "step", T, T, T]),
    "history2": (F + "const t = schedule.Task(f)\nt.after(2)\n" + ACT,
                 ["step", T, T, "step", T, "step", T, T]),
    "history-has": (F + "const t = schedule.Task(f)\n" + ACT +
                    "interface look:\n    if t.has_schedule():\n"
                    "        s += 1\n    s *= 2",
                    ["step", T, "look", "step", T, "look", "step", T,
                     "look"]),
    "live-temps": ("def f(x: int) -> int:\n    result x * x - r\n"
                   "def g():\n    r = f(a) - f(b) * f(c)\n"
                   "schedule.register_loop(g, 2)\ns = f(b) + f(a) * 2",
                   [T] * 3),
    "area": (G + "const t = schedule.Task(g, K0)\n"
             "t.on_tickingarea(\"spot\")", [T, "fire", T, "fire"]),
    "area-var": (G + "x := a\nconst t = schedule.Task(g, x)\n"
                 "t.after(1)\nif a > b:\n"
                 "    t.on_tickingarea(\"spot\")\nx = K0",
                 [T, "fire", T, T]),
    "area-two": (F + G + "const t = schedule.Task(f)\n"
                 "const u = schedule.Task(g, a)\n"
                 "u.on_tickingarea(\"p\")\nt.on_tickingarea(\"q\")\n"
                 "if t.has_schedule():\n    s = 9", ["fire", T, "fire"]),
    "area-inline": ("inline def f(x: int):\n    /say i\n    r += x\n"
                    "const t = schedule.Task(f, a)\n"
                    "t.on_tickingarea(\"p\")\nt.after(2)",
                    ["fire", T, T, T]),
    "no-target": ("schedule.register_loop()", [T]),
    "not-callable": ("schedule.register_loop(a)", [T]),
    "bad-arg": (F + "schedule.register_loop(f, 2, 3)", [T]),
    "bad-arg-task": (G + "const t = schedule.Task(g)", [T]),
    "bad-interval": (F + "schedule.register_loop(f, a > b)", [T]),
    "bad-delay": (F + "const t = schedule.Task(f)\nt.after(True)", [T]),
}


def jobs(tier, seed):
    r = rng(seed, "p22")
    out = []
    for n, (b, e) in HAND.items():
        e = ["main"] + e
        if tier != "quick":
            e = e + [T] * 4
        out.append(tv(n, S + b, entry=e))
        out.append(tv("noopt-" + n, S + b, entry=e,
                      cfg={"optimizer": False}))
    acts = ["t.after(%s)", "u.after(%s)", "t.cancel()", "u.cancel()"]
    for i in range(160 if tier == "quick" else 1500):
        # random histories over two tasks and a loop
        kk = ["K0", "K1", "a", "1", "2", "3", "b"]
        pre = F + G + "const t = schedule.Task(f)\nconst u = schedule.Task(g, c)\n"
        if r.random() < .5:
            pre += "schedule.register_loop(g, %s, 5)\n" % r.choice(
                ["2", "3", "K0", "a"])
        body = pre
        names = []
        for q in range(3):
            names.append("s%d" % q)
            body += "interface s%d:\n" % q
            for _ in range(r.choice([1, 1, 2])):
                x = r.choice(acts)
                x = x % r.choice(kk) if "%" in x else x
                if r.random() < .3:
                    x = "if %s.has_schedule():\n        %s" % (
                        r.choice("tu"), x)
                body += "    %s\n" % x
        e = ["main"]
        for _ in range(5):
            if r.random() < .6:
                e.append(r.choice(names))
            e.append(T)
        out.append(tv("hist%d" % i, S + body, entry=e, max_paths=80,
                      cfg={"optimizer": i % 3 != 2}))
    return out
