"""P24: compile-time lists and maps behave like the containers they model."""
from .common import *

BOUNDS = ("programs of up to 10 container operations on lists of at most 8 "
          "and maps of at most 6 elements; elements, keys, indices, steps and "
          "lengths symbolic constants (indices within -8..12, keys int32); "
          "nesting depth 2; every list and map operation at run time, in "
          "const functions and through for loops")
OUTSIDE = ("float keys; modifying a map passed as an argument; "
           "printing of containers")
ASSUMPTIONS = ass_arith()
P = "import print\n"
SHOW = '''inline def show(const l):
    for e in l:
        print.tell(print.format("e%0", e))
    print.tell(print.format("n%0", l.size()))
'''
SHOWM = '''inline def showm(const m):
    for k in m:
        print.tell(print.format("k%0", k))
        print.tell(print.format("v%0", m[k]))
    print.tell(print.format("n%0", m.size()))
'''
RNG = [["-6 <= K0 <= 6"], ["-6 <= K1 <= 6"], ["-6 <= K2 <= 6"]]


def L(e):
    return P + SHOW + "show(%s)\n" % e


def M(e):
    return P + SHOWM + "showm(%s)\n" % e


def CT(body, show="show"):
    return (P + (SHOW if show == "show" else SHOWM) + "const def f(a0: int, "
            "b0: int) -> %s:\n" % ("list" if show == "show" else "map") + "".join("    %s\n" % x for x in body.split("\n"))
            + "%s(f(K0, K1))\n" % show)


HAND = {
    "lit": L("{K0, 2, K1}"), "empty": L("{}"),
    "index": P + "const l = {10, 20, 30}\nr = l[K0]\n",
    "index-nest": P + "const l = {{1, 2}, {3, K1}}\nr = l[K0][1]\n",
    "slice1": L("{1, 2, 3, 4}.slice(K0)"),
    "slice2": L("{1, 2, 3, 4}.slice(K0, K1)"),
    "slice3": L("{1, 2, 3, 4, 5}.slice(K0, K1, 2)"),
    "slice-step": L("{1, 2, 3, 4, 5}.slice(None, None, K0)"),
    "slice-neg": L("{1, 2, 3, 4, 5}.slice(K0, None, -1)"),
    "slice-none": L("{1, 2, 3, 4, 5}.slice(None, K0)"),
    "cycle": L("{1, K1}.cycle(K0)"),
    "mul": L("{1, 2} * K0"),
    "mul-var": L("{1, 2} * a"),
    "mul-left": L("2 * {1}"),
    "add": L("{1} + {K0, 3} + {}"),
    "add-int": L("{1} + 2"),
    "add-map": L("{1} + {1: 2}"),
    "copy": L("{K0, 1}.copy()"),
    "size": P + "r = {K0, 2}.size() + {}.size()\n",
    "range1": L("list.range(K0)"), "range2": L("list.range(K0, K1)"),
    "range3": L("list.range(K0, 6, K1)"),
    "range-zero": L("list.range(1, 4, 0)"),
    "slice-zero": L("{1, 2}.slice(0, 2, 0)"),
    "slice-zero-ct": CT("l := {1, 2}\nresult l.slice(0, 2, a0 - a0)"),
    "repeat": L("list.repeat(K1, K0)"),
    "repeat-neg": L("list.repeat(7, -2)"),
    "geometric": L("list.geometric(K0, K1, 4)"),
    "geometric-len": L("list.geometric(3, 2, K0)"),
    "geometric-big": L("list.geometric(65536, 65536, 3)"),
    "list-of-list": L("list({K0, K1})"),
    "list-of-map": L("list({1: 2, K0: 4})"),
    "list-attr": L("{1}.append(2)"), "list-pop": L("{1}.pop(0)"),
    "list-elem-var": P + "const l = {a, 1}\n",
    "list-set": P + "const l = {1, 2}\nl[0] = 3\n",
    "for-var-const": "for i in {1, 2}:\n    i = 3\n",
    "for-mixed": P + "for i in {K0, True, \"s\"}:\n    print.tell("
                 "print.format(\"<%0>\", i))\n",
    "for-nested": "for i in {1, K0}:\n    for j in {{10, K1}, {i, 5}}:\n"
                  "        r += j[0] * i + j[1]\n",
    "for-int": "for i in 5:\n    r += 1\n",
    "for-var": "for i in a:\n    r += 1\n",
    "for-empty": "for i in {}:\n    r += i\n",
    "for-define": "for i in {1, 2}:\n    t := a * i\n    r += t\n",
    "map-lit": M("{K0: 1, 2: 3, K1: 5}"), "map-empty": M("{:}"),
    "map-get": P + "const m = {1: 10, 2: 20, K0: 30}\nr = m[K1]\n",
    "map-get-default": P + "const m = {1: 10, 2: 20}\nr = m.get(K0, K1)\n",
    "map-get-none": P + "r = {1: 10}.get(K0)\n",
    "map-has": P + "const m = {1: 10, K1: 20}\nif m.has(K0):\n    r = a\n",
    "map-bool-int": M("{1: 10, True: 20, 0: 30, False: 40}"),
    "map-str-int": M('{1: 10, "1": 20, "a": K0}'),
    "list-key": "const m = {{K0, 1}: 3, {1, K1}: 4}\nr = m[{K0, 1}]\n"
                "s = m[{1, K1}]\n",
    "list-key-nest": "const m = {{{K0, 1}, {2}}: 3, {{2}, {K0, 1}}: 4, {2, K0, 1}"
                     ": 5}\nr = m.get({{2}, {K0, 1}}, 9)\n"
                     "s = m.get({{K1}, {K0, 1}}, 9)\n",
    "list-key-has": "const m = {{1, 2, K0}: 3}\nr = int(m.has({2, 1, K0}))\n"
                    "s = int(m.has({1, 2, K1}))\n",
    "ct-list-key": "const def f() -> int:\n    m := {{K0, 1}: 3, {1, K1}: 4}\n"
                   "    m.update({{1, 1, K0}: 5})\n    result m.size() * 10 + m.get("
                   "{1, K0}, 9)\nr = f()\n",
    "map-keys": L("{K0: 1, K1: 2}.keys()"),
    "map-values": L("{K0: 1, K1: 2}.values()"),
    "map-copy": M("{K0: K1}.copy()"),
    "map-size": P + "r = {K0: 1, K1: 2, 3: 4}.size()\n",
    "map-list-key": M("{{1, K0}: 5, {1, 2}: 6, {}: 7}"[:0] or
                      "{\"a\": 5, \"b\": K0, \"a\": 7}"),
    "map-key-list": P + "const m = {{1, 2}: 5, {1, K0}: 6}\n"
                    "r = m[{1, K1}]\ns = m.size()\n",
    "map-key-list-bool": P + "const m = {{1}: 5, {True}: 6}\n"
                         "r = m[{1}]\ns = m.size()\n",
    "map-key-none": P + "const m = {None: 5, 1: 6}\nr = m[1]\n",
    "map-key-var": P + "const m = {a: 5}\n",
    "map-val-var": P + "const m = {5: a}\n",
    "map-set": P + "const m = {5: 1}\nm[5] = 2\n",
    "map-pop": P + "r = {5: 1}.pop(5)\n",
    "map-in-map": P + "const m = {1: {K0: 2, 3: 4}, 2: {:}}\nr = m[1][3]\n",
    "map-list": P + "const m = {1: {K0, 2}}\nr = m[1][K1]\n",
    # const functions
    "ct-lit": CT("result {a0, b0, 3}"),
    "ct-append": CT("l := {1}\nl.append(a0)\nl.append(b0)\nresult l"),
    "ct-extend": CT("l := {1}\nl.extend({a0, b0})\nl.extend(l)\nresult l"),
    "ct-insert": CT("l := {1, 2, 3}\nl.insert(a0, 9)\nresult l"),
    "ct-pop": CT("l := {1, 2, 3}\nx := l.pop(a0)\nl.append(x * 10)\n"
                 "result l"),
    "ct-reverse": CT("l := {1, a0, 3}\nl.reverse()\nresult l"),
    "ct-set": CT("l := {1, 2, 3}\nl[a0] = b0\nresult l"),
    "ct-aug": CT("l := {1, 2, 3}\nl[a0] += b0\nresult l"),
    "ct-share": CT("l := {1}\nm := l\nm.append(a0)\nresult l"),
    "ct-copy": CT("l := {1}\nm := l.copy()\nm.append(a0)\nl.append(7)\n"
                  "result m"),
    "ct-copy-elem": CT("l := {1, 2}\nm := l.copy()\nm[0] = a0\nresult l"),
    "ct-slice-elem": CT("l := {1, 2, 3}\nm := l.slice(0, 2)\nm[0] = a0\n"
                        "result l"),
    "ct-slice-elem2": CT("l := {1, 2, 3}\nm := l.slice(0, 2)\nl[0] = a0\n"
                         "result m"),
    "ct-cycle-elem": CT("l := {1, 2}\nm := l.cycle(2)\nm[0] = a0\nresult m"),
    "ct-extend-elem": CT("l := {1, 2}\nm := {0}\nm.extend(l)\nl[0] = a0\n"
                         "result m"),
    "ct-append-var": CT("x := a0\nl := {x}\nx = 5\nl.append(x)\nx = 6\n"
                        "result l"),
    "ct-elem-var": CT("l := {1, 2}\nx := l[0]\nx = a0\nresult l"),
    "ct-elem-var2": CT("l := {1, 2}\nx := l[0]\nl[0] = a0\nl.append(x)\n"
                       "result l"),
    "ct-for": CT("l := {:}.keys()\nfor i in {1, a0, 3}:\n"
                 "    l.append(i * b0)\nresult l"),
    "ct-for-set": CT("l := {1, 2}\nfor i in {0, 1}:\n    l[i] = l[i] + a0\n"
                     "result l"),
    "ct-for-elem": CT("l := {1, 2}\nfor x in l:\n    b0 += x\n"
                      "l.append(b0)\nresult l"),
    "ct-for-assign": CT("l := {1, 2}\nfor x in l:\n    x = a0\nresult l"),
    "ct-for-grow": CT("l := {1, 2}\nfor x in l.copy():\n"
                      "    l.append(x + a0)\nresult l"),
    "ct-while": CT("l := {0}\ni := 0\nwhile i < 4:\n    i += 1\n"
                   "    l.append(i * a0)\nresult l"),
    "ct-nested": CT("l := {{1}, {2}}\nl[0].append(a0)\nr := l[0]\n"
                    "result r"),
    "ct-nested-share": CT("k := {1}\nl := {k, k}\nk.append(a0)\n"
                          "result l[1]"),
    "ct-arg-frozen": P + SHOW + "const def f(l) -> list:\n    l.append(1)\n"
                     "    result l\nshow(f({1}))\n",
    "ct-arg-copy": P + SHOW + "const def f(l, x: int) -> list:\n    m := l.copy()\n"
                   "    m.append(x)\n    result m\nconst l = {1, K0}\n"
                   "show(f(l, K1))\nshow(l)\nshow(f(f(l, 1), 2))\n",
    "ct-arg-set": P + SHOW + "const def f(l) -> list:\n    l[0] = 5\n    result l\n"
                  "show(f({1}))\n",
    "ct-range": CT("l := list.range(4)\nm := l.copy()\nm[a0] = 9\nresult m"),
    "ct-range-set": CT("l := list.range(4)\nl[0] = 9\nresult l"),
    "ct-repeat": CT("l := list.repeat(a0, 3).copy()\nl[1] = b0\nresult l"),
    "ct-repeat-list": CT("k := {1}\nl := list.repeat(k, 2)\n"
                         "k.append(a0)\nresult l[0]"),
    "ct-list-new": CT("k := {1, 2}\nl := list(k).copy()\nk[0] = a0\n"
                      "result l"),
    "ct-add": CT("result {1} + {2}"), "ct-mul": CT("result {1} * 2"),
    "ct-size": CT("l := {1, 2}\nl.append(a0)\nresult {l.size(), b0}"),
    "ct-map": CT("m := {1: 2, a0: 3}\nresult m", "showm"),
    "ct-map-set": CT("m := {1: 2, a0: 3}\nm[b0] = 9\nresult m", "showm"),
    "ct-map-set-new": CT("m := {1: 2}\nm[3] = 9\nresult m", "showm"),
    "ct-map-update": CT("m := {1: 2, a0: 3}\nm.update({b0: 4, 9: 9})\n"
                        "result m", "showm"),
    "ct-map-pop": CT("m := {1: 2, 2: 3, a0: 7}\nx := m.pop(b0)\n"
                     "m.update({8: x})\nresult m", "showm"),
    "ct-map-pop-def": CT("m := {1: 2, 2: 3}\nx := m.pop(a0, 77)\n"
                         "m.update({8: x})\nresult m", "showm"),
    "ct-map-setdef": CT("m := {1: 2}\nx := m.set_default(a0, b0)\n"
                        "m.update({8: x})\nresult m", "showm"),
    "ct-map-clear": CT("m := {1: 2}\nk := m.copy()\nm.clear()\n"
                       "k.update({a0: m.size()})\nresult k", "showm"),
    "ct-map-get": CT("m := {1: 2, 2: 5}\nresult {0: m.get(a0, b0)}",
                     "showm"),
    "ct-map-has": CT("m := {1: 2}\nif m.has(a0):\n    m[a0] = b0\n"
                     "result m", "showm"),
    "ct-map-keys": CT("m := {1: 2, a0: 3}\nl := m.keys()\n"
                      "l.extend(m.values())\nresult l"),
    "ct-map-values-set": CT("m := {1: 2, 2: 3}\nl := m.values()\n"
                            "l[0] = a0\nl.append(m[1])\nresult l"),
    "ct-map-bool-int": CT("m := {1: 10, True: 20}\nm[True] = a0\n"
                          "result m", "showm"),
    "ct-map-bool-int2": CT("m := {0: 10}\nm.update({False: b0})\n"
                           "result m.values()"),
    "ct-map-rt": P + SHOWM + "const def f(m) -> map:\n    result m.copy()\n"
                 "showm(f({1: 10, True: 20, K0: 5}))\n",
    "ct-map-str": CT('m := {"a": a0, "b": 2}\nm["b"] += b0\nresult m',
                     "showm"),
    "ct-map-copy": CT("m := {1: 2, 3: 4}\nk := m.copy()\nk[1] = a0\n"
                      "k.update({5: m[1]})\nresult k", "showm"),
    "ct-map-share": CT("m := {1: 2}\nk := m\nk[1] = a0\nresult m", "showm"),
    "ct-map-from-keys": CT("m := map.from_keys({1, a0}, 5)\n"
                           "m[1] = b0\nresult m", "showm"),
    "ct-map-new": CT("m := map({1, a0, 3}, {b0, 5, 6})\nresult m", "showm"),
    "ct-map-new-short": CT("m := map({1, 2, 3}, {b0, 5})\nresult m",
                           "showm"),
    "ct-map-for": CT("m := {1: 2, a0: 3}\nt := 0\nfor k in m:\n"
                     "    t += k * 10 + m[k]\nresult {0: t}", "showm"),
    "ct-map-bad": CT("m := {1: 2}\nresult {0: m[5]}", "showm"),
    "ct-two": P + SHOW + "const def f(n: int) -> list:\n    l := {n}\n"
              "    l.append(n + 1)\n    result l\nconst p = f(K0)\n"
              "const q = f(K1)\nshow(p)\nshow(q)\nshow(p)\n",
    "ct-ref-update": CT("m := {1: 2, 2: 3}\n&e = m[1]\n"
                        "m.update({a0: 7})\ne += b0\n"
                        "m.update({5: e})\nresult m", "showm"),
    "ct-ref-pop": CT("m := {1: 2, 2: 3}\n&e = m[2]\nx := m.pop(2)\n"
                     "e = a0\nm.update({2: b0})\nm.update({5: e})\n"
                     "result m", "showm"),
    "ct-ref-list": CT("l := {1, 2, 3}\n&e = l[a0]\nl.insert(1, 8)\n"
                      "e += 10\nl.reverse()\ne += b0\nresult l"),
    "ct-ref-list-pop": CT("l := {1, 2, 3}\n&e = l[1]\nx := l.pop(a0)\n"
                          "e = 9\nl.append(e)\nl.append(x)\nresult l"),
    "ct-ref-copy": CT("l := {1, 2}\n&e = l[0]\nm := l.copy()\ne = a0\n"
                      "m.extend(l)\ne = b0\nresult m"),
    "ct-ref-nested": CT("l := {{1}, {2}}\n&e = l[0]\ne.append(a0)\n"
                        "l[0] = {b0}\ne.append(5)\nresult l[0]"),
    "ct-set-moved": CT("l := {1, 2, 3}\nl[2] = l.pop(a0)\nresult l"),
    "ct-insert-neg": CT("l := {1, 2}\nl.insert(-1, a0)\nresult l"),
    "ct-typed": P + SHOW + "const def f(l: list, m: map) -> list:\n"
                "    r := l.copy()\n    r.extend(m)\n    result r\n"
                "show(f({1}, {K0: 2}))\n",
    "ct-typed-bad": P + SHOW + "const def f(l: list) -> list:\n"
                    "    result l\nshow(f({1: 2}))\n",
}


def jobs(tier, seed):
    r = rng(seed, "p24")
    out = []
    for n, m in HAND.items():
        req = [] if "geometric" in n else \
            ["-7 <= %s <= 10" % k for k in ("K0", "K1") if k in m]
        out.append(tv(n, m, require=req))
    for i in range(220 if tier == "quick" else 5000):
        m, req = randprog(r)
        out.append(tv("prog%d" % i, m, require=req, max_paths=60))
    return out


def scalar(r, vs):
    return r.choice(["a0", "b0", str(r.randrange(-3, 5)), "a0 + 1",
                     "b0 * 2"] + vs * 2)


def randprog(r):
    """A const function that works on two lists and two maps."""
    b = ["l := {%s}" % ", ".join(scalar(r, []) for _ in range(
        r.choice([1, 2, 3]))),
         "m := {%s}" % ", ".join("%s: %s" % (scalar(r, []), scalar(r, []))
                                 for _ in range(r.choice([1, 2, 3]))),
         "x := a0", "k := l", "p := m"]
    refs = r.random() < .4
    if refs:
        b += ["&e1 = %s" % r.choice(["l[0]", "k[-1]"]),
              "&e2 = %s[%s]" % (r.choice("mp"), b[1][6:].split(":")[0])]
    fresh = [0]

    def idx():
        return r.choice(["0", "-1", "0", "1", "a0", "x"])

    def lst():
        return r.choice(["l", "l", "k", "l.copy()", "m.keys()",
                         "m.values()", "k.slice(%s)" % idx(),
                         "l.slice(%s, None)" % idx(),
                         "l.slice(None, None, -1)", "k.cycle(2)",
                         "{%s, %s}" % (scalar(r, []), scalar(r, []))])

    def mp():
        return r.choice(["m", "p", "m.copy()", "p.copy()",
                         "{%s: %s}" % (scalar(r, []), scalar(r, []))])

    def stmt(ind, d):
        t = r.choice(["l", "k"])
        u = r.choice(["m", "p"])
        v = scalar(r, ["x", "e1", "e2"] if refs else ["x"])
        kk = scalar(r, ["x"])
        if refs and r.random() < .2:
            return [ind + "%s %s= %s" % (r.choice(["e1", "e2"]),
                                         r.choice(["", "", "+"]), v)]
        c = r.randrange(19 if d else 16)
        s = [
            "%s.append(%s)" % (t, v), "%s.extend(%s)" % (t, lst()),
            "%s.insert(%s, %s)" % (t, idx(), v), "%s.reverse()" % t,
            "x = %s.pop(%s)" % (t, idx()), "%s[%s] = %s" % (t, idx(), v),
            "%s[%s] += %s" % (t, idx(), v), "x = %s[%s]" % (t, idx()),
            "%s = %s" % (t, lst()), "%s.update({%s: %s})" % (u, kk, v),
            "x = %s.pop(%s, %s)" % (u, kk, v),
            "x = %s.set_default(%s, %s)" % (u, kk, v),
            "x = %s.get(%s, %s)" % (u, kk, v), "%s = %s" % (u, mp()),
            "%s.update(%s)" % (u, mp()),
            "x = %s.size() + %s.size()" % (t, u)]
        if c < 16:
            return [ind + s[c]]
        fresh[0] += 1
        if c == 16:
            return [ind + "if %s.has(%s):" % (u, kk)] + \
                stmt(ind + "    ", 0)
        if c == 17:
            return [ind + "for e%d in %s:" % (fresh[0], r.choice(
                ["{0, 1}", "m.copy()", "l.copy()"]))] + [
                    ind + "    x = x + e%d" % fresh[0]] + \
                stmt(ind + "    ", 0)
        return [ind + "if x > %s:" % v] + stmt(ind + "    ", 0) + \
            [ind + "else:"] + stmt(ind + "    ", 0)
    for _ in range(r.choice([2, 4, 6])):
        b += stmt("", 1)
    b.append("k.append(x)" if r.random() < .3 else "pass")
    b.append("result {\"l\": l, \"k\": k, \"m\": m, \"p\": p, \"x\": x%s}" %
             (", \"e\": e1 * 100 + e2" if refs else ""))
    m = P + SHOW + SHOWM + "const def f(a0: int, b0: int) -> map:\n" + "".join(
        "    %s\n" % x for x in b)
    m += "const t = f(K0, %s)\n" % r.choice(["K1", "2", "K0"])
    m += "show(t[\"l\"])\nshow(t[\"k\"])\nshowm(t[\"m\"])\n" \
        "showm(t[\"p\"])\nr = t[\"x\"]\n"
    if refs:
        m += "s = t[\"e\"]\n"
    return m, ["-4 <= %s <= 4" % k for k in ("K0", "K1") if k in m]
