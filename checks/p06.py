"""P06: structs."""
from .common import *
from .progen import PG

BOUNDS = ("all literals and initial scores symbolic over int32; seeded "
          "program shapes with 1-3 struct types (up to 3 own fields, nested "
          "and inherited) plus hand templates")
OUTSIDE = ("fields left out of a constructor call that re-assigns an "
           "existing struct")
ASSUMPTIONS = ass_arith(["a struct variable's fields are only read after "
                         "they were assigned"])

S = "struct P:\n    x: int\n    y: int\n"
N = S + "struct Q:\n    p: P\n    z: bool\n"
H = S + "struct R extends P:\n    z: int\n"
D = ("struct A:\n    x: int\nstruct B:\n    y: int\n"
     "struct C extends A, B:\n    z: int\n")
V = ("struct A:\n    x: int\nstruct B extends A:\n    y: int\n"
     "struct C extends B:\n    z: int\nstruct D extends C:\n    w: int\n"
     "struct E extends D:\n    v: bool\n"
     "def f(p: A) -> int:\n    result p.x\n"
     "def g(p: B) -> int:\n    result p.x - p.y\n")
VM = V + "t := E(x=a, y=b, z=c, w=K0, v=a > b)\n"
HAND = {
    "odd-names": "struct P:\n    compiler: int\n    implementation: int\n"
                 "    all_args: int\n    name: bool\n"
                 "p := P(K0, all_args=a, implementation=b)\np.name = a > b\n"
                 "q := P(name=False, all_args=K1, compiler=b, "
                 "implementation=1)\n"
                 "r = p.compiler + p.all_args + q.implementation\n"
                 "s = q.all_args + int(p.name) + int(q.name)",
    "deep-decl": VM + "p: A = t\nq: B = t\nr = p.x\ns = q.y",
    "deep-assign": VM + "p := A(x=K1)\np = t\nq := B(x=1, y=2)\nq = t\n"
                   "r = p.x\ns = q.x - q.y",
    "deep-assign2": V + "t := D(x=a, y=b, z=c, w=K0)\np := A(x=K1)\np = t\n"
                    "q := C(x=1, y=2, z=3)\nq = t\nr = p.x\n"
                    "s = q.z - q.y",
    "deep-arg": VM + "r = f(t)\ns = g(t)\nu := C(x=b, y=c, z=a)\nr += f(u)",
    "deep-result": VM + "def h() -> A:\n    result t\n"
                   "def k() -> C:\n    result t\nr = h().x\ns = k().z",
    "deep-field": VM + "struct W:\n    p: A\n    q: C\n"
                  "w := W(p=t, q=t)\nt.x = 0\nr = w.p.x\ns = w.q.z",
    "deep-inline": VM + "inline def h(p: A, &q: B) -> int:\n"
                   "    p.x += 1\n    q.y += 2\n    result p.x\n"
                   "u := B(x=a, y=b)\nr = h(t, u)\ns = t.x + u.y",
    "deep-wide": V + "struct Z:\n    m: int\nstruct Y extends E, Z:\n"
                 "    n: int\n"
                 "t := Y(x=a, y=b, z=c, w=K0, v=a > b, m=K1, n=3)\n"
                 "p: A = t\nq: Z = t\nr = p.x\ns = q.m",
    "deep-upcast": VM + "r = upcast(t, A).x\n&p = upcast(t, B)\np.y = 9\n"
                   "s = t.y",
    "bad-deep-down": V + "p := A(x=a)\nt: D = p",
    "bad-deep-cousin": V + "struct Z extends A:\n    m: int\n"
                       "p := Z(x=a, m=b)\nt: B = p",
    "basic": S + "p := P(x=a, y=b)\nr = p.x - p.y\np.x = K0\ns = p.x",
    "positional": S + "p := P(y=b, x=a)\nr = p.x - p.y",
    "copy": S + "p := P(x=a, y=b)\nq := p\nq.x = K0\nr = p.x\ns = q.x + q.y",
    "assign": S + "p := P(x=a, y=b)\nq := P(x=c, y=K0)\nq = p\np.x = 3\n"
              "r = q.x\ns = q.y",
    "typed-decl": S + "p: P\np.x = a\np.y = b\nq: P = p\nr = q.x - q.y",
    "self-assign": S + "p := P(x=a, y=b)\np = p\nr = p.x\ns = p.y",
    "reinit": S + "p := P(x=a, y=b)\np = P(x=p.y, y=p.x)\nr = p.x\ns = p.y",
    "reinit-expr": S + "p := P(x=a, y=b)\np = P(x=p.x + p.y, y=p.x - p.y)\n"
                   "r = p.x\ns = p.y",
    "swap": S + "p := P(x=a, y=b)\nq := P(x=c, y=K0)\nswap(p, q)\n"
            "r = p.x - q.y\ns = q.x - p.y",
    "swap-fields": S + "p := P(x=a, y=b)\nswap(p.x, p.y)\nr = p.x\ns = p.y",
    "aug-fields": S + "p := P(x=a, y=b)\np.x += p.y\np.y *= p.x\np.x -= K0\n"
                  "r = p.x\ns = p.y",
    "func-arg": S + "def f(p: P) -> int:\n    p.x += 1\n"
                "    result p.x * p.y\np := P(x=a, y=b)\nr = f(p)\ns = p.x",
    "func-arg-ctor": S + "def f(p: P) -> int:\n    result p.x - p.y\n"
                     "r = f(P(x=a, y=b))\ns = f(P(x=K0, y=a)) - f(P(x=b, "
                     "y=K1))",
    "func-result": S + "def f(x: int) -> P:\n    result P(x=x, y=x + 1)\n"
                   "p := f(a)\nq := f(b)\nr = p.x - p.y\ns = q.x + q.y",
    "func-result-var": S + "def f(x: int) -> P:\n    t := P(x=x, y=K0)\n"
                       "    t.y += x\n    result t\nr = f(a).y\n"
                       "s = f(b).x - f(c).y",
    "nested": N + "q := Q(p=P(x=a, y=b), z=a > b)\nr = q.p.x - q.p.y\n"
              "s = int(q.z)",
    "nested-copy": N + "q := Q(p=P(x=a, y=b), z=a > b)\np := q.p\np.x = K0\n"
                   "r = q.p.x\nq.p = p\ns = q.p.x",
    "nested-assign": N + "q := Q(p=P(x=a, y=b), z=a > b)\nt := q\n"
                     "t.p.x = K0\nt.z = not t.z\nr = q.p.x\n"
                     "s = int(q.z) + 2 * int(t.z)",
    "nested-reinit": N + "q := Q(p=P(x=a, y=b), z=a > b)\n"
                     "q = Q(p=P(x=q.p.y, y=q.p.x), z=not q.z)\n"
                     "r = q.p.x - q.p.y\ns = int(q.z)",
    "inherit": H + "t := R(x=a, y=b, z=c)\nr = t.x - t.y\ns = t.z",
    "inherit-upcast": H + "t := R(x=a, y=b, z=c)\np: P = t\np.x = K0\n"
                      "r = t.x\ns = p.x - p.y",
    "inherit-arg": H + "def f(p: P) -> int:\n    result p.x * p.y\n"
                   "t := R(x=a, y=b, z=c)\nr = f(t)\ns = f(P(x=b, y=c))",
    "inherit-assign": H + "t := R(x=a, y=b, z=c)\np := P(x=K0, y=K1)\n"
                      "p = t\nr = p.x\ns = p.y",
    "inherit-multi": D + "t := C(x=a, y=b, z=c)\nu: A = t\nv: B = t\n"
                     "r = u.x - v.y\ns = t.z\nv.y = K0\na = t.y",
    "inherit-deep": H + "struct T extends R:\n    w: int\n"
                    "t := T(x=a, y=b, z=c, w=K0)\np: P = t\nq: R = t\n"
                    "r = p.x - q.z\ns = t.w + q.y",
    "bad-upcast": H + "p := P(x=a, y=b)\nt: R = p",
    "bad-unrelated": S + "struct Z:\n    x: int\n    y: int\n"
                     "p := P(x=a, y=b)\nz: Z = p",
    "bad-field": S + "p := P(x=a, y=b)\nr = p.z",
    "bad-field-type": S + "p := P(x=a > b, y=b)",
    "bad-dup-field": "struct A:\n    x: int\nstruct B extends A:\n    x: int\n",
    "bad-dup-base": "struct A:\n    x: int\nstruct B:\n    x: bool\n"
                    "struct C extends A, B:\n    y: int\n",
    "bad-extra-arg": S + "p := P(x=a, y=b, z=c)",
    "bad-struct-op": S + "p := P(x=a, y=b)\nr = p + 1",
    "if-assign": S + "p := P(x=a, y=b)\nq := P(x=c, y=K0)\nif a > b:\n"
                 "    p = q\nelse:\n    q = p\nr = p.x\ns = q.y",
    "while-assign": S + "p := P(x=0, y=1)\nwhile p.x < 2:\n"
                    "    p = P(x=p.x + 1, y=p.y * a)\nr = p.y",
    "field-ref": S + "p := P(x=a, y=b)\n&x = p.x\nx = K0\nr = p.x",
    "struct-ref": S + "p := P(x=a, y=b)\n&q = p\nq.x = K0\nr = p.x\n"
                  "q = P(x=p.y, y=p.x)\ns = p.y",
    "inline-ref": S + "inline def f(&p: P, q: P):\n    p.x = q.y\n"
                  "    q.x = 0\n    p.y = q.x\nu := P(x=a, y=b)\nf(u, u)\n"
                  "r = u.x\ns = u.y",
    "cond-field": S + "struct B:\n    f: bool\nt := B(f=a > b)\nif t.f:\n"
                  "    t.f = False\n    r = 1\nelse:\n    t.f = True\n"
                  "    r = 2\ns = int(t.f)",
    "two-temps": S + "def f(p: P, q: P) -> int:\n"
                 "    result p.x * q.y - p.y * q.x\n"
                 "r = f(P(x=a, y=b), P(x=c, y=K0))\n"
                 "s = f(P(x=f(P(x=a, y=b), P(x=b, y=a)), y=b), P(x=c, y=a))",
    "ctor-eval": S + "def f(x: int) -> int:\n    result x * 2\n"
                 "p := P(x=f(a), y=f(b))\nr = p.x - p.y\n"
                 "p = P(x=f(p.y), y=f(p.x))\ns = p.x - p.y",
    "struct-in-struct-in": N + "struct W:\n    q: Q\n    n: int\n"
                           "w := W(q=Q(p=P(x=a, y=b), z=b > c), n=K0)\n"
                           "v := w\nv.q.p.y += v.n\nr = w.q.p.y\n"
                           "s = v.q.p.y - int(v.q.z)",
    "result-none-field": S + "def f(p: P):\n    p.x = 1\np := P(x=a, y=b)\n"
                         "f(p)\nr = p.x",
    "global-struct": S + "p := P(x=a, y=b)\ndef f():\n    p.x += p.y\n"
                     "f()\nf()\nr = p.x",
    "swap-three": "struct X:\n    x: int\n    y: int\n    z: bool\n"
                  "p := X(x=a, y=b, z=a > K0)\nq := X(x=c, y=K1, z=b > c)\n"
                  "swap(p, q)\nr = p.x - p.y * 2 + int(p.z)\n"
                  "s = q.x - q.y * 2 + int(q.z)",
    "swap-derived": "struct X:\n    x: int\n    y: int\n"
                    "struct Y extends X:\n    z: int\n"
                    "p := Y(x=a, y=b, z=c)\nq := Y(x=b, y=c, z=K0)\n"
                    "swap(p, q)\nr = p.x - p.y * 3 + p.z\n"
                    "s = q.x - q.y * 3 + q.z",
    "swap-nested": N + "struct W:\n    n: int\n    q: Q\n"
                   "p := W(q=Q(p=P(x=a, y=b), z=b > c), n=K0)\n"
                   "o := W(q=Q(p=P(x=c, y=a), z=a > c), n=b)\n"
                   "swap(p, o)\nr = p.n + p.q.p.x - p.q.p.y + int(p.q.z)\n"
                   "s = o.n + o.q.p.x - o.q.p.y + int(o.q.z)",
    "swap-inner": N + "p := Q(p=P(x=a, y=b), z=b > c)\no := P(x=c, y=K0)\n"
                  "swap(p.p, o)\nr = p.p.x - p.p.y\ns = o.x - o.y",
    "swap-self-struct": S + "p := P(x=a, y=b)\nswap(p, p)\nr = p.x\ns = p.y",
    "empty-struct": "struct E:\n    pass\ne := E()\ng: E = e\ng = e\nr = a",
    "empty-base": "struct E:\n    pass\nstruct F extends E:\n    x: int\n"
                  "f := F(x=a)\ne: E = f\nr = f.x",
}


def jobs(tier, seed):
    r = rng(seed, "p06")
    out = []
    for n, b in HAND.items():
        out.append(tv("hand-" + n, b))
        if not n.startswith("bad"):
            out.append(tv("hand-noopt-" + n, b, cfg={"optimizer": False}))
    n = 110 if tier == "quick" else 1500
    for i in range(n):
        pre, body = PG(r, size=r.choice([5, 6, 7]), depth=2, maxk=2, div=.02,
                       mul=.04, loops=i % 4 == 0, structs=r.choice([1, 2, 3]),
                       funcs=r.choice([0, 0, 1, 2])).program()
        out.append(tv("prog%d" % i, body, pre=pre + PRE,
                      cfg={"optimizer": i % 4 != 3}, max_paths=60))
    return out
