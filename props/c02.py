"""C02 forwarding walks the handler stack exactly once per step"""
from core import *


def make_world(X):
    """three operations with uninterpreted default rules"""
    dA, dB, dZ = X.func("dA", 1), X.func("dB", 2), X.func("dZ", 0)

    def defA(env, x):
        return dA(x)

    def defB(env, x, k=0):
        return dB(x, k)

    def defZ(env):
        return dZ()

    ops = {}
    env = RealEnv(ops)

    @defop
    def A(x: int) -> int:
        return defA(env, x)

    @defop
    def B(x: int, *, k: int = 0) -> int:
        return defB(env, x, k)

    @defop
    def Z() -> int:
        return defZ(env)
    ops.update(A=A, B=B, Z=Z, apply=apply)
    return ops, env, Ref(dict(A=defA, B=defB, Z=defZ))


KINDS_A = ["absorb", "fwd0", "fwd1", "fwd2x", "cond", "call_then_fwd", "under_fwd", "star", "fwd_then_call"]


def body_for(X, who, kind, u, v, p):
    """handler bodies over the effects (fwd, other operations, nested installation), meanings uninterpreted"""
    if who == "A":
        if kind == "absorb":
            return lambda env, x: u(x, 0)
        if kind == "fwd0":
            return lambda env, x: u(x, env.fwd())
        if kind == "fwd1":
            return lambda env, x: u(x, env.fwd(v(x)))
        if kind == "fwd2x":
            return lambda env, x: u(env.fwd(v(x)), env.fwd())
        if kind == "cond":
            return lambda env, x: env.fwd() if p(x) else u(x, 1)
        if kind == "call_then_fwd":
            return lambda env, x: u(env.call("B", v(x), k=x), env.fwd())
        if kind == "fwd_then_call":
            return lambda env, x: u(env.fwd(v(x)), env.call("B", x))
        if kind == "under_fwd":
            return lambda env, x: env.under({"B": lambda e, y, k=0: u(v(y), e.fwd())}, lambda e: u(e.fwd(), e.call("B", x)))
        if kind == "star":
            return lambda env, *a: u(env.fwd(*a), env.fwd(*(v(t) for t in a)))
    if who == "B":
        if kind == "absorb":
            return lambda env, x, k=0: u(x, k)
        if kind == "fwd0":
            return lambda env, x, k=0: u(k, env.fwd())
        if kind == "fwdk":
            return lambda env, x, *, k=0: u(x, env.fwd(v(x), k=v(k)))
        if kind == "callZ":
            return lambda env, x, k=0: u(env.call("Z"), env.fwd())
    if who == "Z":
        if kind == "absorb":
            return lambda env: u(0, 0)
        if kind == "fwd0":
            return lambda env: u(7, env.fwd())
    raise AssertionError(kind)


def frame_for(X, i, kA, kB, kZ):
    fr = {}
    for who, kind in (("A", kA), ("B", kB), ("Z", kZ)):
        if kind is None:
            continue
        u, v, p = X.func(f"u{who}{i}", 2), X.func(f"v{who}{i}", 1), X.func(f"p{who}{i}", 1, "bool")
        fr[who] = body_for(X, who, kind, u, v, p)
    return fr


def install(env, frames, k):
    if not frames:
        return k()
    with handler(env.intp(frames[0])):
        return install(env, frames[1:], k)


def chain(depth, kindsA=KINDS_A, kindsB=("absorb", "fwd0", "fwdk", None), kindsZ=(None,)):
    def h(X):
        ops, env, ref = make_world(X)
        frames = []
        for i in range(depth):
            kA = X.pick(f"kA{i}", list(kindsA) + [None])
            kB = X.pick(f"kB{i}", kindsB)
            kZ = X.pick(f"kZ{i}", kindsZ)
            frames.append(frame_for(X, i, kA, kB, kZ))
        x = X.int("x")
        want = ref.call(frames, "A", (x,), {})
        got = install(env, frames, lambda: ops["A"](x))
        X.check_eq(got, want, "A(x) under the stack")
        k = X.int("k")
        want = ref.call(frames, "B", (x,), {"k": k})
        got = install(env, frames, lambda: ops["B"](x, k=k))
        X.check_eq(got, want, "B(x, k=k) under the stack")
        X.check_eq(install(env, frames, lambda: ops["Z"]()), ref.call(frames, "Z", (), {}), "Z()")
        X.reach("end")
    return h


def replaced(X):
    """evaluate(term, intp=...) replaces the interpretation: the handlers given there may also forward, with and
    without arguments, and then reach the default rule (never an outer handler)"""
    ops, env, ref = make_world(X)
    outer = frame_for(X, "o", X.pick("kAo", ["fwd0", "absorb", None]), X.pick("kBo", ["absorb", None]), None)
    inner = frame_for(X, "i", X.pick("kAi", ["absorb", "fwd0", "fwd1", "fwd2x", "cond", "call_then_fwd"]),
                      X.pick("kBi", ["absorb", "fwd0", "fwdk", None]), None)
    x = X.int("x")
    want = ref.call([inner], "A", (x,), {})
    with handler({apply: defdata}):
        t = ops["A"](x)
    got = install(env, [outer], lambda: evaluate(t, intp=env.intp(inner)))
    X.check_eq(got, want, "evaluate(A(x), intp=inner)")
    # and from inside a handler of another operation
    with handler({apply: defdata}):
        t2 = ops["B"](x, k=3)
    want2 = ref.call([inner], "B", (x,), {"k": 3})
    z = X.int("z")
    got2 = install(env, [{"A": lambda e, y: evaluate(t2, intp=env.intp(inner))}], lambda: ops["A"](z))
    X.check_eq(got2, want2, "evaluate(B(x), intp=inner) inside a handler of A")
    X.reach("end")


def applied(X):
    """a handler of the generic application operation sees exactly the operations no handler claims, in stack order"""
    ops, env, ref0 = make_world(X)
    ref = Ref(ref0.defaults, "apply")
    names = {id(o): n for n, o in ops.items()}
    codes = dict(A=1, B=2, Z=3)

    def code(op):
        return codes[op if isinstance(op, str) else names[id(op)]]
    frames = []
    for i in range(3):
        kind = X.pick(f"k{i}", ["opA", "opA_call", "apply_absorb", "apply_fwd", "apply_fwd2", None])
        u, v = X.func(f"u{i}", 2), X.func(f"v{i}", 1)
        if kind is None:
            fr = {}
        elif kind == "opA":
            fr = {"A": lambda e, x, u=u, v=v: u(v(x), e.fwd())}
        elif kind == "opA_call":
            fr = {"A": lambda e, x, u=u, v=v: u(e.call("B", v(x)), e.call("Z"))}
        elif kind == "apply_absorb":
            fr = {"apply": lambda e, op, *a, _u=u, **k: _u(code(op), a[0] if a else 0)}
        elif kind == "apply_fwd":
            fr = {"apply": lambda e, op, *a, _u=u, **k: _u(code(op), e.fwd())}
        else:
            fr = {"apply": lambda e, op, *a, _u=u, _v=v, **k: _u(code(op), e.fwd(op, *[_v(t) for t in a], **k))}
        frames.append(fr)
    x = X.int("x")
    for nm, args in (("A", (x,)), ("B", (x,)), ("Z", ())):
        X.check_eq(install(env, frames, lambda: ops[nm](*args)), ref.call(frames, nm, args, {}), f"{nm} with apply handlers")
    X.reach("end")


def outside(X):
    """forwarding outside any handler is an error, also after handlers were entered and left"""
    ops, env, ref = make_world(X)
    x = X.int("x")
    when = X.choose("when", 3)
    try:
        if when >= 1:
            install(env, [frame_for(X, 0, "fwd0", None, None)], lambda: ops["A"](x))
        if when == 2:
            install(env, [frame_for(X, 1, "absorb", None, None)], lambda: fwd(x))
        else:
            fwd(x)
    except RuntimeError:
        X.check(True)
    else:
        X.fail("fwd outside a handler returned")
    X.reach("end")


def signatures(X):
    """forwarding carries exactly the given arguments, in whatever way the operation takes them; a first argument may be an operation"""
    d = X.func("dflt", 3)
    u, v = X.func("u", 2), X.func("v", 1)

    def enc(o):
        return 0 if isinstance(o, (str, Operation)) else o
    sig = X.pick("sig", ["kwonly", "posonly", "mixed", "varargs", "varkw", "oparg", "default", "optkw"])
    if sig == "kwonly":
        @defop
        def f(*, x: int, y: int) -> int:
            return d(x, y, 0)
        calls = [((), dict(x="X", y="Y"))]
        rew = [((), dict(x="vX", y="Y")), ((), dict(y="Y", x="Y"))]
    elif sig == "posonly":
        @defop
        def f(x: int, y: int, /) -> int:
            return d(x, y, 0)
        calls = [(("X", "Y"), {})]
        rew = [(("vX", "Y"), {}), (("Y", "X"), {})]
    elif sig == "mixed":
        @defop
        def f(x: int, *, y: int) -> int:
            return d(x, y, 0)
        calls = [(("X",), dict(y="Y")), ((), dict(x="X", y="Y"))]
        rew = [(("vX",), dict(y="X")), ((), dict(x="Y", y="vX"))]
    elif sig == "varargs":
        @defop
        def f(*a: int) -> int:
            return d(len(a), a[0] if a else 5, a[-1] if a else 6)
        calls = [(("X", "Y"), {}), (("X",), {}), ((), {})]
        rew = [(("vX",), {}), (("Y", "X", "Y"), {})]
    elif sig == "varkw":
        @defop
        def f(**k: int) -> int:
            return d(len(k), k.get("a", 7), k.get("b", 8))
        calls = [((), dict(a="X", b="Y")), ((), dict(b="Y")), ((), {})]
        rew = [((), dict(a="vX")), ((), dict(b="X", a="Y"))]
    elif sig == "oparg":
        @defop
        def f(o: Operation, x: int) -> int:
            return d(0 if o is other else 1, x, 0)
        calls = [(("OP", "X"), {}), (("OP2", "Y"), {})]
        rew = [(("OP2", "vX"), {}), (("OP",), dict(x="Y"))]
    elif sig == "default":
        @defop
        def f(x: int = 3, y: int = 4) -> int:
            return d(x, y, 0)
        calls = [((), {}), (("X",), {}), ((), dict(y="Y"))]
        rew = [(("vX",), {}), ((), dict(y="vX"))]
    else:
        @defop
        def f(x: int, y: int = 4, *r: int, z: int = 5, **k: int) -> int:
            return d(x, y, u(z, len(r) + 10 * len(k)))
        calls = [(("X",), {}), (("X", "Y", "X"), dict(w="Y")), (("X",), dict(z="Y"))]
        rew = [(("vX", "Y"), {}), (("X",), dict(z="vX"))]
    other, other2 = defop(int, name="other"), defop(int, name="other2")
    x, y = X.int("x"), X.int("y")
    val = {"X": x, "Y": y, "vX": v(x), "OP": other, "OP2": other2}

    def conc(c):
        return tuple(val[t] for t in c[0]), {k: val[t] for k, t in c[1].items()}
    mid = X.pick("mid", ["absent", "fwd0", "rew0", "rew1", "apply"])
    top = X.pick("top", ["fwd0", "rew0", "rew1", "spell", "apply"])
    log = []

    def mk(kind, tag):
        if kind == "fwd0":
            return {f: lambda *a, **k: (log.append((tag, a, k)), fwd())[1]}
        if kind == "spell":
            return {f: lambda *a, **k: (log.append((tag, a, k)), fwd(*a, **k))[1]}
        if kind == "apply":
            return {apply: lambda op, *a, **k: (log.append((tag, (op,) + a, k)), fwd(op, *a, **k))[1] if op is f else fwd()}
        r = conc(rew[int(kind[3])])
        return {f: lambda *a, **k: (log.append((tag, a, k)), fwd(*r[0], **r[1]))[1]}
    c = conc(X.pick("call", calls))
    stack = ([] if mid == "absent" else [mk(mid, "m")]) + [mk(top, "t")]
    specific = [k for k in (mid, top) if k not in ("absent", "apply")]
    cur, want = c, []
    if specific:   # handlers of f take precedence over the handler of application
        order = [("t", top)] + ([("m", mid)] if mid != "absent" else [])
        order = [(t, k) for t, k in order if k != "apply"]
    else:
        order = [("t", top)] + ([("m", mid)] if mid != "absent" else [])
    for tag, k in order:
        want.append((tag, ((f,) if k == "apply" else ()) + cur[0], cur[1]))
        if k.startswith("rew"):
            cur = conc(rew[int(k[3])])
    got = install(None, [], lambda: under_all(stack, lambda: f(*c[0], **c[1])))
    n0 = len(log)
    ref = f.__default__(*cur[0], **cur[1])
    X.check_eq(got, ref, f"{sig}: the default sees the forwarded arguments")
    X.check(n0 == len(want), f"{sig}: handlers entered {n0} times instead of {len(want)}")
    for (t1, a1, k1), (t2, a2, k2) in zip(log, want):
        X.check(t1 == t2 and len(a1) == len(a2) and list(k1) == list(k2), f"{sig}: arguments seen by {t1}: {a1} {k1} instead of {a2} {k2}")
        for p, q in list(zip(a1, a2)) + [(k1[n], k2[n]) for n in k1]:
            if isinstance(q, Operation):
                X.check(p is q, f"{sig}: operation argument changed")
            else:
                X.check_eq(p, q, f"{sig}: argument seen by {t1}")
    X.reach("end")


def under_all(ints, k):
    if not ints:
        return k()
    with handler(ints[0]):
        return under_all(ints[1:], k)


def forms(X):
    """a handler may be any callable: function, bound method, partial, class with __call__, another operation, builtin"""
    import functools
    d, u = X.func("d", 1), X.func("u", 2)

    @defop
    def f(x: int) -> int:
        return d(x)

    @defop
    def g(x: int) -> int:
        return u(x, 50)

    class Obj:
        def meth(self, x):
            return u(x, fwd())

        @classmethod
        def cmeth(cls, x):
            return u(x, fwd())

        @staticmethod
        def smeth(x):
            return u(x, fwd())

        def __call__(self, x):
            return u(x, fwd())

    def two(a, x):
        return u(x, fwd())

    def kw(x, *, extra=3):
        return u(x, fwd())

    def named(x):
        return u(x, fwd(x=x))
    table = {"method": Obj().meth, "classmethod": Obj.cmeth, "staticmethod": Obj.smeth, "object": Obj(), "partial": functools.partial(two, 1),
             "kwdefault": kw, "lambda": lambda x: u(x, fwd()), "star": lambda *a: u(a[0], fwd()), "wrapped": functools.wraps(kw)(lambda *a, **k: u(a[0], fwd())),
             "named": named}
    lo = X.pick("lo", ["none", "lambda", "op"])
    hi = X.pick("hi", sorted(table) + ["op"])
    x = X.int("x")
    stack = []
    want = d(x)
    if lo == "lambda":
        stack.append({f: lambda x: u(fwd(), x)})
        want = u(want, x)
    elif lo == "op":
        stack.append({f: g})
        want = u(x, 50)
    if hi == "op":
        stack.append({f: g})
        want = u(x, 50)
    else:
        stack.append({f: table[hi]})
        want = u(x, want)
    how = X.pick("how", ["nest", "coproduct", "evaluate"])
    if how == "nest":
        got = under_all(stack, lambda: f(x))
    else:
        import functools as ft
        c = ft.reduce(coproduct, stack)
        if how == "coproduct":
            got = under_all([c], lambda: f(x))
        else:
            with handler({apply: defdata}):
                t = f(x)
            if hi == "op" and lo == "none":
                X.reach("end")
                return
            got = evaluate(t, intp=c)
    X.check_eq(got, want, f"handler given as {hi} over {lo}, {how}")
    X.reach("end")


def harnesses(tier):
    nA = len(KINDS_A) + 1
    hs = [
        H("stack2_full", chain(2), "2 stacked handlers, each over {A(x), B(x,k=)} drawn from 9 handler shapes for A and 3 for B "
          "(or absent); values, handler results, argument rewrites and branch predicates uninterpreted", split("kA0", nA), ("end",)),
        H("stack3", chain(3, ["absorb", "fwd0", "fwd1", "cond", "call_then_fwd"], ("fwd0", None)),
          "3 stacked handlers over 5 shapes for A, 2 for B", split("kA0", 6), ("end",)),
        H("stack2_nullary", chain(2, ["fwd0", "call_then_fwd"], ("callZ", "fwdk"), ("absorb", "fwd0", None)),
          "2 stacked handlers, nullary operation called from inside handlers", split("kA0", 3), ("end",)),
        H("replaced", replaced, "evaluate(.., intp=..) with forwarding handlers, outside/inside other handlers", split("kAo", 3), ("end",)),
        H("apply", applied, "3 stacked frames mixing handlers of A and of the generic application operation", split("k0", 6), ("end",)),
        H("signatures", signatures, "8 parameter patterns (keyword-only, positional-only, variadic, defaults, an operation as first argument) x 2 stacked handlers "
          "x ways of forwarding; all values", split("sig", 8), ("end",)),
        H("forms", forms, "11 forms of handler callables over 3 outer handlers, nested/composed/evaluate", split("hi", 11), ("end",)),
        H("outside", outside, "fwd with no enclosing handler", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("stack3_full", chain(3, KINDS_A, ("fwd0", "fwdk", None)), "3 stacked handlers, all 9 shapes for A, 2 for B",
                    split("kA0", nA, ("kA1", nA)), ("end",)))
        hs.append(H("stack4", chain(4, ["fwd0", "fwd1", "cond", "call_then_fwd"], ("fwd0", None)), "4 stacked handlers, 4 shapes",
                    split("kA0", 5, ("kA1", 5)), ("end",)))
    return hs
