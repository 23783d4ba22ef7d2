"""C15 tracing a function into a term preserves its meaning"""
from collections.abc import Callable
from core import *


class World:
    def __init__(self, X):
        self.X = X
        self.f = defop(int, name="free")
        self.fv = X.int("free")

        @defop
        def u(a: int, b: int) -> int:
            raise NotHandled
        self.u = u
        self.U = X.func("U", 2)

    def gen(self, d, params):
        """an expression over the parameters in scope; returns fn(env, free, u, traced) computing it"""
        X = self.X
        k = X.pick("n", (["p", "free", "add", "u", "tr", "tr2"] if d else ["p"]))
        if k == "p":
            n = X.pick("p", params)
            return f"{n}", lambda env, m: env[n]
        if k == "free":
            return "free", lambda env, m: m.free()
        if k in ("add", "u"):
            s1, a = self.gen(d - 1, params)
            s2, b = self.gen(0, params)
            if k == "add":
                return f"({s1}+{s2})", lambda env, m: a(env, m) + b(env, m)
            return f"u({s1},{s2})", lambda env, m: m.u(a(env, m), b(env, m))
        # an inner traced function applied to an argument; its parameter may shadow an outer one
        n = X.pick("bind", ["x", "w"])
        s1, body = self.gen(d - 1, params + ([n] if n not in params else []))
        s2, arg = self.gen(0, params)
        if k == "tr":
            return f"(\\{n}.{s1})({s2})", lambda env, m: m.fun(lambda v: body({**env, n: v}, m))(arg(env, m))
        return f"(\\{n}.(\\{n}.{s1})({n}))({s2})", lambda env, m: m.fun(lambda v: m.fun(lambda v2: body({**env, n: v2}, m))(v))(arg(env, m))


class Plain:
    def __init__(self, w):
        self.u, self.free = w.U, lambda: w.fv

    def fun(self, f):
        return f


class Terms:
    def __init__(self, w):
        self.u, self.free = w.u, w.f

    def fun(self, f):
        def g(v: int) -> int:
            return f(v)
        return trace(g)


def programs(depth):
    def h(X):
        w = World(X)
        arity = X.choose("arity", 2) + 1
        names = ["x", "y"][:arity]
        s, e = w.gen(depth, names)
        X.note(s)
        a, b = X.int("a"), X.int("b")
        intp = {w.f: lambda: w.fv, w.u: lambda p, q: w.U(p, q) if not fvsof((p, q)) else fwd()}
        want = e(dict(zip(names, (a, b))), Plain(w))
        m = Terms(w)
        if arity == 1:
            def fn(x: int) -> int:
                return e({"x": x}, m)
            args = (a,)
        else:
            def fn(x: int, y: int) -> int:
                return e({"x": x, "y": y}, m)
            args = (a, b)
        t = trace(fn)
        X.check(isterm(t, deffn), "tracing gives a function term")
        X.check_eq(evaluate(t(*args), intp=intp), want, f"trace({s}) applied to values")
        X.check_eq(evaluate(fn(*args), intp=intp), want, f"{s} applied directly")
        # open arguments, with names that occur in the function
        x, y = defop(int, name="x"), defop(int, name="y")
        xs = (x(), y())[:arity]
        X.check_eq(evaluate(t(*xs), intp={**intp, x: lambda: a, y: lambda: b}), want, f"trace({s}) applied to open arguments")
        X.check_eq(evaluate(evaluate(t, intp={w.f: lambda: w.fv})(*args), intp=intp), want, f"free operations of trace({s}) handled first")
        # tracing happens outside the handlers in force
        with handler({w.f: lambda: 12345, w.u: lambda p, q: 77}):
            t2 = trace(fn)
        X.check_eq(evaluate(t2(*args), intp=intp), want, f"trace({s}) under handlers is still syntax")
        X.reach("end")
    return h


def signatures(X):
    """parameter kinds: positional-only, positional, keyword-only; call by position, keyword, permuted"""
    a, b, c = X.int("a"), X.int("b"), X.int("c")
    U = X.func("U", 3)

    @defop
    def u(p: int, q: int, r: int) -> int:
        raise NotHandled
    intp = {u: lambda p, q, r: U(p, q, r)}

    def f1(x: int, y: int, z: int) -> int:
        return u(x, y, z)

    def f2(x: int, *, y: int, z: int) -> int:
        return u(x, y, z)

    def f3(x: int, /, y: int, *, z: int) -> int:
        return u(z, y, x)

    def f4(*, z: int, y: int, x: int) -> list:
        return [u(x, y, z), {"k": (x, z)}]
    case = X.choose("case", 6)
    if case == 0:
        got, want = trace(f1)(a, b, c), f1
        X.check_eq(evaluate(got, intp=intp), U(a, b, c), "three positional parameters")
    elif case == 1:
        X.check_eq(evaluate(trace(f2)(a, y=b, z=c), intp=intp), U(a, b, c), "keyword-only parameters")
    elif case == 2:
        X.check_eq(evaluate(trace(f2)(a, z=c, y=b), intp=intp), U(a, b, c), "keyword-only parameters, permuted")
    elif case == 3:
        X.check_eq(evaluate(trace(f3)(a, b, z=c), intp=intp), U(c, b, a), "positional-only and keyword-only")
    elif case == 4:
        r = evaluate(trace(f4)(x=a, y=b, z=c), intp=intp)
        X.check(same(X, r, [U(a, b, c), {"k": (a, c)}]), "container result")
    else:
        def h(x: int, g: Callable[[int], int]) -> int:
            return g(x) + g(a)
        t = trace(h)
        V = X.func("V", 1)
        X.check_eq(t(b, lambda v: V(v)), V(b) + V(a), "function-valued parameter")
        def k(x: int) -> int:
            return u(x, x, b)
        X.check_eq(evaluate(t(c, trace(k)), intp=intp), U(c, c, b) + U(a, a, b), "traced function passed to a traced function")
    for bad in (lambda *xs: 0, lambda **ks: 0):
        try:
            trace(bad)
            X.fail("variadic functions cannot be traced")
        except ValueError:
            pass
    X.reach("end")


def defaults(X):
    """operations with default rules called by the traced function are recorded, not run: they are answered by the handlers at evaluation time"""
    U, V, D, W = X.func("U", 1), X.func("V", 2), X.func("D", 2), X.func("W", 1)
    runs = []

    @defop
    def k0() -> int:
        runs.append("k0")
        return U(0)

    @defop
    def k1(x: int) -> int:
        if fvsof(x):
            raise NotHandled
        runs.append("k1")
        return U(x)

    @defop
    def k2(x: int, *, y: int = 5) -> int:
        if fvsof((x, y)):
            raise NotHandled
        runs.append("k2")
        return V(x, k1(y))
    fns = {
        "k0": lambda x: k0(), "k1": lambda x: k1(x), "k1k0": lambda x: k1(k0()), "k2": lambda x: k2(x), "k2y": lambda x: k2(k1(3), y=x), "k1c": lambda x: k1(4),
        "list": lambda x: [k1(x), (k0(), x)], "inner": lambda x: trace(wrap1(lambda q: k1(q)))(k0()), "k1k1": lambda x: k1(k1(x) + k0()),
    }

    def wrap1(body):
        def fn(x: int) -> int:
            return body(x)
        return fn
    name = X.pick("fn", sorted(fns))
    fn = wrap1(fns[name])
    a = X.int("a")
    hs = X.pick("handled", ["none", "k0", "k1", "k1fwd", "k2", "all"])
    intp = {}
    if hs in ("k0", "all"):
        intp[k0] = lambda: D(0, 0)
    if hs in ("k1", "all"):
        intp[k1] = lambda x: D(x, 1) if not fvsof(x) else fwd()
    if hs == "k1fwd":
        intp[k1] = lambda x: D(fwd(), fwd(W(x))) if not fvsof(x) else fwd()
    if hs in ("k2", "all"):
        intp[k2] = lambda x, *, y=5: D(x, y) if not fvsof((x, y)) else fwd()
    when = X.pick("traced", ["outside", "under"])
    if when == "under":
        with handler({k0: lambda: 1, k1: lambda x: 2, k2: lambda x, y=5: 3}):
            t = trace(fn)
    else:
        t = trace(fn)
    X.check(not runs, lambda: f"tracing ran default rules: {runs}")
    X.check(isterm(t, deffn), "a function term")
    with handler(intp):
        want = fn(a)
        wantr = list(runs)
        runs.clear()
        got = t(a)
        X.check(same(X, got, want), lambda: f"{name} under {hs}: {got!r} instead of {want!r}")
        got = evaluate(t)(a)
        X.check(same(X, got, want), lambda: f"{name} evaluated under {hs}: {got!r} instead of {want!r}")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("programs", programs(2), "functions of 1-2 parameters, bodies of depth 2 over {parameter, free operation, +, uninterpreted operation, inner traced function "
          "(shadowing)}; applied to all values and to open arguments, in 5 orders", split("arity", 2, ("n", 6)), ("end",)),
        H("defaults", defaults, "9 functions calling operations with default rules (nullary, keyword, nested, in containers) x 6 handler sets x traced under handlers or not",
          expect=("end",)),
        H("signatures", signatures, "positional-only/keyword-only/permuted/function-valued parameters", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("programs3", programs(3), "depth 3", split("arity", 2, ("n", 6), ("n#1", 6)), ("end",)))
    return hs
