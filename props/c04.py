"""C04 an operation nobody handles runs its default, or becomes a term recording exactly the call"""
from core import *


def f0(x: int) -> int:
    raise NotHandled


def f1(x: int, y: int = 5) -> int:
    raise NotHandled


def f2(x: int, *, k: int = 7) -> int:
    raise NotHandled


def f3(x: int, *rest: int) -> int:
    raise NotHandled


def f4(x: int, **kw: int) -> int:
    raise NotHandled


def f5(*rest: int, k: int = 1, **kw: int) -> int:
    raise NotHandled


def f6(x: int, /, y: int, z: int = 2, *rest: int, k: int, m: int = 4, **kw: int) -> int:
    raise NotHandled


def f7() -> int:
    raise NotHandled


# (function, call args, call kwargs, normalised args, normalised kwargs) over symbolic a, b, c
SHAPES = [
    (f0, lambda a, b, c: ((a,), {}), lambda a, b, c: ((a,), {})),
    (f0, lambda a, b, c: ((), dict(x=a)), lambda a, b, c: ((a,), {})),
    (f1, lambda a, b, c: ((a,), {}), lambda a, b, c: ((a, 5), {})),
    (f1, lambda a, b, c: ((a, b), {}), lambda a, b, c: ((a, b), {})),
    (f1, lambda a, b, c: ((a,), dict(y=b)), lambda a, b, c: ((a, b), {})),
    (f1, lambda a, b, c: ((), dict(y=b, x=a)), lambda a, b, c: ((a, b), {})),
    (f2, lambda a, b, c: ((a,), {}), lambda a, b, c: ((a,), dict(k=7))),
    (f2, lambda a, b, c: ((a,), dict(k=b)), lambda a, b, c: ((a,), dict(k=b))),
    (f3, lambda a, b, c: ((a,), {}), lambda a, b, c: ((a,), {})),
    (f3, lambda a, b, c: ((a, b, c), {}), lambda a, b, c: ((a, b, c), {})),
    (f4, lambda a, b, c: ((a,), {}), lambda a, b, c: ((a,), {})),
    (f4, lambda a, b, c: ((a,), dict(q=b, p=c)), lambda a, b, c: ((a,), dict(q=b, p=c))),
    (f5, lambda a, b, c: ((), {}), lambda a, b, c: ((), dict(k=1))),
    (f5, lambda a, b, c: ((a, b), dict(z=c)), lambda a, b, c: ((a, b), dict(k=1, z=c))),
    (f6, lambda a, b, c: ((a, b), dict(k=c)), lambda a, b, c: ((a, b, 2), dict(k=c, m=4))),
    (f6, lambda a, b, c: ((a, b, c, a, b), dict(k=c, m=b, w=a)), lambda a, b, c: ((a, b, c, a, b), dict(k=c, m=b, w=a))),
    (f7, lambda a, b, c: ((), {}), lambda a, b, c: ((), {})),
]


def shapes(X):
    fn, call, norm = X.pick("shape", SHAPES)
    via = X.pick("via", ["direct", "defop_copy", "defdata", "apply_handler", "other_handled"])
    op = defop(fn)
    other = defop(int)
    orig = op
    if via == "defop_copy":
        op = defop(op)
    a, b, c = X.int("a"), X.int("b"), X.int("c")
    ca, ck = call(a, b, c)
    na, nk = norm(a, b, c)
    if via == "defdata":
        t = defdata(op, *ca, **ck)
    elif via == "apply_handler":
        with handler({apply: defdata}):
            t = op(*ca, **ck)
    elif via == "other_handled":
        with handler({other: lambda: 3}), handler({fwd: lambda *a: 3} if False else {}):
            t = op(*ca, **ck)
    else:
        t = op(*ca, **ck)
    X.check(isterm(t, op), lambda: f"unhandled call gave {t!r}")
    X.check_eq(tuple(t.args), na, "recorded positional arguments")
    X.check_eq(dict(t.kwargs), nk, "recorded keyword arguments")
    X.check(issubclass(typeof(t), int), "typeof")
    U = X.func("U", len(na) + len(nk) or 0)
    seen = []

    def h(*args, **kw):
        seen.append(1)
        return U(*args, *[kw[k] for k in sorted(kw)])
    want = U(*na, *[nk[k] for k in sorted(nk)])
    X.check_eq(evaluate(t, intp={op: h}), want, "evaluating the recorded call under a handler")
    with handler({op: h}):
        X.check_eq(evaluate(t), want, "evaluating under an installed handler")
    X.check(len(seen) == 2, "the handler runs once per evaluation")
    t2 = evaluate(t)
    X.check(same(X, t, t2), "evaluating with nobody handling reproduces the term")
    if via == "defop_copy":
        X.check(same(X, evaluate(t, intp={orig: h}), t), "handling the original must not affect the copy")
    X.reach(via)


def conditional(X):
    """a default rule that declines on some inputs: term exactly when it declines, its own value otherwise"""
    p, d, q = X.func("p", 1, "bool"), X.func("d", 1), X.func("q", 1, "bool")

    @defop
    def g(x: int) -> int:
        if p(x):
            raise NotHandled
        return d(x)

    @defop
    def f(x: int) -> int:
        y = g(x)                # may be a term; that must not make f itself unhandled
        if q(x):
            raise NotHandled
        return [y, x]
    x = X.int("x")
    r = g(x)
    if p(x):
        X.check(isterm(r, g) and len(r.args) == 1, "declined: term")
        X.check_eq(r.args[0], x, "declined: argument")
        X.reach("declined")
    else:
        X.check_eq(r, d(x), "default value")
        X.reach("default")
    r = f(x)
    if q(x):
        X.check(isterm(r, f), "outer declined")
        X.check_eq(tuple(r.args), (x,), "outer declined args")
    else:
        X.check(type(r) is list and len(r) == 2, "outer default ran")
        X.check(isterm(r[0], g) if p(x) else X.eq(r[0], d(x)), "inner call of the default")
    # a handler that forwards reaches the same default, declined or not
    u = X.func("u", 1)
    with handler({g: lambda x: fwd(u(x))}):
        r = g(x)
    if p(u(x)):
        X.check(isterm(r, g), "forwarded and declined")
        X.check_eq(tuple(r.args), (u(x),), "forwarded args")
        X.reach("fwd-declined")
    else:
        X.check_eq(r, d(u(x)), "forwarded default")


def structured(X):
    """arguments that are containers and other terms are recorded unchanged"""
    @defop
    def f(x, y=None):
        raise NotHandled
    v = defop(int, name="v")
    a, b = X.int("a"), X.int("b")
    t0 = X.pick("leaf", [lambda: a, lambda: v(), lambda: v() + b, lambda: f(v(), a), lambda: [a, v()], lambda: {"k": a, "l": (v(), b)},
                         lambda: "text", lambda: None, lambda: v, lambda: (f(a), [f(b)])])()
    wrap = X.pick("wrap", [lambda z: z, lambda z: [z, z], lambda z: (z, {"p": z}), lambda z: {"o": [z], "n": z}])
    arg = wrap(t0)
    arg2 = wrap(t0)
    t = f(arg, y=t0)
    X.check(isterm(t, f), "term")
    X.check(same(X, tuple(t.args), (arg2, t0)), lambda: f"recorded args {t.args!r}")
    X.check(dict(t.kwargs) == {}, "no kwargs recorded")
    X.check(same(X, evaluate(t), t), "evaluation without handlers")
    X.reach("end")


def harnesses(tier):
    return [
        H("shapes", shapes, "17 call shapes over 8 signatures (defaults, keyword-only, variadic, positional-only) x 5 ways to leave an "
          "operation unhandled; arguments symbolic ints", split("shape", len(SHAPES)),
          ("direct", "defop_copy", "defdata", "apply_handler", "other_handled")),
        H("conditional", conditional, "default rules that decline on an uninterpreted predicate, nested", expect=("declined", "default", "fwd-declined")),
        H("structured", structured, "10 leaf kinds x 4 container wrappings", split("leaf", 10), ("end",)),
    ]
