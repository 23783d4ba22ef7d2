"""C08 binders: bound operations are fresh, well scoped, immune to handlers; substitution of open terms does not capture"""
from core import *
from c06 import Gen, KINDS, Let, Lam2, f, g, src, Pair
from collections.abc import Mapping
from typing import Annotated


def free(v):
    return ("free", v)


class DB:
    """locally nameless form: bound occurrences become (binder depth, position); free ones stay operations"""

    def __init__(self, X, G):
        self.X, self.G = X, G

    # of the source program
    def of_src(self, e, env, depth, sigma):
        V, k = self.G.vars, e[0]
        r = lambda q, env=env, d=depth: self.of_src(q, env, d, sigma)  # noqa
        if k == "var":
            v = V[e[1]]
            if v in env:
                return ("bound",) + env[v]
            return sigma.get(v, lambda: ("op", v, (), ()))()
        if k == "lit":
            return ("leaf", e[1])
        if k == "add":
            return ("op", g, (r(e[1]), r(e[2])), ())
        if k == "f":
            return ("op", f, (r(e[1]), r(e[2])), ())
        if k == "fn":
            return ("bind", "fn", (r(e[2], {**env, V[e[1]]: (depth, 0)}, depth + 1),))
        if k == "fn2":
            return ("bind", "fn2", (r(e[3], {**env, V[e[1]]: (depth, 0), V[e[2]]: (depth, 1)}, depth + 1),))
        if k == "let":
            return ("bind", "let", (r(e[2]), r(e[3], {**env, V[e[1]]: (depth, 0)}, depth + 1)))
        if k == "stream":
            env2 = {**env, V[e[1]]: (depth, 0)}
            return ("bind", "stream", (("op", src, (r(e[2], env2, depth + 1),), ()), r(e[3], env2, depth + 1)))
        if k == "cont":
            a, b = r(e[2]), r(e[3])
            body = {"list": ("list", (a, b)), "dict": ("dict", (("p", a), ("q", ("list", (b,))))), "tuple": ("tuple", (a, ("tuple", (b,)))),
                    "pair": ("pair", (a, ("list", (b,))))}[e[1]]
            return ("op", g, (body,), ())
        raise AssertionError(k)

    # of the real term
    def of_term(self, t, env, depth, binders):
        r = lambda q, env=env, d=depth: self.of_term(q, env, d, binders)  # noqa
        if isinstance(t, Term):
            op = t.op

            def bind(vs):
                for v in vs:
                    assert isinstance(v, Operation), f"binder position holds {v!r}"
                    binders.append(v)
                return {**env, **{v: (depth, i) for i, v in enumerate(vs)}}, depth + 1
            if op is deffn:
                env2, d2 = bind(t.args[1:])
                return ("bind", "fn", (r(t.args[0], env2, d2),))
            if op is Lam2:
                env2, d2 = bind((*t.args[1:], *t.kwargs.values()))
                return ("bind", "fn2", (r(t.args[0], env2, d2),))
            if op is Let:
                env2, d2 = bind((t.args[0],))
                return ("bind", "let", (r(t.args[1]), r(t.args[2], env2, d2)))
            if op is defstream:
                env2, d2 = bind(tuple(t.args[1]))
                (s,) = t.args[1].values()
                return ("bind", "stream", (r(s, env2, d2), r(t.args[0], env2, d2)))
            if op in env and not t.args and not t.kwargs:
                return ("bound",) + env[op]
            args = tuple(t.args)
            return ("op", op, tuple(r(a) for a in args), tuple((k, r(v)) for k, v in t.kwargs.items()))
        if isinstance(t, list):
            return ("list", tuple(r(a) for a in t))
        if isinstance(t, tuple):
            return ("tuple", tuple(r(a) for a in t))
        if isinstance(t, Pair):
            return ("pair", (r(t.a), r(t.b)))
        if isinstance(t, Mapping):
            return ("dict", tuple((k, r(v)) for k, v in t.items()))
        return ("leaf", t)

    def eq(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "leaf":
            return self.X.eq(a[1], b[1])
        if len(a) != len(b):
            return False
        out = []
        for p, q in zip(a[1:], b[1:]):
            if isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q):
                    return False
                for s, t in zip(p, q):
                    if isinstance(s, tuple) and isinstance(t, tuple) and s and t and isinstance(s[0], str) and isinstance(t[0], str) and len(s) > 1 and s[0] in TAGS:
                        out.append(self.eq(s, t))
                    elif isinstance(s, tuple) and isinstance(t, tuple) and len(s) == len(t) == 2 and s[0] == t[0]:
                        out.append(self.eq(s[1], t[1]))
                    else:
                        out.append(s == t if not isinstance(s, Operation) else s is t)
            else:
                out.append(p is q if isinstance(p, Operation) else p == q)
        return self.X.all(out)


TAGS = {"leaf", "bound", "op", "bind", "list", "tuple", "dict", "pair"}


def check_term(X, G, D, t, e, sigma, what):
    binders = []
    X.check(D.eq(D.of_term(t, {}, 0, binders), D.of_src(e, {}, 0, sigma)), lambda: f"{what}: {t} is not alpha-equivalent to {e}")
    X.check(len(set(binders)) == len(binders), f"{what}: a bound operation is shared by two binders")
    X.check(not set(binders) & set(G.vars), f"{what}: a bound operation is one of the user's operations")
    return set(binders)


def shapes(depth, kinds, inner, nvars=2):
    def h(X):
        G = Gen(X, nvars)
        e = G.expr(depth, kinds, inner)
        X.note(e)
        D = DB(X, G)
        t = G.real(e)
        b1 = check_term(X, G, D, t, e, {}, "construction")
        with handler({apply: defdata}):
            u = G.real(e)
            b2 = check_term(X, G, D, u, e, {}, "construction under a handler of application")
        X.check(not b1 & b2, "two constructions share a bound operation")
        r = evaluate(t)
        check_term(X, G, D, r, e, {}, "evaluation without handlers")
        if b1:
            X.reach("binders")
        X.reach("end")
    return h


def subst(depth, kinds, inner, nvars=2):
    """handlers act on free occurrences only; open replacements are not captured"""
    def h(X):
        G = Gen(X, nvars)
        e = G.expr(depth, kinds, inner)
        X.note(e)
        D = DB(X, G)
        t = G.real(e)
        c = X.int("c")
        v, w = G.vars[0], G.vars[1]
        opt = X.choose("sigma", 4)
        val, want = [(lambda: c, lambda: ("leaf", c)),
                     (lambda: w(), lambda: ("op", w, (), ())),
                     (lambda: f(w(), 1), lambda: ("op", f, (("op", w, (), ()), ("leaf", 1)), ())),
                     (lambda: deffn(v(), w), lambda: ("bind", "fn", (("op", v, (), ()),)))][opt]
        sig = {v: want}
        repl = val()
        # a replaced variable may occur several times: its binders are then shared by construction
        dup = opt == 3
        binders = []
        how = X.choose("how", 2)
        r = evaluate(t, intp={v: lambda: repl}) if how == 0 else None
        if how == 1:
            with handler({v: lambda: repl}):
                r = evaluate(t)
        X.note(f"{t} -> {r}")

        def shift(e2):
            return D.of_src(e2, {}, 0, {v: (lambda: ("repl",))})
        # compare with the replacement kept opaque, then check each replaced place separately
        got = D.of_term(r, {}, 0, binders)
        X.check(matches(X, D, got, shift(e), r, repl, v, w, c, opt), lambda: f"substituting {repl} for {v} in {e} gave {r}")
        X.check(not set(binders) & set(G.vars), "a bound operation is one of the user's operations")
        X.reach("end")
    return h


def matches(X, D, got, want, r, repl, v, w, c, opt):
    if want == ("repl",):
        if opt == 0:
            return got[0] == "leaf" and X.eq(got[1], c)
        if opt == 1:
            return got == ("op", w, (), ())
        if opt == 2:
            return got == ("op", f, (("op", w, (), ()), ("leaf", 1)), ())
        return got == ("bind", "fn", (("op", v, (), ()),))
    if got[0] != want[0]:
        return False
    if got[0] == "leaf":
        return X.eq(got[1], want[1])
    if got[0] == "bound":
        return got == want
    if got[0] in ("list", "tuple", "pair"):
        return len(got[1]) == len(want[1]) and X.all(matches(X, D, a, b, r, repl, v, w, c, opt) for a, b in zip(got[1], want[1]))
    if got[0] == "dict":
        return len(got[1]) == len(want[1]) and X.all(a[0] == b[0] and matches(X, D, a[1], b[1], r, repl, v, w, c, opt) for a, b in zip(got[1], want[1]))
    return got[1] == want[1] and len(got[2]) == len(want[2]) and X.all(matches(X, D, a, b, r, repl, v, w, c, opt) for a, b in zip(got[2], want[2]))


def ambient(X):
    """handlers of the user's operations installed while a binder is built do not reach its bound occurrences, and handlers
    of the fresh bound operation obtained by opening the term do"""
    x, y = defop(int, name="x"), defop(int, name="y")
    a, b = X.int("a"), X.int("b")
    kind = X.pick("kind", ["fn", "let", "lam2"])
    U = X.func("U", 2)
    fintp = {f: lambda p, q=0: U(p, q) if not fvsof((p, q)) else defdata(f, p, q)}
    body = f(x(), y())
    mk = {"fn": lambda: deffn(body, x), "let": lambda: Let(x, y(), body), "lam2": lambda: Lam2(body, k=x)}[kind]
    with handler({x: lambda: a, y: lambda: b}) if X.choose("amb", 2) else handler({}):
        t = mk()
        if kind == "fn":
            bv, bd = t.args[1], t.args[0]
        elif kind == "let":
            bv, bd = t.args[0], t.args[2]
        else:
            bv, bd = t.kwargs["k"], t.args[0]
    X.check(bv is not x, "bound operation is fresh")
    X.check_eq(evaluate(bd, intp={bv: lambda: a, y: lambda: b, **fintp}), U(a, b), "opening the body and handling the bound operation")
    r = evaluate(bd, intp={x: lambda: a, y: lambda: b, f: lambda p, q=0: defdata(f, p, q)})
    X.check(isterm(r, f) and isterm(r.args[0], bv) and X.eq(r.args[1], b), "a handler of the user's operation does not reach the bound occurrence")
    X.check(bv.__type_rule__() is int if kind != "let" else True, "the fresh operation has the same result type")
    X.check(bv.__name__ == x.__name__, "the fresh operation keeps its name")
    X.reach("end")


@defop
def LetK[S, A, B, C](var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[object, Scoped[A | B]], *, val: Annotated[object, Scoped[B]]) -> Annotated[object, Scoped[B]]:
    raise NotHandled


@defop
def LetV[S, A, B, C](val: Annotated[object, Scoped[B]], *, var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[object, Scoped[A | B]]) -> Annotated[object, Scoped[B]]:
    raise NotHandled


@defop
def LamKV[S, A, B, C](body: Annotated[object, Scoped[A | B]], *vs: Annotated[Operation[[], S], Scoped[A]], **vals: Annotated[object, Scoped[B]]) -> Annotated[object, Scoped[B]]:
    raise NotHandled


@defop
def LamVK[S, A, B, C](body: Annotated[object, Scoped[A | B]], *vals: Annotated[object, Scoped[B]], **vs: Annotated[Operation[[], S], Scoped[A]]) -> Annotated[object, Scoped[B]]:
    raise NotHandled


@defop
def Two[S, A, B, C](v1: Annotated[Operation[[], S], Scoped[A]], v2: Annotated[Operation[[], S], Scoped[B]], b1: Annotated[object, Scoped[A | C]],
                          b2: Annotated[object, Scoped[B | C]], b3: Annotated[object, Scoped[A | B | C]], out: Annotated[object, Scoped[C]]) -> Annotated[object, Scoped[C]]:
    raise NotHandled


@defop
def Tup[A, B](vs: Annotated[tuple, Scoped[A]], body: Annotated[object, Scoped[A | B]], out: Annotated[object, Scoped[B]]) -> Annotated[object, Scoped[B]]:
    raise NotHandled


@defop
def Dflt[S, A, B, C](var: Annotated[Operation[[], S], Scoped[A]], body: Annotated[object, Scoped[A | B]], out: Annotated[object, Scoped[B]] = 3, *,
                     extra: Annotated[object, Scoped[A | B]] = 4) -> Annotated[object, Scoped[B]]:
    raise NotHandled


def contents(X, name):
    return X.pick(name, [lambda o, p: o(), lambda o, p: f(p(), o()), lambda o, p: [1, {"k": o()}], lambda o, p: g([o], o()), lambda o, p: (o(), p())])


def scopes(X):
    """every way a signature can place binders and scopes: renamed exactly inside the scope"""
    x, y, z = (defop(int, name=n) for n in "xyz")
    X.c = X.int("c")
    sig = X.pick("sig", ["letk", "letv", "letv_kw", "lamkv", "lamvk", "two", "tup", "dflt", "dflt_some", "let_kw"])
    c1, c2 = contents(X, "in"), contents(X, "out")
    # slots: name -> (content, binders in scope there); get: term -> slot values; bvs: term -> bound operations
    if sig in ("letk",):
        mk = lambda s: LetK(x, s["body"], val=s["val"])  # noqa
        slots = {"body": (c1, (x,)), "val": (c2, ())}
        get = lambda t: ((t.args[0],), {"body": t.args[1], "val": t.kwargs["val"]})  # noqa
        bvs = (x,)
    elif sig in ("letv", "letv_kw"):
        mk = (lambda s: LetV(s["val"], var=x, body=s["body"])) if sig == "letv" else (lambda s: LetV(body=s["body"], val=s["val"], var=x))
        slots = {"body": (c1, (x,)), "val": (c2, ())}
        get = lambda t: ((t.kwargs["var"],), {"body": t.kwargs["body"], "val": t.args[0]})  # noqa
        bvs = (x,)
    elif sig == "let_kw":
        mk = lambda s: Let(body=s["body"], var=x, val=s["val"])  # noqa
        slots = {"body": (c1, (x,)), "val": (c2, ())}
        get = lambda t: ((t.args[0],), {"body": t.args[2], "val": t.args[1]})  # noqa
        bvs = (x,)
    elif sig == "lamkv":
        mk = lambda s: LamKV(s["body"], x, y, a=s["a"], b=s["b"])  # noqa
        slots = {"body": (c1, (x, y)), "a": (c2, ()), "b": (lambda o, p: p(), ())}
        get = lambda t: (t.args[1:], {"body": t.args[0], **t.kwargs})  # noqa
        bvs = (x, y)
    elif sig == "lamvk":
        mk = lambda s: LamVK(s["body"], s["a"], s["b"], u=x, w=y)  # noqa
        slots = {"body": (c1, (x, y)), "a": (c2, ()), "b": (lambda o, p: p(), ())}
        get = lambda t: ((t.kwargs["u"], t.kwargs["w"]), {"body": t.args[0], "a": t.args[1], "b": t.args[2]})  # noqa
        bvs = (x, y)
    elif sig == "two":
        mk = lambda s: Two(x, y, s["b1"], s["b2"], s["b3"], s["out"])  # noqa
        slots = {"b1": (c1, (x,)), "b2": (c1, (y,)), "b3": (c1, (x, y)), "out": (c2, ())}
        get = lambda t: (t.args[:2], dict(zip(["b1", "b2", "b3", "out"], t.args[2:])))  # noqa
        bvs = (x, y)
    elif sig == "tup":
        mk = lambda s: Tup((x, y), s["body"], s["out"])  # noqa
        slots = {"body": (c1, (x, y)), "out": (c2, ())}
        get = lambda t: (t.args[0], {"body": t.args[1], "out": t.args[2]})  # noqa
        bvs = (x, y)
    else:
        slots = {"body": (c1, (x,)), "out": (c2, ()), "extra": (c1, (x,))}
        if sig == "dflt":
            mk = lambda s: Dflt(x, s["body"])  # noqa
            slots["out"], slots["extra"] = (lambda o, p: 3, ()), (lambda o, p: 4, ())
        else:
            mk = lambda s: Dflt(x, s["body"], extra=s["extra"], out=s["out"])  # noqa
        get = lambda t: ((t.args[0],), {"body": t.args[1], "out": t.args[2], "extra": t.kwargs["extra"]})  # noqa
        bvs = (x,)
    t = mk({k: con(x, y) for k, (con, _) in slots.items()})

    def look(t, sub, what):
        vs, vals = get(t)
        vs = tuple(vs)
        X.check(len(set(vs)) == len(bvs) and not set(vs) & {x, y, z}, f"{sig} {what}: binders are fresh and distinct")
        ren = dict(zip(bvs, vs))
        for k, (con, inscope) in slots.items():
            want = con(*[ren[o] if o in inscope else o for o in (x, y)])
            if sub:
                want = evaluate(want, intp=sub)
            X.check(same(X, vals[k], want), lambda: f"{sig} {what}: argument {k} is {vals[k]} instead of {want}")
    look(t, None, "construction")
    free = set()
    for k, (con, inscope) in slots.items():
        for o in (x, y):
            if o in fvsof(con(x, y)) and o not in inscope:
                free.add(o)
    fv = fvsof(t)
    X.check(fv & {x, y} == free, lambda: f"{sig}: free operations {fv}")
    X.check(not fv & set(get(t)[0]), f"{sig}: binders are not free")
    look(evaluate(t), None, "re-evaluation")
    look(evaluate(t, intp={x: lambda: X.c}), {x: lambda: X.c}, "x handled")
    look(evaluate(t, intp={y: lambda: X.c, x: lambda: 7}), {y: lambda: X.c, x: lambda: 7}, "both handled")
    look(evaluate(t, intp={x: lambda: z()}), {x: lambda: z()}, "x renamed")
    X.reach("end")


def harnesses(tier):
    inner = ["var", "fn", "let"]
    hs = [
        H("shapes", shapes(2, KINDS, inner), "all expressions of depth 2: 7 node kinds on top, 3 below, 2 variables reused freely; built with and without "
          "an ambient handler, then re-evaluated", split("node", 7, ("node#1", 3)), ("binders", "end")),
        H("scopes", scopes, "10 signature patterns placing binders and scopes positionally, by keyword, variadic, in a tuple, in two scopes, defaulted; 5 x 5 contents",
          split("sig", 10), ("end",)),
        H("subst", subst(1, KINDS, None), "depth 1, all 7 kinds; 4 replacements (value, other variable, open application, open function) x 2 ways to handle",
          split("node", 7), ("end",)),
        H("subst2", subst(2, ["var", "add", "fn", "fn2", "let", "stream"], ["var", "fn"]), "depth 2, 6 kinds over {variable, function}", split("node", 6, ("node#1", 2)), ("end",)),
        H("ambient", ambient, "3 binders, ambient handlers on/off; values symbolic", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("shapes_all", shapes(2, KINDS, KINDS), "depth 2, all kinds at both levels", split("node", 7, ("node#1", 7)), ("end",)))
        hs.append(H("subst_all", subst(2, KINDS, KINDS), "depth 2 substitution, all kinds", split("node", 7, ("node#1", 7)), ("end",)))
        hs.append(H("subst3", subst(3, ["fn", "let", "add", "var"], ["var", "fn", "add"]), "depth 3", split("node", 4, ("node#1", 3)), ("end",)))
    return hs
