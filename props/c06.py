"""C06 free variables: exact, per occurrence, and semantically irrelevant when absent"""
import collections, dataclasses
from typing import Annotated, Any
from collections.abc import Callable, Mapping, Iterable
from core import *


@dataclasses.dataclass
class Pair:
    a: object
    b: object


@defop
def Let[S, T, U, A, B](var: Annotated[Operation[[], S], Scoped[A]], val: Annotated[U, Scoped[B]],
                    body: Annotated[T, Scoped[A | B]]) -> Annotated[T, Scoped[B]]:
    raise NotHandled


@defop
def Lam2[S, T, A, B](body: Annotated[T, Scoped[A | B]], *vs: Annotated[Operation[[], S], Scoped[A]],
                     **kvs: Annotated[Operation[[], S], Scoped[A]]) -> Annotated[Callable, Scoped[B]]:
    raise NotHandled


@defop
def f(a: int, b: int = 0) -> int:
    raise NotHandled


@defop
def src(*xs) -> Iterable[int]:
    raise NotHandled


@defop
def g(*xs) -> object:
    raise NotHandled


class Gen:
    """lazily generated abstract syntax over 3 variables; nodes are plain tuples, so the reference never sees library code"""

    def __init__(self, X, nvars=3):
        self.X = X
        self.used = 0
        self.vars = [defop(int, name=f"v{i}") for i in range(nvars)]
        self.names = [v.__name__ for v in self.vars]

    def expr(self, d, kinds, inner=None):
        X = self.X
        k = X.pick("node", kinds if d else ["var", "lit"])
        sub = lambda: self.expr(d - 1, inner or kinds, inner)  # noqa
        def var():   # symmetry: the first use of a variable picks the next unused one
            i = X.choose("var", min(self.used + 1, len(self.vars)))
            self.used = max(self.used, i + 1)
            return i
        if k == "var":
            return ("var", var())
        if k == "lit":
            return ("lit", X.int("c"))
        if k == "add":
            return ("add", sub(), ("var", var()))
        if k == "f":
            return ("f", sub(), ("lit", 1))
        if k == "fn":
            return ("fn", var(), sub())
        if k == "fn2":
            i = var()
            return ("fn2", i, (i + 1) % len(self.vars), sub())
        if k == "let":
            return ("let", var(), sub(), sub())
        if k == "stream":
            return ("stream", var(), sub(), sub())
        if k == "cont":
            return ("cont", X.pick("cont", ["list", "dict", "tuple", "pair"]), sub(), ("var", var()))
        if k == "opref":
            return ("opref", var())
        raise AssertionError(k)

    def real(self, e):
        k, V = e[0], self.vars
        if k == "var":
            return V[e[1]]()
        if k == "lit":
            return e[1]
        if k == "add":
            return g(self.real(e[1]), self.real(e[2]))
        if k == "f":
            return f(self.real(e[1]), self.real(e[2]))
        if k == "fn":
            return deffn(self.real(e[2]), V[e[1]])
        if k == "fn2":
            return Lam2(self.real(e[3]), V[e[1]], k=V[e[2]])
        if k == "let":
            return Let(V[e[1]], self.real(e[2]), self.real(e[3]))
        if k == "stream":
            return defstream(self.real(e[3]), {V[e[1]]: src(self.real(e[2]))})
        if k == "cont":
            a, b = self.real(e[2]), self.real(e[3])
            return g({"list": [a, b], "dict": {"p": a, "q": [b]}, "tuple": (a, (b,)), "pair": Pair(a, [b])}[e[1]])
        raise AssertionError(k)

    def fv(self, e):
        """variables free in e, plus the operations applied in it"""
        k = e[0]
        if k == "var":
            return {self.vars[e[1]]}
        if k == "lit":
            return set()
        if k == "add":
            return {g} | self.fv(e[1]) | self.fv(e[2])
        if k == "f":
            return {f} | self.fv(e[1])
        if k == "fn":
            return {deffn} | (self.fv(e[2]) - {self.vars[e[1]]})
        if k == "fn2":
            return {Lam2} | (self.fv(e[3]) - {self.vars[e[1]], self.vars[e[2]]})
        if k == "let":
            return {Let} | self.fv(e[2]) | (self.fv(e[3]) - {self.vars[e[1]]})
        if k == "stream":
            # the stream mapping lives in the scope of its own variables (they are bound there as well)
            return {defstream, src} | ((self.fv(e[2]) | self.fv(e[3])) - {self.vars[e[1]]})
        if k == "cont":
            return {g} | self.fv(e[2]) | self.fv(e[3])
        raise AssertionError(k)


KINDS = ["var", "add", "fn", "fn2", "let", "stream", "cont"]


def exact(depth, kinds, nvars=2, inner=None, ambient=True):
    def h(X):
        G = Gen(X, nvars)
        e = G.expr(depth, kinds, inner)
        ran = []
        # handlers installed around the analysis must not run and must not matter
        with handler({apply: defdata}):
            t = G.real(e)
        with handler({G.vars[0]: lambda: ran.append(1) or 5, g: lambda *a: ran.append(2)} if ambient else {}):
            got = set(fvsof(t))
            got2 = set(fvsof(["s", {"k": (t,)}]))
        want = G.fv(e)
        X.note(e)
        X.check(got == want, lambda: f"fvsof({e}) = {sorted(map(str, got))}, expected {sorted(map(str, want))}")
        X.check(got2 == want, "free variables inside containers")
        X.check(not ran, "analysis must not run handlers")
        X.reach("end")
    return h


def opened(X):
    """a binder's body taken out of the binder has the bound variable free, wherever it is placed next to the binder"""
    x, y = defop(int, name="x"), defop(int, name="y")
    mk = X.pick("binder", [lambda: deffn(g(x(), y()), x), lambda: Let(x, y(), g(x(), y())), lambda: Lam2(g(x(), y()), k=x)])
    t = mk()
    if t.op is Let:
        bv, body = t.args[0], t.args[2]
    elif t.op is deffn:
        bv, body = t.args[1], t.args[0]
    else:
        bv, body = t.kwargs["k"], t.args[0]
    closed = {t.op, g, y}
    X.check(set(fvsof(t)) == closed, "closed")
    X.check(set(fvsof(body)) == {g, y, bv}, "opened body")
    e = X.pick("place", [lambda: (body, t), lambda: (t, body), lambda: g(body, t), lambda: g(t, body), lambda: [t, t, {"b": body}, t],
                         lambda: [[body], t], lambda: g(g(body), deffn(t, y), y())])()
    extra = {deffn} if isinstance(e, Term) and any(isinstance(a, Term) and a.op is deffn for a in e.args) else set()
    got, want = set(fvsof(e)), closed | {bv, g} | extra
    # recorded finding: an occurrence evaluated before the binder is dropped when the binder is reached
    tag = "fvsof-opened-body-before-binder" if X.choices_get("place") not in (1, 3) and got == want - {bv} else None
    X.check(got == want, tag=tag, msg=lambda: f"opened body next to its binder: {sorted(map(str, fvsof(e)))}")
    X.reach("end")


def irrelevant(X):
    """two interpretations that agree on the reported free variables give the same value (uninterpreted meanings)"""
    G = Gen(X, 3)
    x, y, z = G.vars
    U = X.func("U", 2)
    c = X.int("c")
    t = X.pick("t", [
        lambda: deffn(f(x(), y()), x)(c), lambda: deffn(f(x(), y()), x)(z()), lambda: deffn(deffn(f(x(), y()), y)(x()), x)(f(z(), c)),
        lambda: deffn(f(x(), f(x(), c)), x)(y()), lambda: f(deffn(x(), y)(z()), x()), lambda: deffn(y(), x)(z()),
        lambda: deffn(deffn(x(), y), x)(z())(y()), lambda: deffn(f(x(), y()), x, k=y)(z(), k=c)])()
    fv = fvsof(t)
    vals = {v: (X.int("p"), X.int("q")) for v in G.vars}
    i1 = {v: (lambda p=p: p) for v, (p, q) in vals.items()}
    i2 = {v: (lambda p=p, q=q, v=v: p if v in fv else q) for v, (p, q) in vals.items()}
    h = {f: lambda a, b=0: U(a, b)}
    r1, r2 = evaluate(t, intp={**i1, **h}), evaluate(t, intp={**i2, **h})
    X.check_eq(r1, r2, "value depends on a variable that is not reported free")
    # and every reported variable matters: it is looked up
    for v in G.vars:
        used = []
        evaluate(t, intp={**{w: (lambda w=w: (used.append(w), vals[w][0])[1]) for w in G.vars}, **h})
        X.check((v in used) == (v in fv), lambda: f"{v} reported {v in fv} but used {v in used}")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("exact2", exact(2, KINDS, inner=["var", "add", "fn", "let"]), "all expressions of depth 2: 7 node kinds on top (function, variadic/keyword "
          "binder, let, stream, containers), 4 below; 2 variables reused freely (shadowing), under ambient handlers", split("node", 7, ("node#1", 4)), ("end",)),
        H("exact1", exact(1, KINDS, 3, ambient=False), "all expressions of depth 1, 3 variables", expect=("end",)),
        H("opened", opened, "3 binders x 7 placements", expect=("end",)),
        H("irrelevant", irrelevant, "8 redex shapes; variable values symbolic, f uninterpreted", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("exact2_all", exact(2, KINDS), "depth 2, 7 node kinds at every level", split("node", 7, ("node#1", 7)), ("end",)))
        hs.append(H("exact3", exact(3, ["var", "fn", "let"]), "depth 3, 3 node kinds", split("node", 3, ("node#1", 3), ("node#2", 3)), ("end",)))
    return hs
