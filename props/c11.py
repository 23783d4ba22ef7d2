"""C11 the reported type of an expression follows from the signatures, for every class hierarchy; nothing is run to find it"""
import collections.abc as cabc
import inspect
import typing
from collections.abc import Callable, Iterable, Mapping, Sequence
from core import *
from effectful.ops.semantics import typeof, _simple_type
from effectful.internals.unification import canonicalize
from c12 import Hier, No, SUPERS
import c12


@defop
def ident[A](x: A) -> A:
    raise NotHandled


@defop
def fst[A, B](a: A, b: B) -> A:
    raise NotHandled


@defop
def snd[A, B](a: A, *, b: B) -> B:
    raise NotHandled


@defop
def same[A](a: A, b: A) -> A:
    raise NotHandled


@defop
def mk[A](a: A) -> list[A]:
    raise NotHandled


@defop
def head[A](xs: Sequence[A]) -> A:
    raise NotHandled


@defop
def pair[A, B](a: A, b: B) -> tuple[A, B]:
    raise NotHandled


@defop
def swap[A, B](p: tuple[A, B]) -> tuple[B, A]:
    raise NotHandled


@defop
def left[A, B](p: tuple[A, B]) -> A:
    raise NotHandled


@defop
def table[A, B](k: A, v: B) -> dict[A, B]:
    raise NotHandled


@defop
def look[A, B](d: Mapping[A, B], k: A) -> B:
    raise NotHandled


@defop
def rest[A](*xs: A) -> Sequence[A]:
    raise NotHandled


@defop
def each[A](**xs: A) -> A:
    raise NotHandled


@defop
def dflt[A](a: A, n: int = 3) -> list[A]:
    raise NotHandled


@defop
def size(xs: object) -> int:
    raise NotHandled


@defop
def untyped(x):
    raise NotHandled


@defop
def nothing(x: object) -> None:
    raise NotHandled


@defop
def call1[A, B](f: Callable[[A], B], x: A) -> B:
    raise NotHandled


A0, B0 = ("T", 0), ("T", 1)
OPS = {
    "ident": (ident, [A0], A0), "fst": (fst, [A0, B0], A0), "snd": (snd, [A0, B0], B0), "same": (same, [A0, A0], A0), "mk": (mk, [A0], ("list", A0)),
    "head": (head, [("seq", A0)], A0), "pair": (pair, [A0, B0], ("tup", A0, B0)), "swap": (swap, [("tup", A0, B0)], ("tup", B0, A0)),
    "left": (left, [("tup", A0, B0)], A0), "table": (table, [A0, B0], ("dict", A0, B0)), "look": (look, [("map", A0, B0), A0], B0),
    "rest": (rest, [A0, A0], ("seq", A0)), "each": (each, [A0, A0], A0), "dflt": (dflt, [A0], ("list", A0)), "size": (size, [("obj",)], ("py", int)),
    "untyped": (untyped, [("obj",)], ("obj",)), "nothing": (nothing, [("obj",)], ("none",)), "call1": (call1, [("fn", A0, B0), A0], B0),
}


def invoke(name, args):
    op = OPS[name][0]
    if name == "snd":
        return op(args[0], b=args[1])
    if name == "each":
        return op(p=args[0], q=args[1])
    return op(*args)


def hasvar(d):
    return d[0] == "T" or any(hasvar(q) for q in d[1:] if isinstance(q, tuple))


def match(h, p, s, env):
    if p[0] == "T":
        if p[1] not in env:
            return {**env, p[1]: s}
        return match(h, env[p[1]], s, env)
    if p == s or p[0] == "obj" and s[0] != "none":
        return env
    if s == ("py", str) and p[0] in ("seq", "it"):
        return env  # a string is a sequence, of nothing in particular
    if s[0] in ("py", "none", "obj") or p[0] in ("py", "none"):
        if s[0] == p[0] == "py" and issubclass(s[1], p[1]) or s[0] == "none" and p[0] == "obj":
            return env
        raise No
    if p[0] == "a" or s[0] == "a":
        if p[0] == s[0] and h.sub(s[1], p[1]):
            return env
        raise No
    sk, pk = s[0], p[0]
    if sk == "tup" and pk == "seq":
        for e in s[1:]:
            env = match(h, p[1], e, env)
        return env
    if pk not in SUPERS[sk]:
        raise No
    for a, b in zip(p[1:], s[1:]):
        env = match(h, a, b, env)
    return env


def sub(d, env):
    if d[0] == "T":
        return env.get(d[1], d)
    return (d[0],) + tuple(sub(q, env) if isinstance(q, tuple) else q for q in d[1:])


def pyt(h, d):
    if d[0] == "py":
        return d[1]
    if d[0] == "none":
        return type(None)
    if d[0] == "T":
        return object
    if d[0] == "fn":
        return cabc.Callable[[pyt(h, d[1])], pyt(h, d[2])]
    if len(d) > 1 and any(isinstance(q, tuple) for q in d[1:]):
        parts = [pyt(h, q) for q in d[1:]]
        return {"list": lambda a: list[a], "seq": lambda a: Sequence[a], "tup": lambda a, b: tuple[a, b], "dict": lambda a, b: dict[a, b],
                "map": lambda a, b: Mapping[a, b]}[d[0]](*parts)
    return c12.build(h, d)


LEAVES = [("a", 0), ("a", 1), ("list", ("a", 0)), ("py", int), ("lit", 5), ("lit", "s"), ("litlist",), ("littup",), ("litdict",), ("tup", ("a", 0), ("a", 1)), ("none",)]


class Gen:
    def __init__(self, X, ops, inner, leaves):
        self.X, self.h = X, Hier(X, 2)
        self.ops, self.inner, self.leaves = ops, inner, leaves
        self.free = {}
        self.bad = False

    def var(self, d):
        t = pyt(self.h, d)
        return self.free.setdefault(d, defop(t, name="v"))

    def leaf(self, d):
        """-> (value, type description)"""
        if d[0] == "lit":
            return d[1], ("py", type(d[1]))
        if d[0] == "litlist":
            return [self.var(("a", 0))()], ("list", ("a", 0))
        if d[0] == "littup":
            return (self.var(("a", 1))(), 3), ("tup", ("a", 1), ("py", int))
        if d[0] == "litdict":
            return {1: self.var(("a", 0))()}, ("dict", ("py", int), ("a", 0))
        if d[0] == "none":
            return None, ("none",)
        return self.var(d)(), d

    def fnval(self):
        k = self.X.choose("fn", 3)
        if k == 0:
            d = ("fn", ("a", 0), ("a", 1))
        elif k == 1:
            d = ("fn", ("a", 0), ("list", ("a", 0)))
        else:
            x = defop(pyt(self.h, ("a", 0)), name="x")
            return deffn(mk(x()), x), None
        return self.var(d)(), d

    def expr(self, d, top=True):
        X = self.X
        if d == 0:
            return self.leaf(X.pick("leaf", self.leaves))
        name = X.pick("op", self.ops if top else self.inner)
        op, pats, ret = OPS[name]
        vals, descs = [], []
        for i, p in enumerate(pats):
            if p[0] == "fn":
                v, t = self.fnval()
            else:
                v, t = self.expr(d - 1, False) if i == 0 else self.expr(0)
            if self.bad:
                return None, None
            vals.append(v)
            descs.append(t)
        if any(t is None for t in descs):
            # an untyped function term: only its result type is left open
            raise Skip
        env = {}
        if hasvar(ret):
            try:
                for p, t in zip(pats, descs):
                    env = match(self.h, p, t, env)
            except No:
                env = None
        try:
            t = invoke(name, vals)
            err = None
        except TypeError as e:
            t, err = None, e
        X.check((t is None) == (env is None), lambda: f"{name}({', '.join(map(str, descs))}): {'TypeError: ' + str(err) if t is None else 'accepted'}")
        if t is None:
            self.bad = True
            return None, None
        return t, sub(ret, env)


class Skip(Exception):
    pass


def expressions(depth, ops, inner, leaves):
    def hh(X):
        g = Gen(X, ops, inner, leaves)
        try:
            t, d = g.expr(depth)
        except Skip:
            X.reach("end")
            return
        if g.bad:
            X.reach("rejected")
            X.reach("end")
            return
        X.note(str(t))
        want = pyt(g.h, d)
        got = typeof(t)
        X.check(canonicalize(got) == canonicalize(typing.get_origin(want) or want), lambda: f"typeof({t}) = {got}, expected {want}")

        def boom(*a, **k):
            raise AssertionError("typeof ran a handler")
        with handler({**{o: boom for o, _, _ in OPS.values()}, **{v: boom for v in g.free.values()}}):
            X.check(typeof(t) is got, lambda: f"typeof({t}) under handlers")
        with handler({apply: boom}):
            X.check(typeof(t) is got, lambda: f"typeof({t}) under a handler of application")
        X.check(typeof([t]) is list and typeof((t, 1)) is tuple and typeof({"k": t}) is dict, "typeof of a container is its own type")
        cls = defdata.dispatch(got)
        X.check(type(t) is cls or not isinstance(cls, type), lambda: f"{t} is a {type(t)}, not a {cls}")
        X.reach("end")
    return hh


class Table(dict):
    """a mapping that keeps its (possibly unhashable) keys in a list"""

    def __init__(self, pairs):
        self.pairs = pairs


def preservation(X):
    """evaluating with handlers that respect their signatures gives a value of the reported type"""
    ops = ["ident", "fst", "snd", "same", "head", "left", "look", "each", "mk", "pair", "swap", "table", "rest", "dflt"]
    g = Gen(X, ops, ["ident", "mk", "pair", "swap", "table", "rest"], [("a", 0), ("a", 1), ("py", int), ("litlist",)])
    t, d = g.expr(2)
    if g.bad:
        return X.reach("end")
    mean = {ident: lambda x: x, fst: lambda a, b: a, snd: lambda a, *, b: b, same: lambda a, b: b, head: lambda xs: xs[-1], left: lambda p: p[0],
            look: lambda m, k: m.pairs[0][1], each: lambda **k: k["q"], mk: lambda a: [a], pair: lambda a, b: (a, b), swap: lambda p: (p[1], p[0]),
            table: lambda k, v: Table([(k, v)]), rest: lambda *xs: list(xs), dflt: lambda a, n: [a]}
    val = {}
    for dd, v in g.free.items():
        inst = {"a": lambda: g.h.atoms[dd[1]](), "py": lambda: 3, "list": lambda: [g.h.atoms[0]()]}[dd[0]]()
        val[v] = (lambda i: lambda: i)(inst)
    r = evaluate(t, intp={**mean, **val})
    ty = typeof(t)

    def member(v, ty):
        a = g.h.atoms
        if type(v) in a:
            return ty is object or (ty in a and bool(g.h.sub(a.index(type(v)), a.index(ty))))
        return isinstance(v, ty)
    X.check(not isinstance(r, Term), "closed evaluation")
    X.check(member(r, ty), lambda: f"{t} evaluates to {r!r}, which is not a {ty}")
    X.reach("end")


def simple(X):
    """the dispatch type of annotations: bounds, constraints, literals, generics; unions are rejected"""
    c = X.choose("case", 7)
    if c == 0:
        X.check(_simple_type(typing.TypeVar("V", bound=int)) is int, "bound")
        X.check(_simple_type(typing.TypeVar("V")) is object, "unbounded")
        X.check(_simple_type(typing.TypeVar("V", str, int)) is str, "constraints")
    elif c == 1:
        X.check(_simple_type(list[int]) is list and _simple_type(typing.Mapping[str, int]) is cabc.Mapping, "generic")
    elif c == 2:
        X.check(_simple_type(typing.Literal["a", "b"]) is str and _simple_type(typing.Literal[3]) is int, "literal")
    elif c == 3:
        for u in (int | str, typing.Literal[1, "x"]):
            try:
                _simple_type(u)
                X.fail("union accepted")
            except TypeError:
                pass
    elif c == 4:
        X.check(typeof(5) is int and typeof("s") is str and typeof([]) is list and typeof(None) is type(None), "values")
    elif c == 5:
        x = defop(int, name="x")
        X.check(typeof(deffn(x() + 1, x)) is cabc.Callable, "functions")
        X.check(typeof(x() < 3) is bool, "comparison")
        X.check(typeof(x() + 1) is int, "arithmetic")
    else:
        v = defop(int, name="v")
        X.check(isinstance(v(), type(v() + v())), "term classes")
    X.reach("end")


ALL = list(OPS)


def harnesses(tier):
    inn = ["ident", "mk", "pair", "table", "rest", "size"]
    hs = [
        H("depth1", expressions(1, ALL, ALL, LEAVES), "18 signatures x 11 argument types, subclass relation symbolic", split("op", 18), ("end", "rejected")),
        H("depth2", expressions(2, ALL, inn, LEAVES[:5] + LEAVES[6:8]), "nested: 18 signatures over 6, 7 leaf types", split("op", 18, ("op#1", 6)), ("end", "rejected")),
        H("preservation", preservation, "14 signatures over 6 with their polymorphic meanings, 4 leaf types", split("op", 14), ("end",)),
        H("simple", simple, "dispatch types", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("depth3", expressions(3, ALL, ["ident", "mk", "head", "pair", "left"], LEAVES[:4]), "depth 3", split("op", 18, ("op#1", 5)), ("end",)))
    return hs
