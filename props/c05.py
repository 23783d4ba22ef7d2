"""C05 evaluation is a structure-preserving homomorphism"""
import collections, dataclasses, types
from core import *

NT = collections.namedtuple("NT", ["first", "second"])


@dataclasses.dataclass
class DC:
    left: object
    right: object


@dataclasses.dataclass(frozen=True)
class FDC:
    only: object


class MyList(list):
    pass


class OD(collections.OrderedDict):
    pass


class World:
    def __init__(self, X):
        self.X = X
        self.log = []
        self.rlog = []
        self.x, self.y = defop(int, name="x"), defop(int, name="y")

        @defop
        def f(a: int, b: int, *, k: int = 3) -> int:
            raise NotHandled

        @defop
        def g(*xs):
            raise NotHandled
        self.f, self.g = f, g
        self.Ux, self.Uf = X.int("vx"), X.func("Uf", 3)
        # which operations are handled is a symbolic choice
        self.handled = X.pick("handled", ["all", "x", "f", "fx", "none"])

    def intp(self):
        log = self.log
        i = {}

        def hx():
            log.append("x")
            return self.Ux

        def hf(a, b, *, k=3):
            log.append("f")
            return self.Uf(a, b, k) if not any(isinstance(v, Term) for v in (a, b, k)) else ("open", a, b, k)

        def hg(*xs):
            log.append("g")
            return list(xs)
        if self.handled in ("all", "x", "fx"):
            i[self.x] = hx
        if self.handled in ("all", "f", "fx"):
            i[self.f] = hf
        if self.handled == "all":
            i[self.g] = hg
        return i

    # reference evaluation of the expression *description*
    def build(self, d):
        k = d[0]
        if k == "lit":
            return d[1]
        if k == "x":
            return self.x()
        if k == "y":
            return self.y()
        if k == "op":
            return d[1]
        if k == "f":
            return self.f(self.build(d[1]), self.build(d[2]))
        if k == "fk":
            return self.f(self.build(d[1]), 1, k=self.build(d[2]))
        if k == "g":
            return self.g(*[self.build(s) for s in d[1:]])
        if k == "gc":
            return self.g(CONT[d[1]](*[self.build(s) for s in d[2:]]))
        if k == "cont":
            return CONT[d[1]](*[self.build(s) for s in d[2:]])
        raise AssertionError(d)

    def ref(self, d):
        k, h = d[0], self.handled
        if k == "lit" or k == "op":
            return d[1]
        if k == "x":
            if h in ("all", "x", "fx"):
                self.rlog.append("x")
                return self.Ux
            return self.x()
        if k == "y":
            return self.y()
        if k in ("f", "fk"):
            a = self.ref(d[1])
            b = self.ref(d[2])
            a, b, kk = (a, b, 3) if k == "f" else (a, 1, b)
            if h in ("all", "f", "fx"):
                self.rlog.append("f")
                return self.Uf(a, b, kk) if not any(isinstance(v, Term) for v in (a, b, kk)) else ("open", a, b, kk)
            return self.f(a, b, k=kk)
        if k in ("g", "gc"):
            args = [self.ref(s) for s in d[1:]] if k == "g" else [CONT[d[1]](*[self.ref(s) for s in d[2:]])]
            if h == "all":
                self.rlog.append("g")
                return list(args)
            return self.g(*args)
        if k == "cont":
            return CONT[d[1]](*[self.ref(s) for s in d[2:]])
        raise AssertionError(d)


CONT = {
    "list": lambda a, b: [a, 7, b],
    "mylist": lambda a, b: MyList([a, b]),
    "tuple": lambda a, b: (a, b, "s"),
    "dict": lambda a, b: {"p": a, "q": b, 3: None},
    "nt": lambda a, b: NT(a, b),
    "dc": lambda a, b: DC(a, b),
    "fdc": lambda a, b: FDC([a, b]),
    "ddict": lambda a, b: collections.defaultdict(list, {"p": a, "q": b}),
    "odict": lambda a, b: collections.OrderedDict([("q", a), ("p", b)]),
    "proxy": lambda a, b: types.MappingProxyType({"p": a, "q": b}),
    "nest": lambda a, b: ([a], {"k": (1, [DC(b, (2,))])}),
    "bytes": lambda a, b: [b"ab", a, "text", b],
}


def leaf(X, w, tag):
    k = X.pick("leaf", ["lit", "x", "y", "f", "fk"])
    if k == "lit":
        return ("lit", X.int("c"))
    if k in ("f", "fk"):
        return (k, X.pick("l", [("x",), ("y",)]), ("lit", X.int("c")))
    return (k,)


def one(X):
    w = World(X)
    a = leaf(X, w, "a")
    b = X.pick("b", [("x",), ("lit", 4), ("f", ("x",), ("x",))])
    c = X.pick("cont", list(CONT))
    top = X.pick("top", ["cont", "gc", "g", "contcont"])
    if top == "cont":
        d = ("cont", c, a, b)
    elif top == "gc":
        d = ("gc", c, a, b)
    elif top == "g":
        d = ("g", a, ("gc", c, b, a), b)
    else:
        d = ("cont", "list", ("cont", c, a, b), b)
    e = w.build(d)
    keep = w.build(d)
    intp = w.intp()
    want = w.ref(d)
    X.note(c, top, w.handled)
    got = evaluate(e, intp=intp)
    X.check(same(X, got, want), lambda: f"evaluate(intp=..): {got!r} != {want!r}")
    X.check(w.log == w.rlog, lambda: f"each handled operation runs once per occurrence, innermost and leftmost first: {w.log} vs {w.rlog}")
    with handler(intp):
        got2 = evaluate(e)
    X.check(same(X, got2, want), lambda: f"under handler: {got2!r} != {want!r}")
    X.check(same(X, e, keep), "the input expression must not be modified")
    n = len(w.log)
    idt = evaluate(e)
    X.check(same(X, idt, e), lambda: f"evaluation without handlers: {idt!r}")
    X.check(len(w.log) == n, "no handler may run after it was uninstalled")
    X.reach("end")


class NT3(collections.namedtuple("NT3", ["only"])):
    pass


HOLES = {
    "list": lambda a: [a], "list2": lambda a: [1, a], "tuple": lambda a: (a,), "tuple0": lambda a: ((), a, []), "dict": lambda a: {"k": a},
    "dictint": lambda a: {0: a, None: "t"}, "nt": lambda a: NT(1.5, a), "nt3": lambda a: NT3(a), "dcleft": lambda a: DC(a, "s"), "dcright": lambda a: DC(2.5, a),
    "fdc": lambda a: FDC(a), "ddict": lambda a: collections.defaultdict(list, {1: a}), "odict": lambda a: collections.OrderedDict(z=1, b=a),
    "proxy": lambda a: types.MappingProxyType({b"k": a}), "mylist": lambda a: MyList([a]), "od": lambda a: OD(q=a, p=0), "none": lambda a: (None, a, True, 2j),
    "values": lambda a: [a, range(3), b"x", frozenset({1})],
}


def holes(X):
    """one term in a container in a container (in an argument): found whatever surrounds it, and everything else is untouched"""
    w = World(X)
    X.assume(w.handled in ("x", "all"))
    c1, c2 = X.pick("c1", sorted(HOLES)), X.pick("c2", sorted(HOLES))
    mk = lambda v: HOLES[c1](HOLES[c2](v))   # noqa
    how = X.pick("how", ["plain", "arg", "kwarg"])

    @defop
    def op(a, *, k=0):
        raise NotHandled
    e = {"plain": lambda: mk(w.x()), "arg": lambda: op(mk(w.x())), "kwarg": lambda: op(1, k=mk(w.x()))}[how]()
    seen = []

    def hop(a, *, k=0):
        seen.append((a, k))
        return 1
    got = evaluate(e, intp={**w.intp(), op: hop})
    val = got if how == "plain" else seen[0][0] if how == "arg" else seen[0][1]
    X.check(same(X, val, mk(w.Ux)), lambda: f"{c1}({c2}) {how}: {val!r}")
    X.check(how == "plain" or len(seen) == 1, "evaluated once")
    X.reach("end")


def keys(X):
    """mapping keys are expressions too; keys, values and items views evaluate elementwise"""
    w = World(X)
    X.assume(w.handled == "all")
    z = defop(int, name="z")
    c = X.int("c")
    x = w.x
    ren = {x: z}
    ku, kv = X.pick("key", [(lambda o: o), (lambda o: (o, 1)), (lambda o: (1, (o, "s")))]), X.pick("val", [lambda o: o, lambda o: c, lambda o: [o, c], lambda o: {o: 1}])
    mp = X.pick("map", [lambda i: dict(i), lambda i: collections.OrderedDict(i), lambda i: collections.defaultdict(list, dict(i)), lambda i: types.MappingProxyType(dict(i)),
                        lambda i: OD(i)])
    mk = lambda o: mp([("a", 0), (ku(o), kv(o)), ("b", kv(o))])   # noqa
    got = evaluate(mk(x), intp=ren)
    X.check(same(X, got, mk(z)), lambda: f"{got!r}")
    got = evaluate([mk(x), (mk(x),)], intp=ren)
    X.check(same(X, got, [mk(z), (mk(z),)]), lambda: f"{got!r}")
    d = {"k": x, "j": z}
    X.check(evaluate(d.values(), intp=ren) == [z, z], "values view")
    d = {x: 1, "j": 2}
    X.check(evaluate(d.keys(), intp=ren) == {z, "j"}, "keys view")
    X.check(evaluate(d.items(), intp=ren) == {(z, 1), ("j", 2)}, "items view")
    X.reach("end")


def hom(X):
    """evaluating a term is calling the operation on evaluated arguments; staged evaluation equals joint evaluation"""
    w = World(X)
    x, y, f = w.x, w.y, w.f
    a, b = X.int("a"), X.int("b")
    t = X.pick("t", [lambda: f(x(), y()), lambda: f(f(x(), a), f(y(), x()), k=y()), lambda: f(x() + a, 2 * y()),
                     lambda: f(x(), b) + f(y(), x())])()
    vx, vy = X.int("ex"), X.int("ey")
    U = X.func("U", 3)
    ix, iy, ifn = {x: lambda: vx}, {y: lambda: vy}, {f: lambda p, q, k=3: U(p, q, k) if all(pytype(v) is int for v in (p, q, k)) else fwd()}
    joint = evaluate(t, intp={**ix, **iy, **ifn})
    X.check(pytype(joint) is int, lambda: f"closed evaluation must give a value: {joint!r}")
    order = X.pick("order", [(ix, iy, ifn), (iy, ix, ifn), (ix, ifn, iy), (ifn, ix, iy), (ifn, iy, ix), (iy, ifn, ix)])
    s = t
    for i in order:
        s = evaluate(s, intp=i)
    # f may have been left open when its own stage came first: finish it
    s = evaluate(s, intp=ifn)
    X.check_eq(s, joint, "staged vs joint evaluation")
    with handler({**ix, **iy, **ifn}):
        X.check_eq(evaluate(t), joint, "handler vs intp")
        X.check_eq(evaluate([t, (t,)]), [joint, (joint,)], "inside containers")
    X.reach("end")


def renaming(X):
    """an interpretation that maps an operation to an operation replaces it everywhere, including operation-valued arguments"""
    w = World(X)
    f2 = defop(w.f)
    x, z = w.x, defop(int, name="z")

    @defop
    def use(op: Operation, v: int) -> int:
        raise NotHandled
    c = X.int("c")
    t = X.pick("t", [lambda o, p: use(o, p()), lambda o, p: [use(o, 1), p() + c], lambda o, p: {"a": o, "b": (p(), o)},
                     lambda o, p: use(o, w.f(p(), c))])
    got = evaluate(t(x, x), intp={x: z})
    X.check(same(X, got, t(z, z)), lambda: f"{got!r}")
    X.check(same(X, evaluate(t(x, x), intp={w.y: z}), t(x, x)), "renaming an absent variable")
    v = X.int("v")
    got = evaluate(t(x, x), intp={x: lambda: v})
    X.check(same(X, got, evaluate(t(x, x), intp={x: lambda: v})), "deterministic")
    X.reach("end")


def harnesses(tier):
    return [
        H("structure", one, "12 container shapes x 4 nestings x 5 leaf kinds x 3 sibling kinds x 5 handled-sets; leaves symbolic, handlers uninterpreted",
          split("handled", 5, ("leaf", 5)), ("end",)),
        H("hom", hom, "4 term shapes x 6 staging orders, values symbolic, f uninterpreted", split("t", 4), ("end",)),
        H("holes", holes, "18 x 18 one-hole containers x 3 positions", split("c1", len(HOLES)), ("end",)),
        H("keys", keys, "5 mapping types, 3 key shapes, 4 value shapes, views", expect=("end",)),
        H("renaming", renaming, "operation-for-operation replacement, 4 shapes", expect=("end",)),
    ]
