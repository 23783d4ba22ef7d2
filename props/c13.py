"""C13 handler objects: methods answer their operations with the object's own state, following inheritance"""
from core import *
from effectful.internals.runtime import interpreter


class World:
    def __init__(self, X):
        self.X = X

        @defop
        def A(x: int) -> int:
            raise NotHandled

        @defop
        def B(x: int) -> int:
            raise NotHandled
        self.A, self.B = A, B
        self.ops = {"A": A, "B": B}


def mk(X, w, name, bases, decl, fns, kinds):
    """a class declaring implementations for the operations in decl, through class syntax"""
    ns = {}

    def meth(opn, fn, kind):
        op = w.ops[opn]

        @implements(op)
        def impl(self, x):
            self.calls += 1
            if kind == "fwd":
                return fn(x, fwd())
            if kind == "other":
                return fn(x, w.B(x) if opn == "A" else 0)
            return fn(x, self.state)
        return impl
    for opn in decl:
        ns[f"do_{name}_{opn}"] = meth(opn, fns[name, opn], kinds.get((name, opn), "state"))

    def init(self, state):
        self.state, self.calls = state, 0
    ns["__init__"] = init
    return type(name, bases, ns)


def hierarchy(X):
    """4 class diagrams, which class declares which operation is symbolic: the first class in resolution order that declares it answers"""
    w = World(X)
    shape = X.pick("shape", ["single", "chain", "diamond", "mixin"])
    names = {"single": ["P"], "chain": ["P", "Q", "R"], "diamond": ["P", "Q", "R", "S"], "mixin": ["P", "M", "S"]}[shape]
    bases = {"single": {"P": ()}, "chain": {"P": (), "Q": ("P",), "R": ("Q",)}, "diamond": {"P": (), "Q": ("P",), "R": ("P",), "S": ("Q", "R")},
             "mixin": {"P": (), "M": (), "S": ("M", "P")}}[shape]
    fns = {(n, o): X.func(f"{n}{o}", 2) for n in names for o in "AB"}
    dec = {n: [o for o in "AB" if X.choose(f"{n}{o}", 2)] for n in names}
    cls = {}
    for n in names:
        cls[n] = mk(X, w, n, tuple(cls[b] for b in bases[n]) or (ObjectInterpretation,), dec[n], fns, {})
    X.note((shape, dec))
    s, a = X.int("s"), X.int("a")
    for n in names:
        C = cls[n]
        mro = [c.__name__ for c in C.__mro__ if c.__name__ in names]
        obj = C(s)
        want = {o: next((m for m in mro if o in dec[m]), None) for o in "AB"}
        X.check(set(obj) == {w.ops[o] for o in "AB" if want[o]} and len(obj) == len(set(obj)), f"{n}: the operations the object handles")
        with handler(obj):
            for o in "AB":
                r = w.ops[o](a)
                if want[o] is None:
                    X.check(isterm(r, w.ops[o]), f"{n}.{o}: not declared, stays unhandled")
                else:
                    X.check_eq(r, fns[want[o], o](a, s), f"{n}.{o} answered by {want[o]}")
                    X.check(w.ops[o] in obj, "membership")
                    X.check_eq(obj[w.ops[o]](a), fns[want[o], o](a, s), "looking the operation up in the object")
        X.check(obj.calls == 2 * sum(1 for o in "AB" if want[o]), "each call runs one method once, on this object")
    X.reach("end")


def state(X):
    """two objects of one class keep separate state and compose like any handlers"""
    w = World(X)
    fns = {("P", "A"): X.func("fA", 2), ("P", "B"): X.func("fB", 2)}
    kA, kB = X.pick("kA", ["state", "fwd", "other"]), X.pick("kB", ["state", "fwd"])
    P = mk(X, w, "P", (ObjectInterpretation,), ["A", "B"], fns, {("P", "A"): kA, ("P", "B"): kB})
    s, t, a = X.int("s"), X.int("t"), X.int("a")
    D = X.func("D", 1)
    base = {w.A: lambda x: D(x), w.B: lambda x: D(x)}
    o1, o2 = P(s), P(t)
    how = X.pick("how", ["nest", "coproduct", "same_twice", "dict", "sequence"])
    fA, fB = fns["P", "A"], fns["P", "B"]

    def refB(stack, x):
        if not stack:
            return D(x)
        return fB(x, stack[0]) if kB == "state" else fB(x, refB(stack[1:], x))

    def refA(stack, x, full):
        if not stack:
            return D(x)
        if kA == "state":
            return fA(x, stack[0])
        if kA == "fwd":
            return fA(x, refA(stack[1:], x, full))
        return fA(x, refB(full, x))
    if how == "nest":
        with handler(base), handler(o1), handler(o2):
            ra, rb = w.A(a), w.B(a)
        st = [t, s]
    elif how == "coproduct":
        with handler(base), handler(coproduct(o1, o2)):
            ra, rb = w.A(a), w.B(a)
        st = [t, s]
    elif how == "same_twice":
        with handler(base), handler(o1), handler(o1):
            ra, rb = w.A(a), w.B(a)
        st = [s, s]
    elif how == "dict":
        with handler(base), handler({op: o1[op] for op in o1}):
            ra, rb = w.A(a), w.B(a)
        st = [s]
    else:
        with handler(base):
            with handler(o1):
                w.A(a)
                o1.state = t          # state changes are visible to later calls
                ra, rb = w.A(a), w.B(a)
        st = [t]
    X.check_eq(ra, refA(st, a, st), f"{how} A {kA} {kB}")
    X.check_eq(rb, refB(st, a), f"{how} B {kB}")
    X.check(o2.calls == 0 or how in ("nest", "coproduct"), "objects that are not installed are not run")
    X.reach("end")


def declare(X):
    """declarations belong to the class being defined, also when definitions are nested or a body fails half way"""
    w = World(X)
    f, g, h = X.func("f", 1), X.func("g", 1), X.func("h", 1)
    a = X.int("a")
    case = X.choose("case", 4)
    if case == 0:
        class Outer(ObjectInterpretation):
            @implements(w.A)
            def one(self, x):
                return f(x)

        class Later(ObjectInterpretation):
            @implements(w.B)
            def one(self, x):
                return g(x)
        X.check(set(Outer()) == {w.A} and set(Later()) == {w.B}, "declarations leak between classes")
        with handler(Outer()), handler(Later()):
            X.check_eq(w.A(a), f(a), "A")
            X.check_eq(w.B(a), g(a), "B")
    elif case == 1:
        class Two(ObjectInterpretation):
            @implements(w.A)
            def one(self, x):
                return f(self.two(x))

            @implements(w.B)
            def two(self, x):
                return g(x)
        with handler(Two()):
            X.check_eq(w.A(a), f(g(a)), "methods remain callable as methods")
            X.check_eq(Two().two(a), g(a), "called as a method")
    elif case == 2:
        class Par(ObjectInterpretation):
            @implements(w.A)
            def one(self, x):
                return f(x)

        class Kid(Par):
            @implements(w.A)
            def other(self, x):
                return g(super().one(x))
        with handler(Kid()):
            X.check_eq(w.A(a), g(f(a)), "override calling the inherited implementation")
        with handler(Par()):
            X.check_eq(w.A(a), f(a), "the parent is not affected by the child")
    else:
        class Rep(ObjectInterpretation):
            @implements(w.A)
            def one(self, x, y=7, *rest, k=9, **kw):
                return h(x) if (y, rest, k, kw) == (7, (), 9, {}) else g(x)
        with handler(Rep()):
            X.check_eq(w.A(a), h(a), "defaults of the method")
    X.reach("end")


def harnesses(tier):
    return [
        H("hierarchy", hierarchy, "4 class diagrams (single, chain of 3, diamond, mixin), every assignment of 2 operations to classes; values symbolic, methods uninterpreted",
          split("shape", 4), ("end",)),
        H("state", state, "2 objects x 5 ways to install x 6 method behaviours", expect=("end",)),
        H("declare", declare, "4 declaration patterns", expect=("end",)),
    ]
