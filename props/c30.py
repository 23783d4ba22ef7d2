"""C30 operations of classes and instances; operation identity and freshness"""
import functools
import inspect
from core import *


def klass(X, U, default):
    class C:
        def __init__(self, n):
            self.n = n

        @defop
        def m(self, x: int) -> int:
            if default == "free":
                raise NotHandled
            return U(self.n, x)

        @defop
        def other(self, x: int) -> int:
            return self.m(x)

    class D(C):
        pass

    class E(C):
        @defop
        def m(self, x: int) -> int:
            return U(self.n, super().m(x))
    return C, D, E


def instances(X):
    """who answers obj.m(x): a handler of that object's operation, else a handler of the class's operation (given the object), else the default"""
    U = X.func("U", 2)
    default = X.pick("default", ["value", "free"])
    C, D, E = klass(X, U, default)
    cls = X.pick("cls", [C, D])
    n1, n2, a = X.int("n1"), X.int("n2"), X.int("a")
    o1, o2 = cls(n1), cls(n2)
    HC, H1, H2 = X.func("HC", 2), X.func("H1", 1), X.func("H2", 2)
    cfg = [X.choose(k, 3) for k in ("hC", "h1")]   # 0 absent, 1 handles, 2 forwards
    order = X.choose("order", 2)
    hc = {C.m: (lambda self, x: HC(self.n, x)) if cfg[0] == 1 else (lambda self, x: H2(x, fwd()))}
    h1 = {o1.m: (lambda x: H1(x)) if cfg[1] == 1 else (lambda x: H2(fwd(), x))}
    frames = [f for f, k in ((hc, cfg[0]), (h1, cfg[1])) if k]
    if order:
        frames.reverse()
    # a free default stays a term; only combine it with handlers that need no value
    X.assume(not (default == "free" and 2 in cfg))

    def ref_class(n, x):
        d = ("term",) if default == "free" else U(n, x)
        if cfg[0] == 1:
            return HC(n, x)
        if cfg[0] == 2:
            return H2(x, d)
        return d

    def ref(o, n, x):
        if o is o1 and cfg[1] == 1:
            return H1(x)
        if o is o1 and cfg[1] == 2:
            return H2(ref_class(n, x), x)
        return ref_class(n, x)

    def call():
        out = {}
        for k, o, n in (("1", o1, n1), ("2", o2, n2)):
            out[k] = (o.m(a), o, n)
            out[k + "other"] = (o.other(a), o, n)
        out["unbound"] = (C.m(o2, a), o2, n2)
        return out
    import contextlib
    with contextlib.ExitStack() as st:
        for f in frames:
            st.enter_context(handler(f))
        res = call()
    for k, (r, o, n) in res.items():
        want = ref(o, n, a)
        if want == ("term",):
            if k == "unbound":
                X.check(isterm(r) and r.op in (C.m, o.m), "unbound call stays a term")
            else:
                X.check(isterm(r, o.m) and X.eq(r.args[0], a) and len(r.args) == 1, lambda: f"{k}: unhandled call is the instance operation's term, got {r}")
            X.reach("term")
            # evaluating the term later asks the instance's handlers
            X.check_eq(evaluate(r, intp={o.m: lambda x: H1(x), C.m: lambda s, x: HC(s.n, x)}), H1(a) if k != "unbound" or r.op is o.m else HC(n, a), "evaluating the term later")
        else:
            X.check_eq(r, want, f"call {k} with handlers {cfg} order {order}")
    X.check(o1.m is o1.m and o2.m is o2.m and o1.m is not o2.m and o1.m != o2.m, "each instance has one operation of its own")
    X.check(isinstance(o1.m, Operation) and isinstance(C.m, Operation) and (cls is C or cls.m is C.m), "attribute access gives operations")
    X.reach("end")


def inherit(X):
    U = X.func("U", 2)
    C, D, E = klass(X, U, "value")
    n, a = X.int("n"), X.int("a")
    e = E(n)
    HC, HE = X.func("HC", 2), X.func("HE", 2)
    X.check_eq(e.m(a), U(n, U(n, a)), "override calling the inherited operation")
    X.check(E.m is not C.m, "an override is its own operation")
    with handler({C.m: lambda self, x: HC(self.n, x)}):
        X.check_eq(e.m(a), U(n, HC(n, a)), "handling the inherited operation")
        X.check_eq(e.other(a), U(n, HC(n, a)), "through another method")
    with handler({E.m: lambda self, x: HE(self.n, x)}):
        X.check_eq(e.m(a), HE(n, a), "handling the override")
        X.check_eq(C(n).m(a), U(n, a), "handler of the override does not reach the parent class")
    X.reach("end")


def kinds(X):
    """classmethods, staticmethods, single dispatch methods, functions, copies, types"""
    U, V, W = X.func("U", 1), X.func("V", 1), X.func("W", 1)
    a, b = X.int("a"), X.int("b")

    class K:
        @defop
        @classmethod
        def cm(cls, x: int) -> int:
            return U(x) if cls is K else V(x)

        @defop
        @staticmethod
        def sm(x: int) -> int:
            return W(x)

        @defop
        @functools.singledispatchmethod
        def sd(self, x):
            raise NotHandled

        @sd.register(int)
        def _(self, x: int):
            return U(x)

        @sd.register(list)
        def _(self, x: list):
            return V(x[0])

    class L(K):
        pass
    case = X.choose("case", 7)
    k = K()
    if case == 0:
        X.check_eq(K.cm(a), U(a), "classmethod default")
        X.check_eq(L.cm(a), V(a), "classmethod default in a subclass")
        X.check(K.cm is K.cm and K.cm is k.cm and K.cm is not L.cm, "one operation per class")
        with handler({K.cm: lambda x: W(x)}):
            X.check_eq(K.cm(a), W(a), "handled")
            X.check_eq(k.cm(a), W(a), "handled through an instance")
            X.check_eq(L.cm(a), V(a), "the subclass has its own operation")
    elif case == 1:
        X.check(K.sm is K.sm and k.sm is K.sm, "one operation")
        X.check_eq(k.sm(a), W(a), "staticmethod default")
        with handler({K.sm: lambda x: U(x)}):
            X.check_eq(k.sm(a), U(a), "handled")
            X.check_eq(L.sm(a), U(a), "handled in a subclass")
    elif case == 2:
        X.check_eq(k.sd(a), U(a), "dispatch on an int")
        X.check_eq(k.sd([b]), V(b), "dispatch on a list")
        with handler({K.sd: lambda self, x: W(a)}):
            X.check_eq(k.sd([b]), W(a), "handled")
        X.check(isterm(k.sd("s")), "no case: stays a term")
    elif case == 3:
        @defop
        def f(x: int, y: int = 3) -> int:
            return U(x)
        g = defop(f)
        h = defop(f, name="h")
        X.check(len({f, g, h, defop(f)}) == 4 and f != g and g != h, "copies are distinct operations")
        X.check(isterm(g(a), g) and isterm(h(a), h), "a copy has no default")
        X.check(g.__name__ == f.__name__ and h.__name__ == "h" and str(h) == "h", "names")
        X.check(g.__signature__ == f.__signature__, "a copy has the same signature")
        with handler({g: lambda x, y=3: V(x)}):
            X.check_eq(g(a), V(a), "handling the copy")
            X.check_eq(f(a), U(a), "does not touch the original")
        with handler({f: lambda x, y=3: W(x)}):
            X.check_eq(f(a), W(a), "handling the original")
            X.check(isterm(g(a), g), "does not touch the copy")
    elif case == 4:
        ty = X.pick("ty", [int, str, list, dict, object, list[int]])
        x, y = defop(ty, name="x"), defop(ty, name="x")
        X.check(x != y and x is not y and not (x == y), "variables with the same name are distinct")
        X.check(isterm(x(), x) and x().args == () and dict(x().kwargs) == {}, "a variable is a nullary operation")
        with handler({x: lambda: a}):
            X.check_eq(x(), a, "handled")
            X.check(isterm(y(), y), "the other is not")
        X.check({x: 1, y: 2}[x] == 1 and {x: 1, y: 2}[y] == 2, "usable as mapping keys")
    elif case == 5:
        # defining from the same function twice gives two operations
        def fn(x: int) -> int:
            return U(x)
        f, g = defop(fn), defop(fn)
        X.check(f != g and len({f, g}) == 2, "always fresh")
        with handler({f: lambda x: V(x)}):
            X.check_eq(f(a), V(a), "handled")
            X.check_eq(g(a), U(a), "the other runs its default")
    else:
        s = defop(sum)
        x = defop(int, name="x")
        X.check_eq(s([a, b]), a + b, "a builtin made an operation runs on values")
        t = s([x(), b])
        X.check(isterm(t, s), "and stays a term on terms")
        X.check_eq(evaluate(t, intp={x: lambda: a}), a + b, "until evaluated")
        X.check((s < x) != (x < s) and s <= s and not s < s and (s <= x) == (not x < s), "operations are totally ordered")
    X.reach("end")


def harnesses(tier):
    return [
        H("instances", instances, "2 instances x {class, subclass} x {default, free} x handlers of class/instance (absent, answering, forwarding) x 2 nestings; "
          "values symbolic, bodies uninterpreted", split("hC", 3), ("end", "term")),
        H("inherit", inherit, "overriding with super()", expect=("end",)),
        H("kinds", kinds, "classmethod, staticmethod, singledispatchmethod, copies, variables, builtins", split("case", 7), ("end",)),
    ]
