"""C10 products of interpretations: each component computes what it computes alone, lazily, and may consult the others"""
import collections
import dataclasses
import types
from core import *
from effectful.internals.product_n import argsof, productN, _unpack
from effectful.internals.runtime import interpreter

SETS = {"all": "ABZ", "noB": "AZ", "apply": "*", "applyA": "A*", "applyB": "B*"}
AK = ["plain", "cross", "nested", "args"]


class World:
    def __init__(self, X, n):
        self.X = X

        @defop
        def A(a: int, b: int) -> int:
            raise NotHandled

        @defop
        def B(a: int) -> int:
            return A(a, a)

        @defop
        def Z() -> int:
            raise NotHandled
        self.A, self.B, self.Z = A, B, Z
        self.ids = {A: 1, B: 2, Z: 3}
        self.prompts = [defop(object, name=f"p{i}") for i in range(n)]
        self.U = [X.func(f"U{i}", 2) for i in range(n)]
        self.V = [X.func(f"V{i}", 1) for i in range(n)]
        self.W = [X.func(f"W{i}", 3) for i in range(n)]
        self.z = [X.int(f"z{i}") for i in range(n)]
        self.c = X.int("c")
        self.count = collections.Counter()
        self.seth = [X.pick(f"set{i}", list(SETS)) for i in range(n)]
        # component i may consult the components before it
        self.ak = [X.pick(f"A{i}", AK if i else ["plain", "nested"]) if "A" in SETS[self.seth[i]] else None for i in range(n)]

    def intp(self, i):
        U, V, W, z, cnt, P = self.U[i], self.V[i], self.W[i], self.z[i], self.count, self.prompts
        k = self.ak[i]

        def hA(a, b):
            cnt[i] += 1
            if k == "plain":
                return U(a, b)
            if k == "nested":
                return U(self.B(b), a)
            if k == "cross":
                return U(a, P[i - 1]())
            if k == "args":
                (x, y), _ = argsof(P[0])
                return U(x, U(b, y))

        def hB(a):
            cnt[i] += 1
            return V(a)

        def hap(op, *args):
            cnt[i] += 1
            args = list(args) + [0, 0]
            return W(self.ids[op], args[0], args[1])
        s = SETS[self.seth[i]]
        return {**({self.A: hA} if "A" in s else {}), **({self.B: hB} if "B" in s else {}), **({self.Z: lambda: z} if "Z" in s else {}),
                **({apply: hap} if "*" in s else {})}

    # reference: value of a program node in component i; programs are tuples
    def val(self, i, e):
        s = SETS[self.seth[i]]
        if e[0] == "c":
            return self.c
        args = [self.val(i, q) for q in e[1:]]
        return self.app(i, e[0], args, e)

    def app(self, i, name, args, node=None):
        s = SETS[self.seth[i]]
        if name in s:
            if name == "Z":
                return self.z[i]
            if name == "B":
                return self.V[i](args[0])
            k = self.ak[i]
            a, b = args
            if k == "plain":
                return self.U[i](a, b)
            if k == "nested":
                if "B" not in s and "*" not in s:
                    return None     # B's default calls A again: excluded by assumption
                return self.U[i](self.app(i, "B", [b]), a)
            if k == "cross":
                return self.U[i](a, self.val(i - 1, node))
            if k == "args":
                x, y = [self.val(0, q) for q in node[1:]]
                return self.U[i](x, self.U[i](b, y))
        if "*" in s:
            args = list(args) + [0, 0]
            return self.W[i]({"A": 1, "B": 2, "Z": 3}[name], args[0], args[1])
        if name == "B":
            return self.app(i, "A", [args[0], args[0]], ("A", node[1], node[1]) if node else None)
        raise AssertionError(name)

    def build(self, e):
        if e[0] == "c":
            return self.c
        with handler({apply: defdata}):
            return {"A": self.A, "B": self.B, "Z": self.Z}[e[0]](*[self.build(q) for q in e[1:]])

    def run(self, e):
        """perform the calls directly, under the installed handlers"""
        if e[0] == "c":
            return self.c
        return {"A": self.A, "B": self.B, "Z": self.Z}[e[0]](*[self.run(q) for q in e[1:]])


Zt, Ct = ("Z",), ("c",)
PROGS = [("A", Zt, Ct), ("B", Zt), ("A", ("B", Zt), Zt), ("B", ("A", Zt, Ct)), ("A", ("A", Ct, Zt), ("B", ("B", Zt)))]


def product(n):
    def h(X):
        w = World(X, n)
        e = X.pick("prog", PROGS)
        X.note((e, w.seth, w.ak))
        # consulting another component from inside a default or nested call refers to that inner call: keep references to whole nodes
        for i in range(n):
            if w.ak[i] in ("cross", "args", "nested"):
                X.assume(consult_ok(w, i, e))
        intps = {p: w.intp(i) for i, p in enumerate(w.prompts)}
        prod = productN(intps)
        how = X.choose("how", 3)
        if how == 0:
            r = evaluate(w.build(e), intp=prod)
        elif how == 1:
            with interpreter(prod):
                r = w.run(e)
        else:
            with handler(prod):
                r = w.run(e)
        for i, p in enumerate(w.prompts):
            X.check_eq(_unpack(r, p), w.val(i, e), lambda: f"component {i} of the product on {e}")
        before = dict(w.count)
        for i, p in enumerate(w.prompts):
            X.check_eq(_unpack(r, p), w.val(i, e), "asking again gives the same value")
        X.check(dict(w.count) == before, "a component is computed at most once")
        X.reach("end")
    return h


def consult_ok(w, i, e):
    # components consult at nodes that are calls of A in the program itself; B's default would introduce another A call
    # reached by a handler-internal call, whose other components are computed on that inner call
    s = SETS[w.seth[i]]
    if w.ak[i] == "nested":
        return "B" in s or "*" in s       # otherwise B's default calls A, which calls B ...
    return "B" in s or "*" in s or not has(e, "B")


def has(e, name):
    return e[0] == name or any(has(q, name) for q in e[1:])


def once(X):
    """a shared intermediate result is computed once per component, however often it is used or asked for"""
    w = World(X, 2)
    for i in (0, 1):
        X.assume(w.seth[i] in ("all", "apply", "applyA") and w.ak[i] in ("plain", None))
    prod = productN({p: w.intp(i) for i, p in enumerate(w.prompts)})
    with handler(prod):
        z = w.Z()
        b = w.B(z)
        n0 = dict(w.count)
        r = w.A(b, w.A(b, b))
    for _ in range(2):
        for i, p in enumerate(w.prompts):
            vb = w.app(i, "B", [w.app(i, "Z", [])])
            X.check_eq(_unpack(b, p), vb, "shared intermediate")
            X.check_eq(_unpack(r, p), w.app(i, "A", [vb, w.app(i, "A", [vb, vb])]), "result")
    # Z, B, A, A: one run each (Z is not counted when it has its own handler)
    for i in (0, 1):
        s = SETS[w.seth[i]]
        X.check(w.count[i] == ("Z" not in s) + 3, lambda: f"component {i} ran {w.count[i]} handlers")
    X.reach("end")


def falsy(X):
    """whatever value a component computes (None, empty, zero), it is computed at most once, and its effects happen once and in demand order"""
    p, q = defop(object, name="p"), defop(object, name="q")

    @defop
    def g(x: object) -> object:
        raise NotHandled

    @defop
    def h(x: object) -> object:
        raise NotHandled
    n = X.int("n")
    val = X.pick("val", [None, 0, False, "", (), [], {}, "n"])
    val = n if val == "n" else val
    log = []

    def mk(tag, cross):
        def hg(x):
            log.append(("g", tag))
            return val

        def hh(x):
            log.append(("h", tag))
            return (x, q() if cross else x)
        return {g: hg, h: hh}
    cross = X.choose("cross", 2)
    prod = productN({p: mk("p", cross), q: mk("q", 0)})
    first = X.pick("first", ["p", "q"])
    with interpreter(prod):
        r = g(1)
        s = h(r)
        order = [("p", p), ("q", q)] if first == "p" else [("q", q), ("p", p)]
    for _ in range(3):
        for tag, pr in order:
            X.check(same(X, _unpack(r, pr), val), lambda: f"value {_unpack(r, pr)!r}")
            vs = _unpack(s, pr)
            want = (val, (val, val)) if tag == "p" and cross else (val, val)
            X.check(same(X, vs, want), lambda: f"{tag}: {vs!r} instead of {want!r}")
    X.check(sorted(log) == sorted([(o, t) for o in "gh" for t in "pq"]), lambda: f"each handler runs exactly once: {log}")
    X.reach("end")


@dataclasses.dataclass
class Rec:
    a: object
    b: object


NT = collections.namedtuple("NT", "a b")


def structure(X):
    """structured arguments are projected component-wise; everything else passes through unchanged"""
    p, q = defop(object, name="p"), defop(object, name="q")

    @defop
    def Z() -> int:
        raise NotHandled

    @defop
    def take(*args, **kwargs) -> object:
        raise NotHandled
    zp, zq, c = X.int("zp"), X.int("zq"), X.int("c")
    mk = X.pick("shape", [
        lambda z: [z, c], lambda z: (z, c), lambda z: {"k": z, "c": c}, lambda z: collections.OrderedDict([("k", z), ("c", [c])]),
        lambda z: NT(z, c), lambda z: Rec(z, c), lambda z: [{"k": (z, [c, z])}], lambda z: "text", lambda z: b"bytes", lambda z: None,
        lambda z: collections.defaultdict(list, {"k": z}), lambda z: types.MappingProxyType({"k": [z]}), lambda z: range(3), lambda z: Rec([z], {"d": c})])
    got = {}
    zfn = {p: lambda: zp, q: lambda: zq}
    intps = {pr: {Z: zfn[pr], take: (lambda pr: lambda *a, **k: got.__setitem__(pr, (a, k)) or c)(pr)} for pr in (p, q)}
    with interpreter(productN(intps)):
        kw = X.choose("kw", 2)
        z = Z()
        v = mk(z)
        r = take(5, key=v) if kw else take(v, 5)
    for pr, val in ((p, zp), (q, zq)):
        X.check_eq(_unpack(r, pr), c, "result")
        want = mk(val)
        a, k = got[pr]
        X.check(same(X, a, (5,) if kw else (want, 5)), lambda: f"positional arguments seen by a component: {a}")
        X.check(same(X, k, {"key": want} if kw else {}), lambda: f"keyword arguments seen by a component: {k}")
    X.check(_unpack(c, p) is c, "plain values project to themselves")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("product2", product(2), "2 components, each handling 1 of 5 operation sets (incl. generic application and defaults) with 4 handler shapes, consulting the "
          "other component or its arguments, 5 programs, 3 ways to run; all values, handlers uninterpreted", split("set0", 5, ("set1", 5)), ("end",)),
        H("once", once, "shared intermediate results, 3x3 operation sets", expect=("end",)),
        H("falsy", falsy, "8 kinds of values incl. None/empty, cross consultation, both demand orders", expect=("end",)),
        H("structure", structure, "14 argument shapes, positional and keyword", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("product3", product(3), "3 components", split("set0", 5, ("set1", 5)), ("end",)))
    return hs
