"""C09 syntactic equality: the documented structural relation, symmetric, without running anything"""
import collections, dataclasses, types
from core import *

NT = collections.namedtuple("NT", ["p", "q"])
NT2 = collections.namedtuple("NT2", ["p", "q"])


@dataclasses.dataclass
class DA:
    p: object
    q: object


@dataclasses.dataclass
class DB:
    p: object
    q: object


class ML(list):
    pass


@defop
def f(*a, **k) -> object:
    raise NotHandled


@defop
def f2(*a, **k) -> object:
    raise NotHandled


x, y = defop(int, name="x"), defop(int, name="x")   # same name, distinct

SHAPES = {
    "int": lambda a, b: a,
    "list": lambda a, b: [a, b],
    "list1": lambda a, b: [a],
    "tuple": lambda a, b: (a, b),
    "dict": lambda a, b: {"p": a, "q": b},
    "dictr": lambda a, b: {"q": b, "p": a},
    "dict1": lambda a, b: {"p": a},
    "odict": lambda a, b: collections.OrderedDict([("q", b), ("p", a)]),
    "proxy": lambda a, b: types.MappingProxyType({"p": a, "q": b}),
    "nt": lambda a, b: NT(a, b),
    "nt2": lambda a, b: NT2(a, b),
    "da": lambda a, b: DA(a, b),
    "db": lambda a, b: DB(a, b),
    "f": lambda a, b: f(a, b),
    "fk": lambda a, b: f(a, k=b),
    "fkk": lambda a, b: f(j=a, k=b),
    "fkr": lambda a, b: f(k=b, j=a),
    "f0": lambda a, b: f(),
    "f1": lambda a, b: f(a),
    "fk1": lambda a, b: f(k=b),
    "fj1": lambda a, b: f(j=b),
    "fkj1": lambda a, b: f(a, b, k=a),
    "f3": lambda a, b: f(a, b, 1),
    "list3": lambda a, b: [a, b, 1],
    "dict1q": lambda a, b: {"q": a},
    "dict3": lambda a, b: {"p": a, "q": b, "r": 1},
    "dictx": lambda a, b: {x: a, "q": b},
    "mylist": lambda a, b: ML([a, b]),
    "f2": lambda a, b: f2(a, b),
    "x": lambda a, b: x(),
    "y": lambda a, b: y(),
    "xop": lambda a, b: x,
    "add": lambda a, b: x() + a,
    "strs": lambda a, b: "ab",
    "strlist": lambda a, b: ["a", "b"],
    "str1": lambda a, b: "a",
    "str1list": lambda a, b: ["a"],
    "bytes1": lambda a, b: b"a",
    "bytes1list": lambda a, b: [97],
    "none": lambda a, b: None,
    "emptyl": lambda a, b: [],
    "emptyt": lambda a, b: (),
    "emptyd": lambda a, b: {},
    "emptys": lambda a, b: "",
}


def ref(X, a, b):
    """the documented relation, written independently"""
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if ta or tb:
        if not (ta and tb) or a.op is not b.op or len(a.args) != len(b.args) or set(a.kwargs) != set(b.kwargs):
            return False
        return X.all([ref(X, p, q) for p, q in zip(a.args, b.args)] + [ref(X, a.kwargs[k], b.kwargs[k]) for k in a.kwargs])
    if symx.issym(a) or symx.issym(b):
        return X.eq(a, b)
    da, db = dataclasses.is_dataclass(a), dataclasses.is_dataclass(b)
    if da or db:
        return type(a) is type(b) and X.all(ref(X, getattr(a, n), getattr(b, n)) for n in ("p", "q"))
    na, nb = hasattr(a, "_fields"), hasattr(b, "_fields")
    if na or nb:
        return type(a) is type(b) and X.all(ref(X, p, q) for p, q in zip(a, b))
    atom = (str, bytes, int, type(None), Operation)
    if isinstance(a, atom) or isinstance(b, atom):
        return bool(a == b) if isinstance(a, atom) and isinstance(b, atom) else False
    ma, mb = isinstance(a, collections.abc.Mapping), isinstance(b, collections.abc.Mapping)
    if ma or mb:
        return ma and mb and set(a) == set(b) and X.all(ref(X, a[k], b[k]) for k in a)
    return len(a) == len(b) and X.all(ref(X, p, q) for p, q in zip(a, b))


def explode(*a, **k):
    raise AssertionError("syntactic equality ran an operation")


def quiet(k):
    with handler({x: explode, y: explode, f: explode, f2: explode, apply: explode}):
        return k()


def compare(X, u, v, what):
    want = ref(X, u, v)
    got = quiet(lambda: syntactic_eq(u, v))
    X.check(X.eq(got, want) if symx.isbool(got) else False, lambda: f"{what}: syntactic_eq({u!r}, {v!r}) = {got!r}, expected {want!r}")
    rev = quiet(lambda: syntactic_eq(v, u))
    X.check(X.eq(rev, want), lambda: f"{what} (swapped): syntactic_eq({v!r}, {u!r}) = {rev!r}, expected {want!r}")


def pairs(X):
    s1 = X.pick("s1", list(SHAPES))
    s2 = X.pick("s2", list(SHAPES))
    a, b, c, d = (X.int(n) for n in "abcd")
    wrap = X.pick("wrap", [lambda z: z, lambda z: [1, z], lambda z: f(z, x()), lambda z: {"w": (z,)}])
    u, v = wrap(SHAPES[s1](a, b)), wrap(SHAPES[s2](c, d))
    compare(X, u, v, f"{s1} vs {s2}")
    X.reach("end")


def nested(X):
    """differences in exactly one deep position"""
    a, b = X.int("a"), X.int("b")
    tmpl = X.pick("tmpl", [lambda z: f([x(), {"k": (z, 1)}], k=f2(z)), lambda z: [f(f(f(z))), DA(z, NT(1, z))],
                           lambda z: {"a": f(k=[z]), "b": x() + y()}, lambda z: deffn(f(z), defop(int)), lambda z: (((z,),), "s")])
    u, v = tmpl(a), tmpl(b)
    want = X.eq(a, b)
    if isinstance(u, Term) and u.op is deffn:
        want = False      # binders are compared by identity
    for p, q in ((u, v), (v, u)):
        X.check_eq(quiet(lambda: syntactic_eq(p, q)), want, "one position differs")
    X.check(quiet(lambda: syntactic_eq(u, u)), "reflexive")
    X.reach("end")


def operator_eq(X):
    """== between terms is syntactic equality too"""
    a, b = X.int("a"), X.int("b")
    t = X.pick("t", [lambda z: f(z), lambda z: f(x(), k=z), lambda z: defdata(f, [z, x()])])
    X.check_eq(t(a) == t(b), X.eq(a, b), "term == term")
    X.check_eq(t(a) != t(b), X.not_(X.eq(a, b)), "term != term")
    n1, n2 = x() + a, x() + b
    X.check_eq(n1 == n2, X.eq(a, b), "numeric term == numeric term")
    X.check_eq(n1 == (y() + a), False, "different variables")
    X.reach("end")


def transitive(X):
    """equal-by-syntax triples compose (over-approximated by the reference relation being an equivalence on the shapes)"""
    names = ["list", "tuple", "dict", "dictr", "odict", "nt", "da", "f", "fkk", "fkr", "strs", "strlist"]
    s = [X.pick(f"t{i}", names) for i in range(3)]
    vs = [SHAPES[n](X.int(f"a{i}"), X.int(f"b{i}")) for i, n in enumerate(s)]
    if syntactic_eq(vs[0], vs[1]) and syntactic_eq(vs[1], vs[2]):
        X.check(syntactic_eq(vs[0], vs[2]), "transitivity")
        X.reach("trans")
    else:
        X.check(True)


def harnesses(tier):
    n = len(SHAPES)
    return [
        H("pairs", pairs, f"all ordered pairs of {n} shapes x 4 contexts, both directions; leaves symbolic",
          split("s1", n), ("end",)),
        H("nested", nested, "5 deep templates", expect=("end",)),
        H("operator", operator_eq, "== and != on terms", expect=("end",)),
        H("transitive", transitive, "triples over 12 shapes with symbolic leaves", split("t0", 12), ("trans",)),
    ]
