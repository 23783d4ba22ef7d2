"""C14 arithmetic and comparison syntax on numeric terms means what it means on numbers"""
import math
import operator
from core import *

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "/": operator.truediv,
       "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq}
UN = {"neg": operator.neg, "pos": operator.pos, "inv": operator.invert, "abs": abs, "round": round, "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil,
      "index": operator.index}
CMP = ["<", "<=", ">", ">=", "=="]


def outcome(fn):
    try:
        return ("ok", fn())
    except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
        return ("exc", type(e))


def agree(X, got, want, msg):
    X.check(got[0] == want[0], lambda: f"{msg}: {got} instead of {want}")
    if got[0] == "exc":
        X.check(got[1] is want[1], lambda: f"{msg}: raises {got[1]} instead of {want[1]}")
        X.reach("raises")
    else:
        X.check(got[1] is not NotImplemented, f"{msg}: NotImplemented escaped")
        X.check_eq(got[1], want[1], msg)


def binary(X):
    name = X.pick("op", list(BIN))
    op = BIN[name]
    x, y = defop(int, name="x"), defop(int, name="y")
    a, b = X.int("a"), X.int("b")
    if name in ("**", "<<", ">>"):
        # large results only slow the replay down; the operators themselves are uninterpreted symbolically
        X.assume(X.all([a >= -50, a <= 50, b >= -50, b <= 50]))
    pos = X.pick("pos", ["TT", "Tc", "cT", "same", "fT", "Tf"])
    consts = {"Tc": (x(), b), "cT": (a, y()), "TT": (x(), y()), "same": (x(), x()), "fT": (f1(x()), y()), "Tf": (x(), f1(y()))}
    l, r = consts[pos]
    lv, rv = (a, a) if pos == "same" else (a, b)
    intp = {x: lambda: a, y: lambda: b, f1: lambda q: q}
    with handler({apply: defdata}):      # comparison with == is syntax too when nothing is evaluated
        t = op(l, r)
    X.check(isterm(t), f"{name} on terms builds a term")
    agree(X, outcome(lambda: evaluate(t, intp=intp)), outcome(lambda: op(lv, rv)), f"{pos} {name}")
    if name != "==":
        u = op(l, r)
        X.check(isterm(u) and same(X, u, t), f"{pos} {name}: building the term without handlers")
        with handler(intp):
            agree(X, outcome(lambda: op(*[evaluate(q) for q in (l, r)])), outcome(lambda: op(lv, rv)), f"{pos} {name} under handlers")
        if pos == "TT":
            # one operand first
            agree(X, outcome(lambda: evaluate(evaluate(u, intp={x: lambda: a}), intp={y: lambda: b})), outcome(lambda: op(a, b)), f"{name} in two stages")
            agree(X, outcome(lambda: evaluate(evaluate(u, intp={y: lambda: b}), intp={x: lambda: a})), outcome(lambda: op(a, b)), f"{name} in two stages, right first")
    X.reach("end")


@defop
def f1(v: int) -> int:
    raise NotHandled


def unary(X):
    name = X.pick("op", list(UN))
    op = UN[name]
    x = defop(int, name="x")
    a = X.int("a")
    if name == "index":
        X.assume(X.all([a >= -10, a <= 10]))    # conversion to a machine index enumerates its values
        t = type(x()).__index__(x())     # operator.index insists on a concrete int
    else:
        t = op(x())
    X.check(isterm(t), f"{name} builds a term")
    agree(X, outcome(lambda: evaluate(t, intp={x: lambda: a})), outcome(lambda: op(a)), name)
    agree(X, outcome(lambda: evaluate(op(t + 1) if name not in ("index",) else t, intp={x: lambda: a})),
          outcome(lambda: op(op(a) + 1) if name != "index" else a), f"{name} nested")
    if name == "round":
        n = X.choose("nd", 3) - 1
        t = round(x(), n)
        X.check(isterm(t), "round with digits builds a term")
        agree(X, outcome(lambda: evaluate(t, intp={x: lambda: a})), outcome(lambda: round(a, n)), "round with digits")
    X.reach("end")


def mixed(X):
    """comparison across numeric types: the operators, with their reflected fallbacks, decide"""
    name = X.pick("op", CMP)
    op = BIN[name]
    x, y = defop(float, name="x"), defop(float, name="y")
    c = X.pick("c", [2.5, -0.5, 3.0, 1e300])
    a = X.int("a")
    pos = X.pick("pos", ["Tc", "cT", "TT", "TT2"])
    with handler({apply: defdata}):
        t = {"Tc": lambda: op(x(), c), "cT": lambda: op(c, x()), "TT": lambda: op(x(), y()), "TT2": lambda: op(y(), x())}[pos]()
    X.check(isterm(t), "comparison builds a term")
    want = op(a, c) if pos in ("Tc", "TT") else op(c, a)
    agree(X, outcome(lambda: evaluate(t, intp={x: lambda: a, y: lambda: c})), ("ok", want), f"{pos} {name} {c}")
    X.reach("end")


def constants(X):
    """the other operand is a constant of another numeric type, on either side"""
    from fractions import Fraction
    name = X.pick("op", list(BIN))
    op = BIN[name]
    ty = X.pick("ty", [int, float, bool])
    x = defop(ty, name="x")
    c = X.pick("c", [True, False, 0, 1, -3, 2.5, -1.0, 1j])
    a = X.int("a")
    X.assume(X.all([a >= -4, a <= 4]))
    a = int(a)          # mixed-type arithmetic is done by Python: every value within the bound
    pos = X.pick("pos", ["Tc", "cT"])
    with handler({apply: defdata}):
        t = outcome(lambda: op(x(), c) if pos == "Tc" else op(c, x()))
    want = outcome(lambda: op(a, c) if pos == "Tc" else op(c, a))
    X.check(t[0] == "ok", lambda: f"building {name} with {c!r}: {t}")
    got = outcome(lambda: evaluate(t[1], intp={x: lambda: a}))
    X.check(got[0] == want[0] and (got[1] == want[1] if got[0] == "ok" else got[1] is want[1]), lambda: f"{pos} {name} a={a} c={c!r}: {got} instead of {want}")
    X.check(got[0] != "ok" or type(got[1]) is type(want[1]), lambda: f"{pos} {name} a={a} c={c!r}: type of {got} instead of {want}")
    X.reach("end")


def trees(X):
    """expression trees: building then evaluating = computing directly"""
    x, y = defop(int, name="x"), defop(int, name="y")
    a, b = X.int("a"), X.int("b")
    ops = ["+", "-", "*", "//", "%", "<"]

    def gen(d):
        k = X.choose("n", 2 + (len(ops) + 2 if d else 0))
        if k == 0:
            return x(), (lambda: a)
        if k == 1:
            return y(), (lambda: b)
        if k == 2:
            t, v = gen(d - 1)
            return -t, lambda: -v()
        if k == 3:
            t, v = gen(d - 1)
            return 3 - t, lambda: 3 - v()
        o = BIN[ops[k - 4]]
        (t, v), (s, w) = gen(d - 1), gen(0)
        return o(t, s), lambda: o(v(), w())
    t, v = gen(2)
    want = outcome(v)
    agree(X, outcome(lambda: evaluate(t, intp={x: lambda: a, y: lambda: b})), want, f"tree {t}")
    with handler({x: lambda: a, y: lambda: b}):
        agree(X, outcome(lambda: evaluate(t)), want, f"tree {t} under handlers")
    X.reach("end")


def conversions(X):
    """a free numeric term refuses to be a concrete number or truth value, and so do comparisons of it"""
    x = defop(X.pick("ty", [int, float, bool, complex]), name="x")
    t = X.pick("t", [lambda: x(), lambda: x() + 1, lambda: x() * x()])()
    for conv in (int, float, complex, bool):
        X.check(outcome(lambda: conv(t)) == ("exc", ValueError), f"{conv.__name__} of a free term")
    c = X.int("c")
    X.check(outcome(lambda: bool(x() < c)) == ("exc", ValueError), "truth value of a free comparison")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("binary", binary, "17 binary operators x 6 operand placements (term/constant/compound, reflected), all integers (|.|<=50 for ** and shifts); "
          "**, /, shifts and bit operators uninterpreted symbolically", split("op", 17), ("end", "raises"), validate_every=1),
        H("unary", unary, "9 unary operators, nested", split("op", len(UN)), ("end",), validate_every=1),
        H("mixed", mixed, "5 comparisons between all integers and 4 non-integers, both sides", expect=("end",), validate_every=1),
        H("constants", constants, "17 operators x 8 constants of 4 numeric types, both sides, term of type int/float/bool, value in -4..4 by solver-driven case split",
          split("op", 17), ("end",), max_concretize=9),
        H("trees", trees, "expression trees of depth 2 over 8 constructors, all integers", split("n", 10), ("end",)),
        H("conversions", conversions, "4 numeric types x 3 terms x 4 conversions", expect=("end",)),
    ]
    return hs
