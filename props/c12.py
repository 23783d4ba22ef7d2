"""C12 unification of types: sound, deterministic matching over every class hierarchy; substitution laws"""
import collections.abc as cabc
import typing
from core import *
from effectful.internals.unification import canonicalize, freetypevars, substitute, unify

T, U = typing.TypeVar("T"), typing.TypeVar("U")
VARS = [T, U]


class Hier:
    """n classes whose subclass relation is an arbitrary preorder, decided by the solver"""

    def __init__(self, X, n):
        self.X, self.n = X, n
        R = X.func("isSub", 2, "bool")
        self.R = R
        for i in range(n):
            X.assume(R(i, i))
            for j in range(n):
                for k in range(n):
                    if len({i, j, k}) == 3:
                        X.assume(X.implies(X.all([R(i, j), R(j, k)]), R(i, k)))
        hier = self

        class Meta(type):
            def __subclasscheck__(cls, sub):
                if cls is sub:
                    return True
                if isinstance(sub, Meta):
                    return bool(hier.sub(sub.index, cls.index))
                return False
        self.atoms = [Meta(f"K{i}", (), {"index": i}) for i in range(n)]

    def sub(self, i, j):
        return True if i == j else self.R(i, j)


def build(h, d):
    k = d[0]
    b = lambda q: build(h, q)  # noqa
    if k == "a":
        return h.atoms[d[1]]
    if k == "T":
        return VARS[d[1]]
    if k == "obj":
        return object
    if k == "list":
        return list[b(d[1])]
    if k == "set":
        return set[b(d[1])]
    if k == "seq":
        return cabc.Sequence[b(d[1])]
    if k == "it":
        return cabc.Iterable[b(d[1])]
    if k == "dict":
        return dict[b(d[1]), b(d[2])]
    if k == "map":
        return cabc.Mapping[b(d[1]), b(d[2])]
    if k == "tup":
        return tuple[b(d[1]), b(d[2])]
    if k == "tup3":
        return tuple[b(d[1]), b(d[2]), b(d[1])]
    if k == "vt":
        return tuple[b(d[1]), ...]
    if k == "or":
        return b(d[1]) | b(d[2])
    if k == "fn":
        return cabc.Callable[[b(d[1])], b(d[2])]
    raise AssertionError(k)


class No(Exception):
    pass


SUPERS = {"list": ("list", "seq", "it"), "seq": ("seq", "it"), "vt": ("vt", "seq", "it"), "tup": ("tup",), "tup3": ("tup3",), "dict": ("dict", "map"), "set": ("set", "it"), "map": ("map",), "it": ("it",), "fn": ("fn",)}


def match(h, p, s, env):
    """reference: is the closed type s an instance of pattern p, left to right, first occurrence of a variable fixing it"""
    if p == s:
        return env
    if p[0] == "T":
        if p[1] not in env:
            return {**env, p[1]: s}
        return match(h, env[p[1]], s, env)
    if p[0] == "or" and p[1] == p[2]:
        return match(h, p[1], s, env)
    if s[0] == "or":
        if p[0] == "or" and {p[1], p[2]} == {s[1], s[2]}:
            return env
        for m in dict.fromkeys(s[1:]):
            env = match(h, p, m, env)
        return env
    if p[0] == "or":
        outs = []
        for m in p[1:]:
            try:
                outs.append(match(h, m, s, env))
            except No:
                pass
        if outs and all(o == outs[0] for o in outs):
            return outs[0]
        raise No
    if p[0] == "obj":
        return env
    if p[0] == "a" and s[0] == "a":
        if h.sub(s[1], p[1]):
            return env
        raise No
    if p[0] == "a" or s[0] == "a":
        raise No
    pk, sk = p[0], s[0]
    pk = "seq" if pk == "vt" else pk     # homogeneous tuples are sequences
    sk = "seq" if sk == "vt" else sk
    if sk in ("tup", "tup3") and pk in ("seq", "it"):
        elems = (s[1], s[2]) if sk == "tup" else (s[1], s[2], s[1])
        for e in elems:
            env = match(h, p[1], e, env)
        return env
    if sk in ("dict", "map") and pk == "it":
        return match(h, p[1], s[1], env)
    if pk not in SUPERS[sk]:
        raise No
    pa, sa = p[1:], s[1:]
    if pk == "tup3":
        pa, sa = (p[1], p[2], p[1]), (s[1], s[2], s[1])
    for a, b in zip(pa, sa):
        env = match(h, a, b, env)
    return env


def gen(X, name, kinds, child):
    k = X.pick(name, kinds)
    if k[0] in ("a", "T", "obj"):
        return k
    n = 1 if k[0] in ("list", "set", "seq", "it", "vt") else 2
    return k + tuple(X.pick(f"{name}c", child) for _ in range(n))


PK = [("a", 0), ("T", 0), ("obj",), ("list",), ("seq",), ("it",), ("dict",), ("map",), ("tup",), ("tup3",), ("vt",), ("or",), ("fn",)]
SK = [("a", 0), ("list",), ("seq",), ("set",), ("dict",), ("tup",), ("tup3",), ("vt",), ("or",), ("fn",)]
PCH = [("a", 0), ("T", 0), ("T", 1), ("list", ("T", 0))]
SCH = [("a", 0), ("a", 1), ("list", ("a", 2))]


def params_ok(p, s):
    """parameters of function types are compared exactly: only variables (or equal types) there"""
    if p[0] == "fn":
        return p[1][0] == "T" and s[0] in ("fn", "a", "list", "seq", "set", "dict", "tup", "tup3", "vt")
    return True


def verdict(X, h, p, s, env0, what):
    P, S = build(h, p), build(h, s)
    subs0 = {VARS[k]: canonicalize(build(h, v)) for k, v in env0.items()}
    keep = dict(subs0)
    try:
        want = match(h, p, s, dict(env0))
    except No:
        want = None
    try:
        got = unify(P, S, subs0)
    except TypeError:
        got = None
    X.check(subs0 == keep, f"{what}: the substitution passed in was modified")
    X.note(f"{P} ~ {S} given {keep}")
    X.check((got is None) == (want is None), lambda: f"{what}: unify({P}, {S}, {keep}) {'fails' if got is None else 'gives ' + str(got)}, expected {want}")
    if got is not None:
        ref = {VARS[k]: canonicalize(build(h, v)) for k, v in want.items()}
        X.check(dict(got) == ref, lambda: f"{what}: unify({P}, {S}, {keep}) = {got} instead of {ref}")
        closed = substitute(canonicalize(P), got)
        X.check(p[0] == "or" or not freetypevars(closed), f"{what}: substituting the unifier leaves variables")
        try:
            unify(closed, S)
            ok = True
        except TypeError:
            ok = False
        # an instance of the pattern subsumes the subject (a union pattern keeps its other arm)
        X.check(ok, lambda: f"{what}: {S} does not match the instance {closed}")
        X.reach("unifies")
    else:
        X.reach("fails")


def pairs(X):
    h = Hier(X, 3)
    p, s = gen(X, "p", PK, PCH), gen(X, "s", SK, SCH)
    X.assume(params_ok(p, s))
    verdict(X, h, p, s, {}, "pair")


def context(X):
    """with earlier bindings, and several positions sharing variables (as the parameters of one operation do)"""
    h = Hier(X, 3)
    pat = X.pick("pat", [("T", 0), ("list", ("T", 0)), ("dict", ("T", 0), ("T", 1)), ("tup", ("T", 0), ("T", 0)), ("seq", ("T", 1)), ("tup3", ("T", 0), ("list", ("T", 0))),
                         ("fn", ("T", 0), ("T", 0)), ("or", ("list", ("T", 0)), ("a", 1))])
    s = gen(X, "s", [k for k in SK if k[0] != "or"] + ([("or",)] if pat[0] != "fn" else []), SCH)
    env0 = X.pick("env", [{}, {0: ("a", 0)}, {0: ("list", ("a", 0))}, {1: ("a", 2)}, {0: ("or", ("a", 0), ("a", 1))}, {0: ("a", 1), 1: ("a", 1)}])
    verdict(X, h, pat, s, env0, "context")


def laws(X):
    """substitution: exactly the named variables are replaced, composition of substitutions, canonical forms are fixed points"""
    h = Hier(X, 3)
    p = gen(X, "p", PK, PCH)
    P = build(h, p)

    def vars_of(d):
        if d[0] == "T":
            return {VARS[d[1]]}
        return set().union(*[vars_of(q) for q in d[1:] if isinstance(q, tuple)]) if len(d) > 1 else set()

    def sub(d, m):
        if d[0] == "T":
            return m.get(d[1], d)
        return (d[0],) + tuple(sub(q, m) if isinstance(q, tuple) else q for q in d[1:])
    X.check(set(freetypevars(P)) == vars_of(p), lambda: f"free variables of {P}")
    m = X.pick("m", [{}, {0: ("a", 1)}, {1: ("list", ("a", 0))}, {0: ("a", 0), 1: ("a", 0)}, {0: ("tup", ("a", 0), ("a", 1)), 1: ("a", 2)}, {0: ("list", ("T", 1))},
                       {0: ("list", ("T", 1)), 1: ("a", 2)}])
    S = {VARS[k]: build(h, v) for k, v in m.items()}
    keep = dict(S)
    got = substitute(P, S)
    want = sub(sub(p, m), m)          # chained bindings are followed
    X.check(got == build(h, want), lambda: f"substitute({P}, {S}) = {got}")
    X.check(S == keep, "substitute modified its mapping")
    X.check(substitute(got, S) == got, "substitution is idempotent")
    X.check(substitute(P, {typing.TypeVar("W"): int}) == P, "unrelated bindings change nothing")
    C = canonicalize(P)
    X.check(canonicalize(C) == C, lambda: f"canonical form of {P} is a fixed point")
    X.check(set(freetypevars(C)) == vars_of(p), "canonical form has the same variables")
    X.check(canonicalize(got) == canonicalize(substitute(C, S)), lambda: f"canonicalization commutes with substitution on {P} {S}: {canonicalize(got)} vs {canonicalize(substitute(C, S))}")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("pairs", pairs, "13 pattern kinds x 10 subject kinds with children from 4 and 3 shapes, over every subclass relation (symbolic preorder) on 3 classes",
          split("p", len(PK), ("s", len(SK))), ("unifies", "fails")),
        H("context", context, "8 patterns x subjects x 6 earlier substitutions, every subclass relation on 3 classes", split("pat", 8, ("env", 6)), ("unifies", "fails")),
        H("laws", laws, "13 type shapes x 7 substitutions", expect=("end",)),
    ]
    return hs
