"""C03 coproduct: precedence, delegation, associativity, equivalence with nested installation"""
from core import *
from c02 import make_world, frame_for, KINDS_A


def compose(ints, shape):
    a, b, c = ints
    if shape == "left":
        return [coproduct(coproduct(a, b), c)]
    if shape == "right":
        return [coproduct(a, coproduct(b, c))]
    if shape == "split12":
        return [a, coproduct(b, c)]
    if shape == "split21":
        return [coproduct(a, b), c]
    if shape == "unit":
        return [coproduct({}, coproduct(a, coproduct(b, {}))), coproduct(c, {})]
    return [a, b, c]


def under(ints, k):
    if not ints:
        return k()
    with handler(ints[0]):
        return under(ints[1:], k)


SHAPES = ["left", "right", "split12", "split21", "unit", "nested"]


def assoc(kinds, kindsB):
    def h(X):
        ops, env, ref = make_world(X)
        frames = [frame_for(X, i, X.pick(f"kA{i}", kinds), X.pick(f"kB{i}", kindsB), None) for i in range(3)]
        ints = [env.intp(f) for f in frames]
        snap = [dict(i) for i in ints]
        x, k = X.int("x"), X.int("k")
        wantA, wantB = ref.call(frames, "A", (x,), {}), ref.call(frames, "B", (x,), {"k": k})
        for sh in SHAPES:
            stack = compose(ints, sh)
            X.check_eq(under(stack, lambda: ops["A"](x)), wantA, f"A(x) with composition {sh}")
            X.check_eq(under(stack, lambda: ops["B"](x, k=k)), wantB, f"B(x,k) with composition {sh}")
        for i in range(3):
            X.check(ints[i] == snap[i], "composition must not modify its operands")
        both = coproduct(ints[0], ints[1])
        X.check(set(both) == set(ints[0]) | set(ints[1]), "the composition handles exactly the union of the operations")
        X.reach("end")
    return h


def reuse(X):
    """one composed interpretation object can be installed repeatedly, under different outer handlers, and on itself"""
    ops, env, ref = make_world(X)
    kinds = ["absorb", "fwd0", "fwd1", "fwd2x", "call_then_fwd", None]
    f1 = frame_for(X, 1, X.pick("kA1", kinds), X.pick("kB1", ["fwd0", None]), None)
    f2 = frame_for(X, 2, X.pick("kA2", kinds), X.pick("kB2", ["fwdk", None]), None)
    o1, o2 = frame_for(X, "o1", "fwd0", "fwd0", None), frame_for(X, "o2", "fwd1", "absorb", None)
    c = coproduct(env.intp(f1), env.intp(f2))
    x = X.int("x")
    for outer in ([], [o1], [o2], [o1, o2]):
        st = [env.intp(o) for o in outer]
        X.check_eq(under(st + [c], lambda: ops["A"](x)), ref.call(outer + [f1, f2], "A", (x,), {}), "reused under other handlers")
    X.check_eq(under([c, c], lambda: ops["A"](x)), ref.call([f1, f2, f1, f2], "A", (x,), {}), "installed on itself")
    with handler({apply: defdata}):
        t = ops["A"](x)
    X.check_eq(evaluate(t, intp=c), ref.call([f1, f2], "A", (x,), {}), "evaluate under the composition")
    X.reach("end")


def alias(X):
    """composing sets that share handler functions, or the very same set, is no different"""
    ops, env, ref = make_world(X)
    kinds = ["absorb", "fwd0", "fwd1", "fwd2x", "cond"]
    f = frame_for(X, 0, X.pick("kA", kinds), X.pick("kB", ["fwd0", "fwdk", None]), None)
    g = frame_for(X, 1, X.pick("kA1", ["fwd0", "fwd1", None]), X.pick("kB1", ["fwd0", None]), None)
    I, J = env.intp(f), env.intp(g)  # noqa
    shared = dict(I)     # a different set of the same functions
    part = {ops["A"]: I[ops["A"]]}
    pat = X.pick("pat", ["ff", "fff", "fgf", "ffg", "sf", "pf", "fp", "gfp"])
    tab = {"f": (I, f), "g": (J, g), "s": (shared, f), "p": (part, {"A": f["A"]})}
    ints, frames = [tab[c][0] for c in pat], [tab[c][1] for c in pat]
    x, k = X.int("x"), X.int("k")
    wantA, wantB = ref.call(frames, "A", (x,), {}), ref.call(frames, "B", (x,), {"k": k})
    left = ints[0]
    for i in ints[1:]:
        left = coproduct(left, i)
    right = ints[-1]
    for i in reversed(ints[:-1]):
        right = coproduct(i, right)
    for nm, st in (("nested", ints), ("left", [left]), ("right", [right])):
        X.check_eq(under(st, lambda: ops["A"](x)), wantA, f"A, {pat} {nm}")
        X.check_eq(under(st, lambda: ops["B"](x, k=k)), wantB, f"B, {pat} {nm}")
    X.reach("end")


def harnesses(tier):
    hs = [
        H("assoc", assoc(["absorb", "fwd0", "fwd1", "cond", "call_then_fwd", None], ("fwd0", None)),
          "3 interpretations, 5 handler shapes + absent for A, 1 + absent for B; 6 bracketings/nestings compared with one reference",
          split("kA0", 6, ("kA1", 6)), ("end",)),
        H("alias", alias, "8 compositions repeating the same set or sharing handler functions, 5 x 3 handler shapes", split("pat", 8), ("end",)),
        H("reuse", reuse, "one composition object installed under 4 outer stacks, on itself and via evaluate", split("kA1", 6), ("end",)),
    ]
    if tier == "thorough":
        n = len(KINDS_A) + 1
        hs.append(H("assoc_full", assoc(list(KINDS_A) + [None], ("fwd0", "fwdk", None)), "all 9 handler shapes",
                    split("kA0", n, ("kA1", n)), ("end",)))
    return hs
