"""C07 applying a function term is capture-avoiding substitution (compared with a closure semantics)"""
from collections.abc import Callable
import functools
from core import *

# ---- closed/open simply typed programs as tuples; reference denotation = Python closures over z3 terms
# ("o", ...) first-order nodes
#   ("v", i)            variable i (0..2)           ("c", int)        literal
#   ("add", a, b)       a + b                        ("u", a, b)       uninterpreted operation
#   ("app", F, a)       application of a function expression
# function expressions
#   ("lam", i, body)    binds variable i             ("F", j)          free function variable j


class Prog:
    def __init__(self, X, nv=3, small=False):
        self.small = small
        self.X = X
        self.nv = nv
        self.vs = [defop(int, name=f"v{i}") for i in range(nv)]
        self.Fs = [defop(Callable[[int], int], name=f"F{j}") for j in range(1)]
        self.used = 0

        @defop
        def u(a: int, b: int) -> int:
            raise NotHandled
        self.u = u
        self.U = X.func("U", 2)
        self.UF = [X.func(f"UF{j}", 1) for j in range(1)]
        self.vals = [X.int(f"val{i}") for i in range(nv)]

    def var(self):
        i = self.X.choose("var", min(self.used + 1, self.nv))
        self.used = max(self.used, i + 1)
        return i

    def gen(self, d, kinds, top=True, arg=False):
        if not top:
            kinds = [k for k in kinds if k not in ("add", "appk", "app2")]
            if self.small:
                kinds = [k for k in kinds if k in (("v", "u") if arg else ("v", "u", "app"))]
        k = self.X.pick("node", kinds if d else ["v"])
        if k == "v":
            return ("v", self.var())
        if k == "c":
            return ("c", self.X.int("c"))
        if k == "add":
            return ("add", self.gen(d - 1, kinds, False), ("v", self.var()))
        if k == "u":
            return ("u", ("v", self.var()), self.gen(d - 1, kinds, False))
        if k == "app":
            return ("app", ("lam", self.var(), self.gen(d - 1, kinds, False)), self.gen(d - 1, kinds, False, True))
        if k == "app2":   # two parameters at once
            i = self.var()
            return ("app2", i, (i + 1) % self.nv, self.gen(d - 1, kinds, False), self.gen(d - 1, kinds, False, True), ("v", self.var()))
        if k == "appk":   # keyword parameter
            i = self.var()
            return ("appk", i, self.gen(d - 1, kinds, False), self.gen(d - 1, kinds, False, True))
        if k == "cur":    # curried: ((lam i. lam j. body) a) b
            i, j = self.var(), self.var()
            return ("app", ("app", ("lam", i, ("lam", j, self.gen(d - 1, kinds, False))), self.gen(d - 1, kinds, False, True)), ("v", self.var()))
        if k == "F":
            return ("app", ("F", 0), self.gen(d - 1, kinds, False))
        raise AssertionError(k)

    # real terms, via the public API; reduction happens (or not) according to the installed interpretation
    def real(self, e):
        k = e[0]
        if k == "v":
            return self.vs[e[1]]()
        if k == "c":
            return e[1]
        if k == "add":
            return self.real(e[1]) + self.real(e[2])
        if k == "u":
            return self.u(self.real(e[1]), self.real(e[2]))
        if k == "app":
            return self.real(e[1])(self.real(e[2]))
        if k == "lam":
            return deffn(self.real(e[2]), self.vs[e[1]])
        if k == "app2":
            return deffn(self.real(e[3]), self.vs[e[1]], self.vs[e[2]])(self.real(e[4]), self.real(e[5]))
        if k == "appk":
            return deffn(self.real(e[2]), k=self.vs[e[1]])(k=self.real(e[3]))
        if k == "F":
            return self.Fs[e[1]]()
        raise AssertionError(k)

    def den(self, e, env):
        k = e[0]
        if k == "v":
            return env[e[1]]
        if k == "c":
            return e[1]
        if k == "add":
            return self.den(e[1], env) + self.den(e[2], env)
        if k == "u":
            return self.U(self.den(e[1], env), self.den(e[2], env))
        if k == "app":
            return self.den(e[1], env)(self.den(e[2], env))
        if k == "lam":
            return lambda a: self.den(e[2], {**env, e[1]: a})
        if k == "app2":
            return self.den(e[3], {**env, e[1]: self.den(e[4], env), e[2]: self.den(e[5], env)})
        if k == "appk":
            return self.den(e[2], {**env, e[1]: self.den(e[3], env)})
        if k == "F":
            return self.UF[e[1]]
        raise AssertionError(k)

    def intp(self):
        i = {v: (lambda x=x: x) for v, x in zip(self.vs, self.vals)}
        i[self.u] = lambda a, b: self.U(a, b) if not fvsof((a, b)) else fwd()   # under a binder the operands are still terms
        for F, uf in zip(self.Fs, self.UF):
            i[F] = lambda uf=uf: uf
        return i


KINDS = ["v", "add", "u", "app", "cur", "app2", "appk", "F"]


def first_order(depth, kinds, nv=3, small=False):
    def h(X):
        P = Prog(X, nv, small)
        e = P.gen(depth, kinds)
        X.note(e)
        want = P.den(e, dict(enumerate(P.vals)))
        eager = P.real(e)
        X.check_eq(evaluate(eager, intp=P.intp()), want, f"eager reduction of {e}")
        with handler({apply: defdata}):
            syntax = P.real(e)
        X.check_eq(evaluate(syntax, intp=P.intp()), want, f"evaluating the unreduced syntax of {e}")
        red = evaluate(syntax)
        X.check_eq(evaluate(red, intp=P.intp()), want, f"reducing first, then interpreting {e}")
        with handler(P.intp()):
            X.check_eq(evaluate(syntax), want, "under an installed handler")
        X.reach("end")
    return h


# ---- higher order: combinators that duplicate, drop and nest function terms
def C(n):
    return defop(Callable, name=n)


def num(n):
    """Church numeral as a term, every variable an operation"""
    f, x = C("f"), C("x")
    body = x()
    for _ in range(n):
        body = f()(body)
    return deffn(deffn(body, x), f)


def church(N):
  def h(X):
      """Church numerals: m n s z computes s^(n^m) z; sharing of binders across copies is where capture shows"""
      m, n = X.choose("m", N), X.choose("n", N)
      share = X.choose("share", 2)
      if share and m != n:
          n = m
      a = num(m)
      b = a if share else num(n)
      S = X.func("S", 1)
      z = X.int("z")
      s, zz = C("s"), C("z")
      mode = X.pick("mode", ["values", "open", "mul"])
      intp = {s: lambda: (lambda v: S(v)), zz: lambda: z}
      if mode == "values":
          got = a(b)(lambda v: S(v))(z)
          k = n ** m
      elif mode == "open":
          t = a(b)(s())(zz())
          got = evaluate(t, intp=intp)
          k = n ** m
      else:
          t = deffn(a(b(s())), s)      # multiplication: \s. a (b s)
          got = evaluate(t(s())(zz()), intp=intp)
          k = m * n
      want = z
      for _ in range(k):
          want = S(want)
      X.check_eq(got, want, f"church {m} {n} {mode} share={share}")
      X.reach(mode)
  return h


@defop
def call(f: Callable, x: Callable) -> Callable:
    """application of an untyped function: everything is Callable, so nested results stay applicable"""
    if (isinstance(f, Term) and f.op is deffn) or not fvsof((f, x)):
        return f(x)
    raise NotHandled


def ap(f, *xs):
    for x in xs:
        f = call(f, x)
    return f


def combinators(X):
    """S, K, B, C, W, T applied to each other with shared and open arguments; bodies reuse the same binder operations"""
    f, g, x, y = C("f"), C("g"), C("x"), C("y")

    def lam(body, *vs):
        for v in reversed(vs):
            body = deffn(body, v)
        return body

    K = lam(x(), x, y)
    W = lam(ap(f(), x(), x()), f, x)
    B = lam(ap(f(), ap(g(), x())), f, g, x)
    Cc = lam(ap(f(), y(), x()), f, x, y)
    T = lam(ap(g(), y()), g, y)
    S = lam(ap(f(), x(), ap(g(), x())), f, g, x)
    terms = {"K": K, "W": W, "B": B, "C": Cc, "T": T, "S": S}
    pk = lambda a: lambda b: a  # noqa
    pw = lambda a: lambda b: a(b)(b)  # noqa
    pb = lambda a: lambda b: lambda c: a(b(c))  # noqa
    pc = lambda a: lambda b: lambda c: a(c)(b)  # noqa
    pt = lambda a: lambda b: a(b)  # noqa
    ps = lambda a: lambda b: lambda c: a(c)(b(c))  # noqa
    pys = {"K": pk, "W": pw, "B": pb, "C": pc, "T": pt, "S": ps}
    U1, U2, U3 = X.func("U1", 1), X.func("U2", 2), X.func("U3", 3)
    z, w, v = X.int("z"), X.int("w"), X.int("v")
    un = lambda a: U1(a)  # noqa
    bi = lambda a: (lambda b: U2(a, b))  # noqa
    tri = lambda a: lambda b: lambda c: U3(a, b, c)  # noqa
    # free operations: two of them deliberately are the binders used inside the combinators
    val = {"x": z, "y": w, "g": un, "f": bi}
    ops = {"x": x, "y": y, "g": g, "f": f}
    h = defop(Callable, name="h")
    ops["h"], val["h"] = h, tri
    intp = {ops[n]: functools.partial(lambda q: q, val[n]) for n in ops}
    # programs: combinator spine, typed so that the result is an integer
    progs = ["T g x", "T T g x", "T T T g y", "B T T g x", "T (B T T) g x", "B g g x", "B (B g) T g x", "K x y", "K K x y x", "K T x g y",
             "W f x", "W (C f) y", "C f x y", "C C x f y", "C (C f) x y", "C (T f) x y", "S f g x", "S (C f) g y", "S K K x", "S K T x",
             "S (B f g) g x", "W (W h) x", "C (W h) x y", "B W h x y", "C h x y x", "B C h y x y", "B (B g) f x y", "B B B g f x y",
             "S (S h g) g y", "T W f x", "T (C f) x y", "W (T f) x", "C T x g", "C T y g"]
    i = X.choose("prog", len(progs))
    toks = progs[i].replace("(", " ( ").replace(")", " ) ").split()

    def parse(leaf, app):
        pos = [0]

        def expr():
            cur = None
            while pos[0] < len(toks) and toks[pos[0]] != ")":
                t = toks[pos[0]]
                pos[0] += 1
                if t == "(":
                    r = expr()
                    pos[0] += 1
                else:
                    r = leaf(t)
                cur = r if cur is None else app(cur, r)
            return cur
        return expr()
    X.note(progs[i])
    want = parse(lambda n: pys[n] if n in pys else val[n], lambda a, b: a(b))

    def build():
        return parse(lambda n: terms[n] if n in terms else ops[n](), ap)
    X.check_eq(evaluate(build(), intp=intp), want, f"combinator program {progs[i]}")
    with handler({apply: defdata}):
        t2 = build()
    X.check_eq(evaluate(t2, intp=intp), want, f"combinator program {progs[i]} from unreduced syntax")
    X.check_eq(evaluate(evaluate(t2), intp=intp), want, f"combinator program {progs[i]} reduced then interpreted")
    X.reach("end")


def structured(X):
    """results and arguments that are containers; several parameters; unused and repeated parameters"""
    x, y, z = defop(int, name="x"), defop(int, name="y"), defop(int, name="z")
    a, b, c = X.int("a"), X.int("b"), X.int("c")
    case = X.choose("case", 6)
    if case == 0:
        X.check(same(X, deffn([x(), {"k": (y(), x())}], x, y)(a, b), [a, {"k": (b, a)}]), "container body")
    elif case == 1:
        r = deffn([x(), {"k": (y(), x())}], x)(z())
        X.check(same(X, evaluate(r, intp={z: lambda: a, y: lambda: b}), [a, {"k": (b, a)}]), "open argument, open body")
    elif case == 2:
        X.check_eq(deffn(x() + 2 * y(), x, k=y)(a, k=b), a + 2 * b, "keyword parameter")
    elif case == 3:
        X.check_eq(deffn(c, x)(a), c, "constant body")
    elif case == 4:
        f1 = deffn(x() + y(), x)
        t = deffn(f1(y()), y)
        X.check_eq(t(a), a + a, "free variable of a function closed by an outer binder")
    else:
        f1 = deffn(deffn(x() + 10 * y(), y), x)
        X.check_eq(evaluate(f1(y())(x()), intp={x: lambda: a, y: lambda: b}), b + 10 * a, "swap")
    X.reach("end")


def harnesses(tier):
    deep = tier == "thorough"
    hs = [
        H("first_order", first_order(2, KINDS, 2, True), "all programs of depth 2 over 8 node kinds at the root and 3 below (application, currying, 2-parameter, keyword, "
          "shadowing), 2 variables, values symbolic, operations uninterpreted; 4 evaluation orders", split("node", 8, ("node#1", 3)), ("end",)),
        H("church", church(4 if deep else 3), f"Church numerals m,n < {4 if deep else 3}, shared or separate terms, 3 usages", split("m", 4, ("n", 4)) if deep else split("m", 3, ("n", 3)), ("values", "open", "mul")),
        H("combinators", combinators, "34 combinator programs over shared binder operations, eager, from syntax and reduced", split("prog", 34), ("end",)),
        H("structured", structured, "container bodies, keyword/unused parameters", expect=("end",)),
    ]
    if deep:
        hs.append(H("first_order_3vars", first_order(2, KINDS, 3), "3 variables, all node kinds below the root", split("node", 8, ("node#1", 5)), ("end",)))
        hs.append(H("first_order3", first_order(3, ["v", "u", "app", "cur"], 2), "depth 3, 4 node kinds", split("node", 4, ("node#1", 4), ("node#2", 4)), ("end",)))
    return hs
