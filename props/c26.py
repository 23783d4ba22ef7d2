"""C26 synthesized functions: decoding gives the function the source denotes, and encoding gives that source back"""
import json
import warnings
from collections.abc import Callable
import pydantic
from effectful.handlers.llm.encoding import Encodable, SynthesizedFunction
from effectful.handlers.llm.evaluation import RestrictedEvalProvider, UnsafeEvalProvider
from core import *
import pylang
from pylang import Fn, Machine, src

warnings.simplefilter("ignore")
TA = {}
DEEP = False


def adapter(t):
    if t not in TA:
        TA[t] = pydantic.TypeAdapter(Encodable[t])
    return TA[t]


INT2 = Callable[[int, int], int]
N = lambda x: ("n", x)                                       # noqa
A = lambda f, *a: ("call", N(f), list(a))                     # noqa


def expr(X, nm, names, deep=1):
    """an expression over the names in scope"""
    k = X.choose(nm, 5 if deep else 1)
    if k == 0:
        return N(X.pick(nm + "n", names))
    if k == 1:
        return ("sub", N(X.pick(nm + "n", names)), expr(X, nm + "1", names, 0))
    if k == 2:
        return A("g", N(X.pick(nm + "n", names)))
    if k == 3:
        return ("if", ("lt", N(X.pick(nm + "n", names)), N(names[0])), N(names[-1]), ("lit", 3))
    return ("add", A("g", N(X.pick(nm + "n", names))), ("lit", 1))


SHAPES = ["plain", "helper", "const", "nested", "default", "lambda", "comp", "shadow", "loop", "late", "class", "deco", "try", "global", "rebind", "counter"]


def module(X, shape, tag="", rich=True):
    """a module whose last statement defines f(a, b)"""
    def e(nm, *names):
        if rich:
            return expr(X, nm + tag, names, nm == "p" or DEEP)
        return ("sub", A("g", N(names[0])), N(names[-1])) if nm == "q" else N(X.pick(nm + tag, names))
    ps = [("a", None), ("b", None)]
    f = lambda *body: ("def", "f", ps, list(body))         # noqa
    if shape == "plain":
        return [f(("=", "t", e("p", "a", "b", "k")), ("ret", e("q", "t", "b", "k")))]
    if shape == "helper":
        return [("def", "h", [("x", None)], [("ret", e("p", "x", "k"))]), f(("ret", A("h", e("q", "a", "b"))))]
    if shape == "const":
        return [("=", "c", e("p", "k", "k2")), f(("ret", e("q", "c", "a", "k")))]
    if shape == "nested":
        return [f(("def", "h", [("x", None)], [("ret", e("p", "x", "a", "k"))]), ("=", "a", e("q", "b", "a")), ("ret", A("h", N("b"))))]
    if shape == "default":
        return [("def", "h", [("x", None), ("y", N("k"))], [("ret", e("p", "x", "y"))]), ("=", "k", ("lit", 5)), f(("ret", ("add", A("h", N("a")), e("q", "k", "b"))))]
    if shape == "lambda":
        return [f(("=", "h", ("lam", ["x"], e("p", "x", "a", "k"))), ("ret", A("h", e("q", "b", "k"))))]
    if shape == "comp":
        return [f(("=", "t", ("lit", 0)), ("for", "x", ("comp", e("p", "x", "k"), "x", ("list", [N("a"), N("b")])), [("=", "t", ("sub", N("x"), N("t")))]), ("ret", e("q", "t", "a")))]
    if shape == "shadow":
        return [("=", "k", e("p", "k2", "k")), f(("=", "k2", N("a")), ("ret", e("q", "k", "k2", "b")))]
    if shape == "loop":
        return [f(("=", "t", N("k")), ("for", "x", ("list", [N("a"), N("b"), N("k")]), [("if", ("lt", N("x"), N("t")), [("ret", e("p", "x", "t"))], [("=", "t", e("q", "t", "x"))])]), ("ret", N("t")))]
    if shape == "late":
        return [("def", "h", [], [("ret", e("p", "c", "k"))]), ("=", "c", N("k2")), f(("=", "c", N("a")), ("ret", ("add", A("h"), e("q", "c", "b"))))]
    if shape == "class":
        return [("class", "C", [("def", "m", [("self", None), ("x", None)], [("ret", e("p", "x", "k"))])]), f(("ret", ("meth", "C", "m", [e("q", "a", "b")])))]
    if shape == "deco":
        return [("def", "d", [("fn", None)], [("def", "w", ps, [("ret", ("add", A("fn", N("b"), N("a")), e("p", "a", "k")))]), ("ret", N("w"))]),
                ("deco", N("d"), f(("ret", e("q", "a", "b"))))]
    if shape == "try":
        return [f(("try", [("if", ("lt", N("a"), N("k")), [("raise", "KeyError")], []), ("=", "t", e("p", "a", "b"))], X.pick("exc", ("KeyError", "LookupError", "ValueError")), [("=", "t", e("q", "k", "b"))], []), ("ret", N("t")))]
    if shape == "global":
        return [("=", "c", N("k")), ("def", "h", [("x", None)], [("global", "c"), ("=", "c", e("p", "x", "c")), ("ret", N("c"))]), f(("=", "t", A("h", N("a"))), ("ret", ("add", N("t"), e("q", "c", "b"))))]
    if shape == "rebind":
        return [("def", "f", [("a", None)], [("ret", e("p", "a", "k"))]), ("=", "old", N("f")), f(("ret", ("add", A("old", N("a")), e("q", "b", "k2"))))]
    if shape == "counter":
        return [("=", "c", ("lit", 0)), f(("global", "c"), ("=", "c", ("add", N("c"), N("a"))), ("ret", e("q", "c", "b")))]
    raise AssertionError(shape)


PROVIDERS = {"unsafe": UnsafeEvalProvider, "restricted": RestrictedEvalProvider}


def context(X, tag):
    g = X.func("g" + tag, 1)
    ctx = {"k": X.int("k" + tag), "k2": X.int("m" + tag), "g": lambda x: g(x), "__builtins__": __builtins__, "unused": object(), "<anchor-like key>": 3, "f": "hidden by the module", "h": "also"}
    return ctx


def decode(X, form, ta, source, ctx):
    """the same source by every way it can arrive"""
    if form == 0:
        return ta.validate_python({"module_code": source}, context=ctx)
    if form == 1:
        return ta.validate_python(SynthesizedFunction(module_code=source), context=ctx)
    if form == 2:
        return ta.validate_python(json.dumps({"module_code": source}), context=ctx)
    return ta.validate_json(json.dumps({"module_code": source}), context=ctx)


def outcome(thunk):
    try:
        return thunk()
    except (KeyError, NameError) as e:
        return type(e).__name__


def runs(X):
    shape = SHAPES[X.choose("s", len(SHAPES))]
    prov = X.pick("prov", sorted(PROVIDERS))
    ctx = context(X, "")
    S = module(X, shape)
    text = src(S, ann=True)
    X.note(f"{prov}:\n{text}")
    ta = adapter(INT2)
    before = dict(ctx)
    with handler(PROVIDERS[prov]()):
        f = decode(X, X.choose("form", 4), ta, text, ctx)
    X.check(list(ctx) == list(before) and all(ctx[k] is before[k] for k in ctx), "decoding changed the context it was given")
    m = Machine({k: v for k, v in ctx.items() if k.isidentifier()}, {})
    m.run(S)
    calls = [(X.int("a0"), X.int("b0")), (X.int("a1"), X.int("b1"))]
    for a, b in calls:
        X.check_eq(outcome(lambda: f(a, b)), outcome(lambda: m.g["f"](a, b)), f"value of the synthesized function\n{text}")
    X.reach(prov)
    X.reach("end")


def several(X):
    """two functions synthesized one after the other, in different contexts, each keep their own source, helpers and context"""
    prov = X.pick("prov", sorted(PROVIDERS))
    shapes = [X.pick("sa", ("plain", "helper", "const", "default", "rebind")), X.pick("sb", ("plain", "helper", "class", "counter"))]
    mods = [module(X, s, str(i), False) for i, s in enumerate(shapes)]
    ctxs = [context(X, ""), context(X, "z")]
    ta = adapter(INT2)
    fs = []
    with handler(PROVIDERS[prov]()):
        for S, c in zip(mods, ctxs):
            fs.append(decode(X, 0, ta, src(S, ann=True), c))
    ms = []
    for S, c in zip(mods, ctxs):
        ms.append(Machine(c))
        ms[-1].run(S)
    a, b = X.int("a"), X.int("b")
    order = X.choose("order", 2)
    for i in ((0, 1), (1, 0))[order]:
        X.check_eq(outcome(lambda: fs[i](a, b)), outcome(lambda: ms[i].g["f"](a, b)), f"function {i} of two\n{src(mods[i])}")
    # and encoded again, in either order, they are what they were
    enc = {i: ta.dump_python(fs[i]) for i in ((0, 1), (1, 0))[X.choose("eo", 2)]}
    mode = X.choose("json", 2)
    for i in (0, 1):
        with handler(PROVIDERS[prov]()):
            again = ta.validate_python(enc[i], context=ctxs[i]) if not mode else ta.validate_json(ta.dump_json(fs[i]), context=ctxs[i])
        m = Machine(ctxs[i])
        m.run(mods[i])
        X.check_eq(outcome(lambda: again(a, b)), outcome(lambda: m.g["f"](a, b)), f"function {i} encoded and decoded again from {enc[i]['module_code']!r}")
    X.check(fs[0] is not fs[1] and ta.validate_python(fs[0]) is fs[0], "a function is decoded as itself")
    X.reach("end")


PARAMS = ["", "a", "a, b", "a, b, c", "a, /", "a, /, b", "a, /, b, /"[:7], "*a", "a, *b", "a, *, b", "*, a, b", "**a", "a, **b", "a=1", "a, b=2", "a, /, b, *, c", "a, b, *c, d, **e", "*, a"]


def count(ps):
    """number of arguments if all parameters are positional, else None"""
    import inspect
    ns = {}
    exec(f"def f({ps}): pass", ns)
    s = list(inspect.signature(ns["f"]).parameters.values())
    return len(s) if all(p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) for p in s) else None


LASTS = ["def", "assign", "expr", "class", "lambda", "async", "empty", "comment", "broken", "decorated-ok", "decorated-bad", "decorated-arity", "noann", "after", "if", "import"]


def rejects(X):
    """what is not a function of the required parameters is rejected, and is not run when its text already shows it"""
    prov = X.pick("prov", sorted(PROVIDERS))
    ran = []
    v = X.int("v")
    ctx = {"mark": lambda: ran.append(v), "bad": lambda f: 3, "same": lambda f: f, "one": lambda f: ONE}
    last = LASTS[X.choose("last", len(LASTS))]
    n = X.choose("n", 5)
    t = Callable[..., int] if n == 4 else Callable[[int] * n, int]
    ps = X.pick("ps", PARAMS) if last == "def" else "a, b"
    d = f"def f({ps}) -> int:\n    return 1\n"
    text = {"def": d, "assign": "f = 3\n", "expr": "mark\n", "class": "class f:\n    pass\n", "lambda": "f = lambda a, b: 1\n", "async": "async " + d, "empty": "", "comment": "# nothing\n", "broken": "def f(a, b) -> int\n    return 1\n",
            "decorated-ok": "@same\n" + d, "decorated-bad": "@bad\n" + d, "decorated-arity": "@one\n" + d, "noann": "def f(a, b):\n    return 1\n", "after": d + "y = f\n", "if": "if True:\n    " + d.replace("\n", "\n    ").rstrip() + "\n", "import": d + "import q\n"}[last]
    if last not in ("empty", "comment"):
        text = "mark()\n" + text
    want = {"decorated-ok": n in (2, 4), "decorated-arity": n == 4}.get(last, False)
    static = last not in ("decorated-bad", "decorated-arity", "noann", "decorated-ok")
    if last == "def":
        c = count(ps)
        want = n == 4 or c == n
        static = None
    X.note(f"{prov}: {text!r} as a function of {n}")
    try:
        with handler(PROVIDERS[prov]()):
            f = adapter(t).validate_python({"module_code": text}, context=ctx)
        ok = True
    except (pydantic.ValidationError, TypeError, SyntaxError) as e:
        ok = False
    X.check(ok == want, lambda: f"{'accepted' if ok else 'rejected'}: {text!r} as {t}")
    if ok:
        X.check(callable(f), "a function was decoded")
        X.check_eq(ran, [v], "the module ran once")
        X.reach("accepted")
    else:
        if static:
            X.check(not ran, lambda: f"{text!r} was run although it was rejected")
        X.check(len(ran) <= 1, "the module ran more than once")
        X.reach("rejected")
    X.reach("end")


def ONE(a) -> int:
    return 1


class Vault:
    """records every touch of what generated code must not reach"""

    def __init__(self):
        object.__setattr__(self, "log", [])
        self.open = 5

    def __setattr__(self, n, v):
        self.log.append(("set", n))

    @property
    def _hidden(self):
        self.log.append("hidden")
        return 5


FORBIDDEN = ["o._hidden", "o.__class__", "getattr(o, '_hidden')", "getattr(o, '_hid' + 'den')", "open('/dev/null')", "__import__('os')", "eval('k')", "exec('k')", "globals()", "vars(o)", "type(o)", "'{0._hidden}'.format(o)",
             "f'{o._hidden}'", "__builtins__", "setattr(o, '_x', 1)", "setattr(o, 'x', 1)", "(lambda: o._hidden)()", "[o._hidden for q in [1]]", "compile('k', 'k', 'eval')", "locals()", "dir(o)", "input()", "delattr(o, 'open')", "f.__globals__", "'{}'.format_map(o)"]
PLACES = ["module", "body", "nested", "lambda", "comp", "default", "class", "method", "later"]


def forbidden(X):
    """restricted code reaches neither private attributes nor the unrestricted builtins, wherever it tries and whatever the context binds"""
    bad = FORBIDDEN[X.choose("bad", len(FORBIDDEN))]
    place = PLACES[X.choose("place", len(PLACES))]
    import builtins
    o = Vault()
    base = len(o.log)
    poison = [{}, {"__builtins__": builtins.__dict__}, {"__builtins__": builtins}, {"getattr": getattr, "setattr": setattr, "_getattr_": getattr, "_write_": lambda x: x, "_getiter_": iter}][X.choose("ctx", 4)]
    k = X.int("k")
    ctx = {"k": k, "o": o, **poison}
    body = {"module": f"z = {bad}\ndef f(a: int) -> int:\n    return z\n", "body": f"def f(a: int) -> int:\n    return {bad}\n", "nested": f"def f(a: int) -> int:\n    def h():\n        return {bad}\n    return h()\n",
            "lambda": f"def f(a: int) -> int:\n    return (lambda q: {bad})(1)\n", "comp": f"def f(a: int) -> int:\n    for x in [{bad} for q in [1]]:\n        return x\n", "default": f"def f(a: int, b=0) -> int:\n    def h(x={bad}):\n        return x\n    return h()\n".replace(", b=0", ""),
            "class": f"def f(a: int) -> int:\n    class C:\n        x = {bad}\n    return C().x\n", "method": f"class C:\n    def m(self):\n        return {bad}\ndef f(a: int) -> int:\n    return C().m()\n",
            "later": f"def mk():\n    def h():\n        return {bad}\n    return h\ndef f(a: int) -> int:\n    return mk()()\n"}[place]
    X.note(body)
    try:
        with handler(RestrictedEvalProvider()):
            f = adapter(Callable[[int], int]).validate_python({"module_code": body}, context=ctx)
        # called with or without the provider, the restriction is the code's own
        if X.choose("inside", 2):
            with handler(RestrictedEvalProvider()):
                r = f(3)
        else:
            r = f(3)
    except Exception as e:
        X.note(repr(e))
        r = None
        X.reach("stopped")
    else:
        X.fail(f"restricted code evaluated {bad} ({place}) to {r!r}\n{body}")
    X.check(o.log[base:] == [], lambda: f"restricted code touched {o.log} by {bad}\n{body}")
    X.reach("end")


def harnesses(tier):
    global DEEP
    DEEP = tier == "thorough"
    return [
        H("runs", runs, "modules of 16 shapes (helpers, constants, closures, defaults, classes, decorators, exceptions, globals) x 5 expression forms over 2-4 names each; 2 calls; both providers, 4 ways of arriving; all integers, an uninterpreted context function", split("s", len(SHAPES)), ("unsafe", "restricted", "end")),
        H("several", several, "5 x 4 shapes decoded in turn in different contexts, called and encoded in either order", split("sa", 5, ("sb", 4)), ("end",)),
        H("rejects", rejects, "17 parameter lists x 5 expected signatures; 16 kinds of last statement", split("last", len(LASTS)), ("accepted", "rejected", "end")),
        H("forbidden", forbidden, "25 forbidden accesses x 9 places x 4 contexts, restricted provider", split("bad", len(FORBIDDEN)), ("stopped", "end")),
    ]
