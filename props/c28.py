"""C28 the type-check gate: generated code is checked where it will run, as exactly that code, before it runs"""
import ast
import json
import types
import typing
import warnings
import symx

TBL = []
_loads, _dumps = json.loads, json.dumps


def mark(v):
    TBL.append(v)
    return 900_000_000 + len(TBL) - 1


def loads(s, *a, **k):
    """JSON numbers that stand for symbolic values become those values"""
    if not TBL or a or k:
        return _loads(s, *a, **k)
    return _loads(s, parse_int=lambda t: TBL[int(t) - 900_000_000] if 900_000_000 <= int(t) < 900_000_000 + len(TBL) else int(t))


json.loads = loads
json.dumps = lambda o, *a, **k: _dumps(o, *a, **(k if "default" in k else {**k, "default": repr}))

import linecache                                                        # noqa
import os                                                               # noqa
import subprocess                                                       # noqa
from collections.abc import Callable                                    # noqa
import pydantic                                                         # noqa
import effectful.handlers.llm.evaluation as evaluation                  # noqa
from effectful.handlers.llm.completions import LiteLLMProvider, PythonRepl, RetryLLMHandler, completion  # noqa
from effectful.handlers.llm.encoding import REPL_ANCHOR_KEY, TYPE_CHECK_ANCHOR_KEY, Encodable           # noqa
from effectful.handlers.llm.evaluation import ReplSession, RestrictedEvalProvider, UnsafeEvalProvider, type_check  # noqa
from litellm import ModelResponse                                       # noqa
from core import *                                                      # noqa

warnings.simplefilter("ignore")
DEEP = False
PROVIDERS = {"unsafe": UnsafeEvalProvider, "restricted": RestrictedEvalProvider}
WAIVED = ("no-redef", "return", "empty-body")


def region(X):
    """which of mypy's diagnostics count: the errors in the checked source whose line is in the region"""
    TBL.clear()
    prov = X.pick("prov", sorted(PROVIDERS))
    lo = X.int("lo", 1) if X.choose("haslo", 2) else None
    hi = X.int("hi", 1) if X.choose("hashi", 2) else None
    lenient = X.choose("lenient", 2) == 1
    status = X.pick("status", ("done", "fatal", "missing"))
    diags = [(X.pick(f"sev{i}", ("error", "note")), X.pick(f"file{i}", ("own", "other")), X.int(f"line{i}", 1), X.pick(f"code{i}", ("assignment",) + WAIVED if i == 0 else ("assignment",))) for i in range(1 + X.choose("n", 3))] if status == "done" else []
    source = "x = 1\ny = 2\n"
    seen = {}

    def mypy(argv, **kw):
        path = [a for a in argv if str(a).endswith(".py")][-1]
        seen["path"], seen["text"], seen["dir"] = path, open(path).read(), os.path.dirname(path)
        if status == "missing":
            raise FileNotFoundError("no such program")
        if status == "fatal":
            return subprocess.CompletedProcess(argv, 2, "mypy: something went wrong\n", "fatal")
        flags = " ".join(map(str, argv))
        out = []
        for i, (sev, file, line, code) in enumerate(diags):
            if file == "other" and ("--follow-imports=silent" in flags or "--follow-imports silent" in flags or "--follow-imports=skip" in flags):
                continue
            if f"--disable-error-code={code}" in flags or f"--disable-error-code {code}" in flags:
                continue
            out.append(_dumps({"file": path if file == "own" else "/usr/lib/other_module.py", "line": mark(line), "column": 0, "end_line": mark(line), "end_column": 4, "message": f"problem {i}!", "hint": None, "code": code, "severity": sev}))
        bad = any(d[0] == "error" for d in diags)
        return subprocess.CompletedProcess(argv, 1 if bad else 0, "".join(x + "\n" for x in out), "")

    real = subprocess.run
    subprocess.run = mypy
    try:
        with handler(PROVIDERS[prov]()):
            type_check(source, lo, hi, lenient=lenient)
        out = None
    except (TypeError, RuntimeError, FileNotFoundError) as e:
        out = e
    finally:
        subprocess.run = real
    X.check(seen.get("text") == source, "mypy was given the source")
    X.check(not os.path.exists(seen["dir"]), "the scratch folder is removed")
    if status != "done":
        X.check(isinstance(out, RuntimeError if status == "fatal" else FileNotFoundError), lambda: f"a failing type checker gives {out!r}")
        X.reach(status)
        return
    inside = [X.all([d[0] == "error", d[1] == "own", not (lenient and d[3] in WAIVED), lo is None or X.implies(True, lo <= d[2]), hi is None or d[2] <= hi]) for d in diags]
    X.check(out is None or type(out) is TypeError and "roblem" in str(out), lambda: f"raised {out!r}")
    if out is None:
        X.check(X.not_(X.any(inside)), lambda: f"errors {diags} in [{lo}, {hi}] were not reported")
        X.reach("clean")
    else:
        X.check(X.any(inside), lambda: f"reported {out} for {diags} in [{lo}, {hi}]")
        for i, ok in enumerate(inside):
            X.check(X.eq(ok, f"problem {i}!" in str(out)), lambda: f"diagnostic {i} of {diags} in [{lo}, {hi}]: the report is {out}")
        X.reach("errors")


# ------------------------------------------------------------- splicing
PRE = '"""module"""\nimport functools\nK = 3\nTEXT = """a\ndef ask():\n  b"""\nsq = lambda x: (x,\n    K)\n\n'
DECO = "def deco(f):\n    return f\n\n\ndef deco2(*a, **k):\n    return deco\n\n\ndef wrap(f):\n    @functools.wraps(f)\n    def inner(*a):\n        return f(*a)\n    return inner\n\n\n"
DECOS = {"none": "", "one": "@deco\n", "two": "@deco\n@deco2(1,\n       2)\n", "wrapped": "@wrap\n", "first": "@deco2(\n    lambda q: q,\n)\n"}
SIGS = {"plain": "def ask(a: int, k: int = 3):", "long": "def ask(\n    a: int,\n    k: int = (lambda z: z)(3),\n) -> 'typing.Any':", "one": "def ask(a): "}
BODIES = {"doc": '    """Question {a}\n\n    more\n    """\n    raise NotImplementedError\n', "defs": "    def ask(x):\n        return x\n\n    def f():\n        pass\n    return f\n", "pass": "    pass\n"}
SIB = "def ask(b):\n    def f():\n        return b\n    return f\n\n\n"
POST = "\n\ndef after(x: int):\n    def f():\n        return x\n    return f\n\n\nclass Late:\n    def ask(self):\n        return 1\n"
GEN = {
    "f": "def f(x: int) -> int:\n    return x + 1\n",
    "deco": "@deco\ndef f(x: int) -> int:\n    return x + 1\n",
    "deco2": "@deco2(\n    1,\n)\n@deco\ndef f(x: int) -> int:\n    return x\n",
    "helpers": "K = 4\n# comment\n\ndef ask(y):\n    return y\n\n\ndef f(x: int) -> int:\n    def ask(z):\n        return z\n    return ask(x)\n",
    "class": "@deco\nclass C:\n    def ask(self):\n        return 1\n\n\n@deco2(3)\ndef f(x: int) -> int:\n    '''doc\n    of f'''\n    return x\n",
    "expr": "'''text\nlines'''\nx = (1,\n     2)\n\n\ndef f(x: int) -> int:\n    return x\n",
    "import": "import math\ndef f(x: int) -> int:\n    return x\n",
}


def indent(t, n):
    return "".join("    " * n + ln if ln.strip() else ln for ln in t.splitlines(True))


PLACES = ["top", "function", "method", "nested", "sibling-before", "sibling-after", "inner-sibling"]


def layout(place, deco, sig, body):
    """(module source with that body, how deep the def is)"""
    d = DECOS[deco] + SIGS[sig] + "\n" + body
    if place == "top":
        mid = d
    elif place == "function":
        mid = "def outer(u):\n    w = u\n\n" + indent(d, 1) + "    return ask\n\n\nanchor = outer(1)\n"
    elif place == "method":
        mid = "class A:\n    z = 1\n\n" + indent(d, 1) + "\n    def other(self):\n        return 2\n\n\nanchor = A.ask\n"
    elif place == "nested":
        mid = "def outer(u):\n    class B:\n" + indent(d, 2) + "    return B\n\n\nanchor = outer(1).ask\n"
    elif place == "sibling-before":
        mid = SIB + d
    elif place == "sibling-after":
        mid = d + "\n\nanchor = ask\n\n\n" + SIB
    else:
        mid = "def outer(u):\n" + indent(SIB, 1) + indent(d, 1) + "    return ask\n\n\nanchor = outer(1)\n" + SIB
    if "anchor =" not in mid:
        mid += "\n\nanchor = ask\n"
    return PRE + DECO + mid + POST


COUNT = [0]


def anchor_of(text, name):
    linecache.cache[name] = (len(text), None, text.splitlines(True), name)
    ns = {"__name__": "made"}
    exec(compile(text, name, "exec"), ns)
    return ns["anchor"]


def depth(place):
    return {"top": 0, "function": 1, "method": 1, "nested": 2, "sibling-before": 0, "sibling-after": 0, "inner-sibling": 1}[place]


def defs_named(tree, name):
    return sorted((n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == name), key=lambda n: n.lineno)


def extent(stmts):
    first = min([s.lineno for s in stmts] + [d.lineno for s in stmts for d in getattr(s, "decorator_list", [])])
    return first, max(s.end_lineno for s in stmts)


def find(tree, marker):
    """the def whose body holds the generated statements: the one whose body dumps to them"""
    want = [ast.dump(s) for s in marker]
    out = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and [ast.dump(s) for s in n.body] == want]
    return out[0] if len(out) == 1 else None


def check_spliced(X, rec, place, deco, sig, body, gens, current, what):
    """rec = (source, lo, hi): the module with the body replaced, the region being the last `current` statements"""
    source, lo, hi = rec
    tree = ast.parse(source)
    want = ast.parse(layout(place, deco, sig, "    __here__\n"))
    body_ = ast.parse(gens).body
    for n in ast.walk(want):
        if isinstance(n, ast.FunctionDef) and ast.unparse(n.body[0]) == "__here__":
            n.body = body_
    X.check(ast.dump(tree) == ast.dump(want), lambda: f"{what}: the source checked is not the module with the generated code as the body:\n{source}\ninstead of\n{ast.unparse(want)}")
    node = find(tree, body_)
    X.check(node is not None, "the spliced definition is there once")
    stmts = node.body[-current:]
    first, last = extent(stmts)
    before = extent(node.body[:-current])[1] if node.body[:-current] else max([node.lineno] + [n.end_lineno for n in ast.walk(node.args) if hasattr(n, "end_lineno")] + ([node.returns.end_lineno] if node.returns else []))
    L = X.int("L", 1, len(source.splitlines()) + 1)
    # every line of the code is in the region, no line of anything else is
    X.check(X.implies(X.all([first <= L, L <= last]), X.all([lo <= L, L <= hi])), lambda: f"{what}: line {L} of the generated code is outside of [{lo}, {hi}]\n{source}")
    nxt = min([n.lineno for n in ast.walk(tree) if hasattr(n, "lineno") and n.lineno > last] or [10 ** 6])
    X.check(X.implies(X.all([lo <= L, L <= hi]), X.all([before < L, L < nxt])), lambda: f"{what}: line {L} in [{lo}, {hi}] is not of the generated code\n{source}")


def splice(X):
    """a function synthesized for a template is checked inside that template's own definition"""
    TBL.clear()
    place = PLACES[X.choose("place", len(PLACES))]
    deco, sig, body = X.pick("deco", list(DECOS)), X.pick("sig", list(SIGS)), X.pick("body", list(BODIES))
    gen = X.pick("gen", list(GEN))
    text = layout(place, deco, sig, BODIES[body])
    name = "<made-for-c28>"
    anchor = anchor_of(text, name)
    verdict = X.choose("verdict", 2)
    log = []
    v = X.int("v")

    def checker(source, lo=None, hi=None, *, lenient=False):
        log.append(("check", source, lo, hi, lenient))
        if verdict:
            raise TypeError("ill typed")
    ctx = {"deco": lambda f: f, "deco2": lambda *a: lambda f: f, TYPE_CHECK_ANCHOR_KEY: anchor, "ran": log}
    code = GEN[gen]
    try:
        with handler(UnsafeEvalProvider()), handler({type_check: checker, evaluation.exec: lambda *a: (log.append(("run",)), fwd())[1]}):
            f = pydantic.TypeAdapter(Encodable[Callable[[int], int]]).validate_python({"module_code": code}, context=ctx)
        out = "ok"
    except (TypeError, pydantic.ValidationError) as e:
        out = "ill typed" if "ill typed" in str(e) else repr(e)
    X.check(out == ("ill typed" if verdict else "ok"), lambda: f"decoding gives {out}, the checker says {'no' if verdict else 'yes'}")
    X.check([e[0] for e in log] == ["check"] + ([] if verdict else ["run"]), lambda: f"checked once, then run: {[e[0] for e in log]}")
    X.check(not log[0][4], "a synthesized function is checked strictly")
    check_spliced(X, log[0][1:4], place, deco, sig, body, code + "return f\n", len(ast.parse(code).body) + 1, f"{gen} in {place}")
    if not verdict:
        X.check_eq(f(v), v + 1 if gen in ("f", "deco") else v, "the function works")
    X.reach("end")


SNIPS = ["x = 1\n", "print(1)", "@deco\ndef f(y):\n    return y\n", "for i in [1]:\n    x = i\n", "# only a comment\n", "x = '''a\nb'''; y = 2\n", "@deco2(\n    3,\n)\nclass C:\n    pass\n", "def ask():\n    pass\nask()", "import math"]


def repl(X):
    """a snippet is checked after those run before it, inside the template, and errors count in the snippet only"""
    TBL.clear()
    place = PLACES[X.choose("place", len(PLACES))]
    n = X.choose("n", 3)
    deco, sig, body = X.pick("form", (("none", "plain", "doc"), ("two", "long", "defs"))) if n < 2 or DEEP else ("two", "plain", "defs")
    anchor = anchor_of(layout(place, deco, sig, BODIES[body]), "<made-for-c28>")
    log = []
    verdict = X.choose("verdict", 2) if n < 2 else 0
    last = [False]

    def checker(source, lo=None, hi=None, *, lenient=False):
        log.append((source, lo, hi, lenient))
        if verdict and last[0]:
            raise TypeError("ill typed")
    session = ReplSession({"deco": lambda f: f, "deco2": lambda *a: lambda f: f})
    ta = pydantic.TypeAdapter(Encodable[types.CodeType])
    done = []
    with handler(UnsafeEvalProvider()), handler({type_check: checker, evaluation._repl_session: lambda env: session}):
        for i in range(n + 1):
            s = SNIPS[X.choose(f"s{i}", len(SNIPS))]
            last[0] = i == n
            log.clear()
            try:
                code = ta.validate_python(s, context={REPL_ANCHOR_KEY: anchor})
                out = "ok"
            except (TypeError, pydantic.ValidationError) as e:
                out = "ill typed" if "ill typed" in str(e) else repr(e)
            cur = len(ast.parse(s).body)
            X.check(len(log) == (1 if cur else 0), lambda: f"{s!r} is checked {len(log)} times")
            X.check(out == ("ill typed" if verdict and i == n and cur else "ok"), lambda: f"decoding {s!r} gives {out}")
            if cur:
                X.check(log[0][3], "a session is checked leniently")
                gens = "".join(t if t.endswith("\n") else t + "\n" for t in done + [s])
                check_spliced(X, log[0][:3], place, deco, sig, body, gens, cur, f"{s!r} after {done}")
            if i < n:
                session.exec_code(code)
                done.append(s)
    X.reach("end")


def refuse(X):
    """what cannot be spliced is refused or, where there is no source, not checked; nothing runs before the verdict"""
    TBL.clear()
    kind = X.pick("kind", ("star", "future", "sourceless", "drift", "no-anchor", "late-star", "syntax"))
    repl_ = X.choose("repl", 2)
    text = layout("function", "one", "plain", BODIES["doc"])
    anchor = anchor_of(text, "<made-for-c28>")
    if kind == "sourceless":
        ns = {}
        exec("def ask(a):\n    raise NotImplementedError\n", ns)
        anchor = ns["ask"]
    if kind == "drift":
        moved = "# moved\n" * X.pick("by", (1, 2)) + text
        linecache.cache["<made-for-c28>"] = (len(moved), None, moved.splitlines(True), "<made-for-c28>")
    code = {"star": "from os import *\n", "future": "from __future__ import annotations\n", "late-star": "x = 1\nfrom os import *\n", "syntax": "x = = 1\n"}.get(kind, "") + "def f(x: int) -> int:\n    return x\n"
    log = []
    ctx = {} if kind == "no-anchor" else {REPL_ANCHOR_KEY if repl_ else TYPE_CHECK_ANCHOR_KEY: anchor}
    v = X.int("v")
    try:
        with handler(UnsafeEvalProvider()), handler({type_check: lambda *a, **k: log.append("check"), evaluation.exec: lambda *a: (log.append("run"), fwd())[1]}):
            r = pydantic.TypeAdapter(Encodable[types.CodeType if repl_ else Callable[[int], int]]).validate_python(code if repl_ else {"module_code": code}, context=ctx)
        out = "ok"
    except (RuntimeError, pydantic.ValidationError, SyntaxError) as e:
        out = type(e).__name__
    want = {"star": "reject", "future": "reject", "late-star": "reject", "syntax": "reject", "drift": "RuntimeError", "sourceless": "ok", "no-anchor": "ok"}[kind]
    X.check(out == want or want == "reject" and out in ("ValidationError", "SyntaxError"), lambda: f"{kind}: {out}")
    X.check(log == (["run"] if out == "ok" and not repl_ else []), lambda: f"{kind}: {log}")
    if out == "ok" and not repl_:
        X.check_eq(r(v), v, "the function works")
    X.reach("end")


# ------------------------------------------------------------- through template calls
FLOW = '''
import typing
from collections.abc import Callable
from effectful.handlers.llm import Template, Tool
from effectful.ops.types import NotHandled


def make(k, inner_first):
    @Tool.define
    def use(fn: Callable[[int], int]) -> str:
        """uses a function"""
        seen.append(fn)
        return "used"

    @Template.define
    def inner() -> Callable[[int], int]:
        """Inner"""
        raise NotHandled

    @Tool.define
    def nest() -> str:
        """asks the other template"""
        seen.append(inner())
        return "nested"

    @Template.define
    def ask() -> Callable[[int], int]:
        """Outer"""
        raise NotHandled

    return ask


seen = []
'''


def flow(X):
    """a template call checks its result, and the snippets its model runs, against its own definition; tool arguments are not checked against it"""
    TBL.clear()
    name = "<made-for-c28-flow>"
    linecache.cache[name] = (len(FLOW), None, FLOW.splitlines(True), name)
    ns = {"__name__": "made_flow"}
    exec(compile(FLOW, name, "exec"), ns)
    k, v = X.int("k"), X.int("v")
    ask = ns["make"](k, 0)
    steps = []
    for i in range(2):
        s = X.pick(f"s{i}", ("use", "nest", "exec", "none"))
        if s != "none":
            steps.append(s)
    bad = X.choose("bad", 2)
    gen = "def f(x: int) -> int:\n    return x + k\n"
    gen2 = "def f(x: int) -> int:\n    return x - k\n"
    script, want = [], []
    for s in steps:
        script.append(s)
        if s == "nest":
            script.append("inner")
            want.append(("inner", gen2 + "return f\n", False))
        if s == "exec":
            want.append(("ask", "y = 1\n" * (1 + sum(1 for w in want if w[2])), True))
    if bad:
        script.append("final")
        want.append(("ask", gen + "return f\n", False))
    script.append("final")
    want.append(("ask", gen + "return f\n", False))
    log, pos = [], [0]

    def checker(source, lo=None, hi=None, *, lenient=False):
        log.append((source, lo, hi, lenient))
        if bad and not lenient and len(log) == len(want) - 1:
            raise TypeError("ill typed")

    def answer(*args, messages, **kw):
        s = script[pos[0]]
        pos[0] += 1
        if s in ("final", "inner"):
            msg = dict(role="assistant", content=_dumps({"value": {"module_code": gen if s == "final" else gen2}}), tool_calls=None)
        else:
            nm, ar = {"use": ("use", {"fn": {"module_code": "def f(x: int) -> int:\n    return x + x\n"}}), "nest": ("nest", {}), "exec": ("exec_code", {"code": "y = 1\n"})}[s]
            msg = dict(role="assistant", content=None, tool_calls=[dict(id=f"c{pos[0]}", type="function", function=dict(name=nm, arguments=_dumps(ar)))])
        return ModelResponse(id="r", choices=[dict(index=0, message=msg, finish_reason="stop")], model="m")

    with handler(UnsafeEvalProvider()), handler({type_check: checker}), handler(LiteLLMProvider("m")), handler(PythonRepl()), handler(RetryLLMHandler()), handler({completion: answer}):
        f = ask()
    X.check(pos[0] == len(script), lambda: f"{pos[0]} requests for {script}")
    X.check(len(log) == len(want), lambda: f"{len(log)} checks instead of {len(want)} for {script}")
    for (source, lo, hi, lenient), (who, body, isrepl) in zip(log, want):
        X.check(lenient == isrepl, "leniency")
        tree = ast.parse(source)
        node = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name == who]
        X.check(len(node) == 1, "the template's definition is there")
        got = [ast.dump(s) for s in node[0].body]
        exp = [ast.dump(s) for s in ast.parse("def q():\n" + indent(body, 1)).body[0].body]
        X.check(got == exp, lambda: f"the code checked inside {who} is\n{ast.unparse(node[0])}\ninstead of\n{body}")
        cur = 1 if isrepl else len(exp)
        first, last = extent(node[0].body[-cur:])
        X.check(lo == first and hi == last, lambda: f"region [{lo}, {hi}] instead of [{first}, {last}]")
        # everything else is as it was
        node[0].body = [ast.Pass()]
        orig = ast.parse(FLOW)
        [n for n in ast.walk(orig) if isinstance(n, ast.FunctionDef) and n.name == who][0].body = [ast.Pass()]
        X.check(ast.dump(tree) == ast.dump(orig), "the rest of the module was changed")
    X.check_eq(f(v), v + k, "the template's result uses its lexical scope")
    X.check_eq([g(v) for g in ns["seen"]], [v + v if s == "use" else v - k for s in steps if s != "exec"], "functions given to tools")
    X.reach("end")


def harnesses(tier):
    global DEEP
    DEEP = deep = tier == "thorough"
    return [
        H("region", region, "up to 3 diagnostics of 2 severities, in the source or another module, 4 error codes, at any line; any region bounds incl. open ones; strict and lenient; mypy failing", split("lenient", 2, ("n", 3), ("status", 3)), ("clean", "errors", "fatal", "missing"), stubs="mypy (a subprocess) is replaced by a model that emits any diagnostics its flags let through"),
        H("splice", splice, "7 places x 5 decorations x 3 signatures x 3 bodies of the template, 7 generated modules, both verdicts; any line", split("place", len(PLACES), ("deco", 5)), ("end",), stubs="type_check is handled by a recorder"),
        H("repl", repl, "the same places, 0-2 earlier snippets and one more of 9 kinds; any line", [{"place": p, "n": n, "s0": s} for p in (range(len(PLACES)) if deep else (0, 2, 3, 6)) for n in range(3) for s in range(len(SNIPS)) if n < 2 or deep or p in (0, 6)], ("end",), stubs="type_check is handled by a recorder"),
        H("refuse", refuse, "7 kinds of code or anchor that cannot be spliced, synthesis and session", split("kind", 7), ("end",)),
        H("flow", flow, "template calls whose model runs up to 2 of: tool with a function argument, nested template, session snippet; accepted and once rejected result", split("s0", 4), ("end",)),
    ]
