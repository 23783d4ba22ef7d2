"""C27 the REPL: one persistent namespace per session, whatever the snippets do; sessions are isolated; output is captured exactly"""
import collections
import contextlib
import io
import types
import warnings
from llm import *
from effectful.handlers.llm.completions import PythonRepl
from effectful.handlers.llm.encoding import Encodable
from effectful.handlers.llm.evaluation import ReplSession, RestrictedEvalProvider, UnsafeEvalProvider, type_check
from pylang import Machine, src
from c27_templates import make_templates
import llm

warnings.simplefilter("ignore")
PROVIDERS = {"unsafe": UnsafeEvalProvider, "restricted": RestrictedEvalProvider}
CODE = pydantic.TypeAdapter(Encodable[types.CodeType])
N = lambda x: ("n", x)                                       # noqa
A = lambda f, *a: ("call", N(f), list(a))                     # noqa


class Num:
    """an arbitrary integer; printed as an opaque token"""

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Num(self.v + o.v)

    def __sub__(self, o):
        return Num(self.v - o.v)

    def __lt__(self, o):
        return self.v < o.v

    def __str__(self):
        return token(self.v)


KINDS = ["assign", "def", "print", "call", "raise", "del", "bump", "class", "none", "printraise", "for", "default", "try", "nosuch", "lambda", "exit", "mk"]


def snippet(X, nm, kind, few=False):
    pick = lambda *names: N(names[0] if few else X.pick(nm + "n", names))    # noqa
    if kind == "assign":
        return [("=", X.pick(nm + "t", ("x", "y")) if not few else "x", ("add", pick("x", "y"), N("k")))]
    if kind == "def":
        return [("def", "f", [], [("ret", pick("y", "x"))])]
    if kind == "print":
        return [("print", pick("x", "y"))]
    if kind == "call":
        return [("=", "y", A("f")), ("print", N("y"))]
    if kind == "raise":
        return [("=", "y" if few else X.pick(nm + "t", ("x", "y")), N("k2")), ("raise", "KeyError"), ("=", "x", N("k"))]
    if kind == "del":
        return [("del", "x" if few else X.pick(nm + "n", ("x", "y", "f")))]
    if kind == "bump":
        return [("def", "bump", [], [("global", "x"), ("=", "x", ("sub", N("k"), N("x"))), ("ret", N("x"))]), ("expr", A("bump"))]
    if kind == "class":
        return [("class", "C", [("def", "m", [("self", None)], [("ret", pick("x", "y"))])]), ("print", ("meth", "C", "m", []))]
    if kind == "none":
        return []
    if kind == "printraise":
        return [("print", N("x")), ("=", "x", A("g", N("x"))), ("print", N("x")), ("raise", "ValueError")]
    if kind == "for":
        return [("for", "y", ("list", [N("k"), N("x")]), [("print", N("y"))])]
    if kind == "default":
        return [("def", "f", [("v", N("x"))], [("ret", N("v"))])]
    if kind == "try":
        return [("try", [("=", "y", A("f")), ("=", "x", N("y"))], "NameError", [("=", "y", N("k"))], [("print", N("k"))])]
    if kind == "nosuch":
        return [("=", "x", N("k")), ("print", N("nosuch"))]
    if kind == "lambda":
        return [("=", "g", ("lam", ["v"], ("add", N("v"), N("x")))), ("print", A("g", N("k")))]
    if kind == "exit":
        return [("=", "x", N("k2")), ("print", N("x")), ("raise", "SystemExit")]
    if kind == "mk":
        return [("def", "mk", [], [("def", "h", [], [("ret", pick("x", "y"))]), ("ret", N("h"))]), ("=", "f", A("mk"))]
    raise AssertionError(kind)


import pylang                       # noqa
pylang.EXC["SystemExit"] = SystemExit
END = [("try", [("print", N(n))], "NameError", [("print", ("lit", "none"))], []) for n in "xy"] + [("try", [("print", A("f"))], "NameError", [("print", ("lit", "none"))], [])]


def reference(m, S):
    """what the snippet prints and the name of the exception it ends with"""
    m.out = []
    try:
        m.run(S)
        return list(m.out), None
    except (NameError, KeyError, ValueError, TypeError, SystemExit) as e:
        return list(m.out), type(e).__name__


def agree_output(X, got, want, what):
    out, exc = want
    lines = got.split("\n")
    X.check(len(lines) > len(out), lambda: f"{what}: printed {got!r}, expected {len(out)} lines")
    for ln, v in zip(lines, out):
        if isinstance(v, Num):
            X.check(ln[:1] == "v" and ln[1:].isdigit(), lambda: f"{what}: {ln!r} instead of a value in {got!r}")
            X.check_eq(untoken(ln), v.v, f"{what}: printed value")
        else:
            X.check(ln == str(v), lambda: f"{what}: {ln!r} instead of {v}")
    rest = "\n".join(lines[len(out):])
    if exc is None:
        X.check(rest == "", lambda: f"{what}: unexpected output {rest!r}")
    else:
        last = [ln for ln in lines if ln.strip()][-1]
        X.check(rest.startswith("Traceback") and last.split(":")[0].split(".")[-1] == exc, lambda: f"{what}: {rest!r} does not report {exc}")


def seeds(X, tag=""):
    g = X.func("g" + tag, 1)
    return {"x": Num(X.int("x" + tag)), "k": Num(X.int("k" + tag)), "k2": Num(X.int("m" + tag)), "g": lambda v: Num(g(v.v))}


def text_of(S):
    return src(S) if S else "# nothing to do\n"


def sessions(n, few):
    """n snippets run in one or two sessions"""
    def hh(X):
        TABLE.clear()
        prov = X.pick("prov", sorted(PROVIDERS))
        seed = [seeds(X), seeds(X, "z")]
        chain = 0 if few else X.choose("chain", 2)
        outer = [collections.ChainMap(dict(s), {"k2": 0}) if chain else dict(s) for s in seed]
        before = [[dict(mm) for mm in o.maps] if chain else [dict(o)] for o in outer]
        real = [None, None]
        refs = [Machine(s) for s in seed]
        screen = io.StringIO()
        with handler(PROVIDERS[prov]()), contextlib.redirect_stdout(screen), contextlib.redirect_stderr(screen):
            for i in range(n + 2):
                if i < n:
                    kind = KINDS[X.choose(f"s{i}", len(KINDS))]
                    S = snippet(X, f"s{i}", kind, few or i == 0)
                    w = 0 if i == 0 or few and i == 1 else X.choose(f"w{i}", 2)
                else:
                    S, w = END, i - n
                if real[w] is None:
                    real[w] = ReplSession(outer[w])
                text = text_of(S)
                X.note(f"session {w}: {text!r}")
                code = CODE.validate_python(text)
                want = reference(refs[w], S)
                try:
                    out = real[w].exec_code(code)
                    X.check(want[1] != "SystemExit", "SystemExit leaves the session")
                    agree_output(X, out, want, f"{prov} session {w}, {text!r}")
                except SystemExit:
                    X.check(want[1] == "SystemExit", lambda: f"{text!r} exited")
                    X.reach("exit")
                    real_out = real[w].stdout.getvalue()
                    X.check(real_out.endswith("\n"), "what was printed before the exit is kept")
                X.check(CODE.dump_python(code) == text, "a code object encodes as its source")
        X.check(screen.getvalue() == "", lambda: f"captured output also went to the screen: {screen.getvalue()!r}")
        for w, o in enumerate(outer):
            if chain and real[w] is not None:
                X.check(len(o.maps) == len(before[w]) + 1 and all(same_map(a, b) for a, b in zip(o.maps[1:], before[w])), "the surrounding scopes were changed")
                for nm in ("x", "y", "k"):
                    r = refs[w].g.get(nm, before[w][0].get(nm))
                    X.check((nm in o) == (r is not None), lambda: f"{nm} in the call's scope: {nm in o}")
                    if r is not None:
                        X.check_eq(o[nm].v, r.v, f"{nm} as seen by the rest of the call")
            else:
                X.check(all(same_map(a, b) for a, b in zip(o.maps if chain else [o], before[w])), "the namespace the session was seeded from was changed")
        X.reach(prov)
        X.reach("end")
    return hh


def same_map(a, b):
    return list(a) == list(b) and all(a[k] is b[k] for k in a)


# ------------------------------------------------------------- sessions of template calls
def calls(X):
    """each template call has its own session, seeded from what its template sees; outputs go back to the model"""
    TABLE.clear()
    prov = X.pick("prov", sorted(PROVIDERS))
    kinds = ["assign", "def", "print", "call", "raise", "del", "bump", "default"]
    k, x = Num(X.int("k")), Num(X.int("x"))
    script, want = [], []        # the model's answers in request order; what each snippet should print

    def plan(level, name, q):
        m = Machine({"k": k, "x": x, "k2": q})
        n = 2
        acts = []
        for i in range(n):
            a = X.pick(f"{name}a{i}", ("exec", "exec2", "nest") if level == 0 and i == 0 else ("exec",))
            Ss = []
            for j in range({"exec": 1, "exec2": 2, "nest": 0}[a]):
                Ss.append(snippet(X, f"{name}{i}{j}", kinds[X.choose(f"{name}s{i}{j}", len(kinds))] if level == 0 else ("bump", "print")[i], True))
            script.append((a, [text_of(S) for S in Ss]))
            if a == "nest":
                plan(1, name + "n", q)
            for S in Ss:
                want.append((S, reference(m, S)))
        S = [("try", [("print", N(v))], "NameError", [("print", ("lit", "none"))], []) for v in "xy"]
        script.append(("exec", [text_of(S)]))
        want.append((S, reference(m, S)))
        script.append(("fin", []))

    qs = [Num(X.int("q0")), Num(X.int("q1"))]
    plan(0, "p", qs[0])
    X.note(str(script))
    got, offered, pos = [], [], [0]

    def answer(*args, messages, tools=None, **kw):
        i = pos[0]
        pos[0] += 1
        offered.append(sorted(t["function"]["name"] for t in tools or ()))
        got.append([text(m) for m in messages if m["role"] == "tool"])
        a, texts = script[i]
        if a == "fin":
            return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content="done", tool_calls=None), finish_reason="stop")], model="m")
        cs = [("exec_code", {"code": t}) for t in texts] or [("nest", {})]
        return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content=None, tool_calls=[
            dict(id=f"c{i}_{j}", type="function", function=dict(name=nm, arguments=json.dumps(ar))) for j, (nm, ar) in enumerate(cs)]), finish_reason="tool_calls")], model="m")

    ask = make_templates(k, x, qs[0])
    second = []
    with handler(UnsafeEvalProvider() if prov == "unsafe" else RestrictedEvalProvider()), handler({type_check: lambda *a, **k: None}):
        with handler(coproduct(LiteLLMProvider("m"), PythonRepl())), handler({completion: answer}):
            ask(qs[0])
            n = pos[0]
            X.check(n == len(script), lambda: f"{n} requests for {script}")
            # a second call starts afresh
            script.extend([("exec", [text_of(END[:2])]), ("fin", [])])
            second = reference(Machine({"k": k, "x": x, "k2": qs[1]}), END[:2])
            ask(qs[1])
    # each conversation's last request holds all its tool messages
    fins = [got[i] for i, (a, _) in enumerate(script) if a == "fin"]
    order = want
    nested = any(a == "nest" for a, _ in script)
    if nested:
        inner, outer_ = fins[0], [t for t in fins[1] if "done" not in t]
        X.check_eq(len(inner), 3, "snippets of the nested call")
        outs = inner + outer_
    else:
        outs = fins[0]
    X.check(len(outs) == len(order), lambda: f"{len(outs)} outputs {outs} for {len(order)} snippets")
    for o, (S, r) in zip(outs, order):
        agree_output(X, o, r, f"{prov}: {text_of(S)!r}")
    agree_output(X, fins[-1][0], second, f"{prov}: a later call of the template")
    X.check(all("exec_code" in o for o in offered), lambda: f"tools offered: {offered}")
    X.check(k.v is k.v and (k, x) == make_templates.seen, "lexical variables changed")
    X.reach("nested" if nested else "flat")
    X.reach("end")


def harnesses(tier):
    deep = tier == "thorough"
    n = len(KINDS)
    return [
        H("pairs", sessions(2, False), "2 snippets of 17 kinds with their names chosen, 2 sessions, seeded from a dictionary or a chain of scopes, both providers; all values", split("s0", n), ("unsafe", "restricted", "exit", "end")),
        H("triples", sessions(4 if deep else 3, True), "3 (thorough 4) snippets of 17 kinds, 2 sessions, both providers; all values", split("s0", n, ("s1", n)), ("end",)),
        H("calls", calls, "template calls whose model runs 1-2 snippets per message of 8 kinds, nested template calls, and a second call; both providers", split("pa0", 3, ("prov", 2)), ("nested", "flat", "end")),
    ]
