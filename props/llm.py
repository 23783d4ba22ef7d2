"""A scripted model and an independent reference for conversations (shared by the LLM properties)"""
import collections
import functools
import copy
import dataclasses
import json
import sys
import tenacity
import litellm  # noqa: F401
from litellm import ModelResponse
import pydantic
import typing
from typing_extensions import is_typeddict
from core import *
from effectful.handlers.llm import Agent, Template, Tool
from effectful.handlers.llm.completions import (LiteLLMProvider, ResultDecodingError, RetryLLMHandler, ToolCallDecodingError, ToolCallExecutionError, _get_history,
                                                call_assistant, call_tool, completion)
from effectful.handlers.llm.encoding import TypeToPydanticType
from effectful.ops.syntax import ObjectInterpretation, implements


_made, _ta_init, _ta_schema = {}, pydantic.TypeAdapter.__init__, pydantic.TypeAdapter.json_schema


def _init(self, type, *, _parent_depth=2, **k):
    """pydantic's adapters of typed dictionaries are built once (library code; only a matter of speed)"""
    if not is_typeddict(type) or k:
        return _ta_init(self, type, _parent_depth=_parent_depth + 1, **k)
    if type not in _made:
        _ta_init(self, type)
        _made[type] = dict(self.__dict__), {}
    self.__dict__.update(_made[type][0])


def _schema(self, **k):
    m = _made.get(self._type) if is_typeddict(self._type) and not k else None
    if m is None:
        return _ta_schema(self, **k)
    if not m[1]:
        m[1].update(_ta_schema(self))
    return copy.deepcopy(m[1])


pydantic.TypeAdapter.__init__, pydantic.TypeAdapter.json_schema = _init, _schema


@dataclasses.dataclass(frozen=True, eq=False)
class Val:
    """an arbitrary value: crosses the JSON boundary as an opaque token"""
    v: object


TABLE = []


def token(v):
    TABLE.append(v)
    return f"v{len(TABLE) - 1}"


def untoken(s):
    return TABLE[int(s[1:])]


def _dec(x):
    if isinstance(x, Val):
        return x
    if isinstance(x, str) and x[:1] == "v" and x[1:].isdigit():
        return Val(untoken(x))
    raise ValueError(f"not a value: {x!r}")


TypeToPydanticType.register(Val)(lambda ty: typing.Annotated[ty, pydantic.PlainValidator(_dec), pydantic.PlainSerializer(lambda x: token(x.v)), pydantic.WithJsonSchema({"type": "string"})])


class UserErr(Exception):
    pass


class OtherErr(Exception):
    pass


class Stop(BaseException):
    pass


class ApiErr(Exception):
    pass


W = None      # the running world


GNAMES = {"add": "gadd", "risky": "grisky", "opt": "gopt", "consult": "gask", "delegate": "gask"}


class Bot(Agent):
    """bot prompt"""

    def __init__(self, name):
        self.name = name
        self.peer = None

    @Tool.define
    def add(self, a: Val, b: Val) -> Val:
        """adds"""
        return W.ran(self.name + ".add", a, b)

    @Tool.define
    def risky(self, a: Val) -> Val:
        """may fail"""
        return W.ran(self.name + ".risky", a)

    @Tool.define
    def opt(self, a: Val, *, b: Val = Val(77)) -> Val:
        """has a default"""
        return W.ran(self.name + ".opt", a, b)

    @Tool.define
    def consult(self, a: Val) -> Val:
        """asks oneself"""
        W.ran(self.name + ".consult", a)
        return self.sub(a)

    @Tool.define
    def delegate(self, a: Val) -> Val:
        """asks the peer"""
        W.ran(self.name + ".delegate", a)
        return self.peer.sub(a)

    @Template.define
    def ask(self, q: Val) -> Val:
        """Question {q} for {self.name}"""
        raise NotHandled

    @Template.define
    def sub(self, q: Val) -> Val:
        """Subquestion {q} for {self.name}"""
        raise NotHandled


def _make():
    @Tool.define
    def gadd(a: Val, b: Val) -> Val:
        """adds"""
        return W.ran("gadd", a, b)

    @Tool.define
    def grisky(a: Val) -> Val:
        """may fail"""
        return W.ran("grisky", a)

    @Tool.define
    def gopt(a: Val, *, b: Val = Val(77)) -> Val:
        """has a default"""
        return W.ran("gopt", a, b)

    @Tool.define
    def gask(a: Val) -> Val:
        """asks agent A"""
        W.ran("gask", a)
        return W.bots[0].sub(a)

    @Template.define
    def plain(q: Val) -> Val:
        """Plain {q}"""
        raise NotHandled
    return plain


plain = _make()


# what the model answers: (kind) -> content, calls; each call is (tool suffix, args or bad)
KINDS = {
    "fin": ("ok", ()), "bad": ("bad", ()), "badjson": ("garbage", ()),
    "one": (None, (("add", 2),)), "two": (None, (("add", 2), ("risky", 1))), "dup": ("text", (("add", 2), ("add", 2))),
    "argbad": (None, (("add", "bad"),)), "argmiss": (None, (("add", 1),)), "unknown": (None, (("nosuch", 1),)),
    "okbad": (None, (("add", 2), ("add", "bad"))), "badok": (None, (("nosuch", 1), ("add", 2))),
    "raise": (None, (("risky!", 1),)), "raise2": (None, (("risky!", 1), ("add", 2))), "raise3": (None, (("add", 2), ("risky!", 1))),
    "nest": (None, (("consult", 1),)), "peer": (None, (("delegate", 1),)), "nest2": (None, (("consult", 1), ("add", 2))),
    "err": ("err", ()), "abort": (None, (("risky!!", 1),)), "argraise": (None, (("add", 2), ("add", "bad"), ("risky", 1))),
    "opt": (None, (("opt", 1), ("opt", 2))), "optrev": ("text", (("opt", "rev"),)),
    "other": (None, (("risky?", 1),)),
}
BADCALL = {"bad", 0}


class World:
    """one run: the model's answers are chosen on demand, everything observable is recorded"""

    def __init__(self, X, kinds, limit, inner=("fin", "one", "bad", "err")):
        global W
        W = self
        TABLE.clear()
        self.X, self.kinds, self.limit, self.inner = X, kinds, limit, inner
        self.nreq = 0
        self.depth = 0
        self.script = []          # kind per request
        self.requests = []        # normalised messages per request
        self.raw = []             # the responses: (content, calls) with tokens
        self.log = []             # tools run
        self.fails = []
        self.bots = [Bot("A"), Bot("B")]
        self.bots[0].peer, self.bots[1].peer = self.bots[1], self.bots[0]
        self.f = X.func("tool", 2)
        self.kw = []

    def ran(self, name, *args):
        self.log.append((name, tuple(a.v for a in args)))
        k = self.fails.pop(0) if name.endswith("risky") and self.fails else None
        if k == "!":
            raise UserErr("user failure")
        if k == "!!":
            raise Stop("stop")
        if k == "?":
            raise OtherErr("other failure")
        return Val(self.f(args[0].v, args[1].v if len(args) > 1 else 0))

    def answer(self, *args, messages, **kw):
        X = self.X
        self.kw.append(kw)
        i = self.nreq
        self.nreq += 1
        self.requests.append([norm(m) for m in messages])
        if i >= self.limit:
            k = "fin"
        else:
            inner = sum(1 for m in messages if m["role"] == "user" and "Sub" in text(m)) and text([m for m in messages if m["role"] == "user"][-1]).startswith("Sub")
            k = X.pick("k", self.inner) if inner else X.pick("k", self.kinds)
        self.script.append(k)
        content, calls = KINDS[k]
        last = text([m for m in messages if m["role"] == "user" and not text(m).startswith("Error")][-1])
        pre = "" if last.startswith("Plain") else "self__"
        vals = []
        out = []
        for j, (nm, n) in enumerate(calls):
            fail = nm.lstrip("abcdefghijklmnopqrstuvwxyz")
            nm = nm.rstrip("!?")
            if nm == "risky" and k not in ("argraise",):
                self.fails.append(fail)
            vs = [X.int(f"x{i}{j}{q}") for q in range(2)]
            if n == "bad":
                ar = {"a": token(vs[0]), "b": "zzz"}
            elif n == "rev":
                ar = {"b": token(vs[1]), "a": token(vs[0])}
            elif n == 1:
                ar = {"a": token(vs[0])}
            else:
                ar = {"a": token(vs[0]), "b": token(vs[1])}
            nm = pre + nm if pre else GNAMES.get(nm, nm)
            out.append(dict(id=f"c{i}_{j}", type="function", function=dict(name=nm, arguments=json.dumps(ar))))
            vals.append(vs)
        if content == "err":
            self.raw.append((k, None, [], None))
            raise ApiErr("provider down")
        final = X.int(f"fin{i}")
        body = {"ok": lambda: json.dumps({"value": token(final)}), "bad": lambda: json.dumps({"value": "zzz"}), "garbage": lambda: "oops {", "text": lambda: "thinking", None: lambda: None}[content]()
        self.raw.append((k, body, out, final))
        return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content=body, tool_calls=out or None), finish_reason="tool_calls" if out else "stop")], model="m")


def text(m):
    c = m["content"]
    return c if isinstance(c, str) or c is None else "".join(p["text"] for p in c)


def norm(m):
    r = m["role"]
    if r == "assistant":
        return ("assistant", m.get("content"), tuple((c["id"], c["function"]["name"], c["function"]["arguments"]) for c in m.get("tool_calls") or ()))
    if r == "tool":
        return ("tool", m["tool_call_id"], text(m))
    return (r, text(m))


class Give(Exception):
    """the reference run ends with this outcome"""

    def __init__(self, what, info=None):
        self.what, self.info = what, info


DOCS = {"ask": "Question {} for {}", "sub": "Subquestion {} for {}"}


class Oracle:
    """independent direct-style semantics of a conversation, replaying the answers the model gave"""

    def __init__(self, w, retry, stops, catch):
        self.w, self.retry, self.stops, self.catch = w, retry, stops, catch
        self.slept = []
        self.pos = 0
        self.requests, self.log = [], []
        self.fails = []
        self.hist = {}

    def call(self, who, prompt, nested, system):
        base = self.hist.get(who, []) if who is not None else []
        msgs = list(base)
        if not msgs:
            msgs = [("system", system)]
        msgs.append(("user", prompt))
        while True:
            scratch, n = list(msgs), 0
            while True:
                self.requests.append(list(scratch))
                k, body, calls, final = self.w.raw[self.pos]
                self.pos += 1
                if k == "err":
                    raise Give("ApiErr")
                ass = ("assistant", body, tuple((c["id"], c["function"]["name"], c["function"]["arguments"]) for c in calls))
                bad = next((j for j, (nm, q) in enumerate(KINDS[k][1]) if nm == "nosuch" or q == "bad" or nm == "add" and q == 1), None)
                if bad is None and k not in ("bad", "badjson"):
                    break
                n += 1
                if not self.retry or self.stops(n):
                    raise Give("ToolCallDecodingError" if bad is not None else "ResultDecodingError", ass)
                self.slept.append(n)
                scratch.append(ass)
                if bad is None:
                    scratch.append(("user", ("has", "Error decoding")))
                else:
                    scratch.append(("answers", calls[bad]["id"], tuple(c["id"] for c in calls)))
            msgs.append(ass)
            if not calls:
                if who is not None and not nested:
                    self.hist[who] = msgs
                return final
            for (nm, q), c in zip(KINDS[k][1], calls):
                msgs.append(self.tool(who, nm, c))

    def tool(self, who, nm, c):
        ar = json.loads(c["function"]["arguments"])
        vs = tuple(untoken(ar[x]) for x in ("a", "b") if x in ar)
        vs += (77,) if nm == "opt" and "b" not in ar else ()
        base = nm.rstrip("!?")
        nick = "AB"[who] if who is not None else None
        name = f"{nick}.{base}" if who is not None else GNAMES[base]
        self.log.append((name, vs))
        if nm.endswith("!!"):
            raise Give("Stop")
        if nm[-1] in "!?":
            err = "user failure" if nm[-1] == "!" else "other failure"
            if self.retry and (nm[-1] == "!" or self.catch == "all"):
                return ("tool", c["id"], ("has", err))
            raise Give("ToolCallExecutionError", err)
        if base in ("consult", "delegate"):
            other = 0 if who is None else who if base == "consult" else 1 - who
            try:
                r = self.call(other, ("is", "Subquestion {} for " + "AB"[other], vs[0]), True, SYS)
            except Give as g:
                if g.what == "Stop":
                    raise
                if self.retry and self.catch == "all":
                    return ("tool", c["id"], ("has", "Tool execution failed"))
                raise Give("ToolCallExecutionError") from None
        else:
            r = self.w.f(vs[0], vs[1] if len(vs) > 1 else 0)
        return ("tool", c["id"], ("is", "{}", r))


SYS = "bot prompt"


def agree(X, got, want, what):
    """got: normalised real messages; want: expected ones"""
    got = list(got)
    for e in want:
        if e[0] == "answers":
            # one answer per call of the rejected message, in any order, the rejected one saying why
            ids = list(e[2])
            seg, got = got[:len(ids)], got[len(ids):]
            X.check(sorted(g[1] for g in seg if g[0] == "tool") == sorted(ids), lambda: f"{what}: a rejected message with calls {ids} is answered by {seg}")
            X.check(any(g[1] == e[1] and "Error decoding" in g[2] for g in seg), lambda: f"{what}: no feedback about call {e[1]}: {seg}")
            continue
        X.check(bool(got), lambda: f"{what}: message {e} is missing")
        g = got.pop(0)
        X.check(g[0] == e[0] and len(g) == len(e), lambda: f"{what}: {g} instead of {e}")
        for a, b in zip(g[1:], e[1:]):
            if isinstance(b, tuple) and b and b[0] == "has":
                X.check(b[1] in (a or ""), lambda: f"{what}: {a!r} does not mention {b[1]!r}")
            elif isinstance(b, tuple) and b and b[0] == "is":
                pre, post = b[1].split("{}")
                ok = isinstance(a, str) and a.startswith(pre) and a.endswith(post)
                tok = a[len(pre):len(a) - len(post)] if ok else ""
                X.check(ok and tok[:1] == "v" and tok[1:].isdigit(), lambda: f"{what}: {a!r} instead of {b}")
                X.check_eq(untoken(tok), b[2], f"{what}: value in {a!r}")
            elif e[0] == "system":
                X.check(a == b or b in a, lambda: f"{what}: system message {a!r}")
            else:
                X.check(a == b, lambda: f"{what}: {a!r} instead of {b!r}")
    X.check(not got, lambda: f"{what}: extra messages {got}")


def wellformed(X, msgs):
    """the provider's contract for a request"""
    roles = [m[0] for m in msgs]
    X.check(roles[:1] == ["system"] and roles.count("system") == 1, lambda: f"system message: {roles}")
    open_, seen = [], set()
    for m in msgs:
        if m[0] == "tool":
            X.check(m[1] in open_, lambda: f"tool message for {m[1]}, open calls {open_}")
            open_.remove(m[1])
            continue
        X.check(not open_, lambda: f"calls {open_} unanswered before {m}")
        if m[0] == "assistant":
            open_ = [c[0] for c in m[2]]
            X.check(not (set(open_) & seen), "a call id repeats")
            seen |= set(open_)
    X.check(not open_, lambda: f"calls {open_} unanswered at the end of the request")


def conversation(kinds, limit, calls, what, modes=("none", "retry", "retry-user"), inner=("fin", "one", "bad", "err")):
    def hh(X):
        w = World(X, kinds, limit, inner)
        mode = X.pick("mode", modes)
        slept = []
        if mode == "policy":
            pol = X.func("stop", 1, "bool")
            stop, stops = (lambda rs: bool(pol(rs.attempt_number))), lambda n: bool(pol(n))
        else:
            n = X.int("attempts", 1, 3)
            stop, stops = tenacity.stop_after_attempt(n), lambda k: bool(k >= n)
        o = Oracle(w, mode != "none", stops, "user" if mode == "retry-user" else "all")
        stack = [LiteLLMProvider("m")]
        if mode == "default":
            stack.append(RetryLLMHandler())
            o.stops = lambda k: k >= 4
        elif mode != "none":
            kw = dict(catch_tool_errors=(KeyError, UserErr)) if mode == "retry-user" else {}
            stack.append(RetryLLMHandler(include_traceback=mode == "policy", stop=stop, before_sleep=lambda rs: slept.append(rs.attempt_number), **kw))
        hs = functools.reduce(coproduct, stack)
        seq = X.pick("calls", calls)
        with handler(hs), handler({completion: w.answer}):
            checked = 0
            for i, who in enumerate(seq):
                q = X.int(f"q{i}")
                before = [list(b.__history__.items()) for b in w.bots]
                try:
                    got = (plain(Val(q)) if who is None else w.bots[who].ask(Val(q))).v
                    out = "value"
                except (UserErr, OtherErr, Stop, ApiErr, ToolCallDecodingError, ResultDecodingError, ToolCallExecutionError) as e:
                    out, got = type(e).__name__, e
                X.note(f"{who}: {w.script} -> {out}")
                try:
                    ref = o.call(who, ("is", "Plain {}" if who is None else "Question {} for " + "AB"[who], q), False, SYS if who is not None else __doc__)
                    rout = "value"
                except Give as g:
                    rout, ref = g.what, g.info
                X.check(out == rout, lambda: f"call {i} ends with {out}: {got}, expected {rout} ({w.script})")
                X.check(len(w.requests) == len(o.requests), lambda: f"{len(w.requests)} requests instead of {len(o.requests)} for {w.script}")
                for k in range(checked, len(w.requests)):
                    wellformed(X, w.requests[k])
                    agree(X, w.requests[k], o.requests[k], f"request {k} of {w.script}")
                checked = len(w.requests)
                if what == "history":
                    for b in (0, 1):
                        h = w.bots[b].__history__
                        agree(X, [norm(m) for m in h.values()], o.hist.get(b, []), f"history of {'AB'[b]} after {w.script}")
                        X.check(all(k == m["id"] for k, m in h.items()), "history keys are the message ids")
                        if out != "value" or b != who:
                            X.check(list(h.items()) == before[b], lambda: f"history of {'AB'[b]} changed by {'a failed call' if b == who else 'a call on another agent'}")
                        else:
                            X.check(list(h.items())[:len(before[b])] == before[b], "earlier history was rewritten")
                if out == "ToolCallExecutionError" and ref:
                    X.check(str(got.original_error) == ref, lambda: f"the error reported is {got.original_error}")
                if out.endswith("DecodingError"):
                    X.check(norm(got.raw_message) == ref, lambda: f"the rejected message reported is {got.raw_message}")
                if mode not in ("none", "default"):
                    X.check(slept == o.slept, lambda: f"before_sleep saw attempts {slept}, expected {o.slept}")
                X.check_eq(w.log, o.log, f"tools run for {w.script}")
                if out == "value":
                    X.check_eq(got, ref, f"result of {w.script}")
                try:
                    _get_history()
                    X.fail("a history is still installed")
                except Exception as e:
                    X.check(type(e).__name__ == "_NoActiveHistoryException", "history handler removed")
                X.reach(out)
        X.reach("end")
    return hh
