"""C23 tools: exactly what is in lexical scope is offered, each under one name, and a call by that name runs that very tool"""
import itertools
import linecache
from collections import ChainMap
import llm
from llm import *
from effectful.handlers.llm.completions import LexicalReaders
from effectful.handlers.llm.template import IsRecursive

RAN = []


class Base(Agent):
    """agent prompt"""

    def __init__(self, tag):
        self.tag = tag

    @Tool.define
    def m(self, a: Val) -> Val:
        """base m"""
        RAN.append((self.tag, "Base.m", a.v))
        return a

    @Tool.define
    def n(self, a: Val) -> Val:
        """base n"""
        RAN.append((self.tag, "Base.n", a.v))
        return a

    plain_attribute = 3

    def helper(self):
        raise AssertionError("not a tool")


class Derived(Base):
    @Tool.define
    def n(self, a: Val) -> Val:
        """derived n"""
        RAN.append((self.tag, "Derived.n", a.v))
        return a

    @Tool.define
    def k(self, a: Val) -> Val:
        """derived k"""
        RAN.append((self.tag, "Derived.k", a.v))
        return a


def mktool(name):
    def fn(a: Val) -> Val:
        """a tool"""
        RAN.append((name, a.v))
        return a
    fn.__name__ = fn.__qualname__ = name
    return Tool.define(fn)


def mktemplate(rec, par):
    if rec:
        def self_() -> typing.Annotated[Val, IsRecursive]:
            """Recursive one"""
            raise NotHandled

        def selfp_(y: Val) -> typing.Annotated[Val, IsRecursive]:
            """Recursive one {y}"""
            raise NotHandled
    else:
        def self_() -> Val:
            """Flat one"""
            raise NotHandled

        def selfp_(y: Val) -> Val:
            """Flat one {y}"""
            raise NotHandled
    f = selfp_ if par else self_
    return Template.define(f)


OBJ = ["tool1", "tool2", "template", "self", "agent", "agentmethod", "value", "none", "function", "op"]


def offer(readers):
    def hh(X):
        RAN.clear()
        TABLE.clear()
        t1, t2 = mktool("one"), mktool("two")
        rec, par = bool(X.choose("rec", 2)), bool(X.choose("param", 2))
        me = mktemplate(rec, par)
        other = mktemplate(False, False)
        ag = Derived("d") if not X.choose("base", 2) else Base("b")
        val = Val(X.int("val"))
        free = defop(int, name="free")
        objs = dict(tool1=t1, tool2=t2, template=other, self=me, agent=ag, agentmethod=ag.m, value=val, none=None, function=len, op=free, absent=None)
        o1, o2 = X.pick("x", OBJ), X.pick("y", OBJ)
        o3 = X.pick("inner", ["absent", "tool2", "value", "agent"])
        outer = {"x": objs[o1], "y": objs[o2], "not-a-name": val}
        inner = {} if o3 == "absent" else {"x": objs[o3]}
        me.__context__ = ChainMap(inner, outer)
        other.__context__ = ChainMap({})
        vis = {**outer, **inner}
        pv = Val(X.int("pv"))
        if par:
            vis["y"] = pv
        names = {}          # tool -> its possible names
        for nm, o in vis.items():
            if isinstance(o, Tool):
                names.setdefault(o, set()).add(nm)
            elif isinstance(o, Agent):
                for at in ("m", "n", "k") if isinstance(o, Derived) else ("m", "n"):
                    names.setdefault(getattr(o, at), set()).add(f"{nm}__{at}")
        if not rec:
            names.pop(me, None)
        vals = {nm: o for nm, o in vis.items() if isinstance(o, Val) and nm.isidentifier()} if readers else {}
        offered, answers, msgs = [], [], []

        def model(*a, messages, tools=(), **kw):
            specs = [s["function"] for s in tools]
            if not offered:
                offered.extend(s["name"] for s in specs)
                msgs.append(norm(messages[-1]))
            answers.append([norm(m) for m in messages])
            if len(answers) == 1 and "call" in plan:
                args = {} if plan["call"] in vals or plan["obj"] in (me, other) else {"a": token(arg)}
                if plan["obj"] is me and par:
                    args = {"y": token(arg)}
                call = dict(id="c", type="function", function=dict(name=plan["call"], arguments=json.dumps(args)))
                return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content=None, tool_calls=[call]), finish_reason="tool_calls")], model="m")
            return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content=json.dumps({"value": token(fin)})), finish_reason="stop")], model="m")

        arg, fin = X.int("arg"), X.int("fin")

        def run():
            offered.clear(), answers.clear(), msgs.clear()
            hs = LiteLLMProvider("m")
            if readers:
                hs = coproduct(hs, LexicalReaders())
            with handler(hs), handler({completion: model}):
                return me(pv) if par else me()
        plan = {}
        run()
        X.note(f"outer {o1},{o2} inner {o3} param {par} recursive {rec}: offered {offered}")
        X.check(len(set(offered)) == len(offered), f"a name is offered twice: {offered}")
        mine = [n for n in offered if n not in vals]
        back = {}
        for t, ns in names.items():
            got = [n for n in mine if n in ns]
            X.check(len(got) == 1, lambda: f"tool {t} visible as {ns} is offered as {got} ({offered})")
            back[got[0]] = t
        extra = [n for n in mine if n not in back and not (readers and (vis.get(n, 0) in (len, None) or vis.get(n) is me))]
        X.check(not extra, lambda: f"{extra} offered but not in scope")
        X.check(all(n in offered for n in vals), lambda: f"values {list(vals)} in scope, offered {offered}")
        X.check(set(me.tools) >= set(n for n, t in back.items() if t in {v for v in [*outer.values(), *inner.values()] if isinstance(v, Tool)} and not par and not readers), lambda: f"{list(me.tools)}")
        for nm in list(back) + list(vals):
            RAN.clear()
            plan = {"call": nm, "obj": back.get(nm)}
            run()
            t = back.get(nm)
            if nm in vals:
                X.check(not RAN, "a reader ran a tool")
                want = vals[nm].v
            elif t in (me, other):
                want = fin
            else:
                want = arg
                exp = ("one", arg) if t is t1 else ("two", arg) if t is t2 else (ag.tag, ("Base." if isinstance(ag, Derived) is False or t is ag.m else "Derived.") + t.__name__, arg)
                X.check_eq(RAN, [exp], f"call of {nm}")
            ans = [m for m in answers[-1] if m[0] == "tool"]
            X.check(len(ans) == 1 and ans[0][1] == "c", lambda: f"answers {ans}")
            X.check_eq(untoken(ans[0][2]), want, f"answer of {nm}")
        X.reach("end")
    return hh


COUNT = itertools.count()
SHAPES = [["F"], ["F", "F"], ["C"], ["F", "C"], ["F", "C", "C"], ["F", "F", "C"], ["C", "F"], ["F", "C", "F"], []]


def scope(X):
    """Template.define sees what Python's lexical scoping makes visible: enclosing functions, not class bodies, not callers"""
    TABLE.clear()
    shape = X.pick("shape", SHAPES)
    nfun = shape.count("F")
    caller = X.pick("caller", ["direct", "other", "samename", "recursive", "between", "between-same"])
    deco = X.choose("kind", 3)
    G = {"Template": Template, "Val": Val, "NotHandled": NotHandled, "keep": [], "staticmethod": staticmethod, "Tool": Tool}
    lines, vals = [], {}
    serial = itertools.count()

    def bind(ind, name):
        k = next(serial)
        vals[k] = k
        lines.append("    " * ind + f"{name} = {k}")
        return k
    visible = {}
    if X.choose("gt", 2):
        visible["t"] = bind(0, "t")
    visible["u"] = bind(0, "u")
    ind, fi, ci = 0, 0, 0
    calls = []
    recursive = caller == "recursive" and nfun
    for j, s in enumerate(shape):
        if s == "F":
            inclass = j and shape[j - 1] == "C"
            nm = f"f{fi}"
            fi += 1
            par = "self, n=0" if inclass else "n=0"
            lines.append("    " * ind + f"def {nm}({par}):")
            ind += 1
            if X.choose(f"b{j}", 2):
                if recursive and fi == 1 and not inclass:
                    k1, k2 = next(serial), next(serial)
                    lines.append("    " * ind + f"t = {k1} if n else {k2}")
                    visible["t"] = k1
                else:
                    visible["t"] = bind(ind, "t")
            visible[f"loc{j}"] = bind(ind, f"loc{j}")
            if recursive and fi == 1 and not inclass:
                lines.append("    " * ind + "if not n:")
                lines.append("    " * (ind + 1) + f"return {nm}(1)")
            calls.append((ind - 1, f"{nm}()" if not inclass else f"c{ci - 1}().{nm}()", caller.startswith("between") and fi == 2))
        else:
            nm = f"c{ci}"
            ci += 1
            lines.append("    " * ind + f"class {nm}:")
            ind += 1
            bind(ind, "t")
            bind(ind, "hidden")
            calls.append(None)
    inclass = bool(shape) and shape[-1] == "C"
    args = "self" if inclass and deco == 0 else "cls" if inclass and deco == 2 else ""
    lines.append("    " * ind + "@Template.define")
    if inclass and deco:
        lines.append("    " * ind + ("@staticmethod" if deco == 1 else "@classmethod"))
    lines.append("    " * ind + f"def tmpl({args}) -> Val:")
    lines.append("    " * (ind + 1) + '"""prompt {u}"""')
    lines.append("    " * (ind + 1) + "raise NotHandled")
    # hand the template out, innermost first
    path = "tmpl"
    for j in range(len(shape) - 1, -1, -1):
        if shape[j] == "C":
            ind -= 1
            ci -= 1
            path = (f"c{ci}.tmpl" if deco == 2 else f"c{ci}.__dict__['tmpl']") if path == "tmpl" else path
            if path.startswith("c") and j < len(shape) - 1 and shape[j + 1] == "C":
                path = f"c{ci}." + path
        else:
            lines.append("    " * ind + f"keep.append({path})" if not path.startswith("keep") else "    " * ind + "pass")
            path = "keep"
            ind -= 1
            _, call, btw = calls[j]
            if "c" in call.split("f")[0]:
                # a method: run it where its class lives
                k = j - 1
                while k and shape[k - 1] == "C":
                    k -= 1
                ind2 = ind - (j - k)
            else:
                ind2 = ind
            if btw:
                bn = "f0" if caller == "between-same" else "between"
                lines.append("    " * ind2 + f"def {bn}():")
                lines.append("    " * (ind2 + 1) + "t = hidden = 'leak'")
                lines.append("    " * (ind2 + 1) + call)
                lines.append("    " * ind2 + f"{bn}()")
            elif j == 0 or all(s == "C" for s in shape[:j]):
                body = call
                if caller in ("other", "samename"):
                    nm = "f0" if caller == "samename" else "other"
                    lines.append("ns = {}")
                    lines.append(f"def mk(go):\n    def {nm}():\n        t = hidden = 'leak'\n        return go()\n    return {nm}")
                    lines.append(f"mk(lambda: {call})()")
                else:
                    lines.append(call)
            else:
                lines.append("    " * ind2 + call)
    if path != "keep":
        lines.append(f"keep.append({path})")
    src = "\n".join(lines)
    X.note(src)
    fn = f"<scope-{next(COUNT)}>"
    exec(compile(src, fn, "exec"), G)
    tm = G["keep"][0]
    if isinstance(tm, staticmethod):
        tm = tm.__func__
    ctx = tm.__context__
    for name in ("t", "u", "hidden", "loc0", "loc1", "loc2"):
        want = visible.get(name, "<unbound>")
        got = ctx.get(name, "<unbound>")
        X.check(got == want and type(got) is type(want), lambda: f"{name} is {got!r} in the template's context, lexically {want!r}\n{src}")
    X.check("__qualname__" not in ctx, "class body captured")
    X.reach("end")


def harnesses(tier):
    return [
        H("offer", offer(False), "2 names with 10 kinds of value in the outer scope, 4 in the inner, parameter shadowing, recursion, 2 agent classes", split("rec", 2, ("param", 2), ("base", 2), ("x", 10)), ("end",)),
        H("readers", offer(True), "the same, with values exposed as readers", split("rec", 2, ("param", 2), ("base", 2), ("x", 10)), ("end",)),
        H("scope", scope, "9 nestings of functions and classes x bindings at every level x 6 callers, plain, static and class methods", split("shape", 9, ("caller", 6)), ("end",)),
    ]
