"""C24 prompts: every field of a template is replaced by its value as text or content blocks, in place, and nothing else changes"""
import base64
import io
import string
import textwrap
import warnings
from collections import ChainMap
from PIL import Image
import symx
import effectful.handlers.llm.encoding as encoding
from effectful.handlers.llm.completions import call_user
from effectful.handlers.llm.encoding import Encodable, to_content_blocks
from llm import *
import llm
from llm import _get_history

warnings.simplefilter("ignore")
# the kinds of content block of the provider's interface
BLOCK_TYPES = ["text", "image_url", "input_audio", "document", "video_url", "file"]


def consts(code):
    out = set()
    for c in code.co_consts:
        if isinstance(c, str):
            out.add(c)
        elif isinstance(c, (tuple, frozenset)):
            out |= {x for x in c if isinstance(x, str)}
        elif hasattr(c, "co_consts"):
            out |= consts(c)
    return out


def literals():
    """every string the code under test can compare a string with"""
    out = set(BLOCK_TYPES) | set(encoding.CONTENT_BLOCK_TYPES) | {"type"}
    fn = to_content_blocks
    while hasattr(fn, "__wrapped__"):
        fn = fn.__wrapped__
    return sorted(x for x in out | consts(fn.__code__) if x.isidentifier())


LITS = literals()


class TStr(str):
    """a text about which nothing is known: comparisons are decided by the solver, its characters are one opaque mark"""

    def __new__(cls, sym, i):
        s = super().__new__(cls, chr(0xE000 + i))
        s.sym = sym
        return s

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is TStr:
            return bool(self.sym == o.sym)
        return isinstance(o, str) and bool(self.sym == o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        for x in LITS:
            if self == x:
                return hash(x)
        return str.__hash__(self)

    def _no(self, *a, **k):
        raise symx.Inconclusive("text inspected")
    __len__ = __contains__ = __getitem__ = __iter__ = startswith = endswith = strip = lstrip = rstrip = split = replace = lower = upper = find = partition = format = isidentifier = _no


class World24:
    def __init__(self, X):
        self.X, self.n = X, 0

    def text(self, nm):
        """an arbitrary text (an opaque mark unless replayed)"""
        s = self.X.str(nm, maxlen=4)
        self.n += 1
        return TStr(s, self.n) if self.X.symbolic else s

    def mark(self, nm):
        s = self.text(nm)
        return str.__str__(s) if type(s) is not TStr else chr(0xE000 + self.n)


def tree(X, w, d, nm):
    top = len(nm) == 1
    kinds = ["leaf", "text", "list", "dict", "block"]
    k = X.pick(nm, kinds if d else ["leaf", "text", "block"])
    if k == "leaf":
        return X.pick(nm + "l", [None, True, 0, -2.5, 'q"\\\né', "type", [], {}] if top else [None, 'q"\\\né', {}])
    if k == "text":
        return w.text(nm + "s")
    if k == "block":
        b = X.pick(nm + "b", ["image", "imageurl", "text", "file", "audio"] if top else ["imageurl", "text"])
        m = w.mark(nm + "u")
        return {"image": {"type": "image_url", "image_url": {"url": m, "detail": "auto"}}, "imageurl": {"type": "image_url", "image_url": m}, "text": {"type": "text", "text": m},
                "file": {"type": "file", "file": {"file_id": m}}, "audio": {"type": "input_audio", "input_audio": {"data": m, "format": "wav"}}}[b]
    n = X.choose(nm + "n", 3)
    if k == "list":
        return [tree(X, w, d - 1, f"{nm}{i}") for i in range(n)]
    out = {}
    for i in range(n):
        key = X.pick(f"{nm}k{i}", ["a", "type", "?"] if i == 0 else ["b", "?"] if top else ["b"])
        if key == "?":
            key = w.text(f"{nm}key{i}")
        if key == "type":
            how = X.pick(f"{nm}t{i}", ["text", "other", "list", "none"])
            out[key] = {"text": lambda: w.text(f"{nm}tv"), "other": lambda: "Text", "list": lambda: ["text"], "none": lambda: None}[how]()
            if how == "text":
                s = getattr(out[key], "sym", out[key])
                X.assume(X.all(X.not_(X.eq(s, b)) for b in BLOCK_TYPES))
            continue
        out[key] = tree(X, w, d - 1, f"{nm}{i}")
    return out


def isblock(v):
    return type(v) is dict and any(type(k) is str and k == "type" for k in v) and isinstance(v["type"], str) and type(v["type"]) is str and v["type"] in BLOCK_TYPES


def flat(v, out):
    """reference: the JSON text of v with its content blocks cut out"""
    if isblock(v):
        out.append(v)
    elif isinstance(v, dict):
        out.append("{")
        for i, (k, x) in enumerate(v.items()):
            out.append((", " if i else "") + json.dumps(k) + ": ")
            flat(x, out)
        out.append("}")
    elif isinstance(v, list):
        out.append("[")
        for i, x in enumerate(v):
            out.append(", " if i else "")
            flat(x, out)
        out.append("]")
    else:
        out.append(json.dumps(v))
    return out


def merge(parts):
    """adjacent texts are one text"""
    out = []
    for p in parts:
        if isinstance(p, dict) and p.get("type") == "text":
            p = p["text"]
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return [p for p in out if p != ""]


def plain(v):
    return json.loads(json.dumps(v))


def blocks(d):
    def hh(X):
        w = World24(X)
        v = tree(X, w, d, "t")
        before = json.dumps(v)
        got = to_content_blocks(v)
        X.note(f"{before} -> {got}")
        X.check(json.dumps(v) == before, "the value was changed")
        if isinstance(v, str):
            X.check(len(got) == 1 and got[0]["type"] == "text" and json.dumps(got[0]["text"]) == json.dumps(v), lambda: f"text {v!r} gives {got}")
        else:
            want = merge(flat(v, []))
            have = merge(plain(got))
            X.check(plain(have) == plain(want), lambda: f"{before} gives {have}, expected {want}")
            X.check(all(p["type"] != "text" or p["text"] or v == {"type": "text", "text": ""} for p in got) or "text" in before, lambda: f"empty text block in {got}")
        X.reach("end")
    return hh


PNG = Image.new("RGB", (1, 1))
PNG2 = Image.new("RGB", (1, 2))


def imgblock(im):
    buf = io.BytesIO()
    im.save(buf, format="PNG")
    return {"type": "image_url", "image_url": {"detail": "auto", "url": "data:image/png;base64," + base64.b64encode(buf.getvalue()).decode()}}


@dataclasses.dataclass
class Rec:
    name: str
    tags: list[str]


class Namer(Agent):
    """namer"""

    def __init__(self, name):
        self.name = name


VALS = ["text", "tricky", "num", "none", "list", "tuple", "rec", "image", "images", "mixed", "nested"]
FIELDS = {"plain": "", "attr": ".name", "index": ".tags[1]", "item": "[0]", "key": "[k]"}
CONV = ["", "!r", "!s", "!a"]
SPEC = ["", ":>7", ":*^9", ":.2"]


def envval(X, w, nm, kind):
    """(value, its encoding as nested data with content blocks)"""
    if kind == "text":
        m = w.mark(nm)
        return m, m
    if kind == "tricky":
        s = X.pick(nm + "t", ["", "{x}", "a\n    b", 'q"\'', "{{", "é"])
        return s, s
    if kind == "num":
        n = X.pick(nm + "n", [0, -3, 2.5, True])
        return n, n
    if kind == "none":
        return None, None
    if kind == "list":
        ms = [w.mark(nm), "b"][:X.choose(nm + "l", 3)]
        return ms, ms
    if kind == "tuple":
        m = w.mark(nm)
        return (m, 3), {"item_0": m, "item_1": 3}
    if kind == "rec":
        m = w.mark(nm)
        return Rec(m, [m, "z"]), {"name": m, "tags": [m, "z"]}
    if kind == "image":
        return PNG, imgblock(PNG)
    if kind == "images":
        return [PNG, PNG2], [imgblock(PNG), imgblock(PNG2)]
    if kind == "mixed":
        m = w.mark(nm)
        return (m, PNG, 1), {"item_0": m, "item_1": imgblock(PNG), "item_2": 1}
    return {"p": [PNG], "q": [PNG2]}, {"p": [imgblock(PNG)], "q": [imgblock(PNG2)]}


LITERALS = ["", "say ", "{{x}} ", "\n\tline\n  more "]


def expected(parts):
    """parts: literal texts and (encoded, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p.replace("{{", "{").replace("}}", "}"))
            continue
        e, conv, spec = p
        for q in ([e] if isinstance(e, str) else merge(flat(e, []))):
            if isinstance(q, str):
                q = {"": lambda x: x, "!r": repr, "!s": str, "!a": ascii}[conv](q)
                out.append(format(q, spec[1:]))
            else:
                out.append(q)
    return merge(out)


def prompt(X):
    """call_user on two fields with literals around them"""
    w = World24(X)
    env, parts, doc = {}, [], ""
    for i, nm in enumerate(("x", "y")):
        k = X.pick("k" + nm, VALS if i == 0 else ["text", "image", "num", "again"])
        lit = X.pick("l" + nm, LITERALS) if i == 0 else X.pick("l" + nm, LITERALS[:3])
        fld = ""
        if k == "again":
            nm = "x"
            v, e = env["x"], parts[1][0] if not first else first
        else:
            v, e = envval(X, w, nm, k)
            env[nm] = v
        first = e
        if i == 0 and k == "rec":
            fld = X.pick("field", ["", ".name", ".tags", ".tags[1]"])
            first = e
            e = {"": e, ".name": e["name"], ".tags": e["tags"], ".tags[1]": "z"}[fld]
        elif i == 0 and k == "images":
            fld = X.pick("field", ["", "[1]"])
            e = e[1] if fld else e
        elif i == 0 and k == "nested":
            fld = X.pick("field", ["", "[q]", "[p][0]"])
            e = {"": e, "[q]": e["q"], "[p][0]": e["p"][0]}[fld]
        conv = X.pick("conv", CONV) if i == 0 else ""
        spec = X.pick("spec", SPEC) if i == 0 and k in ("tricky", "num", "image") else ""
        doc += lit + "{" + nm + fld + conv + spec + "}"
        parts += [lit, (e, conv, spec)]
    doc += "."
    parts.append(".")
    env["unused"] = object()
    X.note(doc, env)
    h = collections.OrderedDict()
    with handler({_get_history: lambda: h}):
        msg = call_user(doc, ChainMap({}, env))
    got = msg["content"]
    X.check(msg["role"] == "user" and list(h.values()) == [msg], "the prompt is not the one message appended")
    got = merge(plain(got)) if not isinstance(got, str) else [got]
    want = expected(parts)
    X.check(got == plain(want), lambda: f"prompt {doc!r} gives {got}, expected {want}")
    X.reach("end")


def whole(X):
    """a template call: arguments by position, by name or defaulted, lexical names, attributes of the agent, indentation"""
    w = World24(X)
    TABLE.clear()
    a, b, dflt, g, nm = (w.mark(x) for x in "abdgn")
    form = X.pick("form", ["pos", "kw", "default"])
    shadow = X.choose("shadow", 2)
    method = X.choose("method", 2)
    margin = X.pick("margin", ["", "        ", "\t"])
    lines = ["First {a} and", "", "  {b!s}{g}", "{{not a field}}"] + (["{self.name}"] if method else []) + ["end{a}"]
    first = X.choose("first", 2)
    doc = "\n" * (1 - first) + "\n".join((margin if (i or not first) and x else "") + x for i, x in enumerate(lines)) + "\n" + margin
    ns = dict(Template=Template, NotHandled=NotHandled, D=dflt, Val=Val, g=g, Agent=Agent)
    src = "@Template.define\ndef t(%sa: str, b: str = D%s) -> str:\n    %r\n    raise NotHandled\n" % ("self, " if method else "", ", *, g: str" if shadow else "", doc)
    if method:
        src = "class C(Agent):\n    'prompt of C'\n    def __init__(self, name):\n        self.name = name\n" + textwrap.indent(src, "    ")
    exec(compile(src, "<c24>", "exec"), ns)
    t = ns["C"](nm).t if method else ns["t"]
    kw = {"g": "gg"} if shadow else {}
    got = []

    def model(*args, messages, **k):
        got.append(messages)
        return ModelResponse(id="r", choices=[dict(index=0, message=dict(role="assistant", content="ok"), finish_reason="stop")], model="m")
    with handler(LiteLLMProvider("m")), handler({completion: model}):
        r = t(a, b, **kw) if form == "pos" else t(b=b, a=a, **kw) if form == "kw" else t(a, **kw)
    X.check(r == "ok", f"result {r!r}")
    users = [m for m in got[0] if m["role"] == "user"]
    X.check(len(got) == 1 and len(users) == 1 and got[0][-1] is users[0], lambda: f"messages {got}")
    text = "".join(p["text"] for p in users[0]["content"])
    bb = dflt if form == "default" else b
    gg = "gg" if shadow else g
    ded = textwrap.dedent(doc)
    want = ded.replace("{{", "\0").replace("}}", "\1").replace("{a}", a).replace("{b!s}", bb).replace("{g}", gg).replace("{self.name}", nm).replace("\0", "{").replace("\1", "}") if X.symbolic else string.Formatter().vformat(
        ded.replace("{self.name}", "{selfname}"), (), dict(a=a, b=bb, g=gg, selfname=nm))
    X.check(text == want, lambda: f"{doc!r} gives {text!r}, expected {want!r}")
    if method:
        X.check("prompt of C" in str(got[0][0]["content"]) and got[0][0]["role"] == "system", lambda: f"system message {got[0][0]}")
    X.reach("end")


def harnesses(tier):
    deep = tier == "thorough"
    return [
        H("blocks", blocks(2 if deep else 1), "JSON trees of depth 1 (thorough 2) with arbitrary texts as leaves, keys and type entries, 5 kinds of content block", split("t", 5, *([("t0", 5)] if deep else [])), ("end",)),
        H("blocks2", blocks(2), "JSON trees of depth 2 whose root is a list or dictionary", [{"t": k, "tn": n, "t0": z} for k in (2, 3) for n in ((1,) if not deep else (1, 2)) for z in range(5)], ("end",)),
        H("prompt", prompt, "2 fields, 11 kinds of value, attribute and item access, 4 conversions, 4 specs, 4 literals", split("kx", 11, ("lx", 4)), ("end",)),
        H("whole", whole, "template functions and agent methods, 3 ways of passing arguments, lexical names, shadowing, indentation", split("form", 3), ("end",)),
    ]
