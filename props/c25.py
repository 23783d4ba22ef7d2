"""C25 encoding: what is encoded decodes to the same value, and nothing but encodings of the type's values is decoded"""
import inspect
import warnings
from effectful.handlers.llm.encoding import DecodedToolCall, Encodable
from effectful.internals.unification import nested_type
from llm import *
import llm

warnings.simplefilter("ignore")
EVal = Encodable[Val]


class P2(typing.NamedTuple):
    a: EVal
    b: EVal


class P3(typing.NamedTuple):
    a: EVal
    b: EVal
    c: int = 7


@dataclasses.dataclass
class DC:
    a: EVal
    n: "int | None" = None


class TD(typing.TypedDict):
    a: EVal
    t: typing.NotRequired[str]


STRS = ["", "ab", "item_0", '{"a": 1}', "nullé"]
LEAF = ["val", "str", "int", "none", "float"]
ALL = ["val", "str", "none", "list", "vtup", "tup0", "tup1", "tup2", "tup3", "p2", "p3", "dict", "dc", "td", "complex", "set", "opt", "alt"]
ATOMS = {"val": Val, "str": str, "int": int, "none": None, "p2": P2, "p3": P3, "dc": DC, "td": TD, "complex": complex, "tup0": tuple[()], "float": float}
# members of a union must have disjoint encodings for decoding to be determined
ALTS = [("tup2", "tup3"), ("tup3", "tup2"), ("tup1", "tup0"), ("tup2", "str"), ("str", "tup2"), ("p2", "p3"), ("p3", "p2"), ("p2", "tup2"), ("tup2", "p2"), ("p2", "str"), ("complex", "float"),
        ("float", "complex"), ("p2", "none"), ("list", "p2"), ("p2", "list"), ("tup2", "dc"), ("td", "tup2"), ("complex", "tup2"), ("tup2", "val"), ("val", "p3"), ("list", "val"), ("tup0", "p2"), ("dc", "none"), ("complex", "str")]


class Ty:
    def __init__(self, kind, parts=()):
        self.kind, self.parts = kind, parts

    def py(self):
        k, p = self.kind, [t.py() for t in self.parts]
        if k == "list":
            return list[p[0]]
        if k == "vtup":
            return tuple[p[0], ...]
        if k in ("tup1", "tup2", "tup3"):
            return tuple[tuple(p)]
        if k == "dict":
            return dict[str, p[0]]
        if k == "set":
            return set[p[0]]
        if k == "opt":
            return typing.Optional[p[0]]
        if k == "alt":
            return typing.Union[p[0], p[1]]
        return ATOMS[k]

    def __repr__(self):
        return self.kind + (str(list(self.parts)) if self.parts else "")


def gen(X, d, nm, kinds=ALL):
    k = X.pick(nm, kinds if d else [x for x in kinds if x in LEAF] or ["val"])
    sub = ["val", "tup2", "p2", "list", "str", "opt", "complex", "alt"] if d > 1 else LEAF[:2]
    if k in ("list", "vtup", "dict", "tup1"):
        return Ty(k, (gen(X, d - 1, nm + "0", sub),))
    if k in ("tup2", "tup3"):
        return Ty(k, (gen(X, d - 1, nm + "0", sub),) + tuple(Ty("val") for _ in range(int(k[3]) - 1)))
    if k == "set":
        return Ty(k, (Ty(X.pick(nm + "0", ["val", "int", "p2"])),))
    if k == "opt":
        return Ty(k, (gen(X, d - 1, nm + "0", ["val", "tup2", "p2", "list", "int"] if d > 1 else ["val", "int"]),))
    if k == "alt":
        return Ty(k, tuple(of(x) for x in X.pick(nm + "alt", ALTS)))
    return Ty(k)


def of(k):
    return Ty(k, {"list": (Ty("int"),), "tup1": (Ty("val"),), "tup2": (Ty("val"), Ty("int")), "tup3": (Ty("val"), Ty("int"), Ty("int"))}.get(k, ()))


def value(X, t, nm):
    k, p = t.kind, t.parts
    v = lambda i: Val(X.int(f"{nm}.{i}"))
    if k == "val":
        return v(0)
    if k == "str":
        return X.pick(nm + "s", STRS)
    if k == "int":
        return X.pick(nm + "n", [0, -5])
    if k == "float":
        return X.pick(nm + "f", [0.0, 2.5])
    if k == "none":
        return None
    if k == "complex":
        return X.pick(nm + "c", [0j, 1 - 2.5j, 3 + 0j])
    if k in ("list", "vtup", "set", "dict"):
        n = X.choose(nm + "len", 3)
        xs = [value(X, p[0], f"{nm}.{i}") for i in range(n)]
        if k == "dict":
            return dict(zip(["item_0", "k"], xs))
        return {"list": list, "vtup": tuple, "set": set}[k](xs)
    if k.startswith("tup"):
        return tuple(value(X, q, f"{nm}.{i}") for i, q in enumerate(p))
    if k == "p2":
        return P2(v(0), v(1))
    if k == "p3":
        return P3(v(0), v(1), X.pick(nm + "n", [0, 7]))
    if k == "dc":
        return DC(v(0), X.pick(nm + "n", [None, 3]))
    if k == "td":
        return {"a": v(0), "t": "x"} if X.choose(nm + "t", 2) else {"a": v(0)}
    if k == "opt":
        return None if X.choose(nm + "o", 2) else value(X, p[0], nm)
    return value(X, p[X.choose(nm + "u", 2)], nm)


def same(X, a, b):
    if isinstance(b, Val):
        return isinstance(a, Val) and X.eq(a.v, b.v)
    if type(a) is not type(b):
        return False
    if isinstance(b, set):
        if len(a) != len(b):
            return False
        key = lambda x: TABLE.index(x.v) if isinstance(x, Val) else 0
        if all(isinstance(x, Val) for x in b):
            return X.all(X.any(same(X, y, x) for y in a) for x in b)
        if all(isinstance(x, P2) for x in b):
            return X.all(X.any(same(X, y, x) for y in a) for x in b)
        return a == b
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and X.all(same(X, x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return list(a) == list(b) and X.all(same(X, a[k], b[k]) for k in b)
    if isinstance(b, DC):
        return X.all([same(X, a.a, b.a), a.n == b.n])
    return a == b and repr(a) == repr(b)


ADAPT = {}


def adapter(t):
    """one adapter per type; the real conversion runs once per process and type"""
    k = repr(t)
    if k not in ADAPT:
        ADAPT[k] = pydantic.TypeAdapter(Encodable[t.py()])
    return ADAPT[k]


def roundtrip(depth):
    def hh(X):
        TABLE.clear()
        t = gen(X, depth, "t")
        v = value(X, t, "v")
        ad = adapter(t)
        e = ad.dump_python(v, mode="json", context={})
        js = json.dumps(e)
        X.note(f"type {t} value {v} encoded {js}")
        X.check(json.loads(js) == e, lambda: f"{t}: encoding {e!r} is not plain JSON")
        for form in (e, json.loads(js)):
            d = ad.validate_python(form, context={})
            X.check(same(X, d, v), lambda: f"{t}: {v!r} encodes to {js}, which decodes to {d!r}")
        X.check(bool(ref(t, e)), lambda: f"{t}: {v!r} encodes to {js}, which is not an encoding of that type")
        nt = nested_type(v).value
        X.check(nt is not tuple or v == () or type(v) is not tuple, lambda: f"the type of {v!r} is {nt}")
        if depth == 1 and type(v) in (tuple, P2, P3, Val, DC) and t.kind not in ("vtup", "opt", "alt"):
            # what templates and tools do: encode at the type the value has
            e2 = pydantic.TypeAdapter(Encodable[nt]).dump_python(v, mode="json", context={})
            X.check(bool(ref(t, e2)), lambda: f"{v!r} of type {nt} encodes to {e2!r}")
            X.check(same(X, ad.validate_python(e2), v), lambda: f"{v!r} of type {nt} encodes to {e2!r}")
        X.reach("end")
    return hh


def ref(t, j):
    """independent reference: the values (as nested data) that JSON j stands for at type t; tuples also accept arrays"""
    k, p = t.kind, t.parts
    isint = lambda x: type(x) is int
    if k == "val":
        return [("val", j)] if isinstance(j, str) and j[:1] == "v" and j[1:].isdigit() else []
    if k == "str":
        return [j] if isinstance(j, str) else []
    if k == "int":
        return [j] if isint(j) else []
    if k == "float":
        return [j] if type(j) in (float, int) else []
    if k == "none":
        return [None] if j is None else []
    if k == "complex":
        return [j] if isinstance(j, dict) and set(j) == {"real", "imag"} and all(type(x) in (int, float) for x in j.values()) else []
    if k in ("list", "vtup", "set"):
        if not isinstance(j, list):
            return []
        xs = [ref(p[0], x) for x in j]
        return [("seq", xs)] if all(xs) else []
    if k == "dict":
        return [j] if isinstance(j, dict) and all(ref(p[0], x) for x in j.values()) else []
    if k.startswith("tup"):
        n = len(p)
        if isinstance(j, list) and len(j) == n:
            xs = j
        elif isinstance(j, dict) and set(j) == {f"item_{i}" for i in range(n)}:
            xs = [j[f"item_{i}"] for i in range(n)]
        else:
            return []
        return [("tup", xs)] if all(ref(q, x) for q, x in zip(p, xs)) else []
    if k in ("p2", "p3"):
        names = ["a", "b", "c"][:int(k[1])]
        if isinstance(j, list) and len(j) == len(names):
            j = dict(zip(names, j))
        ok = isinstance(j, dict) and set(j) == set(names) and all(ref(Ty("val"), j[n]) for n in "ab") and (k == "p2" or isint(j["c"]))
        return [("nt", j)] if ok else []
    if k == "dc":
        return [j] if isinstance(j, dict) and "a" in j and ref(Ty("val"), j["a"]) and (j.get("n") is None or isint(j["n"])) else []
    if k == "td":
        return [j] if isinstance(j, dict) and "a" in j and ref(Ty("val"), j["a"]) and isinstance(j.get("t", ""), str) else []
    if k == "opt":
        return [None] if j is None else ref(p[0], j)
    return ref(p[0], j) + ref(p[1], j)


JUNK = [None, 3, "zz", [], {}, ["v0", "v1", "v2", "v3"], {"a": "v0"}, True]
MUT = ["drop", "extra", "junk", "rename", "wrap", "swap"]


def spots(j, path=()):
    yield path
    if isinstance(j, dict):
        for k in j:
            yield from spots(j[k], path + (k,))
    elif isinstance(j, list):
        for i, x in enumerate(j):
            yield from spots(x, path + (i,))


def rejects(depth):
    def hh(X):
        TABLE.clear()
        t = gen(X, depth, "t", ["val", "list", "tup0", "tup1", "tup2", "tup3", "p2", "p3", "dict", "complex", "opt", "alt"])
        v = value(X, t, "v")
        ad = adapter(t)
        j = json.loads(json.dumps(ad.dump_python(v, mode="json", context={})))
        ps = list(spots(j))[:6]
        path = X.pick("at", ps)
        box = [j]
        cur, key = box, 0
        for s in path:
            cur, key = cur[key], s
        m = X.pick("mut", MUT)
        old = cur[key]
        if m == "drop" and cur is not box:
            del cur[key]
        elif m == "extra" and isinstance(old, (list, dict)):
            if isinstance(old, list):
                old.append("v0")
            else:
                old[X.pick("name", ["item_1", "item_3", "x", "c"])] = "v0"
        elif m == "junk":
            cur[key] = copy.deepcopy(X.pick("junk", JUNK))
        elif m == "rename" and isinstance(cur, dict):
            cur["renamed"] = cur.pop(key)
        elif m == "wrap":
            cur[key] = [old]
        elif m == "swap" and isinstance(old, dict):
            cur[key] = list(old.values())
        else:
            return
        j = box[0]
        TABLE.extend([0] * 6)
        want = ref(t, j)
        try:
            got, err = ad.validate_python(copy.deepcopy(j), context={}), None
        except Exception as e:
            got, err = None, e
        X.note(f"type {t} data {j}: {got if err is None else repr(err)[:80]}")
        strict = not any(s in repr(t) for s in ("int", "float", "complex", "p3", "dc"))     # pydantic may coerce numbers ("3", True)
        if want:
            X.check(err is None, lambda: f"{t}: valid data {j} is rejected: {err!r}")
        elif strict:
            X.check(err is not None, lambda: f"{t}: {j} is not an encoding of a value but decodes to {got!r}")
        elif err is None:
            X.check(shape(t, j), lambda: f"{t}: {j} has the wrong shape but decodes to {got!r}")
        X.reach("end")
    return hh


def shape(t, j):
    """like ref, with numbers left to pydantic's coercions"""
    k, p = t.kind, t.parts
    if k in ("int", "float"):
        return not isinstance(j, (list, dict))
    if k == "complex":
        return isinstance(j, dict) and {"real", "imag"} <= set(j)
    if k in ("list", "vtup", "set"):
        return isinstance(j, list) and all(shape(p[0], x) for x in j)
    if k == "dict":
        return isinstance(j, dict) and all(shape(p[0], x) for x in j.values())
    if k.startswith("tup"):
        xs = j if isinstance(j, list) else list(j.values()) if isinstance(j, dict) and set(j) == {f"item_{i}" for i in range(len(p))} else None
        return xs is not None and len(xs) == len(p) and all(shape(q, x) for q, x in zip(p, xs))
    if k in ("p2", "p3"):
        names = ["a", "b", "c"][:int(k[1])]
        if isinstance(j, list) and len(j) == len(names):
            j = dict(zip(names, j))
        return isinstance(j, dict) and set(j) == set(names) and all(ref(Ty("val"), j[n]) for n in "ab")
    if k == "dc":
        return isinstance(j, dict) and "a" in j and bool(ref(Ty("val"), j["a"]))
    if k == "opt":
        return j is None or shape(p[0], j)
    if k == "alt":
        return any(shape(q, j) for q in p)
    return bool(ref(t, j))


SIGS = [["a"], ["a", "b"], ["a", "b="], ["a=", "b="], ["*", "a"], ["a", "*", "b="], ["a", "*", "b", "c="]]


def toolcalls(X):
    """tool calls: arguments bind to the parameters of the tool that the name stands for in the context"""
    TABLE.clear()
    sig = X.pick("sig", SIGS)
    names = [s.rstrip("=") for s in sig if s != "*"]
    tys = {n: of(X.pick("ty" + n, ["val", "tup2", "p2"] if i == 0 else ["val", "tup2"])) if True else None for i, n in enumerate(names)}
    dflt = {n: Val(-1) for n in names}
    ns = {"Tool": Tool, "Val": Val, "D": dflt, "T": {n: t.py() for n, t in tys.items()}}
    params, defaulted = [], []
    for s in sig:
        if s == "*":
            params.append("*")
            continue
        n = s.rstrip("=")
        params.append(f"{n}: T['{n}']" + (f" = D['{n}']" if s.endswith("=") else ""))
        if s.endswith("="):
            defaulted.append(n)
    exec(f"def fn({', '.join(params)}) -> Val:\n    'a tool'\n    return ({', '.join(names)},)", ns)
    tool = Tool.define(ns["fn"])
    other = Tool.define(ns["fn"])
    cname = X.pick("cname", ["fn", "renamed"])
    ctx = {cname: tool, "other": other}
    given = [n for n in names if X.choose("has" + n, 2)]
    vals = {n: value(X, tys[n], n) for n in given}
    raw = {n: json.loads(json.dumps(adapter(tys[n]).dump_python(v, mode="json", context={}))) for n, v in vals.items()}
    bad = X.pick("bad", ["no", "extra", "type", "name"])
    if X.choose("rev", 2):
        raw = dict(reversed(raw.items()))
    if bad == "extra":
        raw["z"] = "v0"
    if bad == "type":
        if not raw:
            return
        raw[list(raw)[0]] = {"q": 1}
    call = {"id": "call_7", "type": "function", "function": {"name": "nosuch" if bad == "name" else cname, "arguments": json.dumps(raw)}}
    ad = pydantic.TypeAdapter(Encodable[DecodedToolCall])
    X.note(f"fn({', '.join(params)}) called with {raw}")
    TABLE.append(0)
    try:
        dc, err = ad.validate_python(copy.deepcopy(call), context=ctx), None
    except Exception as e:
        dc, err = None, e
    ok = bad == "no" and all(n in given or n in defaulted for n in names)
    X.check((err is None) == ok, lambda: f"arguments {raw} for {params}: {err!r} {dc!r}")
    if ok:
        X.check(dc.tool is tool and dc.id == "call_7" and dc.name == cname, lambda: f"{dc}")
        X.check(list(sorted(dc.bound_args.arguments)) == sorted(given), lambda: f"{dc.bound_args}")
        res = dc.tool(*dc.bound_args.args, **dc.bound_args.kwargs)
        for n, r in zip(names, res):
            X.check(same(X, r, vals[n]) if n in vals else r is dflt[n], lambda: f"{n} is {r!r}")
        e2 = ad.dump_python(dc, mode="json", context=ctx)
        X.check(e2["id"] == "call_7" and e2["function"]["name"] == cname, lambda: f"encoded again as {e2}")
        d2 = ad.validate_python(e2, context=ctx)
        X.check(d2.tool is tool and d2.id == "call_7" and d2.name == cname, lambda: f"{d2}")
        X.check(same(X, dict(sorted(d2.bound_args.arguments.items())), dict(sorted(vals.items()))), lambda: f"{d2} from {vals}")
    X.reach("end")


def harnesses(tier):
    deep = tier == "thorough"
    return [
        H("flat", roundtrip(1), "18 kinds of type and all their values with containers up to length 2", split("t", 18), ("end",)),
        H("nested", roundtrip(3 if deep else 2), "types nested to depth 2 (thorough 3)", split("t", 18, ("t0", 8)), ("end",)),
        H("rejects", rejects(2 if deep else 1), "one change (6 kinds) at any of the first 6 positions of an encoding; 12 kinds of type", split("t", 12), ("end",)),
        H("toolcalls", toolcalls, "7 parameter lists x 3 types x any subset of arguments given x 4 malformations", split("sig", 7), ("end",)),
    ]
