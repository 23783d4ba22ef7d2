"""A small imperative language that renders to Python source, with an independent interpreter (shared by C26, C27).

Expressions: ("n", name) ("lit", v) ("add"|"sub"|"lt", e, e) ("call", e, es) ("if", c, e, e) ("lam", params, e) ("meth", cls, m, es) ("list", es) ("comp", e, var, e)
Statements: ("=", n, e) ("ret", e) ("if", c, S, S) ("for", v, e, S) ("def", n, [(p, default|None)], S) ("global", n) ("nonlocal", n) ("print", e) ("del", n) ("raise", T)
("try", S, T, S, S) ("class", n, [defs]) ("expr", e) ("deco", e, def)"""


def src_e(e):
    k = e[0]
    if k == "n":
        return e[1]
    if k == "lit":
        return repr(e[1])
    if k in ("add", "sub", "lt"):
        return f"({src_e(e[1])} {dict(add='+', sub='-', lt='<')[k]} {src_e(e[2])})"
    if k == "call":
        return f"{src_e(e[1])}({', '.join(map(src_e, e[2]))})"
    if k == "if":
        return f"({src_e(e[2])} if {src_e(e[1])} else {src_e(e[3])})"
    if k == "lam":
        return f"(lambda {', '.join(e[1])}: {src_e(e[2])})"
    if k == "meth":
        return f"{e[1]}().{e[2]}({', '.join(map(src_e, e[3]))})"
    if k == "list":
        return f"[{', '.join(map(src_e, e[1]))}]"
    if k == "comp":
        return f"[{src_e(e[1])} for {e[2]} in {src_e(e[3])}]"
    raise AssertionError(k)


def src(S, ind=0, ann=False):
    p = "    " * ind
    out = []
    for s in S:
        k = s[0]
        if k == "=":
            out.append(f"{p}{s[1]} = {src_e(s[2])}")
        elif k == "ret":
            out.append(f"{p}return {src_e(s[1])}")
        elif k == "expr":
            out.append(p + src_e(s[1]))
        elif k == "print":
            out.append(f"{p}print({src_e(s[1])})")
        elif k in ("global", "nonlocal", "del"):
            out.append(f"{p}{k} {s[1]}")
        elif k == "raise":
            out.append(f"{p}raise {s[1]}()")
        elif k == "if":
            out += [f"{p}if {src_e(s[1])}:", src(s[2], ind + 1, ann)] + ([f"{p}else:", src(s[3], ind + 1, ann)] if s[3] else [])
        elif k == "for":
            out += [f"{p}for {s[1]} in {src_e(s[2])}:", src(s[3], ind + 1, ann)]
        elif k == "try":
            out += [f"{p}try:", src(s[1], ind + 1, ann), f"{p}except {s[2]}:", src(s[3], ind + 1, ann)] + ([f"{p}finally:", src(s[4], ind + 1, ann)] if s[4] else [])
        elif k == "deco":
            out += [f"{p}@{src_e(s[1])}", src([s[2]], ind, ann)]
        elif k == "def":
            ps = ", ".join(n + (": int" if ann else "") + (f" = {src_e(d)}" if d else "") for n, d in s[2])
            out += [f"{p}def {s[1]}({ps}){' -> int' if ann else ''}:", src(s[3], ind + 1, ann)]
        elif k == "class":
            out += [f"{p}class {s[1]}:", src(s[2], ind + 1, ann)]
        else:
            raise AssertionError(k)
    return "\n".join(out)


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def binds(S, into=None):
    """names a body makes local, and those it declares otherwise"""
    loc, dec = into if into else (set(), {})
    for s in S:
        k = s[0]
        if k in ("=", "del", "class", "for", "def"):
            loc.add(s[1])
        elif k == "deco":
            loc.add(s[2][1])
        elif k in ("global", "nonlocal"):
            dec[s[1]] = k
        for part in s[1:]:
            if k in ("if", "for", "try") and isinstance(part, list):
                binds(part, (loc, dec))
    return loc, dec


class Scope:
    def __init__(self, m, loc=None, dec=None, up=None):
        self.m, self.v, self.loc, self.dec, self.up = m, {}, loc or set(), dec or {}, up

    def home(self, n, first=True):
        """the dictionary a name lives in"""
        if self.up is None:
            return self.m.g
        d = self.dec.get(n) if first else None
        if d == "global" or not first and self.dec.get(n) == "global":
            return self.m.g
        if n in self.loc and d is None and self.dec.get(n) is None:
            return self.v
        return self.up.home(n, False)

    def get(self, n):
        h = self.home(n)
        if n in h:
            return h[n]
        if h is self.m.g and n in self.m.builtins:
            return self.m.builtins[n]
        raise (NameError if h is self.m.g else UnboundLocalError if h is self.v else NameError)(n)


class Fn:
    def __init__(self, name, params, body, scope, expr=None):
        self.name, self.params, self.body, self.scope, self.expr = name, params, body, scope, expr

    def __call__(self, *args):
        need = sum(1 for _, d in self.params if d is None)
        if not need <= len(args) <= len(self.params):
            raise TypeError("arguments")
        loc, dec = binds(self.body or [])
        sc = Scope(self.scope.m, (loc | {n for n, _ in self.params}) - set(dec), dec, self.scope)
        for i, (n, d) in enumerate(self.params):
            sc.v[n] = args[i] if i < len(args) else d[0]
        if self.expr is not None:
            return ev(self.expr, sc)
        try:
            run(self.body, sc)
        except Ret as r:
            return r.v


class Machine:
    """a module namespace, what was printed, and the outside functions"""

    def __init__(self, g=None, builtins=None):
        self.g, self.out, self.builtins = dict(g or {}), [], builtins or {}
        self.top = Scope(self)

    def run(self, S):
        run(S, self.top)


class Obj:
    def __init__(self, meths):
        self.meths = meths


def ev(e, sc):
    k = e[0]
    if k == "n":
        return sc.get(e[1])
    if k == "lit":
        return e[1]
    if k in ("add", "sub", "lt"):
        a, b = ev(e[1], sc), ev(e[2], sc)
        return a + b if k == "add" else a - b if k == "sub" else a < b
    if k == "call":
        f = ev(e[1], sc)
        return f(*[ev(x, sc) for x in e[2]])
    if k == "if":
        return ev(e[2] if ev(e[1], sc) else e[3], sc)
    if k == "lam":
        return Fn("<lambda>", [(p, None) for p in e[1]], None, sc, e[2])
    if k == "meth":
        o = sc.get(e[1])()
        return o.meths[e[2]](o, *[ev(x, sc) for x in e[3]])
    if k == "list":
        return [ev(x, sc) for x in e[1]]
    if k == "comp":
        out = []
        for x in ev(e[3], sc):
            s2 = Scope(sc.m, {e[2]}, {}, sc)
            s2.v[e[2]] = x
            out.append(ev(e[1], s2))
        return out
    raise AssertionError(k)


EXC = {"KeyError": KeyError, "ValueError": ValueError, "NameError": NameError, "LookupError": LookupError}


def make_def(s, sc):
    return Fn(s[1], [(n, None if d is None else (ev(d, sc),)) for n, d in s[2]], s[3], sc)


def run(S, sc):
    for s in S:
        k = s[0]
        if k == "=":
            v = ev(s[2], sc)
            sc.home(s[1])[s[1]] = v
        elif k == "ret":
            raise Ret(ev(s[1], sc))
        elif k == "expr":
            ev(s[1], sc)
        elif k == "print":
            sc.m.out.append(ev(s[1], sc))
        elif k == "del":
            sc.get(s[1])
            h = sc.home(s[1])
            if s[1] not in h:
                raise NameError(s[1])
            del h[s[1]]
        elif k == "raise":
            raise EXC[s[1]]()
        elif k == "if":
            run(s[2] if ev(s[1], sc) else s[3], sc)
        elif k == "for":
            for x in ev(s[2], sc):
                sc.home(s[1])[s[1]] = x
                run(s[3], sc)
        elif k == "try":
            try:
                run(s[1], sc)
            except EXC[s[2]]:
                run(s[3], sc)
            finally:
                run(s[4] or [], sc)
        elif k == "def":
            f = make_def(s, sc)
            sc.home(s[1])[s[1]] = f
        elif k == "deco":
            d = ev(s[1], sc)
            f = make_def(s[2], sc)
            sc.home(s[2][1])[s[2][1]] = d(f)
        elif k == "class":
            ms = {m[1]: make_def(m, sc) for m in s[2]}
            sc.home(s[1])[s[1]] = lambda ms=ms: Obj(ms)
