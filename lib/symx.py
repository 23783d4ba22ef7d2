"""Dynamic symbolic execution of the real effectful code, decided by z3.

A *harness* is a Python function h(X) that drives the real code imported from
/repo.  In symbolic mode X hands out proxy values wrapping z3 expressions and
uninterpreted functions; whenever the real code (or the harness) branches on a
proxy, the solver decides which outcomes are feasible and every feasible one is
explored (DFS by re-execution).  `X.check(c)` asks the solver whether `pc and
not c` is satisfiable; if so the model is turned into concrete Python values
and the same harness is re-run with plain values on the real code.
"""
import fractions, functools, importlib.util, json, numbers, operator, os, sys, threading, time, traceback


def _load_z3():
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    base = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
    spec = importlib.util.spec_from_file_location(
        "z3", base + "/__init__.py", submodule_search_locations=[base])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load_z3()


class EngineSignal(BaseException):
    """engine control flow; never an Exception so code under test cannot swallow it"""


class PathEnd(EngineSignal):
    pass


class Violation(EngineSignal):
    def __init__(self, msg, tag=None, detail=None):
        super().__init__(msg)
        self.msg, self.tag, self.detail = msg, tag, detail


class Inconclusive(EngineSignal):
    pass


CUR = None  # the running context (one at a time)


# ---------------------------------------------------------------- proxies
class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SymBool(Sym):
    def __bool__(self):
        return CUR.branch(self.e)

    __class__ = property(lambda self: bool)

    def __and__(self, o):
        return mkbool(z3.And(self.e, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.e == tobool(o))
        if isinstance(o, int):
            return SymInt(z3.If(self.e, 1, 0)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(tobool(r)))

    def __hash__(self):
        return 1

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __repr__(self):
        return f"<{z3.simplify(self.e)}>"


def isbool(x):
    return type(x) is bool or type(x) is SymBool


def tobool(x):
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    if type(x) is SymInt:
        return x.e != 0
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def toint(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is bool or t is int:
        return z3.IntVal(int(x))
    return None


def _bin(f):
    def op(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        return SymInt(f(self.e, e))

    def rop(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        return SymInt(f(e, self.e))
    return op, rop


def toreal(o):
    """z3 real for a finite float or Fraction, exactly"""
    import math
    if type(o) is float and math.isfinite(o) or type(o) is fractions.Fraction:
        return z3.RealVal(str(fractions.Fraction(o)))
    return None


def _cmp(f):
    def op(self, o):
        e = toint(o)
        if e is None:
            r = toreal(o)
            if r is None:
                return NotImplemented
            return mkbool(z3.simplify(f(z3.ToReal(self.e), r)))
        return mkbool(f(self.e, e))
    return op


def py_floordiv(a, b):
    # z3 div is Euclidean-ish (floor for positive divisor); Python floors.
    return z3.If(b > 0, a / b, (-a) / (-b))


def py_mod(a, b):
    return a - b * py_floordiv(a, b)


class SymInt(Sym):
    """A Python int whose value is a z3 integer expression (not an int subclass,
    so no C code can silently read a stale concrete value)."""
    __class__ = property(lambda self: int)

    __add__, __radd__ = _bin(lambda a, b: a + b)
    __sub__, __rsub__ = _bin(lambda a, b: a - b)
    __mul__, __rmul__ = _bin(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        e = toint(o)
        if e is None:
            r = toreal(o)
            if r is not None:
                return mkbool(z3.simplify(z3.ToReal(self.e) == r))
            if type(o) in (float, fractions.Fraction):
                raise Inconclusive("SymInt compared with %r" % (o,))
            return NotImplemented
        return mkbool(self.e == e)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(tobool(r)))

    def __hash__(self):
        return 7

    def _nz(self, e):
        if CUR.branch(e == 0):
            raise ZeroDivisionError("division by zero")

    def __floordiv__(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        self._nz(e)
        return SymInt(py_floordiv(self.e, e))

    def __rfloordiv__(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        self._nz(self.e)
        return SymInt(py_floordiv(e, self.e))

    def __mod__(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        self._nz(e)
        return SymInt(py_mod(self.e, e))

    def __rmod__(self, o):
        e = toint(o)
        if e is None:
            return NotImplemented
        self._nz(self.e)
        return SymInt(py_mod(e, self.e))

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, ndigits=None):
        if ndigits is None:
            return self
        return CUR.uf("int_round", self, ndigits)

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __index__(self):
        return CUR.concretize(self.e)

    __int__ = __index__

    # operations outside linear arithmetic are uninterpreted (EUF): equal inputs, equal outputs
    def _ufop(name):  # noqa
        def op(self, o):
            if toint(o) is None:
                return NotImplemented
            return CUR.uf(name, self, o)

        def rop(self, o):
            if toint(o) is None:
                return NotImplemented
            return CUR.uf(name, o, self)
        return op, rop

    __truediv__, __rtruediv__ = _ufop("int_truediv")
    __pow__, __rpow__ = _ufop("int_pow")
    __lshift__, __rlshift__ = _ufop("int_lshift")
    __rshift__, __rrshift__ = _ufop("int_rshift")
    __and__, __rand__ = _ufop("int_and")
    __or__, __ror__ = _ufop("int_or")
    __xor__, __rxor__ = _ufop("int_xor")
    del _ufop

    def bit_length(self):
        return int(self).bit_length()

    def __repr__(self):
        return f"<{z3.simplify(self.e)}>"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Inconclusive("pickle of a symbolic value")

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def conjugate(self):
        return self


numbers.Integral.register(SymInt)

# concrete meaning of the uninterpreted arithmetic when a counterexample is replayed
CONCRETE_UF = {
    "int_truediv": operator.truediv, "int_pow": operator.pow,
    "int_lshift": operator.lshift, "int_rshift": operator.rshift,
    "int_and": operator.and_, "int_or": operator.or_, "int_xor": operator.xor,
    "int_round": round,
}


def _bool_as_int(n):
    def op(self, *a):
        return getattr(SymInt(toint(self)), n)(*a)
    op.__name__ = n
    return op


for _n in ("add radd sub rsub mul rmul lt le gt ge floordiv rfloordiv mod rmod neg pos abs trunc floor ceil round truediv rtruediv "
           "pow rpow lshift rlshift rshift rrshift").split():
    setattr(SymBool, f"__{_n}__", _bool_as_int(f"__{_n}__"))


def issym(x):
    return type(x) in (SymInt, SymBool, SymStr)


# ---- strings (z3 sequences) -------------------------------------------------
class SymStr(Sym):
    """bounded symbolic text: only the operations below are modelled"""
    __class__ = property(lambda self: str)

    def __eq__(self, o):
        if type(o) is SymStr:
            return mkbool(self.e == o.e)
        if isinstance(o, str):
            return mkbool(self.e == z3.StringVal(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(tobool(r)))

    def __hash__(self):
        return 11

    def __add__(self, o):
        if type(o) is SymStr:
            return SymStr(z3.Concat(self.e, o.e))
        if isinstance(o, str):
            return SymStr(z3.Concat(self.e, z3.StringVal(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr(z3.Concat(z3.StringVal(o), self.e))
        return NotImplemented

    def __bool__(self):
        return CUR.branch(z3.Length(self.e) > 0)

    def __len__(self):
        return CUR.concretize(z3.Length(self.e))

    def __repr__(self):
        return f"<str {z3.simplify(self.e)}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- contexts
class Ctx:
    """API shared by the symbolic and the concrete (replay) context."""
    symbolic = False

    def __init__(self):
        self.names = {}
        self.nchecks = 0
        self.labels = set()
        self.notes = []

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def reach(self, label):
        self.labels.add(label)

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, len(seq))]

    # structural equality as one formula
    def eq(self, a, b):
        if issym(a) or issym(b):
            if a is b:
                return True
            r = a == b if issym(a) else b == a
            if r is NotImplemented:
                return False
            return r
        if type(a) is bool and type(b) is bool:
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if type(a) is not type(b) or set(a) != set(b):
                return False
            return self.all(self.eq(a[k], b[k]) for k in a)
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        r = a == b
        return r if isinstance(r, bool) else bool(r)

    def all(self, conds):
        acc = True
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            acc = c if acc is True else mkbool(z3.And(tobool(acc), tobool(c)))
        return acc

    def any(self, conds):
        return self.not_(self.all([self.not_(c) for c in conds]))

    def not_(self, c):
        if type(c) is SymBool:
            return mkbool(z3.Not(c.e))
        return not c

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def ite(self, c, a, b):
        if type(c) is SymBool:
            if isbool(a) and isbool(b):
                return mkbool(z3.If(c.e, tobool(a), tobool(b)))
            return SymInt(z3.If(c.e, toint(a), toint(b)))
        return a if c else b

    def check_eq(self, a, b, msg, tag=None):
        self.check(self.eq(a, b), lambda: f"{msg}: got {a!r}, expected {b!r}", tag)

    def fail(self, msg, tag=None):
        self.check(False, msg, tag)


class SymCtx(Ctx):
    symbolic = True

    def choices_get(self, name):
        return self.choices.get(name)

    def __init__(self, eng, prefix, forced=None):
        super().__init__()
        self.forced = forced or {}
        self.eng = eng
        self.prefix = prefix          # list of [kind, value, alternatives..., key]
        self.pos = 0
        self.solver = eng.new_solver()
        self.decls = {}               # name -> ('int', z3 const) / ('choose', idx) / ('func', decl, arity, ret)
        self.choices = {}
        self.pending = False

    # -- values
    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = z3.Int(n)
        self.decls[n] = ("int", v)
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        n = self._name(name)
        v = z3.Bool(n)
        self.decls[n] = ("bool", v)
        return SymBool(v)

    def str(self, name, maxlen=None, alphabet=None):
        n = self._name(name)
        v = z3.String(n)
        self.decls[n] = ("str", v)
        if maxlen is not None:
            self.solver.add(z3.Length(v) <= maxlen)
        if alphabet is not None:
            self.solver.add(z3.InRe(v, z3.Star(z3.Union(*[z3.Re(c) for c in alphabet]))
                                    if len(alphabet) > 1 else z3.Star(z3.Re(alphabet[0]))))
        return SymStr(v)

    def func(self, name, arity, ret="int"):
        """an uninterpreted function on ints: every interpretation is covered"""
        n = self._name(name)
        d = z3.Function(n, *([z3.IntSort()] * max(arity, 1)), z3.BoolSort() if ret == "bool" else z3.IntSort())
        self.decls[n] = ("func", d, max(arity, 1), ret)

        def f(*args):
            es = [toint(a) for a in args] or [z3.IntVal(0)]
            if any(e is None for e in es):
                raise TypeError(f"{n}: non-int argument {args!r}")
            if len(es) != max(arity, 1):
                raise TypeError(f"{n}: expected {arity} arguments, got {len(args)}")
            e = d(*es)
            return SymBool(e) if ret == "bool" else SymInt(e)
        f.__name__ = name
        return f

    def uf(self, name, *args):
        n = "$" + name
        if n not in self.decls:
            self.decls[n] = ("func", z3.Function(n, *([z3.IntSort()] * len(args)), z3.IntSort()), len(args), "int")
        return SymInt(self.decls[n][1](*[toint(a) for a in args]))

    # -- decisions
    def choose(self, name, n):
        """symbolic selector over 0..n-1 (a fresh solver variable split lazily)"""
        nm = self._name(name)
        if nm in self.forced:
            if self.forced[nm] >= n:
                raise PathEnd()
            self.solver.add(z3.Int(nm) == self.forced[nm])
            self.choices[nm] = self.forced[nm]
            return self.forced[nm]
        if n == 1:
            self.choices[nm] = 0
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "c" or d[3] != nm:
                raise Inconclusive(f"non-deterministic re-execution at {nm}: {d}")
            self.pos += 1
            v = d[1]
        else:
            v = 0
            self.prefix.append(["c", 0, n, nm])
            self.pos += 1
            self.eng.stats["decisions"] += 1
        sel = z3.Int(nm)
        self.solver.add(sel == v)
        self.choices[nm] = v
        return v

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.hash()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "b" or d[3] != key:
                raise Inconclusive(f"non-deterministic re-execution at branch {e}")
            self.pos += 1
            v = d[1]
        else:
            if len(self.prefix) > self.eng.max_decisions:
                raise Inconclusive("decision bound exceeded on a path")
            t = self.query(e)
            f = self.query(z3.Not(e)) if t else True
            v = t
            self.prefix.append(["b", v, t and f, key])
            self.pos += 1
            self.eng.stats["decisions"] += 1
        self.solver.add(e if v else z3.Not(e))
        return v

    def query(self, e):
        t0 = time.time()
        r = self.solver.check(e)
        self.eng.stats["solver_s"] += time.time() - t0
        self.eng.stats["queries"] += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(self.eng.max_concretize):
            # during re-execution the recorded branch carries the value
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d[0] != "b" or len(d) < 5:
                    raise Inconclusive("non-deterministic re-execution at concretization")
                val = d[4]
                self.pos += 1
                self.solver.add(e == val if d[1] else e != val)
                if d[1]:
                    return val
                continue
            if not self.query(z3.BoolVal(True)):
                raise PathEnd()
            val = self.solver.model().eval(e, model_completion=True).as_long()
            other = self.query(e != val)
            self.prefix.append(["b", True, other, 0, val])
            self.pos += 1
            self.eng.stats["decisions"] += 1
            self.solver.add(e == val)
            return val
        raise Inconclusive("concretization bound exceeded")

    def assume(self, c):
        e = tobool(c)
        if self.pos < len(self.prefix):
            self.solver.add(e)
            return
        if not self.query(e):
            raise PathEnd()
        self.solver.add(e)

    def check(self, c, msg="", tag=None):
        self.nchecks += 1
        self.eng.stats["checks"] += 1
        if c is True:
            # decided by structural evaluation on this path; the path condition is sat by construction
            self.eng.stats["ground_checks"] += 1
            return
        if self.pos < len(self.prefix):   # already discharged on the sibling path that shares this prefix
            self.solver.add(tobool(c))
            return
        e = tobool(c)
        self.eng.stats["obligations"] += 1
        if self.query(z3.Not(e)):
            m = self.solver.model()
            raise Violation(msg() if callable(msg) else msg, tag, self.model_dict(m))
        self.solver.add(e)

    def ensure_prefix_done(self):
        return self.pos >= len(self.prefix)

    def model_dict(self, m=None):
        if m is None:
            if not self.query(z3.BoolVal(True)):
                return None
            m = self.solver.model()
        out = {"choices": dict(self.choices), "vals": {}, "funcs": {}}
        for n, d in self.decls.items():
            if d[0] == "int":
                out["vals"][n] = m.eval(d[1], model_completion=True).as_long()
            elif d[0] == "bool":
                out["vals"][n] = z3.is_true(m.eval(d[1], model_completion=True))
            elif d[0] == "str":
                out["vals"][n] = _unescape(m.eval(d[1], model_completion=True))
            elif d[0] == "func" and not n.startswith("$"):
                fi = m[d[1]] if any(d[1].eq(q) for q in m.decls()) else None
                tab, els = [], 0
                if fi is not None:
                    def conv(x):
                        return z3.is_true(x) if d[3] == "bool" else x.as_long()
                    for k in range(fi.num_entries()):
                        en = fi.entry(k)
                        tab.append([[en.arg_value(j).as_long() for j in range(en.num_args())], conv(en.value())])
                    try:
                        els = conv(fi.else_value())
                    except Exception:
                        els = 0
                out["funcs"][n] = {"table": tab, "else": els}
        return out


def _unescape(sv):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), sv.as_string())


class ConcCtx(Ctx):
    """replay: the same harness on plain Python values"""

    def __init__(self, assignment):
        super().__init__()
        self.a = assignment
        self.trace = []

    def choices_get(self, name):
        return self.a["choices"].get(name)

    def int(self, name, lo=None, hi=None):
        n = self._name(name)
        v = self.a["vals"].get(n)
        if v is None:
            v = 0 if lo is None else lo
        self.trace.append((n, v))
        return v

    def bool(self, name):
        n = self._name(name)
        v = bool(self.a["vals"].get(n, False))
        self.trace.append((n, v))
        return v

    def str(self, name, maxlen=None, alphabet=None):
        n = self._name(name)
        v = self.a["vals"].get(n, "")
        self.trace.append((n, v))
        return v

    def func(self, name, arity, ret="int"):
        n = self._name(name)
        spec = self.a["funcs"].get(n, {"table": [], "else": 0})
        tab = {tuple(k): v for k, v in spec["table"]}

        def f(*args):
            for x in args:
                if not isinstance(x, int):
                    raise TypeError(f"{n}: non-int argument {args!r}")
            if len(args) != arity:
                raise TypeError(f"{n}: expected {arity} arguments, got {len(args)}")
            key = tuple(int(x) for x in args) or (0,)
            v = tab.get(key, spec["else"])
            return bool(v) if ret == "bool" else int(v)
        f.__name__ = name
        return f

    def uf(self, name, *args):
        return CONCRETE_UF[name](*args)

    def choose(self, name, n):
        nm = self._name(name)
        v = self.a["choices"].get(nm, 0)
        self.trace.append((nm, v))
        return v if v < n else 0

    def assume(self, c):
        if not c:
            raise PathEnd()

    def check(self, c, msg="", tag=None):
        self.nchecks += 1
        if not c:
            raise Violation(msg() if callable(msg) else msg, tag)


# ---------------------------------------------------------------- engine
threading.stack_size(256 * 1024 * 1024)


def run_fresh(fn):
    """run fn in a new thread (fresh thread-local/context-local state) and return (kind, payload)"""
    out = []

    def body():
        try:
            fn()
            out.append(("ok", None))
        except PathEnd:
            out.append(("end", None))
        except Violation as v:
            out.append(("violation", v))
        except Inconclusive as v:
            out.append(("inconclusive", str(v)))
        except RecursionError as v:
            out.append(("exc", v))
        except Exception as v:
            out.append(("exc", v))
        except BaseException as v:  # noqa
            out.append(("inconclusive", f"{type(v).__name__}: {v}"))

    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out[0]


def _exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:]
    return f"{type(e).__name__}: {e} at {' > '.join(loc)}"


class Engine:
    def __init__(self, timeout_ms=20000, max_decisions=4000, max_concretize=64):
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.max_concretize = max_concretize
        self.stats = dict(paths=0, decisions=0, queries=0, solver_s=0.0, checks=0,
                          ground_checks=0, obligations=0, validated=0, infeasible=0, undecided=0)

    def new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def concrete(self, harness, assignment):
        """returns None if the run satisfies every check, else (msg, tag)"""
        global CUR
        ctx = ConcCtx(assignment)
        CUR = ctx
        kind, p = run_fresh(lambda: harness(ctx))
        CUR = None
        self.last_labels = set(ctx.labels)
        if kind == "violation":
            return (p.msg, p.tag, ctx)
        if kind == "exc":
            return ("unexpected exception: " + _exc_text(p), getattr(p, "vtag", None) or f"exc:{type(p).__name__}", ctx)
        if kind == "inconclusive":
            return None
        return None

    def explore(self, harness, *, known=(), max_paths=10**9, deadline=None, validate_every=50, forced=None):
        """returns dict(status=ok|violation|error, ...)"""
        global CUR
        st = self.stats
        labels = set()
        known_hits = {}
        samples = []
        undecided = []
        prefix = []
        t0 = time.time()
        while True:
            if deadline is not None and time.time() > deadline:
                return dict(status="budget", why=f"time budget exhausted after {st['paths']} paths", labels=sorted(labels),
                            known_hits=known_hits, samples=samples, undecided=undecided[:20])
            if st["paths"] >= max_paths:
                return dict(status="budget", why=f"path bound {max_paths} exhausted", labels=sorted(labels),
                            known_hits=known_hits, samples=samples, undecided=undecided[:20])
            ctx = SymCtx(self, prefix, forced)
            CUR = ctx
            kind, p = run_fresh(lambda: harness(ctx))
            CUR = None
            st["paths"] += 1
            if kind == "exc":
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exception(p)
                md = ctx.model_dict()
                if md is None:
                    kind = "end"
                else:
                    kind, p = "violation", Violation("unexpected exception: " + _exc_text(p),
                                                     getattr(p, "vtag", None) or f"exc:{type(p).__name__}", md)
            if kind == "inconclusive":
                # the path cannot be decided for all values: fall back to its model, and say so
                try:
                    md = ctx.model_dict()
                except (Inconclusive, Exception):  # noqa
                    md = None
                if md is not None:
                    kind, p = "violation", Violation("undecided: " + str(p), None, md)
                else:
                    kind = "undecided"
                    undecided.append(str(p)[:300])
            if kind == "violation":
                md = p.detail
                if md is None:
                    md = ctx.model_dict()
                rep = self.concrete(harness, md)
                tag = rep[1] if rep is not None else None
                if rep is None:
                    st["undecided"] += 1
                    undecided.append(str(p.msg)[:300])
                    labels |= self.last_labels
                elif tag is not None and tag in known:
                    known_hits[tag] = rep[0]
                    st["validated"] += 1
                else:
                    return dict(status="violation", msg=rep[0], symbolic_msg=p.msg, tag=tag, model=md,
                                trace=rep[2].trace, notes=rep[2].notes, labels=sorted(labels),
                                known_hits=known_hits, samples=samples)
            else:
                if kind == "ok":
                    labels |= ctx.labels
                elif kind == "end":
                    st["infeasible"] += 1
                if kind == "ok" and (st["paths"] <= 3 or st["paths"] % validate_every == 0):
                    md = ctx.model_dict()
                    if md is None:
                        st["infeasible"] += 1
                    else:
                        rep = self.concrete(harness, md)
                        st["validated"] += 1
                        if rep is not None and not (rep[1] is not None and rep[1] in known):
                            return dict(status="violation", msg=rep[0] + " (found while validating a path witness)",
                                        tag=rep[1], model=md, trace=rep[2].trace, notes=rep[2].notes,
                                        known_hits=known_hits, samples=samples)
                        if len(samples) < 3:
                            samples.append(dict(choices=md["choices"], vals=md["vals"], notes=ctx.notes[:8],
                                                pc=[str(x)[:200] for x in list(ctx.solver.assertions())[:12]]))
            # next path
            prefix = ctx.prefix
            del prefix[ctx.pos:]
            while prefix:
                d = prefix[-1]
                if d[0] == "c" and d[1] + 1 < d[2]:
                    d[1] += 1
                    break
                if d[0] == "b" and d[2] and d[1]:
                    d[1] = False
                    break
                prefix.pop()
            else:
                break
        return dict(status="ok", labels=sorted(labels), known_hits=known_hits, samples=samples, undecided=undecided[:20],
                    wall=time.time() - t0)
