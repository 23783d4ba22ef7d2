"""helpers shared by the core-language harnesses"""
import threading
from runner import H, split  # noqa
import symx  # noqa
from symx import SymInt, SymBool, PathEnd, Violation, z3  # noqa
from effectful.ops.semantics import apply, coproduct, evaluate, fvsof, fwd, handler, typeof  # noqa
from effectful.ops.syntax import (ObjectInterpretation, Scoped, defdata, deffn, defop, defstream, implements,  # noqa
                                  syntactic_eq, trace)
from effectful.ops.types import NotHandled, Operation, Term  # noqa


class Boom(Exception):
    """the only exception harness code raises on purpose"""


# ------------------------------------------------------------- reference semantics of handlers
class Ref:
    """Direct-style reference semantics: a stack of {op_name: body}; body(env, *args, **kwargs).
    env.fwd / env.call / env.under give the body its effects."""

    def __init__(self, defaults, apply_name=None):
        self.defaults = defaults
        self.apply_name = apply_name

    def call(self, stack, name, args, kwargs):
        if any(name in fr for fr in stack):
            return self.run(stack, name, args, kwargs, len(stack) - 1)
        if self.apply_name is not None and any(self.apply_name in fr for fr in stack):
            return self.run(stack, self.apply_name, (name,) + args, kwargs, len(stack) - 1)
        return self.default(stack, name, args, kwargs)

    def default(self, stack, name, args, kwargs):
        if name == self.apply_name:
            return self.default(stack, args[0], args[1:], kwargs)
        return self.defaults[name](RefEnv(self, stack, None), *args, **kwargs)

    def run(self, stack, name, args, kwargs, i):
        while i >= 0 and name not in stack[i]:
            i -= 1
        if i < 0:
            return self.default(stack, name, args, kwargs)
        return stack[i][name](RefEnv(self, stack, (name, args, kwargs, i)), *args, **kwargs)


class RefEnv:
    def __init__(self, ref, stack, frame):
        self.ref, self.stack, self.frame = ref, stack, frame

    def fwd(self, *a, **k):
        name, args, kwargs, i = self.frame
        if not a and not k:
            a, k = args, kwargs
        return self.ref.run(self.stack, name, a, k, i - 1)

    def call(self, name, *a, **k):
        return self.ref.call(self.stack, name, a, k)

    def under(self, frame, thunk):
        """run thunk(env) with one more handler frame installed"""
        return thunk(RefEnv(self.ref, self.stack + [frame], self.frame))


class RealEnv:
    """the same effects performed by the real library"""

    def __init__(self, ops):
        self.ops = ops

    def fwd(self, *a, **k):
        return fwd(*a, **k)

    def call(self, name, *a, **k):
        return self.ops[name](*a, **k)

    def under(self, frame, thunk):
        with handler(self.intp(frame)):
            return thunk(self)

    def intp(self, frame):
        return {self.ops[n]: self.wrap(b) for n, b in frame.items()}

    def wrap(self, body):
        env = self

        def h(*args, **kwargs):
            return body(env, *args, **kwargs)
        return h


# ------------------------------------------------------------- symbolic ints have Python type int for the type rules
try:
    from effectful.internals.unification import Box as _Box, nested_type as _nt
    # singledispatch looks at __class__, which is int/bool for the proxies
    _nt.register(int)(lambda v: _Box(pytype(v)))
except Exception:  # noqa
    pass


def pytype(v):
    t = type(v)
    return int if t is SymInt else bool if t is SymBool else str if t is symx.SymStr else t


def isterm(t, op=None):
    return isinstance(t, Term) and (op is None or t.op is op)


def same(X, a, b):
    """independent structural identity: same python types, same operations (by identity), equal leaves (as a formula)"""
    if isinstance(a, Term) or isinstance(b, Term):
        if not (isinstance(a, Term) and isinstance(b, Term)) or a.op is not b.op:
            return False
        return X.all([same(X, tuple(a.args), tuple(b.args)), same(X, dict(a.kwargs), dict(b.kwargs))])
    if symx.issym(a) or symx.issym(b):
        return X.eq(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Operation):
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and X.all(same(X, p, q) for p, q in zip(a, b))
    import collections.abc as cabc
    import dataclasses
    if isinstance(a, cabc.Mapping):
        if list(a) != list(b):
            return False
        if hasattr(a, "default_factory") and a.default_factory is not b.default_factory:
            return False
        return X.all(same(X, a[k], b[k]) for k in a)
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return X.all(same(X, getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    return X.eq(a, b)
