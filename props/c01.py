"""C01 handlers are scoped exactly to their dynamic extent, on every exit and per thread"""
import threading
from core import *
from c02 import make_world


def body(X, who, kind, i):
    u, v, p = X.func(f"u{who}{i}", 2), X.func(f"v{who}{i}", 1), X.func(f"p{who}{i}", 1, "bool")
    if kind == "absorb":
        return lambda env, x, **k: u(x, 0)
    if kind == "fwd":
        return lambda env, x, **k: u(x, env.fwd())
    if kind == "raise_if":
        def b(env, x, **k):
            if p(x):
                raise Boom()
            return u(x, env.fwd())
        return b
    if kind == "fwd_then_raise":
        def b(env, x, **k):
            r = env.fwd()
            if p(r):
                raise Boom()
            return u(x, r)
        return b
    if kind == "recover":
        def b(env, x, **k):
            try:
                return u(x, env.fwd())
            except Boom:
                return u(env.call("B", x), 5)
        return b
    if kind == "inner_raise":
        def b(env, x, **k):
            def inner(e):
                if p(x):
                    raise Boom()
                return e.call("B", x)
            try:
                r = env.under({"B": lambda e, y, **k: v(y)}, inner)
            except Boom:
                r = 9
            return u(r, env.call("B", x))
        return b
    raise AssertionError(kind)


def both(X, real, ref, what):
    try:
        want = ("v", ref())
    except Boom:
        want = ("raise", 0)
    try:
        got = ("v", real())
    except Boom:
        got = ("raise", 0)
    X.check(X.eq(got, want), lambda: f"{what}: got {got!r}, expected {want!r}")


KA = ["absorb", "fwd", "raise_if", "fwd_then_raise", "recover", "inner_raise"]
STEPS = ["none", "with", "with_raise", "deco", "deco_twice", "cop", "eval", "gen_close"]


def program(depth, steps, kinds, nsteps):
    def h(X):
        ops, env, ref = make_world(X)
        x = X.int("x")
        with handler({apply: defdata}):
            tA = ops["A"](x)
        n = [0]

        def observe(stack, where):
            both(X, lambda: ops["A"](x), lambda: ref.call(stack, "A", (x,), {}), f"A(x) {where}")
            both(X, lambda: ops["B"](x), lambda: ref.call(stack, "B", (x,), {}), f"B(x) {where}")

        def frame():
            i = n[0]
            n[0] += 1
            fr = {}
            kA = X.pick(f"kA{i}", kinds)
            fr["A"] = body(X, "A", kA, i)
            if i % 2 == 0:
                fr["B"] = body(X, "B", "fwd", i)
            return fr

        def prog(d, stack):
            for s in range(nsteps if d == depth else 1):
                kind = X.pick("step", steps) if d else "none"
                if kind == "none":
                    pass
                elif kind == "with":
                    fr = frame()
                    with handler(env.intp(fr)):
                        observe(stack + [fr], "inside")
                        prog(d - 1, stack + [fr])
                        observe(stack + [fr], "inside, after nested steps")
                elif kind == "with_raise":
                    fr = frame()
                    try:
                        with handler(env.intp(fr)):
                            prog(d - 1, stack + [fr])
                            raise Boom()
                    except Boom:
                        pass
                elif kind in ("deco", "deco_twice"):
                    fr = frame()

                    def fn():
                        observe(stack + [fr], "inside decorated function")
                        prog(d - 1, stack + [fr])
                        raise Boom()
                    f = handler(env.intp(fr))(fn)
                    for _ in range(2 if kind == "deco_twice" else 1):
                        try:
                            f()
                        except Boom:
                            pass
                        observe(stack, "after decorated function")
                elif kind == "cop":
                    fr, fr2 = frame(), frame()
                    with handler(coproduct(env.intp(fr), env.intp(fr2))):
                        observe(stack + [fr, fr2], "inside coproduct")
                        prog(d - 1, stack + [fr, fr2])
                elif kind == "eval":
                    fr = frame()
                    both(X, lambda: evaluate(tA, intp=env.intp(fr)), lambda: ref.call([fr], "A", (x,), {}), "evaluate")
                elif kind == "gen_close":
                    fr = frame()

                    def g():
                        with handler(env.intp(fr)):
                            yield ops["A"](x)
                            yield 0
                    it = g()
                    both(X, lambda: next(it), lambda: ref.call(stack + [fr], "A", (x,), {}), "generator step")
                    it.close()
                observe(stack, f"after {kind}")
        prog(depth, [])
        try:
            fwd(x)
        except RuntimeError:
            X.check(True)
        else:
            X.fail("fwd() succeeded after every handler was left")
        X.reach("end")
    return h


class Kill(BaseException):
    pass


class Threads:
    """real threads run one at a time; the symbolic scheduler picks who runs at every yield point"""

    def __init__(self, X, fns):
        self.X = X
        self.back = threading.Semaphore(0)
        self.ts = []
        for i, f in enumerate(fns):
            t = dict(go=threading.Semaphore(0), done=False, exc=None, kill=False)
            t["th"] = threading.Thread(target=self._main, args=(t, f), daemon=True)
            self.ts.append(t)

    def _main(self, t, f):
        t["go"].acquire()
        try:
            if not t["kill"]:
                f(lambda: self._yield(t))
        except BaseException as e:  # noqa
            t["exc"] = e
        t["done"] = True
        self.back.release()

    def _yield(self, t):
        self.back.release()
        t["go"].acquire()
        if t["kill"]:
            raise Kill()

    def run(self):
        for t in self.ts:
            t["th"].start()
        err = None
        while True:
            alive = [t for t in self.ts if not t["done"]]
            if not alive or err:
                break
            try:
                t = alive[self.X.choose("sched", len(alive))]
            except BaseException as e:  # noqa
                err = e
                break
            t["go"].release()
            self.back.acquire()
            if t["exc"] is not None:
                err = t["exc"]
        for t in self.ts:
            while not t["done"]:
                t["kill"] = True
                t["go"].release()
                self.back.acquire()
        for t in self.ts:
            t["th"].join()
        if err:
            raise err


def threads(kind):
    def h(X):
        ops, env, ref = make_world(X)
        x = X.int("x")
        fr = [{"A": body(X, "A", "fwd", i), "B": body(X, "B", "absorb", i)} for i in range(4)]

        def nested(i, j):
            def f(yield_):
                X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), f"thread {i}: starts without handlers")
                with handler(env.intp(fr[i])):
                    yield_()
                    X.check_eq(ops["A"](x), ref.call([fr[i]], "A", (x,), {}), f"thread {i}: own handler")
                    with handler(env.intp(fr[j])):
                        yield_()
                        X.check_eq(ops["A"](x), ref.call([fr[i], fr[j]], "A", (x,), {}), f"thread {i}: nested")
                    yield_()
                    X.check_eq(ops["B"](x), ref.call([fr[i]], "B", (x,), {}), f"thread {i}: after inner exit")
                yield_()
                X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), f"thread {i}: after outer exit")
            return f

        def midbody(i):
            def hA(env_, y, yield_):
                yield_()
                r = env_.fwd()
                yield_()
                return r

            def f(yield_):
                u = X.func(f"m{i}", 2)

                def b(e, y):
                    yield_()
                    r = e.fwd()
                    yield_()
                    return u(y, r)
                frm = {"A": b}
                frm_ref = {"A": lambda e, y: u(y, e.fwd())}
                with handler(env.intp(fr[i])), handler(env.intp(frm)):
                    X.check_eq(ops["A"](x), ref.call([fr[i], frm_ref], "A", (x,), {}),
                               f"thread {i}: handler body interleaved with another thread")
                X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), f"thread {i}: after exit")
            return f
        if kind == "nested":
            Threads(X, [nested(0, 1), nested(2, 3)]).run()
        elif kind == "mid":
            Threads(X, [midbody(0), nested(1, 2)]).run()
        elif kind == "mid2":
            Threads(X, [midbody(0), midbody(1)]).run()
        else:
            Threads(X, [midbody(0), midbody(1), midbody(2)]).run()
        X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), "starting thread unaffected")
        X.reach("end")
    return h


def spawn(X):
    """a thread started under handlers of its parent starts with none of them; its own do not leak back"""
    ops, env, ref = make_world(X)
    x = X.int("x")
    fr = [{"A": body(X, "A", "fwd", i)} for i in range(2)]
    out = []

    def child():
        try:
            X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), "child starts clean")
            cm = handler(env.intp(fr[1]))
            cm.__enter__()   # left open on purpose: the thread ends with a handler installed
            X.check_eq(ops["A"](x), ref.call([fr[1]], "A", (x,), {}), "child handler")
            out.append(cm)
        except BaseException as e:  # noqa
            out.append(e)
    with handler(env.intp(fr[0])):
        t = threading.Thread(target=child)
        t.start()
        t.join()
        if isinstance(out[0], BaseException):
            raise out[0]
        X.check_eq(ops["A"](x), ref.call([fr[0]], "A", (x,), {}), "parent handler still installed, child's not visible")
    X.check_eq(ops["A"](x), ref.call([], "A", (x,), {}), "parent after exit")
    X.reach("end")


def harnesses(tier):
    n = len(STEPS)
    hs = [
        H("scopes2", program(2, STEPS, ["fwd", "raise_if"], 1),
          "one step of 8 kinds (with, raising with, decorator, reused decorator, coproduct, evaluate(intp), closed generator), nested "
          "to depth 2; 2 handler shapes; handler results/raise conditions uninterpreted", split("step", n, ("step#1", n)), ("end",)),
        H("scopes_seq", program(1, STEPS, ["fwd", "fwd_then_raise", "recover", "inner_raise"], 2), "2 steps in sequence, 4 handler shapes incl. raising before/after/under forwarding",
          split("step", n, ("step#1", n)), ("end",)),
        H("threads_nested", threads("nested"), "2 threads x (2 nested handlers, 5 segments), all schedules of 4+4 yield points", expect=("end",)),
        H("threads_mid", threads("mid"), "2 threads, switches inside a handler body around fwd, all schedules", expect=("end",)),
        H("threads_mid2", threads("mid2"), "2 threads both switching inside handler bodies, all schedules", expect=("end",)),
        H("spawn", spawn, "thread spawned under handlers", expect=("end",)),
    ]
    if tier == "thorough":
        hs.append(H("scopes_seq6", program(1, STEPS, KA, 2), "2 steps, 6 handler shapes", split("step", n, ("step#1", n)), ("end",)))
        hs.append(H("scopes3", program(3, STEPS, ["fwd", "raise_if"], 1), "nesting depth 3",
                    split("step", n, ("step#1", n), ("step#2", n)), ("end",)))
        hs.append(H("threads3", threads("3"), "3 threads switching inside handler bodies, all schedules", split("sched", 3, ("sched#1", 3)), ("end",)))
    return hs
