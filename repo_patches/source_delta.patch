From ecb4b024be9ca1cb60ef5a974221661f443f57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 01/27] fix: fwd() without arguments forwards the current
 arguments to the default rule

Handlers installed without coproduct (evaluate(..., intp=...)) did not save
their arguments, so fwd() called the default rule with no arguments.
---
 effectful/ops/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 65e31de..ce70cb6 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -505,7 +505,11 @@ class Operation[**Q, V]:
             return self
 
     def __call__(self, *args: Q.args, **kwargs: Q.kwargs) -> V:
-        from effectful.internals.runtime import _restore_args, get_interpretation
+        from effectful.internals.runtime import (
+            _get_args,
+            _restore_args,
+            get_interpretation,
+        )
         from effectful.ops.semantics import fwd, handler
 
         intp = get_interpretation()
@@ -517,6 +521,10 @@ class Operation[**Q, V]:
             fwd_intp = typing.cast(
                 Interpretation, {fwd: _restore_args(self.__default_rule__)}
             )
+            if self not in {fwd, _get_args}:
+                # handlers that were not installed by coproduct do not save their
+                # arguments, so save them here for the benefit of fwd()
+                fwd_intp[_get_args] = lambda: (args, kwargs)  # type: ignore
             with handler(fwd_intp):
                 return self_handler(*args, **kwargs)
         elif args and isinstance(args[0], Operation) and self is args[0].__apply__:
-- 
2.43.0


From 1adc62f3e516fdde31363e2c758a6bcfdafae5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 02/27] fix: syntactic_eq treats strings and bytes as atomic on
 either side

syntactic_eq(['a'], 'a') was True while syntactic_eq('a', ['a']) was False.
---
 effectful/ops/syntax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6349e10..d2f076d 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -879,6 +879,7 @@ def _(x: collections.abc.Sequence, other) -> bool:
     else:
         return (
             isinstance(other, collections.abc.Sequence)
+            and not isinstance(other, str | bytes)
             and len(x) == len(other)
             and all(syntactic_eq(a, b) for a, b in zip(x, other))
         )
-- 
2.43.0


From 71b407e945e9955e5f6866fcf590e02b01ac5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 03/27] fix: syntactic_eq does not invoke the __eq__ operation
 of a term operand

Comparing a plain value with a numeric term on the right ran the term's __eq__
operation, so an installed interpretation could change the result.
---
 effectful/ops/syntax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index d2f076d..750032d 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -888,6 +888,8 @@ def _(x: collections.abc.Sequence, other) -> bool:
 @syntactic_eq.register(object)
 @syntactic_eq.register(str | bytes)
 def _(x: object, other) -> bool:
+    if isinstance(other, Term):
+        return False  # do not dispatch to an __eq__ operation of the term
     return x == other
 
 
-- 
2.43.0


From 33ecdb13b47239103c774dff69613af8214c3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 04/27] fix: applying a function term renames its binders
 before substituting open arguments

---
 effectful/ops/syntax.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 750032d..1324310 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -668,9 +668,15 @@ class _CallableTerm[**P, T](_BaseTerm[collections.abc.Callable[P, T]]):
     def __call__(
         self: collections.abc.Callable[P, T], *args: P.args, **kwargs: P.kwargs
     ) -> T:
-        from effectful.ops.semantics import evaluate, fvsof, handler
+        from effectful.internals.runtime import interpreter
+        from effectful.ops.semantics import apply, evaluate, fvsof, handler
 
         if isinstance(self, Term) and self.op is deffn:
+            if fvsof((args, kwargs)):
+                # rename every binder in the function, so that none of them can
+                # capture a free variable of the arguments
+                with interpreter({apply: defdata}):
+                    self = evaluate(self)
             body: Expr[Callable[P, T]] = self.args[0]
             argvars: tuple[Operation, ...] = self.args[1:]
             kwvars: dict[str, Operation] = self.kwargs
-- 
2.43.0


From 0a27d5ef88751cbf77808cec24f4502b27747d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 05/27] fix: number terms compare and round through the
 operators, not the dunder methods

---
 effectful/ops/syntax.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 1324310..a9dde19 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1113,7 +1113,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __round__(self, ndigits: int | None = None) -> numbers.Real:
         if not isinstance(self, Term) and not isinstance(ndigits, Term):
-            return self.__round__(ndigits)
+            return round(self, ndigits)
         else:
             raise NotHandled
 
@@ -1134,35 +1134,35 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __eq__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__eq__(other)
+            return operator.__eq__(self, other)
         else:
             return syntactic_eq(self, other)
 
     @defop
     def __lt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__lt__(other)
+            return operator.__lt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __gt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__gt__(other)
+            return operator.__gt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __le__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__le__(other)
+            return operator.__le__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __ge__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__ge__(other)
+            return operator.__ge__(self, other)
         else:
             raise NotHandled
 
-- 
2.43.0


From cf873da23b84dfbe6656b8251922f745a67ca7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 06/27] fix: torch_getitem applies slices, ints and lists mixed
 with tensor indices like Tensor.__getitem__

---
 effectful/handlers/torch.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index c9b8f64..5e3383f 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -294,27 +294,25 @@ def torch_getitem(x: torch.Tensor, key: tuple[IndexElement, ...]) -> torch.Tenso
     # handle None, Ellipsis, and missing dimensions
     x, key = _getitem_ellipsis_and_none(x, key)
 
-    # Convert non-tensor args to tensors
-    key_l = list(key)
-    for i, arg in list(enumerate(key)):
+    # Apply ints, slices and scalar tensors dimension by dimension, as
+    # Tensor.__getitem__ does, and index by the remaining tensors together.
+    key_l: list[torch.Tensor | None] = []
+    for arg in key:
+        i = len(key_l)
         if isinstance(arg, slice):
-            if arg == slice(None):
-                key_l[i] = None
-            else:
-                # Convert slices to torch.arange()s.
-                start = arg.start if arg.start is not None else 0
-                stop = arg.stop if arg.stop is not None else x.shape[i]
-                step = arg.step if arg.step is not None else 1
-                flat_arg = torch.arange(
-                    start, stop, step, dtype=torch.long, device=x.device
-                )
-                key_l[i] = flat_arg.reshape((-1,) + (1,) * i)
+            x = x[(slice(None),) * i + (arg,)]
+            key_l.append(None)
         elif isinstance(arg, int):
-            key_l[i] = torch.tensor(arg, dtype=torch.long, device=x.device)
+            x = x.select(i, arg)
+        elif isinstance(arg, torch.Tensor) and arg.dim() == 0:
+            x = torch.ops.aten.index(x, (None,) * i + (arg,))
         elif isinstance(arg, list | tuple):
-            flat_arg = torch.tensor(arg, dtype=torch.long, device=x.device)
-            key_l[i] = flat_arg.reshape(flat_arg.shape + (1,) * i)
+            key_l.append(torch.tensor(arg, dtype=torch.long, device=x.device))
+        else:
+            key_l.append(arg)
 
+    if all(arg is None for arg in key_l):
+        return x
     return torch.ops.aten.index(x, tuple(key_l))
 
 
-- 
2.43.0


From 1d15c9f96132679c8649bb58a8e4583439b18f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 07/27] fix: torch function transforms pass keyword arguments
 on as keywords

---
 effectful/handlers/torch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 5e3383f..66f3a1f 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -640,28 +640,28 @@ def grad(func, *args, **kwargs):
     """
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(f(*a, *k))
+    return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(h(*a, *k))
+    return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
@@ -717,7 +717,7 @@ def vmap(func, *args, **kwargs):
     # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
     # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
     # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, *k), starting_dim=1)
+    return lambda *a, **k: reindex(vmap_func(*a, **k), starting_dim=1)
 
 
 @syntactic_eq.register
-- 
2.43.0


From 988073f3529061506aa688eab85d090d1141e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 08/27] fix: % on free tensors is the remainder, as on tensors

---
 effectful/handlers/torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 66f3a1f..c146985 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -431,10 +431,10 @@ class _TensorTerm(Term[torch.Tensor]):
         return torch.floor_divide(other, typing.cast(torch.Tensor, self))
 
     def __mod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(typing.cast(torch.Tensor, self), other)
+        return torch.remainder(typing.cast(torch.Tensor, self), other)
 
     def __rmod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(other, typing.cast(torch.Tensor, self))
+        return torch.remainder(other, typing.cast(torch.Tensor, self))
 
     def __lt__(self, other: torch.Tensor) -> torch.Tensor:
         return torch.lt(typing.cast(torch.Tensor, self), other)
-- 
2.43.0


From 3b4b747f19fa161b372f40bbff5552b67e3248f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 09/27] fix: evaluate treats range objects as atomic

---
 effectful/internals/product_n.py | 2 +-
 effectful/ops/semantics.py       | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 4b8bd2a..87a9c6a 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -69,7 +69,7 @@ def map_structure(func, expr):
         else:
             return type(expr)(map_structure(func, tuple(expr.items())))
     elif isinstance(expr, collections.abc.Sequence):
-        if isinstance(expr, str | bytes):
+        if isinstance(expr, str | bytes | range):
             return expr
         elif (
             isinstance(expr, tuple)
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index de041b6..e54729b 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -151,6 +151,7 @@ def evaluate[T](
 @evaluate.register(object)
 @evaluate.register(str)
 @evaluate.register(bytes)
+@evaluate.register(range)
 def _evaluate_object[T](expr: T, **kwargs) -> T:
     if dataclasses.is_dataclass(expr) and not isinstance(expr, type):
         return typing.cast(
-- 
2.43.0


From 6fca74d0f58c6fcb84db35d1d3ee47737b3d9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 10/27] fix: trace accepts functions with positional-only
 parameters

---
 effectful/ops/syntax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index a9dde19..4dc41c2 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -733,10 +733,12 @@ def trace[**P, T](value: Callable[P, T]) -> Callable[P, T]:
         ):
             raise ValueError(f"cannot unembed {value}: parameter {name} is variadic")
 
-    bound_sig = sig.bind(
-        **{name: defop(param.annotation) for name, param in sig.parameters.items()}
+    bound_sig = inspect.BoundArguments(
+        sig,
+        collections.OrderedDict(
+            (name, defop(param.annotation)) for name, param in sig.parameters.items()
+        ),
     )
-    bound_sig.apply_defaults()
 
     with interpreter({apply: defdata, call: call.__default_rule__}):
         body = value(
-- 
2.43.0


From 97d1768cc28d29030c7f78fa67e68ed1e8d751e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 11/27] fix: argsof returns every argument of a call answered
 by an apply handler

---
 effectful/internals/product_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 87a9c6a..fa395e8 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -147,7 +147,7 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             return result_intp[prompt].args, result_intp[prompt].kwargs
 
         def argsof_apply(prompt):
-            return result_intp[prompt].args[2:], result_intp[prompt].kwargs
+            return result_intp[prompt].args[1:], result_intp[prompt].kwargs
 
         # Every prompt gets an argsof implementation. The implementation is
         # either for a direct call to a handler or for a call to an apply
-- 
2.43.0


From bc40bc5f7da56939ce5a5a8a33b2df1e4325fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 12/27] fix: components of a product see original operations
 and default rules in nested calls

---
 effectful/internals/product_n.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index fa395e8..5081ab2 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -123,11 +123,30 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
         prompt: {op: renaming[(prompt, op)] for op in result_ops} for prompt in intps
     }
 
+    # The names used for isolation are internal: apply handlers are given the
+    # original operations.
+    original = {renamed: op for (_, op), renamed in renaming.items()}
+
+    def with_original_op(func):
+        return lambda op, *args, **kwargs: func(
+            original.get(op, op), *args, **kwargs
+        )
+
     # For every prompt, build an isolated interpretation that binds all operations.
+    # An operation that is not handled at all has its default rule.
     isolated_intps = {
         prompt: {
-            renaming[(prompt, op)]: handler(translation_intps[prompt])(func)
-            for op, func in intp.items()
+            renaming[(prompt, op)]: handler(translation_intps[prompt])(
+                with_original_op(func) if op is apply else func
+            )
+            for op, func in (
+                intp.items()
+                if apply in intp
+                else {
+                    **{op: op.__default_rule__ for op in result_ops},
+                    **intp,
+                }.items()
+            )
         }
         for prompt, intp in intps.items()
     }
-- 
2.43.0


From fa5bbd08a156fccc93253ec44275e96d315e0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 13/27] fix: the nearest declaration in the MRO implements an
 operation of an ObjectInterpretation

---
 effectful/ops/syntax.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 4dc41c2..64531e8 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -955,16 +955,21 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
     # This dict is shared by all `Implementation`s,
     # so we need to clear it when we're done.
     _temporary_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
+    _own_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
     implementations: dict[Operation[..., T], Callable[..., V]] = dict()
 
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = ObjectInterpretation._temporary_implementations.copy()
+        cls._own_implementations = (
+            ObjectInterpretation._temporary_implementations.copy()
+        )
 
-        for sup in cls.mro():
-            if issubclass(sup, ObjectInterpretation):
-                cls.implementations = {**sup.implementations, **cls.implementations}
+        # Each class contributes only what it declares itself, so that the
+        # nearest declaration in the method resolution order wins.
+        cls.implementations = {}
+        for sup in reversed(cls.mro()):
+            cls.implementations.update(vars(sup).get("_own_implementations", {}))
 
         ObjectInterpretation._temporary_implementations.clear()
 
-- 
2.43.0


From 5d9bd19d121a6c7441a04668d66e8dab7a2e1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 14/27] fix: answer every tool call of a rejected assistant
 message when retrying

A message with several tool calls of which one could not be decoded was
followed by a tool message for that one only; providers reject a request
in which a tool call has no response.
---
 effectful/handlers/llm/completions.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 4e9f03d..7bb5318 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -606,6 +606,19 @@ class RetryLLMHandler(ObjectInterpretation):
         assert isinstance(e, (ToolCallDecodingError, ResultDecodingError))
         append_message(e.raw_message)
         append_message(e.to_feedback_message(self.include_traceback))
+        if isinstance(e, ToolCallDecodingError):
+            # Providers require a response to every tool call of the message.
+            for tool_call in e.raw_message.get("tool_calls") or []:
+                if tool_call["id"] != e.raw_tool_call.id:
+                    append_message(
+                        _make_message(
+                            {
+                                "role": "tool",
+                                "tool_call_id": tool_call["id"],
+                                "content": "Not executed: another tool call in the same message could not be decoded.",
+                            }
+                        )
+                    )
         if self._user_before_sleep is not None:
             self._user_before_sleep(retry_state)
 
-- 
2.43.0


From 8015d2aad3d4ae882a39568ea033b3c0ee9030a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 15/27] fix: do not offer a template to itself as an agent
 method unless it is recursive

Template.tools leaves the template out, but a call offered every template
method of the agent, including the one being called.
---
 effectful/handlers/llm/completions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 7bb5318..accfc46 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -685,7 +685,17 @@ class LiteLLMProvider(ObjectInterpretation):
         )  # type: ignore
         history_copy = history.copy()
 
-        with handler({_get_history: lambda: history_copy}):
+        def call_tools(
+            tools_env: collections.abc.Mapping[str, typing.Any],
+        ) -> collections.abc.Mapping[str, Tool]:
+            # As in `Template.tools`: the template may also be found as a method of
+            # an agent, and is only a tool of its own calls if marked recursive.
+            tools = fwd()
+            if tools_env is not env or _is_recursive_signature(template.__signature__):
+                return tools
+            return {name: tool for name, tool in tools.items() if tool is not template}
+
+        with handler({_get_history: lambda: history_copy, collect_tools: call_tools}):
             if (
                 not _get_history()
                 or next(iter(_get_history().values()))["role"] != "system"
-- 
2.43.0


From a85d5d0fa44b9cb1c39cf0ae231e22c4acaff953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 16/27] fix: give templates the globals and scopes of the
 function they decorate

A static-method template at module level saw the library's globals, a
class-method template lost its enclosing scopes, and a caller sharing the
bare name of an enclosing function leaked its locals.
---
 effectful/handlers/llm/template.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index cffda38..1dd1daa 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -289,18 +289,23 @@ class Template[**P, T](Tool[P, T]):
         if isinstance(_fn, staticmethod | classmethod):
             _fn = _fn.__func__
         parts = _fn.__qualname__.split(".")
+        # Enclosers are named in full: a caller may share an encloser's bare name.
         enclosing_fns = [
-            parts[i] for i in range(len(parts) - 1) if parts[i + 1] == "<locals>"
+            ".".join(parts[: i + 1])
+            for i in range(len(parts) - 1)
+            if parts[i + 1] == "<locals>"
         ]
         enclosing_fns.reverse()  # innermost first for frame walking
 
+        # The frame reached here belongs to the library when `define` re-enters
+        # itself for a static or class method, so prefer the function's globals.
         globals_proxy: types.MappingProxyType[str, Any] = types.MappingProxyType(
-            frame.f_globals
+            getattr(inspect.unwrap(_fn), "__globals__", frame.f_globals)
         )
         contexts: list[types.MappingProxyType[str, Any]] = []
         for fn_name in enclosing_fns:
             while frame is not None and frame.f_locals is not frame.f_globals:
-                if frame.f_code.co_name == fn_name:
+                if frame.f_code.co_qualname == fn_name:
                     contexts.append(types.MappingProxyType(frame.f_locals))
                     frame = frame.f_back
                     break
@@ -310,6 +315,16 @@ class Template[**P, T](Tool[P, T]):
             *typing.cast(list[MutableMapping[str, Any]], contexts)
         )
         op = super().define(default, *args, **kwargs)
+        if isinstance(op, classmethod):
+            # defined on first access, when the enclosing scopes are gone
+            define_bound = op._define  # type: ignore[attr-defined]
+
+            def define_in_context(bound):
+                bound_op = define_bound(bound)
+                bound_op.__context__ = context
+                return bound_op
+
+            op._define = define_in_context  # type: ignore[attr-defined]
         op.__context__ = context  # type: ignore[attr-defined]
         mod = inspect.getmodule(_fn)
         op.__system_prompt__ = inspect.getdoc(mod) or ""  # type: ignore[attr-defined]
-- 
2.43.0


From 79d36bd732c456a48ebb9a041a8fdc39b67b64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 17/27] fix: never re-wrap a tool or agent as a lexical reader

A tool bound to two names is offered under one of them; the other name
reached the reader constructor, whose assertion failed the whole call.
---
 effectful/handlers/llm/completions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index accfc46..da8f3b1 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -272,7 +272,11 @@ class LexicalReaders(ObjectInterpretation):
     ) -> collections.abc.Mapping[str, Tool]:
         result = dict(fwd())
         for name, obj in env.items():
-            if name in result or not name.isidentifier():
+            # A `Tool` may be missing from `result` because it is offered under
+            # another name; it is still no plain value.
+            if name in result or isinstance(obj, Tool | Agent):
+                continue
+            if not name.isidentifier():
                 continue
             try:
                 result[name] = _LexicalVariableTool.define(obj, name=name)
-- 
2.43.0


From 7b39be903a00185667b0d5488b123c5783726b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 18/27] fix: render dictionaries whose "type" entry is not
 hashable

to_content_blocks looked the entry up in a set and raised TypeError.
---
 effectful/handlers/llm/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 4ccc8fd..ace4446 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -84,8 +84,12 @@ def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
             blocks.append(ChatCompletionTextObject(type="text", text="".join(buf)))
             buf.clear()
 
+    def is_block(v: dict) -> bool:
+        kind = v.get("type")
+        return isinstance(kind, str) and kind in CONTENT_BLOCK_TYPES
+
     def walk(v: typing.Any) -> None:
-        if isinstance(v, dict) and v.get("type") in CONTENT_BLOCK_TYPES:
+        if isinstance(v, dict) and is_block(v):
             flush()
             blocks.append(typing.cast(OpenAIMessageContentListBlock, v))
         elif isinstance(v, dict):
-- 
2.43.0


From 6062c9a273935eb7bdb106488d9b12550566a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 19/27] fix: give named tuples their own type and tuple
 subclasses their elements' types

nested_type raised TypeError for a typing.NamedTuple, and a tuple[int] for any
homogeneous tuple subclass, so operations and templates rejected such values.
---
 effectful/internals/unification.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 0ebd029..1c2fe9a 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -706,6 +706,8 @@ def _(typ: type | abc.ABCMeta):
         return typ
     elif types.get_original_bases(typ):
         for base in types.get_original_bases(typ):
+            if base is typing.NamedTuple:
+                return typ
             if typing.get_origin(base) is not typing.Generic:
                 cbase = canonicalize(base)
                 if cbase != object:
@@ -1101,7 +1103,9 @@ def _(value: collections.abc.Collection):
 
 @nested_type.register
 def _(value: tuple):
-    if type(value) != tuple or len(value) == 0:
+    if hasattr(value, "_fields"):  # a named tuple
+        return Box(type(value))
+    elif len(value) == 0:
         return nested_type.dispatch(collections.abc.Sequence)(value)
     else:
         return Box(tuple[tuple(nested_type(item).value for item in value)])  # type: ignore
-- 
2.43.0


From 7cf513c0fa55ebcab4e2caccd96b8b5ae1fe474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 20/27] fix: encode and decode tuples, named tuples and complex
 numbers exactly

A finitary tuple accepted too long values, let a KeyError escape for too short
ones and encoded any iterable, so unions with tuples did not round trip.
---
 effectful/handlers/llm/encoding.py | 39 ++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index ace4446..05a0459 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -19,6 +19,7 @@ from typing import Any
 
 import litellm
 import pydantic
+import pydantic_core
 from litellm import (
     ChatCompletionImageObject,
     ChatCompletionMessageToolCall,
@@ -191,7 +192,9 @@ def _validate_complex(value: _ComplexModel) -> complex:
 
 
 @pydantic.validate_call(validate_return=True)
-def _serialize_complex(value: complex) -> _ComplexModel:
+def _serialize_complex(
+    value: typing.Annotated[complex, pydantic.Strict()],
+) -> _ComplexModel:
     return {"real": value.real, "imag": value.imag}
 
 
@@ -298,6 +301,15 @@ def _inline_refs(schema: dict) -> dict:
     return _resolve(schema)
 
 
+def _tuple_items(value: typing.Any, names: list[str]) -> Mapping[str, typing.Any]:
+    """The items of an encoded (or plain) tuple by name, exactly ``names``."""
+    if isinstance(value, tuple | list) and len(value) == len(names):
+        return dict(zip(names, value))
+    if isinstance(value, Mapping) and set(value) == set(names):
+        return value
+    raise ValueError(f"expected exactly the items {names}, got {value!r}")
+
+
 @TypeToPydanticType.register(tuple)
 def _pydantic_type_tuple(ty):
     """Convert finitary tuples to object-based schemas (``properties/required``).
@@ -322,8 +334,7 @@ def _pydantic_type_tuple(ty):
         )
 
         def _nt_validate(value, info: pydantic.ValidationInfo):
-            if isinstance(value, tuple | list):
-                value = dict(zip(nt_fields, value))
+            value = _tuple_items(value, nt_fields)
             return ty(
                 **{
                     f: nt_adapters[i].validate_python(value[f], context=info.context)
@@ -332,6 +343,10 @@ def _pydantic_type_tuple(ty):
             )
 
         def _nt_serialize(value, info: pydantic.SerializationInfo):
+            if not isinstance(value, ty):
+                raise pydantic_core.PydanticSerializationUnexpectedValue(
+                    f"expected {ty.__name__}, got {type(value).__name__}"
+                )
             return {
                 f: nt_adapters[i].dump_python(
                     getattr(value, f), mode="json", context=info.context
@@ -366,15 +381,25 @@ def _pydantic_type_tuple(ty):
         **{f"item_{i}": (a, ...) for i, a in enumerate(effective)},
     )
 
+    item_names = [f"item_{i}" for i in range(len(effective))]
+
     def _validate(value, info: pydantic.ValidationInfo):
-        if isinstance(value, tuple | list):
-            value = {f"item_{i}": v for i, v in enumerate(value)}
+        value = _tuple_items(value, item_names)
         return tuple(
-            adapters[i].validate_python(value[f"item_{i}"], context=info.context)
-            for i in range(len(effective))
+            adapters[i].validate_python(value[item], context=info.context)
+            for i, item in enumerate(item_names)
         )
 
     def _serialize(value, info: pydantic.SerializationInfo):
+        if (
+            not isinstance(value, tuple)
+            or hasattr(value, "_fields")
+            or len(value) != len(effective)
+        ):
+            # lets an enclosing union try its other members
+            raise pydantic_core.PydanticSerializationUnexpectedValue(
+                f"expected a tuple of {len(effective)} items, got {value!r}"
+            )
         return {
             f"item_{i}": adapters[i].dump_python(v, mode="json", context=info.context)
             for i, v in enumerate(value)
-- 
2.43.0


From ee0cd981a9833a89d08f8f9e5b0ef4b9188bb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 21/27] fix: encode a tool call under the name it was called by

Decoding looks the tool up by that name, which need not be its __name__.
---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 05a0459..74c66d6 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -811,7 +811,7 @@ def _serialize_tool_call(
             "type": "function",
             "id": value.id,
             "function": {
-                "name": value.tool.__name__,
+                "name": value.name,
                 "arguments": json.dumps(encoded_args),
             },
         }
-- 
2.43.0


From 3250dd604e2bc65ba5e5a2944d9f791677a89566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 22/27] fix: keep the annotations of named tuple fields when
 encoding

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 74c66d6..361c839 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -323,7 +323,7 @@ def _pydantic_type_tuple(ty):
     """
     # NamedTuple subclasses dispatch here via MRO; use field names.
     if isinstance(ty, type) and hasattr(ty, "_fields"):
-        hints = typing.get_type_hints(ty)
+        hints = typing.get_type_hints(ty, include_extras=True)
         nt_fields: list[str] = list(ty._fields)
         nt_types = [hints.get(f, typing.Any) for f in nt_fields]
         nt_adapters = [pydantic.TypeAdapter(t) for t in nt_types]
-- 
2.43.0


From c2d0b79697fd26f470dff5ffc3492bde56ed3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 23/27] fix: keep the source of every synthesized function

---
 effectful/handlers/llm/encoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 361c839..668f50a 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -213,6 +213,7 @@ def _pydantic_type_complex(ty):
 
 
 _CODE_FILENAME_PREFIX = "<exec_code-"
+_SYNTHESIS_FILENAME_PREFIX = "<synthesis:"
 
 
 @TypeToPydanticType.register(types.CodeType)
@@ -611,7 +612,9 @@ def _pydantic_callable(callable_type: Any) -> Any:
             )
 
         ctx = info.context or {}
-        filename = f"<synthesis:{id(encoded)}>"
+        # Unique per decode (an `id` may be reused once `encoded` is collected), so the
+        # source of an earlier synthesized function is never replaced in `linecache`.
+        filename = f"{_SYNTHESIS_FILENAME_PREFIX}{uuid.uuid4()}>"
         module: ast.AST = evaluation.parse(encoded.module_code, filename)
 
         if not isinstance(module, ast.Module) or not module.body:
-- 
2.43.0


From 896174763838a04f972b116a21f74fb29a8a020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 24/27] fix: encode a synthesized function with the helpers it
 was synthesized with

---
 effectful/handlers/llm/encoding.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 668f50a..63614c6 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -564,6 +564,21 @@ def _validate_signature_callable(
         )
 
 
+def _synthesized_source(func: Callable) -> str | None:
+    """The whole module a synthesized function was decoded from -- the function and the
+    helpers it uses -- or ``None`` if ``func`` is not what decoding that module returns."""
+    code = getattr(inspect.unwrap(func), "__code__", None)
+    if code is None or not code.co_filename.startswith(_SYNTHESIS_FILENAME_PREFIX):
+        return None
+    source = "".join(linecache.getlines(code.co_filename))
+    body = ast.parse(source).body
+    if not body or not isinstance(body[-1], ast.FunctionDef):
+        return None
+    decorators = body[-1].decorator_list
+    lineno = decorators[0].lineno if decorators else body[-1].lineno
+    return source if lineno == code.co_firstlineno else None
+
+
 @TypeToPydanticType.register(Callable)
 def _pydantic_callable(callable_type: Any) -> Any:
     """Create a Pydantic-compatible Annotated type for a parameterized Callable.
@@ -675,7 +690,7 @@ def _pydantic_callable(callable_type: Any) -> Any:
             raise TypeError(f"Expected callable, got {type(value)}")
 
         try:
-            source = inspect.getsource(value)
+            source = _synthesized_source(value) or inspect.getsource(value)
         except (OSError, TypeError):
             source = None
 
-- 
2.43.0


From 448e2c0811b38aac3b6a5fcbccb70b12cb3bb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:49 +0000
Subject: [PATCH 25/27] fix: do not attribute type errors of imported modules
 to the checked region

---
 effectful/handlers/llm/evaluation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 729d818..f633255 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -387,6 +387,9 @@ def _mypy_check_region(
                 "--no-error-summary",
                 "--output=json",
                 "--ignore-missing-imports",
+                # Use imported modules' types but report no errors in them: their line
+                # numbers would be mistaken for lines of `source`.
+                "--follow-imports=silent",
                 "--disable-error-code=import-untyped",
                 *lenient_flags,
             ],
-- 
2.43.0


From e6d26f3a5c3e56bddf72a3ed431545e852bd4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:49 +0000
Subject: [PATCH 26/27] fix: type check the decorators of the first generated
 definition

---
 effectful/handlers/llm/evaluation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index f633255..b89725c 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -170,6 +170,12 @@ def _find_def_at_lineno(
     return None
 
 
+def _start_lineno(stmt: ast.stmt) -> int:
+    """The first line of ``stmt``, including the decorators of a definition."""
+    decorators = getattr(stmt, "decorator_list", [])
+    return min([stmt.lineno, *(d.lineno for d in decorators)])
+
+
 def _region_errors(stdout: str, lo: int | None, hi: int | None) -> list[dict[str, Any]]:
     """mypy ``--output=json`` diagnostics of severity ``error`` whose reported
     line falls within ``[lo, hi]`` -- the spliced region. An open bound (``None``)
@@ -252,7 +258,7 @@ def splice_into_source(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[0].lineno  # first generated statement (body is non-empty)
+    lo = _start_lineno(spliced.body[0])  # first generated statement (non-empty body)
     hi = spliced.end_lineno or lo
     return checked_source, lo, hi
 
@@ -332,7 +338,7 @@ def _splice_repl(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[-n_current].lineno
+    lo = _start_lineno(spliced.body[-n_current])
     hi = spliced.body[-1].end_lineno or lo
     return checked_source, lo, hi
 
-- 
2.43.0


From bdf5e3ae15734e5b57589f2fa4e3f3af6a2ee45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 27/27] fix: run restricted code in its namespace itself

---
 effectful/handlers/llm/evaluation.py | 67 +++++++++++++---------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index b89725c..890200c 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -535,43 +535,36 @@ class RestrictedEvalProvider(ObjectInterpretation):
         bytecode: CodeType,
         env: dict[str, Any],
     ) -> None:
-        # Build restricted globals from RestrictedPython's defaults
-        rglobals: dict[str, Any] = safe_globals.copy()
-
-        # Enable class definitions (required for Python 3)
-        rglobals["__metaclass__"] = type
-        rglobals["__name__"] = "restricted"
-
-        # Layer `env` on top (without letting callers replace the restricted builtins).
-        rglobals.update({k: v for k, v in env.items() if k != "__builtins__"})
-
-        # Enable for loops and comprehensions
-        rglobals["_getiter_"] = Eval.default_guarded_getiter
-        # Enable sequence unpacking in comprehensions and for loops
-        rglobals["_iter_unpack_sequence_"] = Guards.guarded_iter_unpack_sequence
-
-        rglobals["getattr"] = Guards.safer_getattr
-        rglobals["setattr"] = Guards.guarded_setattr
-        rglobals["_write_"] = lambda x: x
-
-        # RestrictedPython rewrites `print(...)` into its `_print_` collector
-        # protocol; route it to the real stdout so output-capturing callers
-        # (e.g. redirect_stdout) see it instead of a discarded collector.
-        rglobals["_print_"] = _StdoutPrintCollector
-
-        # Snapshot value identities before execution so we can copy back every
-        # *binding effect* — both new names and rebindings of seeded names.
-        before = dict(rglobals)
-        builtins.exec(bytecode, rglobals, rglobals)
-
-        sentinel = object()
-        env.update(
-            {
-                key: value
-                for key, value in rglobals.items()
-                if key != "__builtins__" and before.get(key, sentinel) is not value
-            }
-        )
+        # Build restricted builtins from RestrictedPython's defaults
+        guards: dict[str, Any] = {
+            # Enable for loops and comprehensions
+            "_getiter_": Eval.default_guarded_getiter,
+            # Enable sequence unpacking in comprehensions and for loops
+            "_iter_unpack_sequence_": Guards.guarded_iter_unpack_sequence,
+            "getattr": Guards.safer_getattr,
+            "setattr": Guards.guarded_setattr,
+            "_getattr_": Guards.safer_getattr,
+            "_write_": lambda x: x,
+            # RestrictedPython rewrites `print(...)` into its `_print_` collector
+            # protocol; route it to the real stdout so output-capturing callers
+            # (e.g. redirect_stdout) see it instead of a discarded collector.
+            "_print_": _StdoutPrintCollector,
+        }
+
+        # Run in `env` itself, so that it is the one persistent namespace of all code
+        # run in it, whether or not that code completes -- but without letting callers
+        # replace the restricted builtins, which later calls of the functions defined
+        # here still need.
+        for name in guards:
+            env.pop(name, None)
+        env["__builtins__"] = {
+            **safe_globals["__builtins__"],
+            **guards,
+            # Enable class definitions (required for Python 3)
+            "__metaclass__": type,
+        }
+        env.setdefault("__name__", "restricted")
+        builtins.exec(bytecode, env, env)
 
 
 class _OpCommandCompiler(codeop.CommandCompiler):
-- 
2.43.0

