#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []
SEM, SYN, TYP, RT = "effectful/ops/semantics.py", "effectful/ops/syntax.py", "effectful/ops/types.py", "effectful/internals/runtime.py"


def prop(id, title, statement, over, text, why, files, mech, note, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, observe=list(observe)))


prop("C01", "Handlers act exactly within their dynamic extent, per thread",
     "A handler answers an operation exactly between entering and leaving the block that installs it, whichever way the block is left (normally, by an exception raised anywhere inside, including inside another handler). Nested blocks stack innermost first and unwind exactly, and what one thread installs never answers calls made by another.",
     ["programs", "schedules", "inputs"],
     "every nesting of installs, calls and exceptional exits up to the bound, every schedule of 2 threads at the switch points, every return value",
     "tests exercise a few fixed nestings; exceptions thrown while forwarding and interleaved threads are not tested, and no finite set of programs covers the combinations",
     [RT, SEM, TYP], [("interpreter/handler context managers restore the previous interpretation in finally", RT + ":interpreter"), ("thread-local runtime", RT + ":get_runtime")],
     "bounded: real handler/interpreter/fwd code executed symbolically against a reference stack semantics; shapes and schedules are solver-split selectors, values and handler bodies uninterpreted functions")
prop("C02", "Forwarding reaches the next outer handler, then the default, exactly once",
     "A handler that forwards continues with the nearest enclosing handler of the same operation (then a handler of generic application, then the operation's default behaviour), with the given arguments or, when none are given, the current ones. The result is the value of that continuation, and forwarding inside a nested call refers to the call it appears in.",
     ["programs", "inputs"], "every stack of handlers up to the bound over two operations, each handler drawn from 9 behaviours, all argument and result values",
     "tests forward through two or three fixed stacks with fixed values; which frame a forward refers to depends on the combination of re-entrancy, argument change and stacking",
     [SEM, RT, TYP], [("_save_args/_set_prompt build the continuation and argument frame", RT), ("coproduct chains same-operation handlers", SEM + ":coproduct")],
     "bounded symbolic execution of the real code vs. an independent direct-style semantics; all values symbolic, handler bodies uninterpreted")
prop("C03", "Composing handlers is the same as nesting them, and composition is associative",
     "Installing a composition of handler sets behaves as installing them one inside the other, later ones innermost; composing is associative, has the empty set as unit, and leaves its arguments unchanged. One composed object may be installed repeatedly, on itself or under different outer handlers, with the same meaning.",
     ["programs", "inputs"], "every triple of handler sets drawn from the shapes, every call, all values",
     "associativity and reuse are laws over all handler sets; tests check selected pairs",
     [SEM, RT], [("coproduct", SEM + ":coproduct")], "bounded symbolic execution; results compared as terms over uninterpreted handler functions by z3")
prop("C04", "An unhandled call is the default's value, or the call itself as syntax",
     "Calling an operation nobody handles runs its default behaviour; if that declines, the call returns itself as a term carrying exactly the operation and the arguments given (positional, keyword, variadic, defaulted), with nested unhandled calls nested inside. A handler that declines has the same effect as there being no handler.",
     ["programs", "inputs"], "17 call shapes over 8 signatures, 5 ways of leaving the call unhandled, conditional defaults on an uninterpreted predicate, containers of terms as arguments",
     "argument binding and declining are tested for a few signatures and concrete values",
     [TYP, SYN], [("Operation.__call__ / __default_rule__ / NotHandled", TYP), ("defdata", SYN + ":defdata")], "bounded symbolic execution; structural identity of the returned term decided per path, leaves by z3")
prop("C05", "Evaluation is a structure-preserving homomorphism",
     "Evaluating an expression under an interpretation replaces every operation application, at any depth of nested containers, by the interpreted result of its evaluated arguments and leaves everything else (container types, order, keys, literals) as it was. Evaluating in stages gives the same value as evaluating at once.",
     ["inputs", "programs", "configurations"], "all container nestings of depth 2 over 12 container kinds and 5 leaf kinds, all values, uninterpreted handlers; 4 term shapes in 6 stagings",
     "tests evaluate a handful of literal structures; a container kind dropped or mis-rebuilt only under nesting is not seen",
     [SEM, SYN], [("evaluate and its container rules", SEM + ":evaluate"), ("defdata reconstruction", SYN + ":defdata")], "bounded symbolic execution; result compared with independently built structure, leaves by z3")
prop("C06", "The reported free operations of a term are exactly its free operations",
     "The set reported for an expression contains each operation that occurs in it outside the scope of a binder for it, and no other. Interpreting an operation that is not in the set cannot change the value of the expression.",
     ["programs", "inputs"], "all expressions of depth 2 over 7 node kinds including single, multiple, keyword and nested binders, in every ambient handler configuration, all values",
     "tests check selected terms; shadowing, re-use of one operation bound in one place and free in another needs all combinations",
     [SEM, SYN], [("fvsof", SEM + ":fvsof"), ("Scoped.infer_annotations/analyze", SYN + ":Scoped")], "bounded symbolic execution vs. an independent free-variable computation on the program text; one known finding listed")
prop("C07", "Applying a function term substitutes without capture",
     "Applying a term that denotes a function of its bound operations to arguments gives the value the mathematical function has at those arguments, however the arguments' free operations, the function's own bound operations and binders inside its body coincide or are shared. Reducing before or after interpreting the free operations gives the same value.",
     ["programs", "inputs"], "all first-order programs of depth 2 over 8 node kinds with 2 variables; Church numerals; 34 combinator programs over shared binders; all values, free operations uninterpreted",
     "tests apply closed functions to literals; capture needs shared binders, open arguments and nesting together",
     [SYN], [("function terms apply by handling their bound operations and evaluating the body", SYN + ":_CallableTerm.__call__"), ("defdata renames bound operations", SYN + ":defdata")],
     "bounded symbolic execution vs. a closure semantics; equality of uninterpreted terms decided by z3")
prop("C09", "Structural equality of expressions is exact and an equivalence",
     "Two expressions are reported equal exactly when they have the same operations applied to equal arguments in the same containers with equal leaves. The relation is reflexive, symmetric and transitive, never runs operations of its operands, and == on terms agrees with it.",
     ["inputs", "programs"], "all ordered pairs of 20+ expression shapes in 4 contexts, triples over 12 shapes, all leaf values",
     "an equivalence over all pairs and triples of shapes cannot be sampled; tests compare a few equal and unequal pairs",
     [SYN], [("syntactic_eq", SYN + ":syntactic_eq")], "bounded symbolic execution vs. an independent structural identity; leaves decided by z3")
#--MORE--


def main():
    from pathlib import Path
    exec(Path(HERE, "tools", "more.py").read_text(), globals()) if os.path.exists(HERE + "/tools/more.py") else None
    P.sort(key=lambda p: p["id"])
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                                          observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
            continue
        cmd = f"{PY} lib/runner.py {p['id']}"
        checks.append(dict(property=p["id"], quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                           technique="dynamic symbolic execution of the real Python code; z3 decides every branch and assertion",
                           level="model_checking", level_note=p["note"]))
    m = dict(version=1, setup_cmd=f"{PY} tools/setup_check.py", hooks=dict(guard="none", enable="no hooks: the checks import the code from /repo as it is", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Every check regenerates its encoding by executing /repo's current source under symbolic values (lib/symx.py); known findings are in known_findings.json.")
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
