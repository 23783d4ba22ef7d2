"""C22 the tool loop: each requested call runs exactly once, in order, with the decoded arguments, before the next answer is asked for"""
from llm import *


def harnesses(tier):
    deep = tier == "thorough"
    A = ["fin", "one", "two", "dup", "raise2", "raise3", "nest2", "peer", "argraise", "opt", "optrev"]
    hs = [
        H("loop", conversation(A, 3 if deep else 2, [(0,), (None,)], "tools", ("none", "retry")), "one call, the first 2 (thorough 3) answers of 11 kinds with up to 3 calls each",
          split("mode", 2, ("calls", 2), ("k", 11)), ("end", "value", "ToolCallExecutionError")),
        H("longer", conversation(["fin", "two", "nest2", "raise2", "opt"], 4 if deep else 3, [(0,), (None,)], "tools", ("none", "retry"), inner=("fin", "one")), "first 3 (thorough 4) answers of 5 kinds",
          split("mode", 2, ("calls", 2), ("k", 5)), ("end", "value")),
    ]
    return hs
