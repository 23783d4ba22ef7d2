"""C21 retries: malformed answers are retried exactly while the policy allows, tool failures are caught exactly as configured"""
from llm import *


def harnesses(tier):
    deep = tier == "thorough"
    A = ["fin", "bad", "badjson", "argbad", "argmiss", "unknown", "badok", "one", "err"]
    B = ["fin", "raise", "other", "abort", "two", "argbad", "nest", "raise3"]
    hs = [
        H("decode", conversation(A, 4 if deep else 3, [(0,)], "retry", ("none", "retry", "policy", "default")), "one call, the first 3 (thorough 4) answers of 9 kinds; any number of attempts 1-3, any stopping policy",
          split("mode", 4, ("k", 9)), ("end", "value", "ToolCallDecodingError", "ResultDecodingError")),
        H("failures", conversation(B, 3 if deep else 2, [(0,), (None,)], "retry", ("none", "retry", "retry-user"), inner=("fin", "bad", "err")), "tool failures of 3 kinds, catching everything, a tuple of types, nothing",
          split("mode", 3, ("calls", 2), ("k", 8)), ("end", "value", "ToolCallExecutionError", "Stop")),
    ]
    return hs
