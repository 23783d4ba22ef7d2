"""C20 conversations: what the model is sent is well formed, and an agent's history holds exactly its completed calls"""
from llm import *


def harnesses(tier):
    deep = tier == "thorough"
    A = ["fin", "bad", "one", "okbad", "badok", "raise2", "nest", "err", "peer", "abort"]
    S = ["fin", "bad", "one", "nest", "err"]
    hs = [
        H("one", conversation(A, 3 if deep else 2, [(0,), (None,)], "history"), "one call; 2 (thorough 3) free answers of 10 kinds, nested calls of 4; 1-3 attempts",
          split("mode", 3, ("calls", 2), ("k", 10)), ("end", "value", "ApiErr", "Stop")),
        H("several", conversation(S, 3 if deep else 2, [(0, 0), (0, 1), (0, None), (1, 0, 1)], "history", inner=("fin", "err")), "2-3 calls on two agents and a plain template; first 2 (3) answers free",
          split("mode", 3, ("calls", 4), ("k", 5)), ("end", "value")),
    ]
    return hs
