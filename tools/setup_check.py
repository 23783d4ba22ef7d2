"""setup: nothing to build; make sure the interpreter, z3 and the code under check can be imported"""
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + "/lib", os.environ.get("VERIF_REPO", "/repo")]
import symx  # noqa
import effectful.ops.semantics  # noqa
print("z3", symx.z3.get_version_string(), "effectful", list(sys.modules["effectful"].__path__))
