"""nothing to build: the checks run from source; verify that the tools are there"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symx import solver, world  # noqa

print("z3", solver.z3.get_version_string())
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(solver.__file__.rsplit("/symx/", 1)[0], d), exist_ok=True)
