"""One function per property; each decides it with the specifications in specs/."""
from vlib import CheckError, Violation

CHECKS = {}
def prop(pid, level="model_checking"):
    def deco(f):
        CHECKS[pid] = (f, level)
        return f
    return deco

import importlib, glob, os
for _f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "p_*.py"))):
    importlib.import_module(os.path.basename(_f)[:-3])
