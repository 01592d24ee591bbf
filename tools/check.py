#!/usr/bin/env python3-vt
import sys, os, importlib.util
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from hv import core
def load(pid):
    f = os.path.join(os.path.dirname(HERE), "specs", pid + ".py")
    s = importlib.util.spec_from_file_location(pid, f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
if __name__ == "__main__":
    pid = sys.argv[1]; m = load(pid)
    groups = m.GROUPS
    if len(sys.argv) > 2 and not sys.argv[2].startswith("-"): groups = [g for g in groups if any(a in g.name for a in sys.argv[2:])]
    sys.exit(core.run_property(pid, groups, m.ASSUMPTIONS, trusted=getattr(m, "TRUSTED", None), level=getattr(m, "LEVEL", "proof"), explanation=getattr(m, "EXPLANATION", None)))
