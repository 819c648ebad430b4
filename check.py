#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree (see DESIGN.md)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE + "/tools", HERE + "/checks"]
sys.setrecursionlimit(20000)

if __name__ == "__main__":
    prop = sys.argv[1]
    import runner
    mod = importlib.import_module(prop.lower())
    c = runner.Check(prop)
    if len(sys.argv) > 2:
        c.tier = sys.argv[2]
    mod.run(c)
    c.finish()
