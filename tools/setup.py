#!/usr/bin/env python3
"""Nothing is kept between runs: checks build what they need.  This only checks
that the tools are there and that the specification parses."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import nj, spec
o = spec.run([{"src": "print(1 + 2); return 'ok';"}])[0]
assert o["out"] == "3", o
a = nj.run1("print(1 + 2); return 'ok';")
assert a["st"] == "ok" and a["out"] == "3", a
print("ready")
