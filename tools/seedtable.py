#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from tools/seedkit/bugs.py"""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/seedkit")
from bugs import BUGS
t = open(V + "/DESIGN.md").read()
rows = "| bug | caught by | what it breaks |\n|---|---|---|\n" + "".join(f"| `{i}` | {b['property']} | {b['what_it_breaks']} |\n" for i, b in sorted(BUGS.items()))
t2 = re.sub(r"\| bug \| caught by .*?\n\n", lambda m: rows + "\n", t, flags=re.S)
assert t2.count("| bug |") == 1
open(V + "/DESIGN.md", "w").write(t2)
