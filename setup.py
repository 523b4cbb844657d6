#!/usr/bin/env python3
"""Build the executor and this tree's IR and replayers once, so that checks start warm."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
os.makedirs(check.BUILD, exist_ok=True)
b = check.engine()
t = check.tree_dir()
check.make_ir(t)
check.make_replay(t, "dev")
check.make_replay(t, "release")
r = check.sh([b, "self", "--rounds", "100"], ok=False)
print(r.stdout.strip()[-300:])
sys.exit(r.returncode)
