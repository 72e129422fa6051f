#!/usr/bin/env python3
# Nothing is prebuilt (every check rebuilds from /repo's working tree); this only verifies that the tools are there.
import os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
if not shutil.which("g++"):
    sys.exit("g++ is missing")
sys.path.insert(0, os.path.join(here, "trees"))
import curated
n = sum(len(g.emit()) > 0 for g in curated.T.values())
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
print("%d trees generate, g++ present" % n)
