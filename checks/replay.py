#!/usr/bin/env python3
"""replay.py <file>: run a replay file against /repo's current tree; prints the trace and the verdict.
Exit 1 when the violation shows again, 0 when it does not."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, subprocess

path = sys.argv[1]
first = open(path).readline().split()
if first[0] == "binary" and first[1].startswith("dbsim-"):
    parts = first[1].split("-")
    b = build.build_dbsim(parts[1], len(parts) > 2)
    r = subprocess.run([b, "replay", path, "t"])
    sys.exit(r.returncode)
if first[0].startswith("{"):
    import json, gkcheck, gkchecks, kbchecks
    chk = gkchecks.GK[json.load(open(path))["property"]]()
    sys.exit(gkcheck.replay(chk, build.build_gksim(chk.small), path))
print("unknown replay file")
sys.exit(2)
