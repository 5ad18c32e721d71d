#!/usr/bin/env python3
"""replay.py FILE: run a replay file against /repo's working tree, in a fresh process.
exit 1 if it shows the recorded violation again, 0 if the run is clean."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simlib

text = open(sys.argv[1]).read()
m = re.match(r"# property=(\S+) arch=(\S+) seed=(\d+) class=(\S+) hash=(\S+)", text)
info = build.build(m[2])
r = simlib.run_plan(info, text)
print(r)
if r and r["status"] == 2:
    print("reproduced exactly" if (r["cls"], r["hash"]) == (m[4], m[5]) else "violation, but another history (%s %s)" % (m[4], m[5]))
    print("VIOLATION property=%s replay=%s" % (m[1], os.path.abspath(sys.argv[1])))
    sys.exit(1)
sys.exit(0 if r and r["status"] == 1 else 2)
