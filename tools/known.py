"""python3-vt tools/known.py: rewrites the "fixed" list of known_findings.json
from /repo's fix commits (each commit's property is given in PROPS)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ("C05 C05 C05 C05 C05 C05 C09 C08 C09 C11 C11 C26 C11 C05 C12 C12 "
         "C12 C26 C26 C26 C26 C26 C26 C26 C26 C26 C22 C26 C12 "
         "C20 C21 C22 C22 C24 C27 C27 C27 C25 C26").split()

log = subprocess.run(["git", "-C", "/repo", "log", "--reverse",
                      "--format=%h %s"], capture_output=True,
                     text=True).stdout.splitlines()
log = [x for x in log if x.split(" ", 1)[1].startswith("fix:")]
if len(log) != len(PROPS):
    sys.exit(f"{len(log)} fix commits, {len(PROPS)} properties: "
             + "\n".join(log[len(PROPS):]))
p = os.path.join(HERE, "known_findings.json")
with open(p) as f:
    d = json.load(f)
d["fixed"] = []
for x, prop in zip(log, PROPS):
    h, s = x.split(" ", 1)
    d["fixed"].append(f"fixed: property={prop} {h} {s[5:]}")
with open(p, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
