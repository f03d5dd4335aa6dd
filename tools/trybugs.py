"""python3 tools/trybugs.py [-p PROP] [name...]: run each planted bug's check
(or every check of another property) against a scratch copy with the bug."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/trybugs"
args = sys.argv[1:]
other = None
if args[:1] == ["-p"]:
    other = args[1].split(",")
    args = args[2:]
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    if args and not any(a in name for a in args):
        continue
    d = os.path.join(HERE, "seeded", name)
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
    for prop in other or [json.load(open(d + "/meta.json"))["property"]]:
        t = time.time()
        p = subprocess.run(
            ["python3-vt", os.path.join(HERE, "sx/run.py"), prop], cwd=HERE,
            capture_output=True, text=True, env=dict(os.environ, SX_REPO=W))
        lines = [x for x in p.stdout.splitlines()
                 if x.startswith("counterexample")]
        print(f"{name}: {prop} exit {p.returncode} "
              f"({time.time() - t:.0f} s) {lines[0][:140] if lines else ''}",
              flush=True)
shutil.rmtree(W, ignore_errors=True)
