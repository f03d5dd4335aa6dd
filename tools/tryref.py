"""python3 tools/tryref.py [name...]: run the checks on each refactoring of
tools/refactors.py in a scratch copy; they must stay quiet."""
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/tryref"
REFS = []


def ref(name, props, edits):
    REFS.append((name, props.split(), edits))


exec(open(os.path.join(HERE, "tools/refactors.py")).read())
for name, props, edits in REFS:
    if sys.argv[1:] and not any(a in name for a in sys.argv[1:]):
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    bad = False
    for f, old, new in edits:
        s = open(os.path.join(W, f)).read()
        if not s.count(old):
            print(name, "matches", s.count(old), f)
            bad = True
            break
        open(os.path.join(W, f), "w").write(s.replace(old, new))
    if bad:
        continue
    for prop in props:
        t = time.time()
        p = subprocess.run(
            ["python3-vt", os.path.join(HERE, "sx/run.py"), prop], cwd=HERE,
            capture_output=True, text=True, env=dict(os.environ, SX_REPO=W))
        print(f"{name}: {prop} exit {p.returncode} ({time.time() - t:.0f} s)",
              (p.stdout.splitlines() or [""])[-1][:230], flush=True)
        if p.returncode:
            print("   ", p.stdout[:600], p.stderr[-300:])
shutil.rmtree(W, ignore_errors=True)
