"""python3 tools/seed.py SPECFILE [name...]: plant bugs from a Python file of
bug(name, prop, [(file, old, new)...], cases, needs, breaks) calls.  Each is
tried in a scratch copy of /repo and written to seeded/<name>/ only if it
compiles, passes the stable tests, and its demo tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''import os, subprocess, sys
CASES = %s
ok = True
for args, stdin, want in CASES:
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
               PYTHONIOENCODING="utf-8")
    try:
        p = subprocess.run([sys.executable, "pip.py"] + args, input=stdin,
                           capture_output=True, text=True, timeout=60,
                           env=env, encoding="utf-8")
    except subprocess.TimeoutExpired:
        print("pip.py", args, "hangs")
        ok = False
        continue
    if p.stdout != want:
        print("pip.py", args, "printed", repr(p.stdout), "not", repr(want))
        print(p.stderr[-500:])
        ok = False
sys.exit(0 if ok else 1)
'''
BUGS = []


def bug(name, prop, edits, cases, needs, breaks):
    BUGS.append((name, prop, edits, cases, needs, breaks))


def sh(cmd, cwd=W):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def main():
    exec(open(sys.argv[1]).read(), globals())
    for name, prop, edits, cases, needs, breaks in BUGS:
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        shutil.rmtree(W, ignore_errors=True)
        sh(f"git clone -q /repo {W}", "/tmp")
        d = os.path.join(HERE, "seeded", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        full = []
        for c in cases:
            code, args = c[0], list(c[1]) if len(c) > 1 else []
            full.append(((["-e", code] if code is not None else []) + args,
                         c[2] if len(c) > 2 else ""))
        want = []
        for args, stdin in full:
            p = subprocess.run([sys.executable, "pip.py"] + args, cwd=W,
                               input=stdin, capture_output=True, text=True,
                               timeout=60, encoding="utf-8",
                               env=dict(os.environ,
                                        PYTHONIOENCODING="utf-8",
                                        PYTHONDONTWRITEBYTECODE="1"))
            want.append((args, stdin, p.stdout))
            if "Traceback" in p.stderr:
                print(name, "TRACEBACK on the original", p.stderr[-300:])
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(DEMO % ("[\n" + "".join(f"    {w!r},\n" for w in want)
                            + "]"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ok0 = sh(f"bash {d}/demo.sh")
        bad = None
        for fn, old, new in edits:
            p = os.path.join(W, fn)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{fn}: {s.count(old)} matches of {old!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if not bad:
            diff = sh("git diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": prop, "needs": needs,
                       "what_it_breaks": breaks},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            ok1 = sh(f"bash {d}/demo.sh")
            c = sh("python3 -m py_compile *.py")
            t = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest "
                   "-q -p no:cacheprovider test 2>&1 | tail -3")
            # lines removed must be the original repository's
            blame = []
            for fn, old, new in edits:
                a = sh(f"git blame -s {fn}", "/repo").stdout.splitlines()
                body = {}
                for l in a:
                    body.setdefault(l.split(")", 1)[1][1:], []).append(
                        l.split()[0])
                rem = [l[1:] for l in diff.splitlines()
                       if l.startswith("-") and not l.startswith("---")]
                blame += [l for l in rem if l in body and not any(
                    h.lstrip("^").startswith("a0ae245") for h in body[l])]
            if ok0.returncode:
                bad = "demo fails on original: " + ok0.stdout[-300:]
            elif ok1.returncode == 0:
                bad = "demo passes with the bug"
            elif c.returncode:
                bad = c.stderr
            elif "failed" in t.stdout or "passed" not in t.stdout:
                bad = t.stdout
            elif blame:
                bad = f"changes lines of my own: {blame}"
        if bad:
            print("REJECTED", name, bad)
            shutil.rmtree(d, ignore_errors=True)
        else:
            print("ok", name, "|", ok1.stdout.strip()[:150].replace("\n", " "))
    shutil.rmtree(W, ignore_errors=True)


main()
