"""python3-vt tools/mutate.py cover OUT.json      which unit enters which function
python3-vt tools/mutate.py run OUT.json SEED N [FUNC]   N random small changes of
/repo (in a scratch copy), each against the units that enter the changed
function; prints the ones no unit reports.  A way to find what to strengthen."""
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PROPS = [f"C{i:02d}" for i in range(1, 29)]
W = os.environ.get("MUT_DIR", "/tmp/mut")
pairs = {}


def units_of(prop):
    import importlib.util
    path = os.path.join(HERE, "props", prop + ".py")
    spec = importlib.util.spec_from_file_location("units_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return path, [u if len(u) == 4 else u + ({},) for u in m.units("quick")]


def work(job):
    prop, path, (name, fname, params, opts), t_end = job
    from sx import explore
    try:
        if prop not in pairs:
            pairs[prop] = explore.Pair(path)
        pair = pairs[prop]
        pair.sym.record.clear()
        r = explore.explore(pair, name, fname, params,
                            time.monotonic() + max(1, t_end - time.time()),
                            stop_at=1, limits=opts.get("limits"),
                            timeout_ms=opts.get("timeout_ms", 8000),
                            must=opts.get("must"))
        return prop, name, r
    except BaseException as e:
        return prop, name, dict(violations=[], gaps=[str(e)], functions=[],
                                wall_s=0, error=str(e), complete=False)


def cover(out):
    jobs = []
    for prop in PROPS:
        path, us = units_of(prop)
        for u in us:
            jobs.append((prop, path, u, time.time() + 7200))
    random.Random(1).shuffle(jobs)
    res = {}
    with mp.get_context("fork").Pool(8) as pool:
        for prop, name, r in pool.imap_unordered(work, jobs):
            res.setdefault(prop, {})[name] = [round(r["wall_s"], 2),
                                              r["functions"]]
    json.dump(res, open(out, "w"))


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
        ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*",
       ast.Mod: "//", ast.BitXor: "|", ast.BitOr: "&", ast.BitAnd: "|"}


def mutants(src, mod):
    """-> [(qualified function, start, end, new text)]"""
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return (offs[n.end_lineno - 1] + n.end_col_offset if end
                else offs[n.lineno - 1] + n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()
    out = []

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = f"{func}.{n.name}"
            for c in n.body:
                visit(c, q)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ("warn", "die", "print"):
            return
        add = lambda s, e, t: out.append((func, s, e, t))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            add(pos(l, True), pos(r), f" {SWAP[type(n.ops[0])]} ")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, (ast.Constant, ast.JoinedStr))
                and isinstance(getattr(n.left, "value", ""), str)):
            mid = b[pos(n.left, True):pos(n.right)].decode()
            add(pos(n.left, True), pos(n.right), (
                ")" if mid.strip().startswith(")") else "") +
                f" {BIN[type(n.op)]} " + (
                "(" if mid.strip().endswith("(") else ""))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(pos(n), pos(n, True), str(n.value + 1))
            if n.value:
                add(pos(n), pos(n, True), str(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(pos(n), pos(n, True), str(not n.value))
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            for x in n.values:
                # drop an operand
                if len(n.values) == 2:
                    o = [y for y in n.values if y is not x][0]
                    add(pos(n), pos(n, True), seg(o))
            mid = b[pos(n.values[0], True):pos(n.values[1])].decode()
            if len(n.values) == 2:
                add(pos(n.values[0], True), pos(n.values[1]), mid.replace(
                    "and" if op == "or" else "or", op))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            add(pos(n), pos(n, True), f"({seg(n.operand)})")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    add(pos(x), pos(x, True), "")
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args) and \
                    getattr(n.func, "id", "") not in ("isinstance",):
                x, y = n.args
                add(pos(x), pos(y, True), f"{seg(y)}, {seg(x)}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "lower", "strip", "lstrip"):
                add(pos(n), pos(n, True), seg(n.func.value))
            if getattr(n.func, "id", "") in ("min", "max"):
                o = "max" if n.func.id == "min" else "min"
                add(pos(n.func), pos(n.func, True), o)
            if getattr(n.func, "id", "") in ("reversed", "int", "str",
                                             "list", "abs", "sorted") \
                    and len(n.args) == 1:
                add(pos(n), pos(n, True), f"({seg(n.args[0])})")
            if getattr(n.func, "id", "") == "isinstance" and isinstance(
                    n.args[1], ast.Tuple):
                for x in n.args[1].elts:
                    rest = [seg(y) for y in n.args[1].elts if y is not x]
                    add(pos(n.args[1]), pos(n.args[1], True),
                        "(" + ", ".join(rest) + ",)")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(
                getattr(n, "value", None), ast.Constant):
            c = getattr(n, "value", None)
            if not (isinstance(n, ast.Expr) and isinstance(c, ast.Call)
                    and isinstance(c.func, ast.Attribute)
                    and c.func.attr in ("warn", "die")):
                add(pos(n), pos(n, True), "pass")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(pos(n), pos(n, True),
                "continue" if isinstance(n, ast.Break) else "break")
        elif isinstance(n, ast.IfExp):
            add(pos(n), pos(n, True), seg(n.body))
            add(pos(n), pos(n, True), seg(n.orelse))
        for c in ast.iter_child_nodes(n):
            visit(c, func)
    for n in ast.parse(src).body:
        visit(n, mod)
    return out


def run(cov, seed, count, only):
    cov = json.load(open(cov))
    rng = random.Random(seed)
    byfunc = {}
    for prop in cov:
        for name, (wall, funcs) in cov[prop].items():
            for f in funcs:
                byfunc.setdefault(f, []).append((wall, prop, name))
    units = {p: units_of(p) for p in PROPS}
    table = {p: {u[0]: u for u in units[p][1]} for p in PROPS}
    pool_m = {}
    srcs = {}
    for f in ("execution", "ptypes", "parsing", "scanning", "pip",
              "operators"):
        srcs[f] = open(f"/repo/{f}.py", encoding="utf-8").read()
        for m in mutants(srcs[f], f):
            pool_m.setdefault(m[0], []).append((f,) + m)
    names = sorted(n for n in pool_m if not only or only in n)
    skip = ("execution.ProgramState.__init__", "execution",
            "parsing.parse_test")
    names = [n for n in names if n not in skip or only]
    caught = 0
    for k in range(count):
        fn = rng.choice(names)
        f, func, s, e, t = rng.choice(pool_m[fn])
        b = srcs[f].encode()
        new = (b[:s] + t.encode() + b[e:]).decode()
        old = b[s:e].decode()
        line = b[:s].decode().count("\n") + 1
        text = srcs[f].split("\n")[line - 1].strip()
        desc = f"{fn}:{line}: {old!r} -> {t!r}   | {text}"
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
        open(f"{W}/{f}.py", "w", encoding="utf-8").write(new)
        try:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                 "no:cacheprovider", "test"], cwd=W, capture_output=True,
                text=True, timeout=60,
                env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        except subprocess.TimeoutExpired:
            continue
        if "failed" in r.stdout or "passed" not in r.stdout or \
                "error" in r.stdout:
            continue
        us = sorted(byfunc.get(fn, []))
        if not us:
            print("UNCOVERED", desc, flush=True)
            continue
        cheap = us[:260]
        rest = us[260:]
        rng.shuffle(rest)
        us = cheap + sorted(rest[:140])
        t0 = time.time()
        cap = float(os.environ.get("MUT_CAP", "150"))
        os.environ["SX_REPO"] = W
        hit = None
        gaps = 0
        n = 0
        jobs = [(p, units[p][0], table[p][u], t0 + cap) for _, p, u in us]
        pool = mp.get_context("fork").Pool(8)
        try:
            for prop, name, r in pool.imap_unordered(work, jobs):
                n += 1
                gaps += len(r["gaps"])
                if r["violations"]:
                    hit = (prop, name)
                    break
                if time.time() - t0 > cap + 30:
                    break
        finally:
            pool.terminate()
            pool.join()
        if hit:
            caught += 1
            print("caught", hit[0], hit[1], f"{time.time() - t0:.0f}s",
                  desc, flush=True)
        else:
            print(f"MISSED ({n} of {len(us)} units, gaps {gaps}, "
                  f"{time.time() - t0:.0f}s)", desc, flush=True)
    shutil.rmtree(W, ignore_errors=True)


if sys.argv[1] == "cover":
    cover(sys.argv[2])
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]),
        sys.argv[5] if len(sys.argv) > 5 else "")
