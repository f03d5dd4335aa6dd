"""Explores one unit (a harness with fixed parameters) over every path and
replays a model of every path on the code under test as it stands."""

import io
import os
import re
import signal
import sys
import time
import traceback

import z3
from . import core, loader, rt, strs

HANG_S = 20


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class Pair:
    """The two worlds, with the harness file loaded into both."""

    def __init__(self, hfile, repo=None):
        repo = repo or loader.REPO
        self.sym = loader.World(True, repo)
        self.real = loader.World(False, repo)
        self.repo = repo
        self.hfile = hfile
        self.lib = os.path.join(os.path.dirname(hfile), "common.py")

    def used(self):
        """The names the harness files mention."""
        names = set()
        for f in (self.hfile, self.lib):
            with open(f, encoding="utf-8") as fh:
                names.update(re.findall(r"\w+", fh.read()))
        return names

    def harness(self, w):
        w.fresh()
        lib = w.load_file(self.lib, "common", {"W": w})
        ns = {k: v for k, v in lib.__dict__.items()
              if not k.startswith("_") and k != "W"}
        ns["W"] = w
        ns.update(alpha=strs.alpha, FULL=strs.FULL, ASCII=strs.ASCII,
                  PRINT=strs.PRINT)
        return w.load_file(self.hfile, "harness", ns)


def _known_name(pair, name):
    """Does the code under test mention this attribute name at all?"""
    words = getattr(pair, "words", None)
    if words is None:
        words = pair.words = set()
        for f in os.listdir(pair.repo):
            if f.endswith(".py"):
                with open(os.path.join(pair.repo, f),
                          encoding="utf-8") as fh:
                    words.update(re.findall(r"\w+", fh.read()))
    return name is None or name in words or name not in pair.used()


def replay(pair, fname, params, values, cctx=None):
    """Run the harness on the real code -> (status, label, detail)."""
    cctx = cctx or core.ConcreteCtx(values)
    core.set_ctx(cctx)
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    argv = sys.argv
    old = sys.getrecursionlimit()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        sys.setrecursionlimit(3000)
        h = pair.harness(pair.real)
        cctx.outbuf = io.StringIO()
        cctx.errbuf = io.StringIO()
        sys.stdout, sys.stderr = cctx.outbuf, cctx.errbuf
        sys.stdin = io.StringIO("")
        signal.setitimer(signal.ITIMER_REAL, HANG_S)
        try:
            getattr(h, fname)(cctx, **params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout, sys.stderr, sys.stdin = so, se, si
            sys.setrecursionlimit(old)
        return "ok", "", cctx
    except core.CheckFailed as e:
        return "fail", e.label, e.detail
    except core.Infeasible:
        return "infeasible", "", ""
    except core.PathCut as e:
        return "cut", str(e), ""
    except Hang:
        return "hang", f"does not finish within {HANG_S} s", ""
    except (Exception, SystemExit) as e:
        if isinstance(e, AttributeError) and not _known_name(pair, e.name):
            # the harness uses an internal name the code no longer has:
            # nothing is decided
            return "interface", f"{e}", traceback.format_exc()
        return "exception", f"{type(e).__name__}: {e}", \
            traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.argv = argv
        cctx.clean()
        sys.stdout, sys.stderr, sys.stdin = so, se, si


class DrawCtx(core.ConcreteCtx):
    """Concrete run whose random outcomes are given one after another."""

    def __init__(self, prefix):
        super().__init__({})
        self.prefix = prefix
        self.taken = []

    def int(self, name, lo=None, hi=None):
        if not name.startswith("env."):
            return super().int(name, lo, hi)
        opts = list(range(8)) if name.startswith("env.random.") else \
            list(range(-3, 10))
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((v, opts))
        return opts[v]


def never(pair, fname, params, limit=20000):
    """Does the real code reach the harness's goal under no outcome of the
    random source?  -> True, or False."""
    prefix = []
    for _ in range(limit):
        cctx = DrawCtx(prefix)
        rs, rl, rd = replay(pair, fname, params, {}, cctx)
        if rs == "ok" and cctx.nchecks:
            return False
        if rs not in ("ok", "infeasible"):
            return False
        taken = cctx.taken
        while taken and taken[-1][0] + 1 >= len(taken[-1][1]):
            taken.pop()
        if not taken:
            return True
        prefix = [v for v, _ in taken]
        prefix[-1] += 1
    return False


def confirm(pair, v):
    """Run a reported violation once more on the real code."""
    if v["status"] == "never":
        if never(pair, v["fname"], v["params"]):
            return "fail", v["label"], ""
        return "ok", "", ""
    return replay(pair, v["fname"], v["params"], v["values"])


def explore(pair, name, fname, params, deadline, max_paths=10**9,
            stop_at=3, limits=None, timeout_ms=8000, must=None):
    """-> dict with statistics and violations."""
    ctx = core.SymCtx(timeout_ms)
    ctx.deadline = deadline
    saved = dict(core.CTX_LIMITS)
    if limits:
        core.CTX_LIMITS.update(limits)
    st = ctx.stats
    res = {"unit": name, "violations": [], "gaps": [], "complete": True,
           "reached": 0}
    t0 = time.perf_counter()
    sys.setrecursionlimit(8000)
    try:
        _explore(pair, ctx, st, res, fname, params, max_paths, stop_at)
        if must and res["complete"] and not (
                res["reached"] or res["violations"] or res["gaps"]
                or st.cuts or st.unknown):
            if never(pair, fname, params):
                res["violations"].append(dict(
                    fname=fname, params=params, values={}, status="never",
                    label=f"no outcome of the random source gives {must}",
                    detail=str(params), symbolic="unreachable"))
            else:
                res["gaps"].append("goal unreachable for the model only")
    finally:
        core.CTX_LIMITS.clear()
        core.CTX_LIMITS.update(saved)
    res.update(paths=st.paths, decisions=st.decisions, forced=st.forced,
               queries=st.queries, solver_s=st.solver_s, checks=st.checks,
               checks_by_solver=st.checks_by_solver, cuts=st.cuts,
               unknown=st.unknown, realised=st.realised,
               validated=st.validated, samples=st.samples,
               functions=sorted(pair.sym.record),
               wall_s=time.perf_counter() - t0)
    return res


def _explore(pair, ctx, st, res, fname, params, max_paths, stop_at):
    while True:
        core.set_ctx(ctx)
        ctx.start_path()
        pair.sym.env = pair.sym.env
        h = pair.harness(pair.sym)
        status, info = "done", ""
        model = None
        before = st.checks
        saved = sys.stdin, sys.argv
        try:
            sys.stdin = rt.SymStdin()
            getattr(h, fname)(ctx, **params)
        except core.Infeasible:
            status = "infeasible"
        except core.OutOfTime:
            res["complete"] = False
            res["cut"] = "time budget"
            return
        except core.PathCut as e:
            status, info = "cut", str(e)
        except core.Violation as v:
            status, info, model = "violation", v.label, v.model
        except RecursionError:
            status, info = "cut", "recursion limit of the engine"
        except (Exception, SystemExit) as e:
            status = "exception"
            info = f"{type(e).__name__}: {e}"[:300]
            tb = traceback.format_exc()
        finally:
            sys.stdin, sys.argv = saved
        if status != "infeasible":
            st.paths += 1
        if status == "cut":
            key = info.split(":")[0][:80]
            st.cuts[key] = st.cuts.get(key, 0) + 1
        if status != "infeasible":
            try:
                if model is None:
                    model = ctx.get_model()
                values = ctx.decode_inputs(model)
            except core.Control:
                values = None
            if values is not None:
                reached = st.checks > before
                rs, rl, rd = replay(pair, fname, params, values)
                core.set_ctx(ctx)
                if rs in ("fail", "hang") or (
                        rs == "exception" and (status != "done"
                                               or "Recursion" not in rl)):
                    res["violations"].append(dict(
                        fname=fname, params=params, values=values,
                        label=rl, detail=str(rd)[-1500:], status=rs,
                        symbolic=f"{status}: {info}"))
                    if len(res["violations"]) >= stop_at:
                        res["complete"] = False
                        return
                elif rs == "exception":
                    res["gaps"].append(f"real code raised, model did not: "
                                       f"{rl} {values}")
                elif status in ("violation", "exception"):
                    msg = f"{status} not confirmed on the real code " \
                          f"({rs}): {info} {values}"
                    if status == "exception":
                        msg += "\n" + tb[-1200:]
                    res["gaps"].append(msg)
                elif rs == "ok":
                    st.validated += 1
                    if status == "done" and reached:
                        res["reached"] += 1
                    if len(st.samples) < 2 or (
                            len(st.samples) < 4 and st.paths % 37 == 0):
                        st.samples.append({
                            "unit": res["unit"],
                            "inputs": {k: "".join(map(chr, v))
                                       if isinstance(v, list) else v
                                       for k, v in values.items()},
                            "observed": str(rd.log[-1])[:200]
                            if rd.log else "checks held"})
                elif rs in ("infeasible", "cut") and status == "done":
                    res["gaps"].append(f"replay diverged ({rs} {rl}): "
                                       f"{values}")
        if st.paths >= max_paths:
            res["complete"] = False
            res["cut"] = f"first {max_paths} paths"
            return
        ctx.model = None
        try:
            if not ctx.backtrack():
                return
            ctx.check_deadline()
        except core.OutOfTime:
            res["complete"] = False
            res["cut"] = "time budget"
            return
