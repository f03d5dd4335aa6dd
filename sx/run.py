"""python3-vt sx/run.py <property> [--tier quick|thorough] [--unit SUBSTR]
                          [--replay FILE] [-v]

Decides one property: explores every unit of props/<property>.py in parallel,
writes evidence/<property>.json, prints VIOLATION lines, exits 0 or 1."""

import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sx import core, explore, loader  # noqa: E402

CAP = {"quick": 420, "thorough": 2400}


def load_units(prop, tier):
    path = os.path.join(HERE, "props", prop + ".py")
    spec = importlib.util.spec_from_file_location("units_" + prop, path)
    # the unit table is plain data; harness functions refer to names that
    # only exist inside a world, which is fine as they are not called here
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return path, m, m.units(tier)


_pair = None


def _init(path):
    global _pair
    _pair = explore.Pair(path)


def _work(job):
    i, name, fname, params, opts, t_end = job
    try:
        dl = time.monotonic() + max(1.0, min(
            t_end - time.time(), opts.get("budget", 1e9)))
        _pair.sym.record.clear()
        return i, explore.explore(
            _pair, name, fname, params, dl,
            limits=opts.get("limits"),
            timeout_ms=opts.get("timeout_ms", 8000),
            must=opts.get("must"))
    except BaseException as e:
        import traceback
        return i, {"unit": name, "error": f"{type(e).__name__}: {e}",
                   "trace": traceback.format_exc(), "violations": [],
                   "gaps": [], "complete": False, "reached": 0}


def norm_unit(u):
    if len(u) == 3:
        return u + ({},)
    return u


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    path, mod, units = load_units(a.prop, a.tier)
    if a.replay:
        return do_replay(path, a.replay)
    units = [norm_unit(u) for u in units]
    if a.unit:
        units = [u for u in units if a.unit in u[0]]
    names = [u[0] for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    cap = float(os.environ.get("SX_CAP", CAP[a.tier]))
    t_end = t0 + cap
    jobs = [(i, n, f, p, o, t_end) for i, (n, f, p, o) in enumerate(units)]
    order = sorted(jobs, key=lambda j: -j[4].get("weight", 1))
    nproc = a.jobs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    results = [None] * len(jobs)
    pool = mp.get_context("fork").Pool(nproc, _init, (path,))
    nviol = 0
    try:
        for i, r in pool.imap_unordered(_work, order):
            results[i] = r
            if a.v:
                print(f"{r['unit']}: paths={r.get('paths')} "
                      f"complete={r['complete']} reached={r['reached']} "
                      f"viol={len(r['violations'])} gaps={len(r['gaps'])} "
                      f"cuts={r.get('cuts')} q={r.get('queries')} "
                      f"realised={r.get('realised')} "
                      f"t={r.get('wall_s', 0):.1f} {r.get('cut', '')}"
                      f"{r.get('error', '')}", flush=True)
                for g in r["gaps"][:1]:
                    print("   GAP", g[:200], "..." + g[-500:])
                if r.get("trace"):
                    print(r["trace"])
            nviol += len(r["violations"])
            if nviol >= 3 and not a.v and not os.environ.get("SX_ALL"):
                break
        pool.close() if len([r for r in results if r]) == len(jobs) \
            else pool.terminate()
    finally:
        pool.terminate()
        pool.join()
    return finish(a, seed, t0, units, results, mod, path)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(a, seed, t0, units, results, mod, path):
    prop = a.prop
    done = [r for r in results if r]
    viol = []
    for r in done:
        for v in r["violations"]:
            viol.append((r["unit"], v))
    # a second replay, in this process, of everything about to be reported
    confirmed = []
    pair = None
    for unit, v in viol[:999 if os.environ.get("SX_ALL") else 6]:
        if pair is None:
            pair = explore.Pair(path)
        rs, rl, rd = explore.confirm(pair, v)
        if rs in ("fail", "hang", "exception"):
            confirmed.append((unit, v))
    reported = []
    known = [k for k in known_findings() if k["property"] == prop
             and k.get("status") == "known"]
    seen_known = set()
    for unit, v in confirmed:
        hit = None
        for k in known:
            if k.get("unit") in (None, unit) and all(
                    v["values"].get(n) == x
                    for n, x in k.get("values", {}).items()) and \
                    k.get("label", "") in v["label"]:
                hit = k
        if hit is not None:
            seen_known.add(hit["what"])
            continue
        reported.append((unit, v))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (unit, v) in enumerate(reported):
        f = os.path.join(rdir, f"{prop}-{n}.json")
        with open(f, "w") as fh:
            json.dump(dict(property=prop, unit=unit, **v), fh, indent=1,
                      default=str)
        vals = {k: "".join(map(chr, x)) if isinstance(x, list) else x
                for k, x in v["values"].items()}
        print(f"counterexample: unit={unit} inputs={vals!r}\n  "
              f"{v['label']}\n  {v['detail'][-300:]}")
        print(f"VIOLATION property={prop} replay={f}")
    tot = lambda k: sum(r.get(k, 0) or 0 for r in done)
    funcs = sorted(set().union(*[set(r.get("functions", []))
                                 for r in done]) if done else [])
    cuts = {}
    for r in done:
        for k, n in (r.get("cuts") or {}).items():
            cuts[k] = cuts.get(k, 0) + n
    samples = []
    for r in done:
        samples.extend(r.get("samples", [])[:1])
    step = max(1, len(samples) // 12)
    samples = samples[::step][:14]
    incomplete = [f"{r['unit']}: {r.get('cut') or r.get('error') or 'stopped at a violation'}"
                  for r in done if not r["complete"]]
    incomplete += [f"{u[0]}: not run" for u, r in zip(units, results)
                   if r is None]
    vacuous = [r["unit"] for r in done if not r["reached"]
               and not r["violations"]]
    gaps = [f"{r['unit']}: {g}" for r in done for g in r["gaps"]]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough")
        else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples or [{"note": "no completed path"}],
            "units": len(units),
            "units_complete": sum(1 for r in done if r["complete"]),
            "units_incomplete": incomplete[:40],
            "units_vacuous": vacuous[:40],
            "assertions": tot("checks"),
            "assertions_decided_by_solver": tot("checks_by_solver"),
            "solver_queries": tot("queries"),
            "solver_seconds": round(tot("solver_s"), 2),
            "solver_unknown": tot("unknown"),
            "branches_forced_by_solver": tot("forced"),
            "paths_cut_at_a_bound": cuts,
            "values_enumerated_at_C_boundaries": tot("realised"),
            "unconfirmed_model_results": gaps[:20],
            "functions_encoded": funcs,
            "n_functions_encoded": len(funcs),
            "bounds": getattr(mod, "BOUNDS", {}).get(
                a.tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
            "exhaustive": not incomplete and not cuts and not gaps,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "the symbolic models of CPython's str, int, re and container "
            "operations (sx/) agree with CPython (selftest/difftest.py; one "
            "model of every path is also replayed on the unmodified code)"],
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if not a.unit:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {len(units)} units, {tot('paths')} paths, "
          f"{tot('queries')} queries, {tot('solver_s'):.1f} s solver, "
          f"{tot('validated')} replayed on the real code, "
          f"{len(incomplete)} incomplete, {len(vacuous)} vacuous, "
          f"{len(gaps)} gaps, {sum(cuts.values())} cut, {wall:.1f} s")
    if a.v:
        for x in incomplete:
            print("  incomplete:", x)
        for x in vacuous:
            print("  vacuous:", x)
    return 1 if reported else 0


def do_replay(path, f):
    with open(f) as fh:
        v = json.load(fh)
    pair = explore.Pair(path)
    rs, rl, rd = explore.confirm(pair, v)
    print(rs, rl, rd if isinstance(rd, str) else "")
    return 0 if rs == "ok" else 1


if __name__ == "__main__":
    sys.exit(main())
