"""python3-vt tools/gen.py: writes properties.jsonl and MANIFEST.json from
the table below (checks are claimed when props/<id>.py exists)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",)):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": list(over), "text": text},
        why_tests_cant=why,
        anchors={"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mech]}))


NOTEST = ("The existing tests only construct a few Pip values directly; "
          "no test runs this part at all, and it quantifies over ")

exec(open(os.path.join(HERE, "tools", "meta.py")).read())

NOT_APPLICABLE = NA


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE]
    nas = {k for k, v in NOT_APPLICABLE}
    for p in P:
        path = os.path.join(HERE, "props", p["id"] + ".py")
        if p["id"] in nas:
            continue
        if not os.path.exists(path):
            na.append(dict(property=p["id"], reason="no check built yet"))
            continue
        spec = importlib.util.spec_from_file_location("m", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt sx/run.py {p['id']}",
            "thorough_cmd": f"python3-vt sx/run.py {p['id']} "
                            "--tier thorough",
            "technique": "bounded symbolic execution of the Python source "
                         "with Z3, counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "All paths within the bounds: "
                          + m.BOUNDS["quick"] + ". Trusts the engine's "
                          "models of CPython strings, ints, regexes and "
                          "containers (differentially tested; one model of "
                          "every path is replayed on the unmodified code).",
        })
    man = {"version": 1,
           "setup_cmd": "python3-vt selftest/difftest.py 300 1",
           "checks": checks, "not_applicable": na,
           "notes": "Engine in sx/, harnesses in props/, see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


main()
