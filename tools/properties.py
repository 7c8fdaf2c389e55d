"""The single source of properties.jsonl and MANIFEST.json: run `python3 tools/properties.py` to write both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = "src/aihwkit/simulator/tiles/"
C = "src/rpucuda/"

PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, level_note=None, state=(), na=None):
    rec = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
           "why_tests_cant": why,
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                       "observe_at": observe, "hook_needed": None}}
    if state:
        rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append((rec, level_note))
    if na:
        NOT_APPLICABLE.append({"property": pid, "reason": na})


exec(open(os.path.join(ROOT, "tools", "property_list.py"), encoding="utf8").read())  # pylint: disable=exec-used


def main():
    import sys
    sys.path.insert(0, ROOT)
    from sim.props.meta import META
    checks = []
    skipped = {x["property"] for x in NOT_APPLICABLE}
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
        for rec, note in PROPS:
            f.write(json.dumps(rec) + "\n")
            pid = rec["id"]
            if pid in skipped:
                continue
            if pid not in META:
                NOT_APPLICABLE.append({"property": pid, "reason": "no check built yet"})
                continue
            checks.append({
                "property": pid,
                "quick_cmd": f"{PY} sim/run.py {pid} --tier quick",
                "thorough_cmd": f"{PY} sim/run.py {pid} --tier thorough",
                "technique": "deterministic simulation with fault injection: " + META[pid]["technique"],
                "level": "exploration", "level_note": note})
    manifest = {"version": 1, "setup_cmd": f"{PY} sim/build.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
                "notes": "No hooks in /repo are needed: the engine is compiled out of tree with a force-included header "
                         "(sim/native/simseam.h) that puts its random sources and clock behind a seam; Python-level seams "
                         "(time, network, files, threads) are replaced from outside."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")


main()
