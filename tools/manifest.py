"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

PURE = "a pure function of its input: no schedule, clock, I/O, randomness or failure for a simulator to control (property-based testing or proof would be the technique)"


def main():
    props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"), encoding="utf-8")]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        path = os.path.join(here, "props", pid + ".py")
        if os.path.exists(path):
            ns = {}
            src = open(path, encoding="utf-8").read()
            import ast
            for node in ast.parse(src).body:
                if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], "id", "") in (
                        "LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
            cmd = "/opt/venv/bin/python /verif/check.py %s --tier " % pid
            checks.append({"property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": ns["TECHNIQUE"], "level": ns["LEVEL"], "level_note": ns["LEVEL_NOTE"]})
        elif pid.startswith("N"):
            na.append({"property": pid, "reason": PURE})
        else:
            na.append({"property": pid, "reason": "no check has been built for it yet"})
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python /verif/check.py --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all seams are reached from outside (threading and time are replaced before spey "
                    "is imported, sys.monitoring gives the preemption points). The checks import /repo/src directly, "
                    "so nothing has to be built."}
    with open(os.path.join(here, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
