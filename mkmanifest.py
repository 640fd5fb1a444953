"""Writes MANIFEST.json from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "vm", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    m = importlib.import_module("vm.checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
        "technique": getattr(m, "TECHNIQUE", "runtime monitoring: lock-step reference model over generated programs"),
        "level": m.LEVEL,
        "level_note": getattr(m, "LEVEL_NOTE", "Holds on the generated executions only. Trusts the reference model in vm/, SQLite and the "
                              "Python runtime. " + " ".join("Domain: " + a + "." for a in getattr(m, "ASSUMPTIONS", []))),
    })
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import mandala.imports\"",
       "checks": checks, "not_applicable": na,
       "notes": "Pure Python: checks import /repo's working tree directly; nothing is built and no hooks are committed in /repo "
                "(instrumentation is installed at run time by the checks)."}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
