"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NA = {}
NOTE = {
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": f"{PY} run.py {i} --tier quick",
            "thorough_cmd": f"{PY} run.py {i} --tier thorough",
            "technique": "symbolic execution of the real Python code with z3 (all paths within bounds), counterexamples replayed on unmodified code",
            "level": "model_checking",
            "level_note": NOTE.get(i, "") + ("Bounded: holds for every value of the symbolic inputs on every path within the bounds listed in the evidence file; floats are idealised "
            "to exact reals; third-party libraries run for real except for the stand-ins listed under assumptions. Trusts z3 and the symbolic number proxies (validated by replaying sampled path models on the unmodified code)."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": f"{PY} -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print(z3.get_version_string())\"",
           "checks": checks, "not_applicable": na,
           "notes": "run.py <id> [--tier quick|thorough] [-v] [--unit NAME] [--replay FILE]; known defects are in known_findings.json"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
