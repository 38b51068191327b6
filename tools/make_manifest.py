"""Writes /verif/MANIFEST.json from the check modules, that exist"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
TECH = json.load(open(os.path.join(HERE, "techniques.json")))
checks = []
missing = []
for i in ids:
    if os.path.exists(os.path.join(VERIF, "checks", i + ".py")):
        t = TECH.get(i, {})
        checks.append({"property": i,
                       "quick_cmd": f"./check {i} quick",
                       "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": t.get("technique", "property-based testing (Hypothesis) against an independent reference model"),
                       "level": "exploration",
                       "level_note": t.get("note", "Generated-input search: no counterexample among the cases counted in the evidence file; nothing is proved. Trusted: the oracle in checks/%s.py, numpy/scipy reference routines." % i)})
    else:
        missing.append({"property": i, "reason": "the check for this property has not been built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -c 'import hypothesis, numpy, scipy'",
           "checks": checks, "not_applicable": missing,
           "notes": "All checks run through ./check, see DESIGN.md"},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
