#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when mon/pNN.py exists and is not in HOLD."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLD = set(os.environ.get("HOLD", "").split())
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = f"{V}/mon/{pid.lower()}.py"
    if os.path.exists(f) and pid not in HOLD:
        lit = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUME", "TECH"):
                lit[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(
            property=pid, quick_cmd=f"./run.sh {pid}", thorough_cmd=f"./run.sh {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique="runtime monitoring: " + lit.get("TECH", "seeded hostile workloads on the real library, online monitors with an independent oracle"),
            level="exploration",
            level_note="Every execution explored is judged by the monitors; unexplored inputs and histories are not. Assumes: " + "; ".join(lit.get("ASSUME", []))))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import mt_metadata, numpy, pandas, obspy'",
         hooks=dict(guard="none", enable="no hooks: the checks import the unmodified library from /repo and observe it from outside", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="run.sh PNN [--tier quick|thorough] [--replay FILE]; exit 2 harness error, 3 inconclusive. See DESIGN.md.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "held")
