"""python3 tools/mk_design.py > DESIGN.md -- the hand-written parts below plus, per property, what its module declares (RULE, ASSUME, NEED) and which seeded changes it catches"""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
WHY = {}
ORACLE = {}
exec(open(os.path.join(HERE, "tools", "design_notes.py")).read())


def meta(pid):
    out = {}
    for n in ast.parse(open(os.path.join(HERE, "mon", f"{pid.lower()}.py")).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUME", "NEED"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def works(pid):
    src = open(os.path.join(HERE, "mon", f"{pid.lower()}.py")).read()
    w = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Workload":
            kw = {k.arg: k.value for k in n.keywords}
            a = dict(enumerate(n.args))
            a = {k: ast.unparse(v) for k, v in (("quick", kw.get("quick", a.get(2))), ("thorough", kw.get("thorough", a.get(3)))) if v is not None}
            q, t = a.get("quick", "?"), a.get("thorough", "12x")
            w.append(f"{ast.literal_eval(n.args[0]) if isinstance(n.args[0], ast.Constant) else ast.unparse(n.args[0])} ({q} / {t})")
    return ", ".join(w)


kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out = [HEAD, "\n## The properties, one by one\n"]
out.append("Each entry: what a case is and what decides it; what stays outside; the floor of monitor events below which a run is reported as inconclusive instead of passed; the workloads with their number of cases (quick / thorough).\n")
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    m = meta(pid)
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Workload and monitor.* {m['RULE']}.\n")
    if pid in ORACLE:
        out.append(f"*Oracle.* {ORACLE[pid]}\n")
    if pid in WHY:
        out.append(f"*Beyond the tests.* {WHY[pid]}\n")
    if m.get("ASSUME"):
        out.append("*Outside, assumed or left open.* " + "; ".join(m["ASSUME"]) + ".\n")
    out.append("*Floor.* " + ", ".join(f"{k} >= {v}" for k, v in m.get("NEED", {}).items()) + f". *Workloads.* {works(pid)}.\n")
    for f in kf["findings"]:
        if f["property"] == pid:
            out.append(f"*Known finding* `{f['mechanism']}`: {f['what']}.\n")
    fx = [x.split(" repaired: ") for x in kf["fixed"] if f"property={pid} " in x]
    if fx:
        out.append("*Repaired on the way.* " + "; ".join(f"{a.split()[-1]} {b}" for a, b in fx) + ".\n")
print("\n".join(out))
print("\n## Seeded changes\n")
print("Each was written from the property text and the code; all pass the 7447 tests; `check` is the result of the property's own quick check (seeds 1 and 2).\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    print(f"- `{name}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. {CAUGHT.get(name, 'Caught.')}")
print(TAIL)
