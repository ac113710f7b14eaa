"""python -m mon.run PNN [--replay FILE] [--shard k n OUT]

Parent: starts shard processes, merges what they observed, decides, writes
evidence.  Exit 0 held on what was observed, 1 with a VIOLATION line, 2 harness
error, 3 inconclusive (a deciding monitor was hardly reached).
"""
from __future__ import annotations

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

from . import core

QUICK_BUDGET = float(os.environ.get("VERIF_BUDGET", 0)) or 330.0
THOROUGH_BUDGET = float(os.environ.get("VERIF_BUDGET", 0)) or 780.0


def env_for(scratch):
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        LOGURU_AUTOINIT="False", MT_METADATA_CACHE_DIR=os.path.join(scratch, "cache"),
        HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
        VERIF_SCRATCH=scratch, VERIF_REPO=core.REPO,
        PYTHONPATH=core.REPO + os.pathsep + core.VERIF,
    )
    e.pop("MT_METADATA_DISABLE_DISK_CACHE", None)
    for d in ("cache", "home", "tmp"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return e


def known():
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        return json.load(f)


def load_library():
    """import the library from the tree under test, silence its logging"""
    import warnings

    warnings.simplefilter("ignore")
    import mt_metadata

    got = os.path.dirname(os.path.dirname(os.path.abspath(mt_metadata.__file__)))
    if os.path.realpath(got) != os.path.realpath(core.REPO):
        raise core.Harness(f"mt_metadata imported from {got}, not {core.REPO}")
    from loguru import logger
    from . import gen

    gen.all_modules()
    logger.remove()
    logger.disable("mt_metadata")


def child(pid, tier, seed, k, n, out, only=None):
    load_library()
    os.chdir(os.environ["VERIF_SCRATCH"])
    mod = importlib.import_module(f"mon.{pid.lower()}")
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    res = core.run_shard(mod, pid, tier, seed, k, n, budget, only)
    with open(out, "w") as f:
        json.dump(res, f)


def replay(pid, path):
    with open(path) as f:
        rec = json.load(f)
    load_library()
    os.chdir(os.environ["VERIF_SCRATCH"])
    mod = importlib.import_module(f"mon.{pid.lower()}")
    ctx = core.Ctx(pid, rec["tier"], rec["seed"])
    if getattr(mod, "SETUP", None):
        mod.SETUP(ctx)
    w = next(w for w in mod.WORKLOADS if w.name == rec["workload"])
    core.run_case(ctx, w, rec["index"])
    for m, v in ctx.viol.items():
        print(f"reproduced {m}: {v['detail']}")
    for e in ctx.errors:
        print("harness error:", e)
    return 1 if ctx.viol else 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--shard" in argv:
        j = argv.index("--shard")
        child(pid, tier, seed, int(argv[j + 1]), int(argv[j + 2]), argv[j + 3],
              os.environ.get("VERIF_ONLY") or None)
        return 0
    scratch = tempfile.mkdtemp(prefix=f"mon_{pid}_")
    try:
        if "--replay" in argv:
            path = os.path.abspath(argv[argv.index("--replay") + 1])
            if os.environ.get("VERIF_SCRATCH"):
                return replay(pid, path)
            return subprocess.call(
                [sys.executable, "-m", "mon.run", pid, "--replay", path],
                env=env_for(scratch), cwd=core.VERIF)
        return parent(pid, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def parent(pid, tier, seed, scratch):
    t0 = time.monotonic()
    n = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 4)
    procs = []
    for k in range(n):
        sdir = os.path.join(scratch, f"s{k}")
        os.makedirs(sdir)
        out = os.path.join(scratch, f"out{k}.json")
        log = open(os.path.join(scratch, f"log{k}.txt"), "w")
        procs.append((k, out, log.name, subprocess.Popen(
            [sys.executable, "-m", "mon.run", pid, "--tier", tier, "--shard", str(k), str(n), out],
            env=dict(env_for(sdir), VERIF_SEED=str(seed)), cwd=core.VERIF,
            stdout=log, stderr=subprocess.STDOUT)))
    limit = 840
    bad = []
    for k, out, log, p in procs:
        try:
            rc = p.wait(timeout=max(1.0, limit - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "watchdog"
        if rc != 0:
            with open(log, errors="replace") as f:
                bad.append(f"shard {k}: rc={rc}\n{f.read()[-2500:]}")
    events, vcount, per = Counter(), Counter(), Counter()
    sigs, viol, samples, errors = set(), {}, [], []
    ev = skipped = stopped = nerr = 0
    for k, out, log, p in procs:
        if not os.path.exists(out):
            continue
        with open(out) as f:
            r = json.load(f)
        events.update(r["events"]); vcount.update(r["vcount"]); per.update(r["per"])
        sigs.update(r["sigs"]); ev += r["evaluations"]; skipped += r["skipped"]
        stopped += r["stopped"]; nerr += r["nerrors"]; errors += r["errors"]
        for s in r["samples"]:
            if sum(1 for t in samples if t["workload"] == s["workload"]) < 2:
                samples.append(s)
        for m, v in r["viol"].items():
            if m not in viol or (v["workload"], v["index"]) < (viol[m]["workload"], viol[m]["index"]):
                viol[m] = v
    mod_meta = load_meta(pid)
    listed = {}
    for f in known().get("findings", []):
        if f["property"] == pid:
            listed[f["mechanism"]] = f
    new = {m: v for m, v in viol.items() if m not in listed}
    # a slow machine that reaches the time cap is asked for what it ran
    part = 0.5 * ev / (ev + stopped) if stopped else 1.0
    short = {k: (events.get(k, 0), v) for k, v in mod_meta["need"].items()
             if events.get(k, 0) < max(1, v * part)}
    evdir = os.path.join(core.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(f"{pid}.replay."):
            os.unlink(os.path.join(evdir, f))
    for m in sorted(listed):
        if m in viol:
            print(f"KNOWN-FINDING: property={pid} {listed[m]['what']} [{m}; {vcount[m]} observations]")
    for m in sorted(new):
        rp = os.path.join(evdir, f"{pid}.replay.{core.sig(m)}.json")
        with open(rp, "w") as f:
            json.dump(new[m], f, indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        d = new[m]["detail"]
        print(f"  mechanism: {m} (seen {vcount[m]}x; workload {new[m]['workload']}[{new[m]['index']}])")
        print("  " + (d if isinstance(d, str) else json.dumps(d))[:1800].replace("\n", "\n  "))
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(sigs), "rule": mod_meta["rule"],
            "samples": samples[:12] or [{"none": True}],
            "monitor_events": dict(sorted(events.items())),
            "cases_per_workload": dict(per), "outside_domain": skipped,
            "not_run_time_cap": stopped, "processes": n,
            "known_findings_observed": {m: vcount[m] for m in listed if m in viol},
        },
        "assumptions": mod_meta["assume"],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(evid, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {ev} evaluations, {len(sigs)} distinct, "
          f"{sum(events.values())} monitor events, {skipped} outside domain, {stopped} capped, "
          f"{len(new)} violations, {evid['wall_s']} s")
    if new:
        return 1
    if bad or nerr:
        print("HARNESS ERROR", nerr)
        for b in bad[:2]:
            print(b)
        for e in errors[:4]:
            print(e)
        return 2
    if short or not sigs:
        print("INCONCLUSIVE: deciding monitors hardly reached:", short)
        return 3
    return 0


def load_meta(pid):
    """RULE/ASSUME/NEED without importing the library: they are plain literals"""
    import ast

    src = os.path.join(core.VERIF, "mon", f"{pid.lower()}.py")
    with open(src) as f:
        tree = ast.parse(f.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUME", "NEED"):
            out[node.targets[0].id.lower()] = ast.literal_eval(node.value)
    out.setdefault("assume", [])
    out.setdefault("need", {})
    return out


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
