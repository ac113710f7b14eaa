"""Runtime-monitoring core: seeded workloads, event counters, mechanism-keyed verdicts.

A property module (mon/pNN.py) declares

    RULE   text: how cases are made and what makes one non-trivial
    ASSUME list of assumptions
    NEED   {event name: minimum count}: the deciding monitors; fewer -> inconclusive
    WORKLOADS = [Workload(name, fn, quick=N, thorough=M), ...]

fn(ctx, rng, i) drives the real library and reports to ctx (events, cases,
violations).  Case i of workload w under seed s is a pure function of (s, w, i),
which is what a replay file records.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))


class Workload:
    def __init__(self, name, fn, quick, thorough=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


class Skip(Exception):
    """the generated case is outside the property's domain"""


class Violation(Exception):
    """raised by ctx.require: the rest of the case makes no sense"""


class Harness(Exception):
    """the harness itself is wrong"""


def sig(obj) -> str:
    return hashlib.blake2b(repr(obj).encode("utf8", "backslashreplace"), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.events = Counter()
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.skipped = 0
        self.viol = {}  # mechanism -> first record
        self.vcount = Counter()
        self.w = self.i = None
        self.errors = []
        self.scratch = None

    # -- observations ----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def case(self, signature, sample=None, trivial=False):
        """one evaluated case; `signature` identifies it, trivial ones do not count"""
        self.evaluations += 1
        if not trivial:
            self.sigs.add(sig(signature))
        if sample is not None and len(self.samples) < 6 and (
            not self.samples or self.samples[-1]["workload"] != self.w or len(self.samples) < 3
        ):
            self.samples.append({"workload": self.w, "index": self.i, "case": _short(sample)})

    # -- verdicts --------------------------------------------------------
    def violate(self, mech, detail):
        self.vcount[mech] += 1
        if mech not in self.viol:
            self.viol[mech] = {
                "property": self.pid, "mechanism": mech, "workload": self.w,
                "index": self.i, "seed": self.seed, "tier": self.tier,
                "detail": _short(detail, 4000),
            }

    def check(self, ok, mech, detail=""):
        self.event("monitor")
        if not ok:
            self.violate(mech, detail() if callable(detail) else detail)
        return bool(ok)

    def require(self, ok, mech, detail=""):
        if not self.check(ok, mech, detail):
            raise Violation(mech)

    def attempt(self, fn, *a, **k):
        """(value, None) or (None, exception): for operations that may legally raise"""
        try:
            return fn(*a, **k), None
        except Exception as e:  # noqa
            return None, e


def _short(x, n=1500):
    if isinstance(x, (dict, list, tuple)):
        try:
            s = json.dumps(x, default=repr, ensure_ascii=True)
            if len(s) <= n:
                return json.loads(s)
        except Exception:
            s = repr(x)
    else:
        s = x if isinstance(x, str) else repr(x)
        s = s.encode("utf8", "backslashreplace").decode("utf8")
    return s if len(s) <= n else s[:n] + "..."


def in_library(tb) -> str | None:
    """innermost frame of mt_metadata in the traceback, or None"""
    hit = None
    root = os.path.join(REPO, "mt_metadata") + os.sep
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(root):
            hit = f"{os.path.relpath(fs.filename, REPO)}:{fs.name}"
    return hit


def case_rng(seed, wname, i):
    return random.Random(f"{seed}/{wname}/{i}")


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang(f"case still running after {CASE_LIMIT} s")


CASE_LIMIT = 150  # cases take milliseconds


def run_case(ctx, w, i):
    ctx.w, ctx.i = w.name, i
    rng = case_rng(ctx.seed, w.name, i)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        w.fn(ctx, rng, i)
    except Skip:
        ctx.skipped += 1
    except Violation:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except Harness as e:
        ctx.errors.append(f"{w.name}[{i}]: {e}")
    except Exception as e:
        where = in_library(e.__traceback__)
        txt = "".join(traceback.format_exception(e))[-3000:]
        if where and not getattr(e, "_harness", False):
            # a legal operation of the workload raised inside the library
            ctx.violate(f"raised:{type(e).__name__}@{where}", txt)
        else:
            ctx.errors.append(f"{w.name}[{i}]: {txt}")
    finally:
        signal.alarm(0)


def run_shard(mod, pid, tier, seed, shard, nshards, budget, only=None):
    ctx = Ctx(pid, tier, seed)
    t0 = time.monotonic()
    stopped = 0
    per = {}
    setup = getattr(mod, "SETUP", None)
    if setup:
        setup(ctx)
    loads = [w for w in mod.WORKLOADS if only is None or w.name == only]
    # interleave workloads so a time cap thins all of them evenly
    todo = []
    for w in loads:
        n = w.quick if tier == "quick" else w.thorough
        idx = range(shard, n, nshards)
        per[w.name] = 0
        todo += [((k + 0.5) / max(1, len(idx)), w, i) for k, i in enumerate(idx)]
    todo.sort(key=lambda t: t[0])
    for _, w, i in todo:
        if time.monotonic() - t0 > budget:
            stopped += 1
            continue
        run_case(ctx, w, i)
        per[w.name] += 1
    return {
        "events": dict(ctx.events), "evaluations": ctx.evaluations, "sigs": sorted(ctx.sigs),
        "samples": ctx.samples, "skipped": ctx.skipped, "viol": ctx.viol,
        "vcount": dict(ctx.vcount), "errors": ctx.errors[:20], "nerrors": len(ctx.errors),
        "stopped": stopped, "per": per, "wall": time.monotonic() - t0,
    }
