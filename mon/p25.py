"""P25: merging transfer functions takes each period from its source."""
import numpy as np

from mon import gen, tfs
from mon.core import Workload

RULE = ("case = 2-5 transfer functions with random tensors, errors and covariances whose periods may interleave, coincide or come in any order, merged with random ranges given as TF, dictionary or list, in place or not; "
        "the merged object's every period and array is compared with the union the harness works out from its own record, sources are compared before and after and edited afterwards")
ASSUME = ["a period selected from several sources is there once for each of them (existing tests pin this)", "ranges are closed", "at least one period is selected", "errors of a source with covariances are what the object itself reports for that source"]
NEED = {"merge": 400, "inplace": 100, "interleaved": 100, "shared_period": 60, "unsorted": 150, "edge": 80, "empty_selection": 30, "open_range": 100, "source_checked": 800, "period": 3000}
NAMES = ("transfer_function", "transfer_function_error", "inverse_signal_power", "residual_covariance")


def arrays(tf):
    d = tf.dataset
    return {n: d[n].transpose("period", "output", "input").data.copy() for n in NAMES}, d.period.data.copy(), [str(x) for x in d.output.data], [str(x) for x in d.input.data]


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def g_range(ctx, rng, period):
    """(min, max) and the mask they select"""
    p = np.sort(period)
    k = rng.random()
    lo = hi = None
    if k < 0.2:
        ctx.event("open_range")
    elif k < 0.4:
        ctx.event("open_range")
        if rng.random() < 0.5:
            lo = float(rng.choice(list(p)))
        else:
            hi = float(rng.choice(list(p)))
    else:
        a, b = sorted([rng.choice(list(p)), rng.choice(list(p))])
        how = rng.random()
        if how < 0.4:
            ctx.event("edge")
            lo, hi = float(a), float(b)
        elif how < 0.9:
            lo, hi = float(a) * rng.choice([0.99, 1.01, 0.5]), float(b) * rng.choice([0.99, 1.01, 2.0])
        else:
            lo, hi = float(p[-1]) * 2, float(p[-1]) * 3
    mask = np.ones(len(period), bool)
    if lo is not None:
        mask &= period >= lo
    if hi is not None:
        mask &= period <= hi
    if not mask.any():
        ctx.event("empty_selection")
    return lo, hi, mask


def merge(ctx, rng, i):
    k = rng.choice([2, 2, 3, 5])
    parts = rng.choice(["zt", "zt", "z", "t"])
    pool = tfs.g_periods(rng, 30, order="up")
    recs, sources = [], []
    mode = rng.choice(["interleaved", "blocks", "shared"])
    for q in range(k):
        r = tfs.g_rec(rng, n=rng.choice([1, 2, 5, 9]), parts=parts if rng.random() < 0.8 else "zt", cov=rng.random() < 0.4)
        n = len(r.period)
        if mode == "interleaved":
            r.period = np.array(rng.sample(list(pool), n)) * (1 + 1e-3 * q)
        elif mode == "blocks":
            r.period = np.array(sorted(rng.sample(list(pool), n))) + 1e6 * q
        else:
            r.period = np.array(rng.sample(list(pool[:12]), min(n, 12)))
        if len(r.period) > 1 and list(r.period) != sorted(r.period):
            ctx.event("unsorted")
        recs.append(r)
        tf = tfs.to_tf(r, station=f"mt{q}")
        tf.survey_metadata.id = f"s{q}"
        sources.append(tf)
    before = [arrays(t) for t in sources]
    metas = [gen.snap(t.survey_metadata) for t in sources]
    lo, hi, mask = g_range(ctx, rng, recs[0].period)
    masks, args = [mask], []
    for r, t in zip(recs[1:], sources[1:]):
        if rng.random() < 0.4:
            args.append(t)
            masks.append(np.ones(len(r.period), bool))
        else:
            a, b, m = g_range(ctx, rng, r.period)
            args.append({"tf": t, "period_min": a, "period_max": b})
            masks.append(m)
    if not any(m.any() for m in masks):
        lo, hi, masks[0] = None, None, np.ones(len(recs[0].period), bool)
    other = args[0] if len(args) == 1 and rng.random() < 0.7 else args
    ranges = [(lo, hi)] + [(x["period_min"], x["period_max"]) if isinstance(x, dict) else None for x in args]
    inplace = rng.random() < 0.4
    kw = {} if lo is None and hi is None and rng.random() < 0.5 else {"period_min": lo, "period_max": hi}
    if inplace:
        ctx.event("inplace")
        got = sources[0].merge(other, inplace=True, **kw)
        ctx.check(got is None or got is sources[0], "inplace_returns", lambda: repr(got)[:80])
        out = sources[0]
    else:
        out = sources[0].merge(other, **kw)
    ctx.event("merge")
    # what should be there
    want = {}
    for q, (r, m) in enumerate(zip(recs, masks)):
        for j in np.flatnonzero(m):
            want.setdefault(float(r.period[j]), []).append((q, int(j)))
    if any(len(v) > 1 for v in want.values()):
        ctx.event("shared_period")
    chosen = [np.sort(r.period[m]) for r, m in zip(recs, masks) if m.any()]
    if any(a[0] < b[-1] and b[0] < a[-1] for x, a in enumerate(chosen) for b in chosen[x + 1 :]):
        ctx.event("interleaved")
    have = arrays(out)
    periods = sorted(p for p, v in want.items() for _ in v)
    ctx.check([float(x) for x in have[1]] == periods, "periods", lambda: f"ranges {ranges} of {[r.period.tolist() for r in recs]}: merged {have[1].tolist()} wants {periods}")
    ctx.check(np.array_equal(np.asarray(out.period), have[1]), "period_property", lambda: f"{out.period} {have[1]}")
    for p in want:
        # every selected row once, whole
        left = list(want[p])
        for x in np.flatnonzero(have[1] == p):
            ctx.event("period")
            hit = [c for c in left if all(same(np.nan_to_num(have[0][n][x]), np.nan_to_num(before[c[0]][0][n][c[1]])) for n in NAMES)]
            if hit:
                left.remove(hit[0])
                continue
            some = {n: [c for c in want[p] if same(np.nan_to_num(have[0][n][x]), np.nan_to_num(before[c[0]][0][n][c[1]]))] for n in NAMES}
            ctx.check(False, "values" if not all(some.values()) else "mixed_sources", lambda: f"period {p} selected from {want[p]}: arrays match {some}; merged {have[0]['transfer_function'][x].tolist()}")
    ctx.check(have[2] == before[0][2] and have[3] == before[0][3], "channels", lambda: f"{have[2]} {have[3]}")
    ctx.check(gen.snap(out.survey_metadata) == metas[0], "metadata", lambda: gen.diff(metas[0], gen.snap(out.survey_metadata)))
    # the tensors the accessors give
    for name, src in (("impedance", "z"), ("tipper", "t")):
        if all(getattr(r, src) is not None for r in recs) and len(have[1]) == len(periods):
            got = getattr(out, name)
            if got is None:
                continue
            for x, p in enumerate(have[1]):
                ok = any(np.allclose(got.data[x], getattr(recs[q], src)[j], rtol=1e-12, atol=0) for q, j in want.get(float(p), []))
                ctx.check(ok, f"accessor:{name}", lambda: f"period {p}: {got.data[x].tolist()}")
    # sources are as they were and stand apart from the merged one
    for q, t in enumerate(sources):
        if t is out:
            continue
        ctx.event("source_checked")
        now = arrays(t)
        ok = all(same(now[0][n], before[q][0][n]) for n in NAMES) and np.array_equal(now[1], before[q][1])
        ctx.check(ok, "source_changed", lambda: f"source {q} periods {before[q][1].tolist()} -> {now[1].tolist()}")
        ctx.check(gen.snap(t.survey_metadata) == metas[q], "source_metadata_changed", lambda: gen.diff(metas[q], gen.snap(t.survey_metadata)))
    for q, t in enumerate(sources):
        if t is not out:
            t.dataset["transfer_function"].values[...] = 77
            t.dataset["residual_covariance"].values[...] = 78
            t.station_metadata.id = "edited"
    now = arrays(out)
    ctx.check(all(same(now[0][n], have[0][n]) for n in NAMES), "shares_arrays", "editing a source changes the merged object")
    ctx.check(gen.snap(out.survey_metadata) == metas[0], "shares_metadata", "editing a source's metadata changes the merged object")
    ctx.case((k, mode, ranges, [r.period.tolist() for r in recs]), {"sources": k, "mode": mode, "ranges": ranges, "inplace": inplace})


def refused(ctx, rng, i):
    """what cannot be merged is refused and changes nothing"""
    r = tfs.g_rec(rng, n=3, parts="zt", cov=False)
    a, b = tfs.to_tf(r), tfs.to_tf(r)
    s = arrays(a)
    bad = rng.choice([3, "mt01", None, {"tf": b}, {"tf": b, "period_min": 1, "period_max": 2, "x": 3}, [b, 4], [{"tf": b, "min": 1}]])
    try:
        a.merge(bad, inplace=True)
        ctx.check(False, "accepted", lambda: repr(bad)[:80])
    except (TypeError, KeyError):
        ctx.event("refused")
    n = arrays(a)
    ctx.check(all(same(n[0][k], s[0][k]) for k in NAMES) and np.array_equal(n[1], s[1]), "refusal_changes", lambda: repr(bad)[:80])
    ctx.case(("refused", i), {"argument": repr(bad)[:60]})


WORKLOADS = [Workload("merge", merge, 600, 9000), Workload("refused", refused, 40, 200)]
