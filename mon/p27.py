"""P27: a processing configuration stays internally consistent."""
import math

import numpy as np
import pandas as pd

from mon.core import Workload

RULE = ("case = (levels) random bands, per-level decimation factors, window lengths and sample rate assigned to a configuration, assigned again in part, edited and exported; (dataset) a random table of stations, runs, time spans, "
        "channels and scale factors read into a configuration, written back, exported; (names) several live configurations whose nomenclature and channel lists are changed at random against shadow models. "
        "Expected sample rates, harmonics, channel labels and rows are computed by the harness.")
ASSUME = ["levels are numbered from 0 without gaps and every band holds at least one harmonic", "rows of one run name the same channels, scale factors and rate", "a station has one file and is local or remote, not both; file paths are given (no path and '.' are the same)",
          "labels follow a nomenclature keyword (own labels: known finding)"]
NEED = {"config": 200, "level": 600, "band": 1500, "reassigned": 60, "exported": 300, "row": 2500, "dataset": 200, "nomenclature": 2500, "validated": 150}
MAPS = {"default": ("ex", "ey", "hx", "hy", "hz"), "lemi12": ("e1", "e2", "bx", "by", "bz"), "lemi34": ("e3", "e4", "bx", "by", "bz"),
        "phoenix123": ("e1", "e2", "h1", "h2", "h3"), "musgraves": ("ex", "ey", "bx", "by", "bz")}


def close(a, b, rel=1e-12):
    return a == b or (a is not None and b is not None and abs(a - b) <= rel * max(abs(a), abs(b)))


def g_levels(rng, n, rate, start_total=1):
    """edges, factors, windows of n levels; and what has to come out"""
    factors, windows, edges, want = {}, {}, {}, {}
    one = rng.random() < 0.4
    w0 = rng.choice([32, 64, 128, 256])
    total = 1
    for k in range(n):
        factors[k] = 1 if k == 0 else rng.choice([2, 3, 4, 4, 5, 8, 10])
        if k:
            total *= factors[k]
        windows[k] = w0 if one else rng.choice([32, 64, 128, 256])
        sr = rate / total
        f = np.arange(windows[k] // 2) * (sr / windows[k])
        cuts = sorted(rng.sample(range(1, len(f) - 1), rng.choice([2, 3, 5])))
        rows = []
        for a, b in zip(cuts[:-1], cuts[1:]):
            lo = float(f[a] - rng.uniform(0.1, 0.8) * (f[1] - f[0]))
            hi = float(f[b] - rng.uniform(0.1, 0.8) * (f[1] - f[0])) if rng.random() < 0.7 else float(f[b - 1] + rng.uniform(0.05, 0.15) * (f[1] - f[0]))
            rows.append((lo, hi, a, b - 1))
        # neighbours share the edge
        edges[k] = [(r[0], r[1]) for r in rows]
        want[k] = {"factor": factors[k], "rate": sr, "window": windows[k], "rows": rows}
    return edges, factors, (w0 if one else windows), want


def judge_levels(ctx, p, want, where):
    seen = sorted(d.decimation.level for d in p.decimations)
    ctx.check(seen == sorted(want), f"{where}:levels", lambda: f"levels {seen} want {sorted(want)}")
    ctx.check(p.num_decimation_levels == len(want), f"{where}:num_levels", lambda: f"{p.num_decimation_levels}")
    ctx.check(sorted(p.decimations_dict) == sorted(want), f"{where}:dict", lambda: f"{sorted(p.decimations_dict)}")
    be = p.band_edges_dict
    ctx.check(sorted(be) == sorted(want), f"{where}:edges_keys", lambda: f"{sorted(be)}")
    for k, w in want.items():
        ctx.event("level")
        d = p.get_decimation_level(k)
        s = d.decimation
        ctx.check(s.level == k and s.factor == w["factor"], f"{where}:factor", lambda: f"level {s.level} factor {s.factor} want {k} {w['factor']}")
        ctx.check(close(s.sample_rate, w["rate"]), f"{where}:rate", lambda: f"level {k} rate {s.sample_rate} want {w['rate']}")
        if w["window"]:
            ctx.check(d.stft.window.num_samples == w["window"], f"{where}:window", lambda: f"level {k} window {d.stft.window.num_samples} want {w['window']}")
        rows = w["rows"]
        got = [(b.frequency_min, b.frequency_max, b.index_min, b.index_max) for b in d.bands]
        ctx.event("band", len(rows))
        ctx.check(len(got) == len(rows), f"{where}:band_count", lambda: f"level {k}: {len(got)} want {len(rows)}")
        for g in rows:
            ctx.check(any(close(h[0], g[0]) and close(h[1], g[1]) and h[2:] == g[2:] for h in got), f"{where}:band", lambda: f"level {k} wants {g} in {got}")
        ctx.check(all(b.decimation_level == k for b in d.bands), f"{where}:band_level", lambda: f"level {k}: {[b.decimation_level for b in d.bands]}")
        if k in be:
            e = [tuple(map(float, x)) for x in be[k]]
            ctx.check(len(e) == len(rows) and all(close(x[0], g[0]) and close(x[1], g[1]) for x, g in zip(e, sorted(rows))), f"{where}:edges", lambda: f"level {k}: {e} want {rows}")


def reload(ctx, p, rng):
    from mt_metadata.processing.aurora.processing import Processing
    q = Processing()
    ctx.event("exported")
    how = rng.choice(["dict", "json", "nested"])
    if how == "dict":
        q.from_dict(p.to_dict())
    elif how == "nested":
        q.from_json(p.to_json(nested=True))
    else:
        q.from_json(p.to_json())
    same, a, b = q == p, p.to_dict(single=True), q.to_dict(single=True)
    ctx.check(same and a == b, "reload:equal", lambda: f"{how}: {same} " + "; ".join(f"{k}: {str(a.get(k))[:300]} | {str(b.get(k))[:300]}" for k in a if a.get(k) != b.get(k)))
    return q


def levels(ctx, rng, i):
    """levels from band edges, decimation factors and windows"""
    from mt_metadata.processing.aurora.processing import Processing
    p = Processing(id=rng.choice(["a", "mt01", "x_y"]))
    p.stations.local.mth5_path = "/data/a.h5"
    rate = rng.choice([1.0, 8.0, 100.0, 4096.0, 0.5, 1, 16])
    n = rng.randint(1, 6)
    edges, factors, windows, want = g_levels(rng, n, rate)
    ctx.event("config")
    keep = {k: list(v) for k, v in edges.items()}
    order = list(edges)
    rng.shuffle(order)
    edges = {k: edges[k] for k in order}
    p.assign_bands(edges, rate, dict(factors), windows if isinstance(windows, int) else dict(windows))
    ctx.check({k: list(v) for k, v in edges.items()} == keep, "levels:input_changed", lambda: f"{edges} {keep}")
    judge_levels(ctx, p, want, "levels")
    if rng.random() < 0.5:
        judge_levels(ctx, reload(ctx, p, rng), want, "reload")
    if rng.random() < 0.4:
        ctx.event("reassigned")
        m = n if rng.random() < 0.5 else rng.randint(1, 6)
        edges, factors, windows, want2 = g_levels(rng, m, rate)
        p.assign_bands(edges, rate, factors, windows)
        want = {**want, **want2}
        judge_levels(ctx, p, want, "again")
        reload(ctx, p, rng)
    if rng.random() < 0.3:
        sr = rng.choice([1.0, 32.0, 0.25])
        p.assign_decimation_level_data_emtf(sr)
        for k in want:
            want[k] = dict(want[k], factor=1 if k == 0 else 4, rate=sr / 4.0**k)
        judge_levels(ctx, p, want, "emtf")
    if rng.random() < 0.3:
        q = reload(ctx, p, rng)
        k = rng.choice(sorted(want))
        q.get_decimation_level(k).decimation.factor = 77
        q.get_decimation_level(k).bands.pop()
        judge_levels(ctx, p, want, "independent")
    ctx.case((n, rate, tuple(factors.values())), {"levels": n, "rate": rate, "factors": list(factors.values())})


def g_table(rng):
    """rows of a data set; the harness's truth"""
    stations = rng.sample(["mt01", "mt02", "rr1", "r02", "s5"], rng.choice([1, 1, 2, 3]))
    rows, truth = [], {}
    for si, st in enumerate(stations):
        path = f"/data/{st}{rng.randint(0, 9)}.h5"
        truth[st] = {"remote": si > 0, "path": path, "runs": {}}
        for r in range(rng.choice([1, 1, 2, 4])):
            rid = rng.choice(["001", "a", "sr4_", "b"]) + str(r)
            ins = rng.sample(["hx", "hy", "bx", "by"], rng.choice([2, 2, 1]))
            outs = rng.sample(["ex", "ey", "hz", "e1"], rng.choice([1, 2, 3]))
            scale = {c: float(rng.choice([1.0, 1.0, 0.5, -1.0, 10.0, 0.0])) for c in ins + outs}
            sr = rng.choice([1.0, 8.0, 0.5, 4096.0])
            t = pd.Timestamp("2015-01-01T00:00:00", tz="UTC") + pd.Timedelta(seconds=rng.randint(0, 10**8))
            spans = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = t + pd.Timedelta(seconds=rng.randint(0, 5000), milliseconds=rng.choice([0, 0, 0, 125, 500]))
                b = a + pd.Timedelta(seconds=rng.randint(1, 90000), microseconds=rng.choice([0, 0, 0, 1, 250000]))
                spans.append((a, b))
                t = b
            truth[st]["runs"][rid] = {"in": ins, "out": outs, "scale": scale, "rate": sr, "spans": spans}
            for a, b in spans:
                rows.append({"station": st, "run": rid, "start": a, "end": b, "mth5_path": path, "sample_rate": sr, "input_channels": list(ins), "output_channels": list(outs), "remote": si > 0, "channel_scale_factors": dict(scale)})
    return rows, truth


def key(row):
    import pathlib
    return (row["station"], row["run"], pd.Timestamp(row["start"]).tz_convert("UTC"), pd.Timestamp(row["end"]).tz_convert("UTC"), str(pathlib.Path(row["mth5_path"])), float(row["sample_rate"]), tuple(row["input_channels"]), tuple(row["output_channels"]),
            bool(row["remote"]), tuple(sorted(row["channel_scale_factors"].items())))


def judge_table(ctx, stations, rows, truth, where):
    df = stations.to_dataset_dataframe()
    got = sorted(key(r) for r in df.to_dict("records"))
    want = sorted(key(r) for r in rows)
    ctx.event("row", len(want))
    ctx.check(len(got) == len(want), f"{where}:row_count", lambda: f"{len(got)} rows want {len(want)}")
    for g, w in zip(got, want):
        if g != w:
            names = ["station", "run", "start", "end", "path", "rate", "in", "out", "remote", "scale"]
            bad = [n for n, x, y in zip(names, g, w) if x != y]
            ctx.check(False, f"{where}:row:{bad[0]}", f"{g} want {w}")
            break
    local = [s for s in truth if not truth[s]["remote"]][0]
    ctx.check(stations.local.id == local and not stations.local.remote, f"{where}:local", lambda: f"{stations.local.id} want {local}")
    rem = [r.id for r in stations.remote]
    ctx.check(sorted(rem) == sorted(s for s in truth if truth[s]["remote"]) and all(r.remote for r in stations.remote), f"{where}:remote", lambda: f"{rem} in {list(truth)}")
    ctx.check(sorted(stations.remote_dict) == sorted(rem), f"{where}:remote_dict", lambda: f"{sorted(stations.remote_dict)}")
    for st, t in truth.items():
        try:
            s = stations.get_station(st)
        except KeyError:
            ctx.check(False, f"{where}:get_station", f"no {st}")
            continue
        ctx.check(s.id == st and s.run_list == [r.id for r in s.runs] and sorted(s.run_list) == sorted(t["runs"]), f"{where}:run_list", lambda: f"{s.run_list} want {sorted(t['runs'])}")
        for rid, r in t["runs"].items():
            run = s.get_run(rid)
            if run is None:
                ctx.check(False, f"{where}:get_run", f"no {rid}")
                continue
            ctx.check(run.input_channel_names == r["in"] and run.output_channel_names == r["out"], f"{where}:channels", lambda: f"{run.input_channel_names} {run.output_channel_names} want {r['in']} {r['out']}")
            ctx.check(run.channel_scale_factors == r["scale"], f"{where}:scale", lambda: f"{run.channel_scale_factors} want {r['scale']}")
            ctx.check(len(run.time_periods) == len(r["spans"]), f"{where}:spans", lambda: f"{len(run.time_periods)} want {len(r['spans'])}")
        ctx.check(s.get_run("no such run") is None, f"{where}:no_run", lambda: "a run that is not there is found")


class Kernel:
    def __init__(self, df):
        self.df = df


def dataset(ctx, rng, i):
    """stations and runs from a table and back"""
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.aurora.stations import Stations
    p = Processing(id="x")
    rows, truth = g_table(rng)
    ctx.event("dataset")
    shuffled = list(rows)
    rng.shuffle(shuffled)
    df = pd.DataFrame(shuffled)
    before = df.copy(deep=True).to_dict("records")
    for k in range(rng.choice([0, 1, 3])):
        d = DecimationLevel()
        d.decimation.level = k
        d.estimator.engine = rng.choice(["RME_RR", "RME", "RME_RR"])
        p.add_decimation_level(d)
    engines = [str(d.estimator.engine.value if hasattr(d.estimator.engine, "value") else d.estimator.engine) for d in p.decimations]
    has_remote = any(t["remote"] for t in truth.values())
    if rng.random() < 0.5:
        # the local station is taken from the data set when it is not yet known
        ctx.event("validated")
        p.validate_processing(Kernel(df))
        want = [("RME" if e == "RME_RR" and not has_remote else e) for e in engines]
        got = [str(d.estimator.engine.value if hasattr(d.estimator.engine, "value") else d.estimator.engine) for d in p.decimations]
        ctx.check(got == want, "validate:engine", lambda: f"{got} want {want}, remote {has_remote}")
    else:
        p.stations.from_dataset_dataframe(df)
    ctx.check(df.to_dict("records") == before, "dataset:frame_changed", lambda: "the table was changed")
    judge_table(ctx, p.stations, rows, truth, "dataset")
    k = rng.random()
    if k < 0.5:
        judge_table(ctx, reload(ctx, p, rng).stations, rows, truth, "reload")
    if rng.random() < 0.4:
        q = Stations()
        q.from_dataset_dataframe(p.stations.to_dataset_dataframe())
        judge_table(ctx, q, rows, truth, "there_and_back")
    if rng.random() < 0.4:
        # a configuration is read from another (or the same) data set
        rows2, truth2 = (rows, truth) if rng.random() < 0.4 else g_table(rng)
        p.stations.from_dataset_dataframe(pd.DataFrame(rows2))
        judge_table(ctx, p.stations, rows2, truth2, "again")
        rows, truth = rows2, truth2
    if rng.random() < 0.5 and not any(t["remote"] for t in truth.values()):
        ctx.event("validated")
        p.validate_processing(Kernel(pd.DataFrame(rows)))
        ctx.check(all(str(getattr(d.estimator.engine, "value", d.estimator.engine)) != "RME_RR" for d in p.decimations), "validate:single", lambda: "remote reference engine without remote")
    if rng.random() < 0.3:
        # what another object reads does not move this one
        q = reload(ctx, p, rng)
        q.stations.local.id = "zz"
        q.stations.local.runs[0].input_channels[0].scale_factor = 99.0
        q.stations.local.runs[0].time_periods[0].start = "1999-01-01"
        judge_table(ctx, p.stations, rows, truth, "independent")
    ctx.case((len(rows), len(truth)), {"rows": len(rows), "stations": len(truth)})


def judge_names(ctx, p, m, where):
    n = p.channel_nomenclature
    ex, ey, hx, hy, hz = MAPS[m["kw"]]
    ctx.event("nomenclature")
    ctx.check(n.unpack() == (ex, ey, hx, hy, hz), f"{where}:labels", lambda: f"{n.unpack()} want {MAPS[m['kw']]}")
    ctx.check((n.ex_ey, n.hx_hy, n.hx_hy_hz, n.ex_ey_hz) == ([ex, ey], [hx, hy], [hx, hy, hz], [ex, ey, hz]), f"{where}:groups", lambda: f"{n.ex_ey} {n.hx_hy_hz}")
    ctx.check((n.default_input_channels, n.default_output_channels, n.default_reference_channels) == ([hx, hy], [ex, ey, hz], [hx, hy]), f"{where}:defaults", lambda: f"{n.default_input_channels}")
    ctx.check(sorted(n.channels) == sorted(MAPS[m["kw"]]), f"{where}:channels", lambda: f"{n.channels}")
    ctx.check(n.get_channel_map() == dict(zip(["ex", "ey", "hx", "hy", "hz"], MAPS[m["kw"]])), f"{where}:map", lambda: f"{n.get_channel_map()}")
    for d, w in zip(p.decimations, m["levels"]):
        got = [list(d.input_channels), list(d.output_channels), list(d.reference_channels)]
        ctx.check(got == w, f"{where}:lists", lambda: f"{got} want {w}")
        ctx.check(list(d.local_channels) == w[0] + w[1], f"{where}:local_channels", lambda: f"{d.local_channels}")


def names(ctx, rng, i):
    """channel nomenclature and channel lists of several live configurations"""
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.processing import Processing
    objs = []
    for _ in range(2):
        p = Processing(id="n")
        p.stations.local.mth5_path = "/data/a.h5"
        m = {"kw": "default", "levels": []}
        objs.append([p, m])
        for k in range(rng.choice([1, 2, 3])):
            d = DecimationLevel()
            d.decimation.level = k
            p.add_decimation_level(d)
            m["levels"].append([list(d.input_channels), list(d.output_channels), list(d.reference_channels)])
    for step in range(rng.randint(3, 9)):
        j = rng.randrange(2)
        p, m = objs[j]
        ex, ey, hx, hy, hz = MAPS[m["kw"]]
        k = rng.random()
        if k < 0.35:
            kw = rng.choice(list(MAPS))
            p.channel_nomenclature.keyword = kw
            m["kw"] = kw
        elif k < 0.5:
            p.set_default_input_output_channels()
            for w in m["levels"]:
                w[0], w[1] = [hx, hy], [ex, ey, hz]
        elif k < 0.6:
            p.set_default_reference_channels()
            for w in m["levels"]:
                w[2] = [hx, hy]
        elif k < 0.68:
            p.drop_reference_channels()
            for w in m["levels"]:
                w[2] = []
        elif k < 0.82:
            c = rng.sample(["hx", "hy", "bx", "e1", "ey"], 2)
            c0 = list(c)
            which = rng.randrange(3)
            [p.set_input_channels, p.set_output_channels, p.set_reference_channels][which](c)
            for w in m["levels"]:
                w[which] = list(c0)
            if rng.random() < 0.5:
                c.append("zz")  # the caller goes on with its own list
        elif k < 0.92:
            # one level's own list
            x = rng.randrange(len(m["levels"]))
            p.decimations[x].input_channels.append("h9")
            m["levels"][x][0] = m["levels"][x][0] + ["h9"]
        else:
            objs[j][0] = reload(ctx, p, rng)
            if rng.random() < 0.5:
                p.channel_nomenclature.keyword = rng.choice(list(MAPS))  # the old one goes its own way
        if rng.random() < 0.2:
            p.channel_nomenclature.get_channel_map()["ex"] = "zz"
        for p, m in objs:
            judge_names(ctx, p, m, "names")
    ctx.case((i,), {"last": objs[0][1]})


def own_labels(ctx, rng, i):
    """labels set one by one survive export (known finding when they do not)"""
    from mt_metadata.processing.aurora.channel_nomenclature import ChannelNomenclature
    n = ChannelNomenclature()
    n.keyword = rng.choice(list(MAPS))
    n.ex = "e1" if n.ex.value != "e1" else "e4"
    m = ChannelNomenclature()
    m.from_dict(n.to_dict())
    ctx.event("own_label")
    ctx.check(m.unpack() == n.unpack(), "own_labels", lambda: f"{n.keyword.value}: {n.unpack()} comes back as {m.unpack()}")
    ctx.case((i,), {})


WORKLOADS = [Workload("levels", levels, 300, 4000), Workload("dataset", dataset, 300, 4000), Workload("names", names, 300, 4000), Workload("own_labels", own_labels, 8, 16)]
