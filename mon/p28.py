"""P28: window and Fourier-coefficient metadata describe what was computed."""
import math

import numpy as np
import pandas as pd

from mon.core import Workload

RULE = ("case = (window) one window object through a sequence of parameter changes, asked after every step; (creator) levels made from a rate and factors; (archive) a random processing level, its archived form, and every single relevant "
        "parameter, channel or harmonic of the archive changed in turn; (spans) channels and levels with full, half and no time spans added, updated and removed in any order. The harness computes tapers, steps, harmonics, "
        "window counts, verdicts and spans by itself.")
ASSUME = ["harmonics of an odd window are the first n//2 (existing tests pin it)", "add_channel of a new channel does not enter channels_estimated (existing tests pin it)", "with no minimum number of windows the shortest usable series is left open",
          "1980-01-01 is 'not set'; spans never shrink", "'slepian' is not offered by the installed scipy"]
NEED = {"window_state": 3000, "taper": 2500, "copied": 100, "created": 300, "length": 3000, "archive": 200, "accepted": 400, "rejected": 3000, "span": 1500, "level_ops": 300}
UNSET = "1980-01-01T00:00:00+00:00"
ARGS = {"kaiser": lambda r: {"beta": r.choice([0.0, 2.5, 14.0])}, "gaussian": lambda r: {"std": r.choice([3.0, 20.0])}, "general_gaussian": lambda r: {"p": r.choice([1.0, 1.5]), "sig": r.choice([5.0, 20.0])},
        "chebwin": lambda r: {"at": r.choice([60.0, 100.0])}, "dpss": lambda r: {"NW": r.choice([2.0, 3.0])}}
PLAIN = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman", "blackmanharris", "nuttall", "barthann"]


def taper_oracle(m):
    n = m["num_samples"]
    k = np.arange(n)
    t = m["type"]
    if t == "boxcar":
        w = np.ones(n)
    elif t == "hann":
        w = 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    elif t == "hamming":
        w = 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    elif t == "blackman":
        w = 0.42 - 0.5 * np.cos(2 * np.pi * k / n) + 0.08 * np.cos(4 * np.pi * k / n)
    elif t == "bartlett":
        w = 1 - np.abs(2.0 * k / n - 1)
    elif t == "gaussian":
        w = np.exp(-0.5 * ((k - n / 2) / m["args"]["std"]) ** 2)
    elif t == "kaiser":
        b = m["args"]["beta"]
        w = np.i0(b * np.sqrt(np.maximum(1 - (2.0 * k / n - 1) ** 2, 0))) / np.i0(b)
    else:
        import scipy.signal as ssig
        w = ssig.get_window((t,) + tuple(m["args"].values()) if m["args"] else t, n)
    return w / w.sum() if m["normalized"] else w


def judge_window(ctx, w, m, rng, where):
    ctx.event("window_state")
    ctx.check(w.num_samples_advance == m["num_samples"] - m["overlap"], f"{where}:advance", lambda: f"{w.num_samples_advance} of {m}")
    sr = rng.choice([1.0, 8.0, 150.0, 0.125])
    f = w.fft_harmonics(sr)
    want = np.arange(m["num_samples"] // 2) * (sr / m["num_samples"])
    ctx.check(f.shape == want.shape and np.allclose(f, want, rtol=1e-12, atol=0), f"{where}:harmonics", lambda: f"{f[:4]}.. ({f.size}) want {want[:4]}.. ({want.size}) of {m} at {sr}")
    if rng.random() < 0.8:
        ctx.event("taper")
        t = w.taper()
        o = taper_oracle(m)
        ctx.check(t.shape == o.shape and np.allclose(t, o, rtol=1e-9, atol=1e-12 * np.abs(o).max()), f"{where}:taper", lambda: f"{t[:4]}.. ({t.size}) want {o[:4]}.. ({o.size}) of {m}")


def change(w, m, rng):
    k = rng.random()
    if k < 0.3:
        t = rng.choice(PLAIN)
        w.type = t
        w.additional_args = {}
        m["type"], m["args"] = t, {}
    elif k < 0.5:
        t = rng.choice(list(ARGS))
        a = ARGS[t](rng)
        w.type = t
        w.additional_args = dict(a)
        m["type"], m["args"] = t, a
    elif k < 0.7:
        n = rng.choice([16, 17, 32, 64, 100, 128, 256])
        w.num_samples = n
        m["num_samples"] = n
        if m["overlap"] >= n:
            w.overlap = n // 4
            m["overlap"] = n // 4
    elif k < 0.85:
        o = rng.randrange(0, m["num_samples"])
        w.overlap = o
        m["overlap"] = o
    else:
        v = rng.random() < 0.5
        w.normalized = v
        m["normalized"] = v


def window(ctx, rng, i):
    """a window through parameter changes"""
    from mt_metadata.processing.window import Window
    w = Window()
    m = {"num_samples": 256, "overlap": 32, "type": "boxcar", "normalized": True, "args": {}}
    others = []
    for step in range(rng.randint(3, 10)):
        judge_window(ctx, w, m, rng, "window")
        k = rng.random()
        if k < 0.15:
            ctx.event("copied")
            how = rng.choice(["copy", "dict", "json"])
            if how == "copy":
                c = w.copy()
            else:
                c = Window()
                c.from_dict(w.to_dict()) if how == "dict" else c.from_json(w.to_json())
            others.append((c, dict(m)))
            judge_window(ctx, c, m, rng, how)
            if rng.random() < 0.5:
                w, others[-1] = c, (w, dict(m))
                m = dict(m)
        change(w, m, rng)
        for c, n in others:
            if rng.random() < 0.3:
                judge_window(ctx, c, n, rng, "other")
    judge_window(ctx, w, m, rng, "window")
    ctx.case((i,), {"window": {k: str(v) for k, v in m.items()}})


def fits(n_samples, n, adv):
    """number of windows by walking along the series"""
    c, s = 0, 0
    while s + n <= n_samples:
        c += 1
        s += adv
    return c


def creator(ctx, rng, i):
    """levels from rate and factors; lengths that hold enough windows"""
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator, get_degenerate_fc_decimation
    rate = rng.choice([1.0, 8.0, 4096.0, 0.25, 150])
    tp = TimePeriod(start="2020-01-01T00:00:00", end="2020-02-01T00:00:00") if rng.random() < 0.5 else None
    k = rng.random()
    if k < 0.25:
        n = rng.randint(1, 7)
        factors = [1] + [4] * (n - 1)
        levels = fc_decimations_creator(rate, max_levels=n, time_period=tp)
    elif k < 0.35:
        factors = [1]
        levels = get_degenerate_fc_decimation(rate)
        tp = None
    else:
        factors = [1] + [rng.choice([2, 3, 4, 5, 10]) for _ in range(rng.randint(0, 6))]
        given = list(factors)
        levels = fc_decimations_creator(rate, decimation_factors=given, time_period=tp)
        ctx.check(given == factors, "creator:input_changed", lambda: f"{given}")
    ctx.check(len(levels) == len(factors), "creator:count", lambda: f"{len(levels)} want {len(factors)}")
    total = 1
    for k, (d, f) in enumerate(zip(levels, factors)):
        ctx.event("created")
        total *= f
        ctx.check((d.decimation.level, d.decimation.factor, d.id) == (k, f, str(k)), "creator:level", lambda: f"{(d.decimation.level, d.decimation.factor, d.id)} want {(k, f)}")
        ctx.check(math.isclose(d.decimation.sample_rate, rate / total, rel_tol=1e-12), "creator:rate", lambda: f"{d.decimation.sample_rate} want {rate / total}")
        if tp is not None:
            ctx.check(d.time_period == tp, "creator:period", lambda: f"{d.time_period} want {tp}")
    if tp is not None and len(levels) > 1:
        levels[0].time_period.end = "2020-03-01T00:00:00"
        ctx.check(str(levels[1].time_period.end) == "2020-02-01T00:00:00+00:00" == str(tp.end), "creator:shared_period", lambda: f"{levels[1].time_period.end} {tp.end}")
    d = rng.choice(levels)
    for _ in range(3):
        n = rng.choice([16, 32, 100, 128])
        ov = rng.randrange(0, n)
        need = rng.randint(1, 9)
        d.stft.window.num_samples = n
        d.stft.window.overlap = ov
        d.stft.min_num_stft_windows = need
        edge = n + (need - 1) * (n - ov)
        for N in [0, n - 1, n, edge - 1, edge, edge + 1, rng.randrange(0, 2 * edge + 1)]:
            ctx.event("length")
            got = d.is_valid_for_time_series_length(N)
            ctx.check(bool(got) == (fits(N, n, n - ov) >= need), "length", lambda: f"{N} samples, window {n} overlap {ov}, {need} windows: {got}")
        f = d.fft_frequencies
        want = np.arange(n // 2) * (d.decimation.sample_rate / n)
        ctx.check(f.shape == want.shape and np.allclose(f, want, rtol=1e-12), "frequencies", lambda: f"{f[:4]} want {want[:4]}")
    ctx.case((rate, tuple(factors)), {"rate": rate, "factors": factors})


def g_level(rng):
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    d = DecimationLevel()
    d.decimation.level = rng.randint(0, 5)
    d.decimation.factor = rng.choice([1.0, 4.0, 2.0])
    d.decimation.sample_rate = rng.choice([1.0, 0.25, 8.0, 1 / 3])
    if rng.random() < 0.4:
        d.decimation.anti_alias_filter = rng.choice(["default", "butterworth"])
    d.input_channels = rng.sample(["hx", "hy", "bx"], 2)
    d.output_channels = rng.sample(["ex", "ey", "hz"], rng.choice([1, 2, 3]))
    d.reference_channels = rng.choice([[], ["hx", "hy"], ["bx", "by"]])
    s = d.stft
    s.method = rng.choice(["fft", "fft", "wavelet"])
    s.recoloring = rng.random() < 0.5
    s.prewhitening_type = rng.choice(["first difference", "other"])
    s.pre_fft_detrend_type = rng.choice(["linear", "other", ""])
    s.min_num_stft_windows = rng.choice([0, 1, 4])
    s.window.num_samples = rng.choice([64, 128])
    s.window.overlap = rng.choice([16, 32])
    s.window.type = rng.choice(["boxcar", "hamming"])
    s.window.normalized = rng.random() < 0.5
    if rng.random() < 0.3:
        s.window.type = "kaiser"
        s.window.additional_args = {"beta": 3.5}
    k = rng.randint(1, 4)
    want = set()
    for _ in range(rng.randint(1, 3)):
        b = k + rng.randint(0, 3)
        d.add_band(Band(decimation_level=d.decimation.level, frequency_min=k * 0.01, frequency_max=b * 0.01 + 0.005, index_min=k, index_max=b))
        want |= set(range(k, b + 1))
        k = b + 1 + rng.choice([0, 1])
    return d, want


def verdict(d, fc, remote):
    try:
        return d.is_consistent_with_archived_fc_parameters(fc, remote)
    except NotImplementedError:
        return "not implemented"


def archive(ctx, rng, i):
    """the archived form of a level is recognised, anything else is not"""
    ctx.event("archive")
    seed = rng.randrange(10**9)
    import random
    d, harm = g_level(random.Random(seed))
    remote = rng.random() < 0.4

    def fresh(ignore=False):
        return d.to_fc_decimation(remote=remote, ignore_harmonic_indices=ignore)

    fc = fresh()
    need = list(d.reference_channels) if remote else list(d.input_channels) + list(d.output_channels)
    ctx.check(sorted(fc.channels_estimated) == sorted(need), "made:channels", lambda: f"{fc.channels_estimated} want {need}")
    ctx.check(set(fc.stft.harmonic_indices) == harm, "made:harmonics", lambda: f"{fc.stft.harmonic_indices} want {harm}")
    ctx.check((fc.decimation.level, fc.decimation.factor, fc.decimation.sample_rate, fc.id) == (d.decimation.level, d.decimation.factor, d.decimation.sample_rate, str(d.decimation.level)), "made:decimation", lambda: f"{fc.decimation}")
    ctx.check(np.array_equal(fc.fft_frequencies, d.fft_frequencies), "made:frequencies", lambda: f"{fc.fft_frequencies[:3]}")
    before = str(d.to_dict())

    def yes(fc, what, dd=d):
        ctx.event("accepted")
        v = verdict(dd, fc, remote)
        ctx.check(v is True, f"accept:{what}", lambda: f"{what}: {v}; {str(d.to_dict(single=True))[:400]}")

    def no(fc, what):
        ctx.event("rejected")
        v = verdict(d, fc, remote)
        ctx.check(v is not True, f"reject:{what}", lambda: f"{what}: {v}")

    yes(fc, "archived")
    yes(fresh(True), "all_harmonics")
    for h in (None, -1, [-1]):
        fc = fresh()
        fc.stft.harmonic_indices = h
        yes(fc, "all_harmonics_flag")
    fc = fresh()
    fc.stft.harmonic_indices = sorted(harm | {0, 40})
    yes(fc, "more_harmonics")
    for h in rng.sample(sorted(harm), min(3, len(harm))):
        fc = fresh()
        fc.stft.harmonic_indices = sorted(harm - {h}) + [50]
        no(fc, "harmonic_missing")
    if len(harm) > 1:
        fc = fresh()
        fc.stft.harmonic_indices = min(harm)
        no(fc, "one_harmonic")
    fc = fresh()
    fc.channels_estimated = need + ["zz"]
    yes(fc, "more_channels")
    for c in need:
        fc = fresh()
        fc.remove_channel(c)
        if c not in fc.channels_estimated:
            no(fc, "channel_missing")
    changes = {
        "sample_rate": lambda f: setattr(f.time_series_decimation, "sample_rate", f.time_series_decimation.sample_rate * rng.choice([2, 0.5, 1.01])),
        "anti_alias_filter": lambda f: setattr(f.time_series_decimation, "anti_alias_filter", "other one"),
        "method": lambda f: setattr(f.stft, "method", "other"),
        "prewhitening_type": lambda f: setattr(f.stft, "prewhitening_type", "other" if f.stft.prewhitening_type.value == "first difference" else "first difference"),
        "recoloring": lambda f: setattr(f.stft, "recoloring", not f.stft.recoloring),
        "pre_fft_detrend_type": lambda f: setattr(f.stft, "pre_fft_detrend_type", "linear" if f.stft.pre_fft_detrend_type.value != "linear" else "other"),
        "min_num_stft_windows": lambda f: setattr(f.stft, "min_num_stft_windows", f.stft.min_num_stft_windows + 1),
        "window.num_samples": lambda f: setattr(f.stft.window, "num_samples", f.stft.window.num_samples + rng.choice([1, 32, -1])),
        "window.overlap": lambda f: setattr(f.stft.window, "overlap", f.stft.window.overlap + rng.choice([1, -1])),
        "window.type": lambda f: setattr(f.stft.window, "type", "hann"),
        "window.normalized": lambda f: setattr(f.stft.window, "normalized", not f.stft.window.normalized),
        "window.additional_args": lambda f: setattr(f.stft.window, "additional_args", {"beta": 7.0}),
        "window.clock_zero_type": lambda f: setattr(f.stft.window, "clock_zero_type", "data start"),
    }
    for what, f in changes.items():
        fc = fresh()
        f(fc)
        no(fc, what)
        ctx.check(str(d.to_dict()) == before, f"level_changed:{what}", lambda: f"changing the archive's {what} changed the level")
    # the level moves on, its archive does not
    fc = fresh()
    keep = str(fc.to_dict())
    d.stft.window.num_samples += 2
    d.input_channels.append("h9")
    ctx.check(str(fc.to_dict()) == keep, "archive_changed", lambda: "changing the level changed its archive")
    no(fc, "level_moved_on")
    # through export and import
    d2, _ = g_level(random.Random(seed))
    d = d2
    fc = fresh()
    from mt_metadata.processing.fourier_coefficients import Decimation
    back = Decimation()
    back.from_dict(fc.to_dict()) if rng.random() < 0.5 else back.from_json(fc.to_json())
    yes(back, "archive_reloaded", d2)
    ctx.case((seed,), {"channels": need, "harmonics": sorted(harm)})


def g_span(rng):
    t = pd.Timestamp("2015-01-01") + pd.Timedelta(seconds=rng.randint(0, 10**7))
    a, b = t, t + pd.Timedelta(seconds=rng.randint(1, 10**6))
    k = rng.random()
    return (None if k < 0.15 or k > 0.9 else a, None if 0.1 < k < 0.25 or k > 0.9 else b)


def stamp(t):
    return UNSET if t is None else t.strftime("%Y-%m-%dT%H:%M:%S+00:00")


def merge(span, members):
    a = [x for x in [span[0]] + [m[0] for m in members] if x is not None]
    b = [x for x in [span[1]] + [m[1] for m in members] if x is not None]
    return (min(a) if a else None, max(b) if b else None)


def spans(ctx, rng, i):
    """time spans and membership of channels and levels"""
    from mt_metadata.processing.fourier_coefficients import FC, Decimation, FCChannel
    fc = FC(id="x")
    fspan, levels = (None, None), {}
    for step in range(rng.randint(2, 5)):
        lid = str(rng.randint(0, 4))
        if rng.random() < 0.2 and levels:
            lid = rng.choice(list(levels))
            ctx.event("level_ops")
            fc.remove_decimation_level(int(lid) if rng.random() < 0.3 else lid)
            del levels[lid]
        elif lid not in levels:
            d = Decimation(id=lid)
            comps = rng.sample(["ex", "ey", "hx", "hy", "hz"], rng.randint(1, 4))
            d.channels_estimated = comps
            members = {c: (None, None) for c in comps}
            dspan = (None, None)
            for _ in range(rng.randint(1, 6)):
                c = rng.choice(comps)
                k = rng.random()
                if k < 0.8 and c in members:
                    sp = g_span(rng)
                    ch = FCChannel(component=c)
                    ch.time_period.start, ch.time_period.end = stamp(sp[0]), stamp(sp[1])
                    if sp[0] is None:
                        ch.time_period.start = UNSET
                    d.add_channel(ch)
                    old = members[c]
                    members[c] = (sp[0] if sp[0] is not None else old[0], sp[1] if sp[1] is not None else old[1])
                elif len(members) > 1 and c in members:
                    d.remove_channel(c)
                    del members[c]
                dspan = merge(dspan, members.values())
                ctx.event("span")
                ctx.check((str(d.time_period.start), str(d.time_period.end)) == (stamp(dspan[0]), stamp(dspan[1])), "level_span", lambda: f"{d.time_period.start} {d.time_period.end} want {stamp(dspan[0])} {stamp(dspan[1])} of {members}")
                ctx.check(sorted(d.channels_estimated) == sorted(members) == sorted(d.channels.keys()) and d.n_channels == len(members), "level_members", lambda: f"{d.channels_estimated} {d.channels.keys()} want {list(members)}")
                for x in comps:
                    ctx.check(d.has_channel(x) == (x in members) and (d.get_channel(x) is not None) == (x in members), "has_channel", lambda: f"{x} in {list(members)}")
            fc.add_decimation_level(d)
            levels[lid] = dspan
            ctx.event("level_ops")
        fspan = merge(fspan, levels.values())
        ctx.event("span")
        ctx.check((str(fc.time_period.start), str(fc.time_period.end)) == (stamp(fspan[0]), stamp(fspan[1])), "group_span", lambda: f"{fc.time_period.start} {fc.time_period.end} want {stamp(fspan[0])} {stamp(fspan[1])}")
        ctx.check(sorted(fc.decimation_levels) == sorted(levels) == sorted(fc.levels.keys()) and fc.n_decimation_levels == len(levels), "group_members", lambda: f"{fc.decimation_levels} {fc.levels.keys()} want {list(levels)}")
        for x in range(5):
            for y in (x, str(x)):
                got = fc.get_decimation_level(y)
                ctx.check(bool(fc.has_decimation_level(y)) == (str(x) in levels) and (got is not None) == (str(x) in levels) and (got is None or got.id == str(x)), "get_level", lambda: f"{y!r} in {list(levels)}: {got}")
    ctx.case((i,), {"levels": list(levels)})


WORKLOADS = [Workload("window", window, 500, 8000), Workload("creator", creator, 250, 4000), Workload("archive", archive, 250, 3000), Workload("spans", spans, 250, 4000)]
