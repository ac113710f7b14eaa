"""P30: coherence features compute what they declare."""
import numpy as np

from mon.core import Workload

RULE = ("case = random feature settings (window type and arguments, lengths, overlaps, detrending) on random, related, scaled, constant and gappy series; the harness cuts, detrends, tapers and transforms by itself and compares; "
        "striding rows are asked again with all other samples changed, and in a pool of processes; station assignment and registry against the declared rules")
ASSUME = ["series hold at least one (main) window, overlaps are shorter than windows", "bins where the definition is 0/0 (no power) are left open for the time-series forms", "station rule: a known station is kept, an unknown one is replaced by the remote station for channels starting with 'r' and by the local one otherwise"]
NEED = {"coherence": 250, "bin": 20000, "striding": 250, "row": 1200, "isolated": 300, "parallel": 6, "fc": 200, "assigned": 400, "registry": 100, "linear": 60}
ARGS = {"kaiser": {"beta": 8.0}, "gaussian": {"std": 9.0}, "chebwin": {"at": 80.0}, "dpss": {"NW": 2.5}}


def taper(t, args, n):
    import scipy.signal as ssig
    k = np.arange(n)
    if t == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    if t == "hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if t == "boxcar":
        return np.ones(n)
    return ssig.get_window((t, *args.values()) if args else t, n)


def detrended(x, how):
    if how == "constant":
        return x - x.mean()
    k = np.arange(len(x)) - (len(x) - 1) / 2
    return x - x.mean() - k * ((k @ x) / (k @ k))


def coherence_of(x, y, m):
    n, adv = m["n"], m["n"] - m["overlap"]
    if n > len(x):
        n, adv = len(x), max(1, len(x) - m["overlap"])
    w = taper(m["type"], m["args"], n)
    sxx = syy = sxy = 0
    for s in range(0, len(x) - n + 1, adv):
        a = np.fft.rfft(detrended(x[s:s + n], m["detrend"]) * w)
        b = np.fft.rfft(detrended(y[s:s + n], m["detrend"]) * w)
        sxx, syy, sxy = sxx + np.abs(a) ** 2, syy + np.abs(b) ** 2, sxy + np.conj(a) * b
    with np.errstate(all="ignore"):
        c = np.abs(sxy) ** 2 / (sxx * syy)
    firm = (sxx > 1e-18 * sxx.max()) & (syy > 1e-18 * syy.max()) & (sxx > 0) & (syy > 0)
    return np.arange(n // 2 + 1) / n, c, firm


def g_window(rng, n=None):
    n = n or rng.choice([16, 32, 33, 64, 100])
    m = {"n": n, "overlap": rng.choice([0, n // 2, n // 4, n - 1 if n < 20 else n // 3]), "type": rng.choice(["boxcar", "hann", "hamming", "blackman", "hann"]), "args": {}, "detrend": rng.choice(["linear", "constant"])}
    if rng.random() < 0.3:
        m["type"] = rng.choice(sorted(ARGS))
        m["args"] = dict(ARGS[m["type"]])
    return m


def put(w, m):
    w.num_samples, w.overlap, w.type = m["n"], m["overlap"], m["type"]
    w.additional_args = dict(m["args"])


def g_series(rng, n):
    g = np.random.default_rng(rng.randrange(2**32))
    x = g.normal(size=n) + rng.choice([0, 100.0]) + rng.choice([0, 0.1]) * np.arange(n)
    k = rng.random()
    if k < 0.4:
        y = g.normal(size=n)
    elif k < 0.8:
        y = x * rng.choice([1.0, -3.0, 0.01]) + g.normal(size=n) * rng.choice([0.3, 1, 3])
    else:
        y = np.convolve(x, [0.5, 0.3, 0.2], mode="same")
    return x, y


def same(ctx, got, want, firm, tag, d):
    ctx.event("bin", int(firm.sum()))
    if not ctx.check(got.shape == want.shape, f"{tag}:shape", lambda: f"{got.shape} want {want.shape}; {d()}"):
        return
    g, w = got[firm], want[firm]
    ctx.check(np.allclose(g, w, rtol=1e-6, atol=1e-8), f"{tag}:value", lambda: f"{g[:4]} want {w[:4]}; {d()}")
    ctx.check(bool(np.all((g >= -1e-12) & (g <= 1 + 1e-9))), f"{tag}:range", lambda: f"{g.min()} {g.max()}; {d()}")


def plain(ctx, rng, i):
    """coherence of two series"""
    from mt_metadata.features.coherence import Coherence
    m = g_window(rng)
    c = Coherence(channel_1="ex", channel_2="hy")
    put(c.window, m)
    c.detrend = m["detrend"]
    if rng.random() < 0.3:
        d = Coherence()
        d.from_dict(c.to_dict())
        c = d
    n = m["n"] * rng.choice([1, 2, 5]) + rng.randint(0, m["n"] - 1)
    x, y = g_series(rng, n)
    x0, y0 = x.copy(), y.copy()
    f, g = c.compute(x, y)
    ctx.event("coherence")
    d = lambda: f"{m} on {n} samples"
    wf, want, firm = coherence_of(x, y, m)
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), "plain:changed_input", d)
    ctx.check(f.shape == wf.shape and np.allclose(f, wf, rtol=1e-12), "plain:frequencies", lambda: f"{f[:3]} want {wf[:3]}; {d()}")
    same(ctx, g, want, firm, "plain", d)
    ctx.check(np.allclose(c.compute(y, x)[1][firm], g[firm], rtol=1e-9, atol=1e-12), "plain:symmetric", d)
    ctx.check(np.allclose(c.compute(x * -7.5, y * 1e3)[1][firm], g[firm], rtol=1e-6, atol=1e-9), "plain:scaled", d)
    ctx.event("linear")
    ctx.check(np.allclose(c.compute(x, x * -2.0)[1][firm], 1, rtol=1e-6), "plain:linear", d)
    ctx.case((i,), {"window": {k: str(v) for k, v in m.items()}, "samples": n})


def build(rng):
    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
    c = StridingWindowCoherence(channel_1="ex", channel_2="hy")
    main = rng.choice([64, 100, 128])
    mo = rng.choice([0, main // 2, main // 4, 10])
    c.window.num_samples, c.window.overlap = main, mo
    m = g_window(rng, rng.choice([16, 20, 32]))
    c.detrend = m["detrend"]
    if rng.random() < 0.3:
        t = g_window(rng, 32)
        c.window.type = t["type"]
        c.window.additional_args = dict(t["args"])
        frac = rng.choice([0.2, 0.25, 0.5])
        c.set_subwindow_from_window(frac)
        n = int(main * frac)
        m.update(n=n, overlap=n // 2, type=t["type"], args=t["args"])
        c.window.additional_args["later"] = 1.0  # the main window goes its own way
    else:
        put(c.subwindow, m)
    return c, main, mo, m


def striding(ctx, rng, i):
    """coherence along a series"""
    c, main, mo, m = build(rng)
    ctx.check((c.subwindow.num_samples, c.subwindow.overlap, c.subwindow.type.value, dict(c.subwindow.additional_args)) == (m["n"], m["overlap"], m["type"], m["args"]), "striding:subwindow", lambda: f"{c.subwindow} want {m}")
    adv = main - mo
    n = main + adv * rng.randint(0, 6) + rng.randint(0, adv - 1)
    x, y = g_series(rng, n)
    if rng.random() < 0.3:
        for z in (x, y):
            z[rng.randrange(n)] = np.nan
    x0, y0 = x.copy(), y.copy()
    starts = list(range(0, n - main + 1, adv))
    f, g = c.compute(x, y)
    ctx.event("striding")
    d = lambda: f"main {main}/{mo}, sub {m}, {n} samples"
    ctx.check(np.array_equal(x, x0, equal_nan=True) and np.array_equal(y, y0, equal_nan=True), "striding:changed_input", d)
    if not ctx.check(len(g) == len(starts), "striding:rows", lambda: f"{len(g)} rows want {len(starts)}; {d()}"):
        return
    xx, yy = np.nan_to_num(x), np.nan_to_num(y)
    for k, s in enumerate(starts):
        ctx.event("row")
        wf, want, firm = coherence_of(xx[s:s + main], yy[s:s + main], m)
        ctx.check(f.shape == wf.shape and np.allclose(f, wf, rtol=1e-12), "striding:frequencies", lambda: f"{f[:3]}; {d()}")
        same(ctx, g[k], want, firm, "striding", d)
    # a row does not know the samples outside its window
    k = rng.randrange(len(starts))
    s = starts[k]
    noise = np.random.default_rng(i).normal(size=(2, n)) * 50
    x2, y2 = noise[0].copy(), noise[1].copy()
    x2[s:s + main], y2[s:s + main] = x[s:s + main], y[s:s + main]
    ctx.event("isolated")
    ctx.check(np.allclose(c.compute(x2, y2)[1][k], g[k], rtol=1e-12, atol=0, equal_nan=True), "striding:isolated", d)
    ctx.case((i,), {"main": main, "sub": {k: str(v) for k, v in m.items()}, "samples": n})


def parallel(ctx, rng, i):
    """the pool of processes gives the serial answer"""
    c, main, mo, m = build(rng)
    n = main + (main - mo) * rng.randint(1, 8) + 3
    x, y = g_series(rng, n)
    a = c.compute(x, y, parallel=True)
    b = c.compute(x, y)
    ctx.event("parallel")
    ctx.check(np.array_equal(a[0], b[0]) and a[1].shape == b[1].shape and np.allclose(a[1], b[1], rtol=1e-12, equal_nan=True), "parallel", lambda: f"main {main}/{mo}, sub {m}, {n} samples")
    ctx.case((i,), {"samples": n})


def fc(ctx, rng, i):
    """coherence of Fourier coefficients"""
    from mt_metadata.features.fc_coherence import FCCoherence
    c = FCCoherence(channel_1="ex", channel_2="hy")
    nt, nf = rng.choice([1, 2, 5, 30]), rng.choice([1, 4, 9])
    g = np.random.default_rng(rng.randrange(2**32))
    a = g.normal(size=(nt, nf)) + 1j * g.normal(size=(nt, nf))
    b = g.normal(size=(nt, nf)) + 1j * g.normal(size=(nt, nf)) if rng.random() < 0.6 else a * (2 - 3j) + 0.3 * g.normal(size=(nt, nf))
    dead = [k for k in range(nf) if rng.random() < 0.15]
    for k in dead:
        (a if rng.random() < 0.5 else b)[:, k] = 0
    a0, b0 = a.copy(), b.copy()
    f, got = c.compute(a, b)
    ctx.event("fc")
    want = np.zeros(nf)
    for k in range(nf):
        sxy = sum(a[t, k] * b[t, k].conjugate() for t in range(nt))
        sxx, syy = sum(abs(a[t, k]) ** 2 for t in range(nt)), sum(abs(b[t, k]) ** 2 for t in range(nt))
        want[k] = 0 if sxx * syy == 0 else abs(sxy) ** 2 / (sxx * syy)
    same(ctx, np.asarray(got), want, np.ones(nf, bool), "fc", lambda: f"{nt}x{nf}, dead {dead}")
    ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0), "fc:changed_input", lambda: "coefficients were changed")
    ctx.check(np.allclose(c.compute(b, a)[1], got, rtol=1e-9), "fc:symmetric", lambda: f"{nt}x{nf}")
    ctx.check(np.allclose(c.compute(a * (3 - 4j), b * 1e-3j)[1], got, rtol=1e-9, atol=1e-12), "fc:scaled", lambda: f"{nt}x{nf}")
    live = [k for k in range(nf) if np.any(a[:, k])]
    ctx.check(np.allclose(np.asarray(c.compute(a, a * (1 + 2j))[1])[live], 1, rtol=1e-9), "fc:linear", lambda: f"{nt}x{nf}")
    ctx.case((i,), {"shape": [nt, nf], "dead": dead})


def stations(ctx, rng, i):
    """stations of the two channels; features by registered name"""
    from mt_metadata.features.coherence import Coherence
    from mt_metadata.features.cross_powers import CrossPowers
    from mt_metadata.features.feature import Feature
    from mt_metadata.features.feature_fc import FeatureFC
    from mt_metadata.features.feature_ts import FeatureTS
    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
    for _ in range(4):
        ch = [rng.choice(["ex", "hy", "rx", "Ry", "rhx", "hr"]) for _ in range(2)]
        st = [rng.choice([None, "mt01", "rr", "gone"]) for _ in range(2)]
        local, remote = "mt01", rng.choice([None, "rr", "r2"])
        c = Coherence(channel_1=ch[0], channel_2=ch[1], station_1=st[0], station_2=st[1])
        c.validate_station_ids(local, remote)
        want = []
        for k in range(2):
            known = [local] + ([remote] if remote else [])
            want.append(st[k] if st[k] in known else (remote if ch[k].lower().startswith("r") else local))
        ctx.event("assigned")
        ctx.check([c.station_1, c.station_2] == want, "stations", lambda: f"{ch} {st} {local} {remote}: {[c.station_1, c.station_2]} want {want}")
        c.validate_station_ids(local, remote)
        ctx.check([c.station_1, c.station_2] == want, "stations:again", lambda: f"{ch} {st}: {[c.station_1, c.station_2]} want {want}")
    classes = {"coherence": Coherence, "striding_window_coherence": StridingWindowCoherence, "cross_powers": CrossPowers, "feature_ts": FeatureTS, "feature_fc": FeatureFC}
    k = rng.choice(sorted(classes))
    d = {"feature_id": k}
    if "coherence" in k:
        d["channel_1"], d["window.num_samples"] = "ey", 48
    d0 = dict(d)
    f = Feature.from_feature_id(d)
    ctx.event("registry")
    ctx.check(type(f) is classes[k] and d == d0, "registry", lambda: f"{k}: {type(f).__name__} {d}")
    if "coherence" in k:
        ctx.check(f.channel_1 == "ey" and f.window.num_samples == 48 and type(f)().window.num_samples != 48, "registry:fields", lambda: f"{f.channel_1} {f.window.num_samples} {type(f)().window.num_samples}")
    try:
        Feature.from_feature_id({"feature_id": "no such feature"})
        ctx.check(False, "registry:unknown", "an unknown feature is built")
    except KeyError:
        pass
    ctx.case((i,), {"feature": k})


WORKLOADS = [Workload("plain", plain, 300, 5000), Workload("striding", striding, 300, 5000), Workload("parallel", parallel, 8, 40), Workload("fc", fc, 300, 5000), Workload("stations", stations, 150, 1500)]
