"""P29: weighting kernels give bounded, monotone, shape-correct weights."""
import math

import numpy as np

from mon.core import Workload

RULE = ("case = (kernel) a kernel of any type, side, style and pair of bounds asked for values at, next to, inside and far from the bounds, as one array, in another order, one by one and in other shapes, its parameters changed and asked again, "
        "exported and imported; (combine) random kernels per feature, features per channel and combination styles against products, means and extremes by the harness; (bands) weights along frequency picked for bands")
ASSUME = ["transition bounds are finite with lower <= upper (activation kernels answer 0.5 for infinite bounds, existing tests pin it)", "feature values are numbers (no NaN), steepness is positive", "ThresholdWeightKernel cannot be evaluated (not implemented)", "of two equally near frequencies either may be taken"]
NEED = {"kernel": 400, "weight": 20000, "at_bound": 1500, "monotone": 900, "reordered": 900, "exported": 250, "combined": 150, "inactive": 60, "band": 400}


def oracle(k, v):
    """weight of one value for a described kernel"""
    if k["kind"] == "double":
        return oracle(dict(k, kind="taper", side="low cut", lo=k["low"][0], hi=k["low"][1]), v) * oracle(dict(k, kind="taper", side="high cut", lo=k["high"][0], hi=k["high"][1]), v)
    lo, hi = k["lo"], k["hi"]
    low = k["side"] == "low cut"
    if k["kind"] == "taper" and k["style"] == "rectangle":
        return (0.0 if v < lo else 1.0) if low else (0.0 if v > hi else 1.0)
    if lo == hi:
        x = (1.0 if v >= lo else 0.0) if low else (1.0 if v <= hi else 0.0)
    else:
        x = min(max((v - lo) / (hi - lo), 0.0), 1.0)
        if not low:
            x = 1 - x
    s = k["style"]
    if k["kind"] == "taper":
        if s == "hann":
            return math.sin(math.pi * x / 2) ** 2
        if s == "hamming":
            return 0.08 + 0.92 * math.sin(math.pi * x / 2) ** 2
        c = math.cos(math.pi * x)
        return 0.42 - 0.5 * c + 0.08 * (2 * c * c - 1)
    if s == "sigmoid":
        return 1 / (1 + math.exp(min(700, -k["steep"] * (x - 0.5))))
    if s == "hard_sigmoid":
        return min(max(0.2 * (x - 0.5) + 0.5, 0), 1)
    if s == "tanh":
        return 0.5 * (math.tanh(k["steep"] * (x - 0.5)) + 1)
    return x


def g_kernel(rng):
    kind = rng.choice(["taper", "taper", "activation", "double"])
    a, b = sorted([rng.choice([rng.uniform(-2, 2), rng.uniform(0, 1), float(rng.randint(-5, 5))]) for _ in range(2)])
    if rng.random() < 0.12:
        b = a
    if rng.random() < 0.05:
        a, b = a * 1e6, b * 1e6
        a, b = min(a, b), max(a, b)
    k = {"kind": kind, "side": rng.choice(["low cut", "high cut"]), "lo": a, "hi": b}
    if kind == "activation":
        k["style"] = rng.choice(["sigmoid", "hard_sigmoid", "tanh", "hard_tanh"])
        k["steep"] = rng.choice([1.0, 10.0, 0.5, 100.0])
    elif kind == "taper":
        k["style"] = rng.choice(["rectangle", "hann", "hamming", "blackman"])
    else:
        w = (b - a) / 3 or 0.1
        k["style"] = rng.choice(["hann", "hamming", "blackman"])
        k["low"], k["high"] = (a, a + w), (a + w * rng.choice([0.5, 1, 2]), a + 3 * w)
    return k


def build(k):
    from mt_metadata.features.weights import ActivationMonotonicWeightKernel, TaperMonotonicWeightKernel, TaperWeightKernel
    if k["kind"] == "double":
        return TaperWeightKernel(low_cut=k["low"], high_cut=k["high"], style=k["style"])
    kw = {"threshold": k["side"], "transition_lower_bound": k["lo"], "transition_upper_bound": k["hi"]}
    if k["kind"] == "taper":
        return TaperMonotonicWeightKernel(half_window_style=k["style"], **kw)
    return ActivationMonotonicWeightKernel(activation_style=k["style"], steepness=k["steep"], style="activation", **kw)


def g_values(rng, k, n=24):
    bounds = [k["lo"], k["hi"]] if k["kind"] != "double" else [*k["low"], *k["high"]]
    lo, hi = min(bounds), max(bounds)
    w = (hi - lo) or 1.0
    v = list(bounds)
    for b in bounds:
        v += [float(np.nextafter(b, -1e99)), float(np.nextafter(b, 1e99))]
    while len(v) < n:
        v.append(rng.choice([rng.uniform(lo, hi), lo - w * rng.random(), hi + w * rng.random(), 1e12, -1e12, float(rng.randint(-9, 9)), 0.0]))
    rng.shuffle(v)
    return np.array(v), bounds


def judge(ctx, o, k, rng, where):
    v, bounds = g_values(rng, k)
    v0 = v.copy()
    w = np.asarray(o.evaluate(v))
    tag = f"{where}:{k['kind']}:{k['style']}"
    ctx.event("weight", len(v))
    ctx.event("at_bound", int(np.isin(v, bounds).sum()))
    ctx.check(np.array_equal(v, v0), f"{tag}:changed_input", lambda: "values were changed")
    if not ctx.check(w.shape == v.shape, f"{tag}:shape", lambda: f"{w.shape} for {v.shape}"):
        return
    want = np.array([oracle(k, float(x)) for x in v])
    # next to a very short transition the relative position is ill conditioned
    bad = [j for j in range(len(v)) if not abs(w[j] - want[j]) <= 1e-9 + slack(k, v[j])]
    ctx.check(not bad, f"{tag}:weight", lambda: f"{k} at {v[bad[0]]!r}: {w[bad[0]]} want {want[bad[0]]}")
    ctx.check(bool(np.all((w >= -1e-12) & (w <= 1 + 1e-12))), f"{tag}:range", lambda: f"{w.min()} {w.max()} of {k}")
    if k["kind"] != "double":
        ctx.event("monotone")
        d = np.diff(w[np.argsort(v, kind="stable")])
        ctx.check(bool(np.all(d >= -1e-12)) if k["side"] == "low cut" else bool(np.all(d <= 1e-12)), f"{tag}:monotone", lambda: f"{k}: {d}")
    ctx.event("reordered")
    p = np.array(rng.sample(range(len(v)), len(v)))
    ctx.check(np.array_equal(np.asarray(o.evaluate(v[p])), w[p]), f"{tag}:order", lambda: f"{k}: order matters")
    ctx.check(np.allclose([float(o.evaluate(np.array([x]))[0]) for x in v[:6]], w[:6], rtol=1e-13, atol=1e-15), f"{tag}:batch", lambda: f"{k}: batching matters")
    ctx.check(np.allclose(np.asarray(o.evaluate(v.reshape(2, -1))).ravel(), w, rtol=1e-13, atol=1e-15), f"{tag}:shape2", lambda: f"{k}: shape matters")
    ctx.check(np.allclose(float(o.evaluate(np.float64(v[0]))), w[0], rtol=1e-13, atol=1e-15), f"{tag}:scalar", lambda: f"{k}: scalar differs")
    n = np.array([-3, 0, 1, 2, 7])
    ctx.check(np.allclose(np.asarray(o.evaluate(n), dtype=float), [oracle(k, float(x)) for x in n], rtol=1e-9, atol=1e-9), f"{tag}:integers", lambda: f"{k}: {o.evaluate(n)}")


def slack(k, v):
    if k["kind"] == "double":
        span = min(k["low"][1] - k["low"][0], k["high"][1] - k["high"][0])
        size = max(abs(x) for x in (*k["low"], *k["high"]))
    else:
        span, size = k["hi"] - k["lo"], max(abs(k["hi"]), abs(k["lo"]))
    return 0.0 if span == 0 else 1e-14 * size / span * (10 + k.get("steep", 1))


def kernel(ctx, rng, i):
    """one kernel: values, changes, export"""
    k = g_kernel(rng)
    o = build(k)
    ctx.event("kernel")
    judge(ctx, o, k, rng, "kernel")
    for _ in range(rng.randint(0, 2)):
        if k["kind"] == "double":
            w = rng.uniform(0.05, 1)
            k["low"], k["high"] = (k["low"][0], k["low"][0] + w), (k["low"][0] + 2 * w, k["low"][0] + 3 * w)
            o.high_cut, o.low_cut = k["high"], k["low"]
        elif rng.random() < 0.5:
            k["side"] = "low cut" if k["side"] == "high cut" else "high cut"
            o.threshold = k["side"]
        else:
            k["hi"] = k["hi"] + rng.uniform(0.1, 3)
            o.transition_upper_bound = k["hi"]
        judge(ctx, o, k, rng, "changed")
    ctx.event("exported")
    q = build(g_kernel(rng) | {"kind": k["kind"], "style": "hann" if k["kind"] != "activation" else "sigmoid", "steep": 2.0, "low": (0, 1), "high": (2, 3)})
    how = rng.choice(["dict", "json"])
    q.from_dict(o.to_dict()) if how == "dict" else q.from_json(o.to_json())
    ctx.check(q == o, f"export:{how}", lambda: f"{o.to_dict()} {q.to_dict()}")
    judge(ctx, q, k, rng, "export")
    if k["kind"] == "activation" and rng.random() < 0.3:
        q.transition_lower_bound = -math.inf
        w = np.asarray(q.evaluate(np.array([1, 2, 3])))
        ctx.check(w.shape == (3,) and bool(np.all((w >= 0) & (w <= 1))) and len(set(w.tolist())) == 1, "infinite", lambda: f"{w}")
        ctx.check(np.array_equal(w, q.evaluate(np.array([1.0, 2.0, 3.0]))), "infinite:dtype", lambda: f"{w}")
    ctx.case(tuple(sorted((a, str(b)) for a, b in k.items())), {"kernel": {a: str(b) for a, b in k.items()}})


def combine(ctx, rng, i):
    """kernels of a feature, features of a channel"""
    from mt_metadata.features.coherence import Coherence
    from mt_metadata.features.fc_coherence import FCCoherence
    from mt_metadata.features.striding_window_coherence import StridingWindowCoherence
    from mt_metadata.features.weights import ChannelWeightSpec, FeatureWeightSpec
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    classes = {"coherence": Coherence, "fc_coherence": FCCoherence, "striding_window_coherence": StridingWindowCoherence}
    names = rng.sample(sorted(classes), rng.randint(0, 3))
    style = rng.choice(["multiplication", "minimum", "maximum", "mean"])
    n = rng.choice([1, 2, 3, 7])
    shape = (n,) if rng.random() < 0.7 else (n, 2)
    values, specs, parts, applied, pairs = {}, [], [], [], []
    for name in names:
        ks = [g_kernel(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        ks = [dict(k, kind="taper", style=rng.choice(["hann", "rectangle"])) if k["kind"] == "double" else k for k in ks]
        objs = [build(k) for k in ks]
        on = []
        for o, k in zip(objs, ks):
            a = rng.choice([None, None, True, False])
            o.active = a
            if a is False:
                ctx.event("inactive")
            else:
                on.append(k)
        f = classes[name](channel_1=rng.choice(["ex", "hy", "rx"]), channel_2=rng.choice(["hx", "ry"]))
        f.window.num_samples = rng.choice([64, 128])
        pairs.append((f.channel_1, f.channel_2, f.window.num_samples))
        s = FeatureWeightSpec(feature=f, weight_kernels=objs, feature_name="coherence") if rng.random() < 0.5 else FeatureWeightSpec()
        if not s.weight_kernels and objs or s.feature.name != name:
            s.feature = f
            s.weight_kernels = objs
        specs.append(s)
        v = np.array([rng.choice([rng.uniform(-2, 2), float(rng.randint(-5, 5))]) for _ in range(int(np.prod(shape)))]).reshape(shape)
        values[name] = v
        parts.append(np.array([math.prod(oracle(k, float(x)) for k in on) for x in v.ravel()]).reshape(shape))
        applied.append(np.array([math.prod(oracle(k, float(x)) for k in ks) for x in v.ravel()]).reshape(shape))
    c = ChannelWeightSpec(combination_style=style, output_channels=["ex", "hz"])
    c.feature_weight_specs = specs
    how_to = {"multiplication": np.prod, "mean": np.mean, "minimum": np.min, "maximum": np.max}[style]
    want = how_to(parts, axis=0) if parts else 1.0
    want_applied = how_to(applied, axis=0) if parts else 1.0

    def same(a, b):
        return np.allclose(np.broadcast_to(a, np.shape(b)), b, rtol=1e-9, atol=1e-9)

    def ask(c, where):
        ctx.event("combined")
        shapes = set()
        for s, name, p, q in zip(c.feature_weight_specs, names, parts, applied):
            w = np.asarray(s.evaluate(values[name]), dtype=float)
            shapes.add(w.shape)
            mech = "inactive_kernel_applied" if same(w, q) else f"{where}:feature"
            ctx.check(same(w, p), mech, lambda: f"{name}: {w} want {p}")
        full = {**values, "other": np.zeros(3)}
        try:
            w = np.asarray(c.evaluate(full), dtype=float)
        except ValueError as e:
            if len(shapes) < 2:
                raise
            ctx.check(False, "unweighted_among_weighted", f"a feature without kernels together with one with kernels: {e}")
        else:
            mech = "inactive_kernel_applied" if same(w, want_applied) else f"{where}:{style}"
            ctx.check(same(w, want), mech, lambda: f"{names}: {w} want {want}")
        ctx.check(labels(c) == pairs, f"{where}:features", lambda: f"{labels(c)} want {pairs}")
        if names:
            gone = rng.choice(names)
            try:
                c.evaluate({k: v for k, v in values.items() if k != gone})
                ctx.check(False, f"{where}:missing_feature", f"{gone} is missing and not missed")
            except KeyError:
                pass

    def labels(c):
        return [(s.feature.channel_1, s.feature.channel_2, s.feature.window.num_samples) for s in c.feature_weight_specs]

    ask(c, "combine")
    how = rng.choice(["dict", "json", "level", "level_json"])
    ctx.event("exported")
    q = ChannelWeightSpec()
    try:
        if how == "dict":
            q.from_dict(c.to_dict())
        elif how == "json":
            q.from_json(c.to_json())
        else:
            d, e = DecimationLevel(), DecimationLevel()
            d.channel_weight_specs = [c]
            e.from_dict(d.to_dict()) if how == "level" else e.from_json(d.to_json())
            q = e.channel_weight_specs[0]
    except ValueError as e:
        # the declared default of the feature name is none of its options
        if "feature_name" not in str(e) or all(s.feature_name for s in c.feature_weight_specs):
            raise
        ctx.check(False, "spec_import:empty_feature_name", str(e))
    else:
        facts = [[x.combination_style, list(x.output_channels), [type(s.feature).__name__ for s in x.feature_weight_specs]] for x in (c, q)]
        ctx.check(facts[0] == facts[1], f"export:{how}", lambda: f"{facts}")
        if len(q.feature_weight_specs) == len(names):
            whole = True
            for s, t in zip(c.feature_weight_specs, q.feature_weight_specs):
                a, b = [[type(k).__name__ + repr(k.to_dict()) for k in x.weight_kernels] for x in (s, t)]
                whole &= ctx.check(a == b, f"export:{how}:kernels" if b else "spec_import:kernels_lost", lambda: f"{a} | {b}")
                fresh = type(t.feature)()
                lost = (t.feature.channel_1, t.feature.channel_2) == (fresh.channel_1, fresh.channel_2)
                whole &= ctx.check(s.feature == t.feature, "spec_import:feature_lost" if lost else f"export:{how}:feature", lambda: f"{s.feature.to_dict()} | {t.feature.to_dict()}")
            if whole:
                ask(q, how)
    ctx.case((tuple(names), style, shape), {"features": names, "style": style})


def bands(ctx, rng, i):
    """weights along frequency, picked for a band"""
    import xarray as xr
    from mt_metadata.common.band import Band
    from mt_metadata.features.weights import ChannelWeightSpec
    n = rng.randint(1, 12)
    kind = rng.choice(["array", "dataarray", "dataset"])
    f = np.arange(n, dtype=float) if kind == "array" else np.sort(np.array([10 ** rng.uniform(-3, 2) for _ in range(n)]))
    if kind != "array" and rng.random() < 0.5:
        f = f[::-1].copy()
    m = rng.choice([0, 1, 3])
    w = np.array([[rng.random() for _ in range(m or 1)] for _ in range(n)])
    w = w if m else w[:, 0]
    c = ChannelWeightSpec()
    name = rng.choice(["frequency", "freq"])
    if kind == "array":
        c.weights = w
    else:
        flip = m and rng.random() < 0.4
        da = xr.DataArray(w.T if flip else w, dims=(["time", name] if flip else [name, "time"]) if m else [name], coords={name: f})
        c.weights = da if kind == "dataarray" else da.to_dataset(name="w")
    for _ in range(3):
        a = 10 ** rng.uniform(-3, 2)
        b = Band(frequency_min=a, frequency_max=a * rng.choice([1.0, 1.5, 10.0]), center_averaging_type=rng.choice(["geometric", "arithmetic"]))
        centre = math.sqrt(b.frequency_min * b.frequency_max) if b.center_averaging_type.value == "geometric" else (b.frequency_min + b.frequency_max) / 2
        dist = np.abs(f - centre)
        near = [j for j in range(n) if dist[j] <= dist.min() * (1 + 1e-9)]
        got = c.get_weights_for_band(b)
        got = np.asarray(got["w"] if kind == "dataset" else got)
        ctx.event("band")
        ctx.check(any(np.array_equal(got, w[j]) for j in near), f"band:{kind}", lambda: f"{got} want {w[near[0]]} at {centre} of {f}")
    ctx.case((n, kind, m), {"kind": kind, "n": n})


WORKLOADS = [Workload("kernel", kernel, 500, 8000), Workload("combine", combine, 250, 3000), Workload("bands", bands, 200, 3000)]
