"""P26: frequency bands partition and select as declared."""
import math

import numpy as np
import pandas as pd

from mon import gen
from mon.core import Workload

RULE = ("case = a band (random edges, closure, averaging) against axes whose samples fall on, next to and away from the edges, changed and asked again; or a collection of bands given as array or data frame, sorted, iterated, "
        "exported; or a decimation level of bands on an FFT axis; the harness decides membership, order and derived numbers by itself")
ASSUME = ["axes are sorted (index ranges are ranges)", "band edges are finite and lower <= upper", "whether a band that is open at an edge contains one that ends at that edge is left open", "ties in the sorting key may come in either order"]
NEED = {"band": 400, "member": 20000, "on_edge": 600, "empty_band": 60, "collection": 300, "sorted": 600, "level": 150, "partition": 4000, "exported": 400, "overlap": 2000}
CLOSED = ("left", "right", "both")


def inside(f, lo, hi, closed):
    a = f >= lo if closed in ("left", "both") else f > lo
    b = f <= hi if closed in ("right", "both") else f < hi
    return a and b


def g_axis(rng):
    k = rng.random()
    n = rng.choice([1, 2, 5, 16, 33, 128])
    if k < 0.5:
        return np.arange(n) * rng.choice([0.25, 1.0, 0.1, 1 / 3])
    if k < 0.8:
        return np.sort(np.array([10 ** rng.uniform(-4, 3) for _ in range(n)]))
    return np.fft.rfftfreq(2 * n, 1 / rng.choice([1.0, 8.0, 150.0]))


def g_edges(rng, axis=None):
    if axis is not None and rng.random() < 0.7:
        a, b = sorted([float(rng.choice(list(axis))), float(rng.choice(list(axis)))])
        k = rng.random()
        if k < 0.3:
            return a, b
        a, b = sorted([float(np.nextafter(a, rng.choice([-1, 1e9]))), float(np.nextafter(b, rng.choice([-1, 1e9])))]) if k < 0.6 else sorted([a * rng.uniform(0.9, 1.1), b * rng.uniform(0.9, 1.1)])
        return max(a, 0.0), max(b, 0.0)
    a, b = sorted([10 ** rng.uniform(-5, 4), 10 ** rng.uniform(-5, 4)])
    if rng.random() < 0.3:
        b = a * (1 + 10 ** rng.uniform(-12, -1))
    return a, b


def check_band(ctx, b, lo, hi, closed, kind, axis):
    ctx.event("member", len(axis))
    want = [k for k, f in enumerate(axis) if inside(f, lo, hi, closed)]
    ctx.event("on_edge", int(np.isin(axis, [lo, hi]).sum()))
    harm = b.in_band_harmonics(axis)
    d = lambda: f"[{lo!r},{hi!r}] closed {closed} on {axis[:6]}..."
    ctx.check(list(harm) == [axis[k] for k in want], f"harmonics:{closed}", lambda: f"{d()}: {list(harm)[:6]} wants {[axis[k] for k in want][:6]}")
    if want:
        b.set_indices_from_frequencies(axis)
        ctx.check((b.index_min, b.index_max) == (want[0], want[-1]), "index_range", lambda: f"{d()}: {b.index_min}..{b.index_max} wants {want[0]}..{want[-1]}")
        ctx.check(list(b.harmonic_indices) == want, "harmonic_indices", lambda: f"{d()}: {list(b.harmonic_indices)[:6]} wants {want[:6]}")
    else:
        ctx.event("empty_band")
    ctx.check(bool(b.lower_closed) == (closed in ("left", "both")) and bool(b.upper_closed) == (closed in ("right", "both")), "closed_flags", lambda: f"{closed}: {b.lower_closed} {b.upper_closed}")
    ctx.check(b.lower_bound == lo and b.upper_bound == hi, "bounds", lambda: f"{d()}: {b.lower_bound} {b.upper_bound}")
    ctx.check(b.width == hi - lo, "width", lambda: f"{d()}: {b.width}")
    centre = math.sqrt(lo * hi) if kind == "geometric" else (lo + hi) / 2
    near = lambda x, y: (math.isinf(x) and math.isinf(y)) or abs(x - y) <= 1e-12 * abs(y)
    ctx.check(near(b.center_frequency, centre), f"centre:{kind}", lambda: f"{d()}: {b.center_frequency} wants {centre}")
    if centre > 0:
        ctx.check(near(b.center_period, 1 / centre), "centre_period", lambda: f"{d()}: {b.center_period}")
        fb = (hi - lo) / centre
        ctx.check(near(b.fractional_bandwidth, fb), "fractional_bandwidth", lambda: f"{d()}: {b.fractional_bandwidth} wants {fb}")
        ctx.check(near(b.Q, 1 / fb if fb else math.inf), "Q", lambda: f"{d()}: {b.Q}")


def band(ctx, rng, i):
    from mt_metadata.common.band import Band

    axis = g_axis(rng)
    lo, hi = g_edges(rng, axis)
    closed, kind = rng.choice(CLOSED), rng.choice(["geometric", "arithmetic"])
    ctx.event("band")
    name = rng.choice(["", "b1", None])
    kw = {} if name is None else {"name": name}
    b = Band(frequency_min=lo, frequency_max=hi, closed=closed, center_averaging_type=kind, decimation_level=rng.randint(0, 4), **kw)
    check_band(ctx, b, lo, hi, closed, kind, axis)
    # changed and asked again
    for _ in range(2):
        k = rng.choice(["edges", "closed", "kind", "all"])
        if k in ("edges", "all"):
            lo, hi = g_edges(rng, axis)
            if lo > b.frequency_max:
                b.frequency_max, b.frequency_min = hi, lo
            else:
                b.frequency_min, b.frequency_max = lo, hi
        if k in ("closed", "all"):
            closed = rng.choice(CLOSED)
            b.closed = closed
        if k in ("kind", "all"):
            kind = rng.choice(["geometric", "arithmetic"])
            b.center_averaging_type = kind
        check_band(ctx, b, lo, hi, closed, kind, axis)
    # export and import
    back = Band()
    back.from_dict(b.to_dict())
    ctx.event("exported")
    check_band(ctx, back, lo, hi, closed, kind, axis)
    ctx.check(back == b and back.name == b.name and (back.index_min, back.index_max, back.decimation_level) == (b.index_min, b.index_max, b.decimation_level), "export", lambda: f"{b.to_dict(single=True)} {back.to_dict(single=True)}")
    # pairs
    for _ in range(6):
        lo2, hi2 = g_edges(rng, np.array([lo, hi, (lo + hi) / 2, hi * 2]))
        c2 = rng.choice(CLOSED)
        o = Band(frequency_min=lo2, frequency_max=hi2, closed=c2)
        ctx.event("overlap")
        # any point common to both: only the larger lower edge, the smaller upper edge and the middle matter
        a, z = max(lo, lo2), min(hi, hi2)
        common = a < z or (a == z and inside(a, lo, hi, closed) and inside(a, lo2, hi2, c2))
        if lo < hi and lo2 < hi2:
            ctx.check(bool(b.overlaps(o)) == common and bool(o.overlaps(b)) == common, "overlaps", lambda: f"[{lo},{hi}] {closed} and [{lo2},{hi2}] {c2}: {b.overlaps(o)} {o.overlaps(b)} wants {common}")
        left = lo2 > lo or (lo2 == lo and closed in ("left", "both"))
        right = hi2 < hi or (hi2 == hi and closed in ("right", "both"))
        if lo2 < lo or hi2 > hi or (lo2 == lo and not left and c2 in ("left", "both")) or (hi2 == hi and not right and c2 in ("right", "both")):
            ctx.check(not b.contains(o), "contains", lambda: f"[{lo},{hi}] {closed} says it contains [{lo2},{hi2}] {c2}")
        elif left and right and lo2 < hi2:
            ctx.check(b.contains(o), "contains", lambda: f"[{lo},{hi}] {closed} says it does not contain [{lo2},{hi2}] {c2}")
    ctx.case((lo, hi, closed, kind, len(axis)), {"edges": [lo, hi], "closed": closed, "averaging": kind, "axis": axis[:3].tolist()})


def collection(ctx, rng, i):
    from mt_metadata.processing.aurora.frequency_bands import FrequencyBands

    ctx.event("collection")
    n = rng.choice([1, 2, 4, 9])
    joined = rng.random() < 0.5
    if joined:
        cuts = sorted({10 ** rng.uniform(-3, 3) for _ in range(n + 1)})
        edges = [(a, b) for a, b in zip(cuts, cuts[1:])]
    else:
        edges = [g_edges(rng) for _ in range(n)]
    order = rng.choice(["up", "down", "shuffled"])
    if order == "down":
        edges = edges[::-1]
    elif order == "shuffled":
        rng.shuffle(edges)
    src = np.array(edges, float)
    if rng.random() < 0.5:
        fb = FrequencyBands(band_edges=src.copy())
        given = None
    else:
        given = pd.DataFrame({"x": np.arange(len(src)), "upper_bound": src[:, 1], "lower_bound": src[:, 0]}, index=rng.sample(range(100), len(src)))
        keep = given.copy()
        fb = FrequencyBands(band_edges=given)
    rows = lambda: [tuple(map(float, r)) for r in fb.array]
    ctx.check(rows() == [tuple(e) for e in edges], "given_order", lambda: f"{rows()} wants {edges}")
    ctx.check(fb.number_of_bands == len(edges), "number", lambda: fb.number_of_bands)
    geo = lambda e: math.sqrt(e[0] * e[1])
    centres = lambda es: [geo(e) for e in es]
    key = {"lower_bound": lambda e: e[0], "upper_bound": lambda e: e[1], "center_frequency": geo}

    def ordered(have, want_set, by, ascending, tag):
        ctx.event("sorted")
        v = [key[by](e) for e in have]
        good = all((a <= b * (1 + 1e-14)) if ascending else (a * (1 + 1e-14) >= b) for a, b in zip(v, v[1:]))
        ctx.check(good and sorted(have) == sorted(want_set), f"{tag}:{by}:{'up' if ascending else 'down'}", lambda: f"{have} from {want_set}")

    # lists of bands, without changing the collection
    for _ in range(3):
        direction, by, rtype = rng.choice(["increasing_frequency", "increasing_period"]), rng.choice([None, "lower_bound", "upper_bound", "center_frequency"]), rng.choice(["list", "generator"])
        before = rows()
        bl = [(b.frequency_min, b.frequency_max) for b in fb.bands(direction=direction, sortby=by, rtype=rtype)]
        ctx.check(rows() == before, "bands_reorders", lambda: f"{before} -> {rows()}")
        if by is None and direction == "increasing_frequency":
            ctx.check(bl == before, "bands_as_stored", lambda: f"{bl} wants {before}")
        else:
            ordered(bl, edges, by or "center_frequency", direction == "increasing_frequency", "bands")
    for k in range(len(edges)):
        b = fb.band(k)
        ctx.check((b.frequency_min, b.frequency_max) == rows()[k], "band", lambda: f"{k}: {b.frequency_min} {b.frequency_max}")
    got = list(fb.band_centers())
    ctx.check(np.allclose(got, centres(rows()), rtol=1e-12), "centres", lambda: f"{got} wants {centres(rows())}")
    got = list(fb.band_centers(frequency_or_period="period"))
    ctx.check(np.allclose(got, [1 / c for c in centres(rows())], rtol=1e-12), "centre_periods", lambda: f"{got}")
    if joined:
        # neighbouring bands share no frequency and lose none
        probes = sorted({e for pair in edges for e in pair} | {10 ** rng.uniform(-3, 3) for _ in range(20)})
        lo, hi = min(e[0] for e in edges), max(e[1] for e in edges)
        bs = fb.bands()
        for f in probes:
            ctx.event("partition")
            k = sum(len(b.in_band_harmonics(np.array([f]))) for b in bs)
            ctx.check(k == (1 if lo <= f < hi else 0), "partition", lambda: f"{f} is in {k} of {edges}")
    # export
    again = FrequencyBands(band_edges=fb.band_edges)
    ctx.event("exported")
    ctx.check([tuple(map(float, r)) for r in again.array] == rows(), "export", lambda: f"{again.array.tolist()}")
    again.sort(by="lower_bound", ascending=False)
    ctx.check(rows() == [tuple(e) for e in edges], "shared_edges", lambda: f"sorting a copy changed the original {rows()}")
    # sort in place, several times
    for _ in range(3):
        by, asc = rng.choice(list(key)), rng.random() < 0.5
        fb.sort(by=by, ascending=asc)
        ordered(rows(), edges, by, asc, "sort")
        b = fb.band(0)
        ctx.check((b.frequency_min, b.frequency_max) == rows()[0], "band_after_sort", lambda: f"{b.frequency_min} {rows()}")
        ctx.check(np.allclose(list(fb.band_centers()), centres(rows()), rtol=1e-12), "centres_after_sort", lambda: f"{list(fb.band_centers())}")
    fb.validate()
    if len(set(centres(edges))) == len(edges):
        ordered(rows(), edges, "center_frequency", True, "validate")
    if given is not None:
        ctx.check(given.equals(keep), "input_changed", lambda: f"{given}")
    # refused
    for bad in (np.zeros(3), np.zeros((2, 3)), pd.DataFrame({"lower_bound": [1]}), [[1, 2]]):
        try:
            fb.band_edges = bad
            ctx.check(False, "accepted", lambda: repr(bad))
        except (ValueError, TypeError):
            pass
    ctx.check(sorted(rows()) == sorted(edges), "refusal_changes", lambda: rows())
    ctx.case((edges, order), {"bands": len(edges), "joined": joined, "order": order})


def level(ctx, rng, i):
    """bands of a decimation level on its FFT axis"""
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel

    ctx.event("level")
    d = DecimationLevel()
    n, rate = rng.choice([8, 32, 128, 256]), rng.choice([0.25, 1.0, 8.0, 150.0])
    d.stft.window.num_samples = n
    d.decimation.sample_rate = rate
    axis = np.array([k * rate / n for k in range(n // 2)])
    ctx.check(np.allclose(d.fft_frequencies, axis, rtol=1e-12), "fft_axis", lambda: f"{d.fft_frequencies[:4]} wants {axis[:4]}")
    ctx.check(abs(d.frequency_sample_interval - rate / n) <= 1e-15 * rate, "sample_interval", lambda: d.frequency_sample_interval)
    cuts = sorted(rng.sample(range(1, n // 2), min(rng.choice([2, 3, 6]), n // 2 - 1)))
    want, rowset = [], []
    for a, b in zip(cuts, cuts[1:]):
        bd = Band(frequency_min=float(axis[a]), frequency_max=float(axis[b]), decimation_level=0)
        bd.set_indices_from_frequencies(axis)
        want += list(range(a, b))
        rowset.append((a, b - 1, float(axis[a]), float(axis[b]), bd))
    order = list(rowset)
    rng.shuffle(order)
    for r in order:
        if rng.random() < 0.5:
            d.add_band(r[-1])
        else:
            d.add_band(r[-1].to_dict(single=True))
    ctx.check(list(d.harmonic_indices) == want, "level_harmonics", lambda: f"{d.harmonic_indices} wants {want}")
    ctx.check(list(d.lower_bounds) == [r[0] for r in rowset] and list(d.upper_bounds) == [r[1] for r in rowset], "level_bounds", lambda: f"{d.lower_bounds} {d.upper_bounds} wants {rowset}")
    ctx.check([tuple(map(float, x)) for x in d.band_edges] == [(r[2], r[3]) for r in rowset], "level_edges", lambda: f"{d.band_edges.tolist()}")
    df = d.bands_dataframe
    ctx.check([tuple(x) for x in df[["lower_bound_index", "upper_bound_index", "frequency_min", "frequency_max"]].itertuples(index=False)] == [r[:4] for r in rowset], "level_frame", lambda: f"{df}")
    fb = d.frequency_bands_obj()
    ctx.check([tuple(map(float, x)) for x in fb.array] == [(r[2], r[3]) for r in rowset], "level_collection", lambda: f"{fb.array.tolist()}")
    ctx.case((n, rate, cuts), {"samples": n, "rate": rate, "cuts": cuts})


WORKLOADS = [Workload("band", band, 600, 12000), Workload("collection", collection, 400, 8000), Workload("level", level, 200, 3000)]
