"""P18: a channel's total response is the product of its chosen filters."""
import math

import numpy as np

from mon import filt, gen
from mon.core import Workload

RULE = ("case = (random connected chain of 0..6 filters, flags, frequency arrays); the response of every request is compared with the product of the harness's own member responses, "
        "members are snapshotted before and after; or a history of evaluations and list changes on one chain; or a list with broken unit links that must be refused")
ASSUME = ["the frequencies a chain was last asked for, and the reference frequency it chooses when none is set, are its evaluation state, not part of its definition",
          "gains are non-zero"]
NEED = {"response": 1500, "flags": 800, "refused": 200, "accepted": 200, "derived": 500, "history_step": 800}


def CR():
    from mt_metadata.timeseries.filters import ChannelResponse

    return ChannelResponse


def g_chain(rng, n=None, lo=0):
    n = rng.randint(lo, 6) if n is None else n
    units = [rng.choice(filt.UNITS) for _ in range(n + 1)]
    fs, ps = [], []
    for k in range(n):
        f, p = filt.g_filter(rng, rng.choice(["zpk", "coefficient", "time delay", "fir", "fir", "fap"]), name=f"{rng.choice(filt.NAMES)}_{k}", units=(units[k], units[k + 1]))
        p["gain"] = f.gain = rng.choice([1.0, 2.0, -0.5, 1e-3, 123.456, 1e4, round(rng.uniform(0.1, 30), 3)])
        fs.append(f)
        ps.append(p)
    return fs, ps


def chosen(ps, dec, delay):
    return [p for p in ps if (delay or p["kind"] != "time delay") and (dec or not (p["kind"] == "fir" and p["decimation"] != 1))]


def freqs(rng, ps):
    """inside every FIR's band, and inside every table"""
    hi = min([p["fs"] / 2 for p in ps if p["kind"] == "fir"] + [2000.0])
    n = rng.choice([1, 2, 3, 9, 30])
    f = [10 ** rng.uniform(math.log10(hi) - 4, math.log10(hi)) for _ in range(n)]
    return f


def product(ps, f):
    h = np.ones(len(f), dtype=complex)
    slack = 0.0
    for p in ps:
        h = h * filt.response(p, f)
    # slack: sum over members of its absolute slack times the others
    rs = [np.abs(filt.response(p, f)) for p in ps]
    tot = np.zeros(len(f))
    for i, p in enumerate(ps):
        t = np.full(len(f), filt.tol(p, f)) if np.ndim(filt.tol(p, f)) == 0 else filt.tol(p, f)
        for j, r in enumerate(rs):
            if j != i:
                t = t * r
        tot = tot + t
    return h, tot * 2 + slack


def ask(ctx, cr, ps, rng, f, tag):
    dec, delay, norm = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3
    ctx.event("response")
    ctx.event("flags")
    if any(q["kind"] == "fap" for q in ps):
        pass
    ps2 = chosen(ps, dec, delay)
    arr = rng.choice([list, np.array])(f)
    how = rng.random()
    if how < 0.25:
        members = [m for m in cr.filters_list]
        keep = [k for k in range(len(members)) if rng.random() < 0.6]
        got = cr.complex_response(arr, filters_list=[members[k] for k in keep], normalize=norm)
        ps2 = [ps[k] for k in keep]
    elif how < 0.35:
        cr.complex_response(arr)
        got = cr.complex_response(include_decimation=dec, include_delay=delay, normalize=norm)
    else:
        got = cr.complex_response(arr, include_decimation=dec, include_delay=delay, normalize=norm)
    want, slack = product(ps2, f)
    if norm and ps2:
        m = np.max(np.abs(want))
        if m == 0:
            return None
        want, slack = want / m, slack / m * 2
    ctx.check(filt.close(got, want, 1e-6, slack), f"{tag}:product{':normalised' if norm else ''}",
              lambda: f"{[(p['kind'], p.get('decimation')) for p in ps]} dec={dec} delay={delay} {np.asarray(got)[:3]} wants {np.asarray(want)[:3]}")
    return got


def definition(cr):
    s = [gen.snap(m) for m in cr.filters_list]
    return s, cr.units_in, cr.units_out, list(cr.names)


def one(ctx, rng, i):
    fs, ps = g_chain(rng)
    snaps = [gen.snap(f) for f in fs]
    cr = CR()(filters_list=list(fs))
    d0 = definition(cr)
    ctx.check(d0[0] == snaps, "construction_changed_member", "")
    for _ in range(3):
        f = freqs(rng, ps)
        keep = np.array(f)
        got = ask(ctx, cr, ps, rng, f, "value")
        ctx.check(np.array_equal(keep, np.array(f)), "input_changed", "")
        if got is not None:
            got *= 0
        d = definition(cr)
        ctx.check(d == d0, "evaluation_changed_chain", lambda: str(gen.diff(d0[0], d[0]))[:300] if d[0] != d0[0] else f"{d0[1:]} -> {d[1:]}")
        ctx.check([gen.snap(x) for x in fs] == snaps, "evaluation_changed_member", "")
    derived(ctx, cr, fs, ps)
    # the same product under grouping: two chains multiplied
    if len(fs) > 1:
        k = rng.randint(1, len(fs) - 1)
        f = freqs(rng, ps)
        a, b = CR()(filters_list=fs[:k]), CR()(filters_list=fs[k:])
        h = a.complex_response(f, include_decimation=True, include_delay=True) * b.complex_response(f, include_decimation=True, include_delay=True)
        want, slack = product(ps, f)
        ctx.check(filt.close(h, want, 1e-6, slack), "grouping", "")
    ctx.case(tuple(repr(p) for p in ps), {"members": [(p["kind"], p["units_in"], p["units_out"], p["gain"]) for p in ps]})


def sig(x, n):
    return round(x, n - int(np.floor(np.log10(abs(x)))))


def derived(ctx, cr, fs, ps):
    ctx.event("derived")
    ctx.check(list(cr.names) == [p["name"] for p in ps], "names", lambda: cr.names)
    delays = [p for p in ps if p["kind"] == "time delay"]
    ctx.check(filt.close(cr.total_delay, sum(p["delay"] for p in delays), 1e-9, 1e-12), "total_delay", lambda: f"{cr.total_delay} wants {[p['delay'] for p in delays]}")
    ctx.check([f.name for f in cr.delay_filters] == [p["name"] for p in delays], "delay_filters", lambda: [f.name for f in cr.delay_filters])
    ctx.check([f.name for f in cr.non_delay_filters] == [p["name"] for p in ps if p["kind"] != "time delay"], "non_delay_filters", "")
    if ps:
        ctx.check((cr.units_in, cr.units_out) == (ps[0]["units_in"], ps[-1]["units_out"]), "units", lambda: f"{cr.units_in} {cr.units_out} wants {ps[0]['units_in']} {ps[-1]['units_out']}")
    for dec in (True, False):
        for delay in (True, False):
            got = [f.name for f in cr.get_list_of_filters_to_remove(include_decimation=dec, include_delay=delay)]
            want = [p["name"] for p in chosen(ps, dec, delay)]
            ctx.check(got == want, "filters_to_remove", lambda: f"{dec} {delay} {got} wants {want}")
    g = 1.0
    for p in ps:
        g *= p["gain"]
    ctx.check(filt.close(cr.compute_total_gain(), g, 1e-12), "total_gain", lambda: f"{cr.compute_total_gain()} wants {g}")
    f0 = [0.125 * min([p["fs"] for p in ps if p["kind"] == "fir"] + [8.0])]
    want, slack = product(ps, f0)
    w = abs(want[0])
    if w > 1e-12 and slack[0] < 1e-4 * w:
        c = CR()(filters_list=list(fs))
        got = c.compute_instrument_sensitivity(normalization_frequency=f0[0])
        ctx.check(filt.close(got, w, 2e-6), "sensitivity", lambda: f"{got} wants {w}")
        ctx.check(c.normalization_frequency == f0[0], "normalization_frequency", lambda: c.normalization_frequency)
    # pass band: the common part of the members' own
    f = np.logspace(-3, 3, 40)
    c = CR()(filters_list=list(fs), frequencies=f)
    bands = [m.pass_band(f) for m in fs]
    if fs:
        lo, hi = max(b.min() for b in bands), min(b.max() for b in bands)
        pb = c.pass_band
        ctx.check(pb is not None and (pb[0], pb[1]) == (lo, hi), "pass_band", lambda: f"{pb} wants {lo} {hi}")
    else:
        ctx.check(c.pass_band is None, "pass_band_empty", lambda: c.pass_band)


def links(ctx, rng, i):
    """exactly the lists whose units connect are accepted, at construction and assignment"""
    fs, ps = g_chain(rng, n=rng.randint(2, 6))
    k = rng.randrange(1, len(fs))
    other = rng.choice([u for u in filt.UNITS if u not in (ps[k - 1]["units_out"], ps[k]["units_in"])])
    bad = [f.copy() for f in fs]
    if rng.random() < 0.5:
        bad[k].units_in = other
    else:
        bad[k - 1].units_out = other
    how = rng.choice(["ctor", "assign"])
    cr = CR()(filters_list=list(fs))
    ctx.event("accepted")
    before = definition(cr)
    try:
        if how == "ctor":
            CR()(filters_list=list(bad))
        else:
            cr.filters_list = list(bad)
        refused = False
    except (ValueError, TypeError):
        refused = True
    ctx.event("refused")
    ctx.check(refused, f"unconnected_accepted:{how}", lambda: [(f.units_in, f.units_out) for f in bad])
    ctx.check(definition(cr) == before, "refusal_changed_chain", lambda: f"{before[1:]} -> {definition(cr)[1:]}")
    f = freqs(rng, ps)
    ask(ctx, cr, ps, rng, f, "after_refusal")
    junk = rng.choice(["a filter", 5, None, {"name": "x"}, object()])
    try:
        CR()(filters_list=[*fs, junk])
        refused = False
    except Exception:
        refused = True
    ctx.check(refused, "not_a_filter_accepted", lambda: repr(junk))
    ctx.case((tuple(repr(p) for p in ps), k, how), None)


def history(ctx, rng, i):
    """evaluations, replaced lists and changed members on one chain object"""
    fs, ps = g_chain(rng, lo=1)
    cr = CR()(filters_list=list(fs))
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["ask", "ask", "replace", "gain", "delay", "derived", "copy"])
        ctx.event("history_step")
        if op == "ask":
            ask(ctx, cr, ps, rng, freqs(rng, ps), "history")
        elif op == "replace":
            fs, ps = g_chain(rng, lo=1)
            cr.filters_list = list(fs)
            derived(ctx, cr, list(cr.filters_list), ps)
        elif op == "gain" and ps:
            k = rng.randrange(len(ps))
            ps[k]["gain"] = round(rng.uniform(0.1, 9), 3)
            cr.filters_list[k].gain = ps[k]["gain"]
        elif op == "delay":
            for k, p in enumerate(ps):
                if p["kind"] == "time delay":
                    p["delay"] = cr.filters_list[k].delay = round(rng.uniform(-1, 1), 4)
        elif op == "derived":
            derived(ctx, cr, list(cr.filters_list), ps)
        elif op == "copy":
            c = cr.copy()
            ask(ctx, c, ps, rng, freqs(rng, ps), "copy")
            if ps:
                c.filters_list[0].gain = 77.0
                ask(ctx, cr, ps, rng, freqs(rng, ps), "copy_independent")
    ctx.case(tuple(repr(p) for p in ps), None)


def channel(ctx, rng, i):
    """a channel of a survey gives the chain its applied-filter list names, in that order"""
    from mt_metadata.timeseries import Electric

    fs, ps = g_chain(rng, lo=1)
    names = [p["name"].lower() for p in ps]
    if len(set(names)) != len(names):
        return
    ch = Electric(component="ex")
    pool = {}
    order = list(range(len(fs)))
    rng.shuffle(order)
    for k in order:  # the pool's own order must not matter
        pool[fs[k].name] = fs[k]
    extra, _ = filt.g_filter(rng, name="unused_filter")
    pool[extra.name] = extra
    for k, p in enumerate(ps):
        ch.add_filter(name=p["name"], applied=True, stage=k + 1)
    snaps = {k: gen.snap(v) for k, v in pool.items()}
    cr = ch.channel_response(pool)
    ctx.event("response")
    ctx.check([f.name for f in cr.filters_list] == [p["name"] for p in ps], "channel:order", lambda: f"{[f.name for f in cr.filters_list]} wants {[p['name'] for p in ps]}")
    f = freqs(rng, ps)
    want, slack = product(ps, f)
    got = cr.complex_response(f, include_decimation=True, include_delay=True)
    ctx.check(filt.close(got, want, 1e-6, slack), "channel:product", "")
    ctx.check({k: gen.snap(v) for k, v in pool.items()} == snaps, "channel:pool_changed", "")
    ctx.case(tuple(repr(p) for p in ps), None)


WORKLOADS = [Workload("one", one, 700, 9000), Workload("links", links, 300, 4000), Workload("history", history, 400, 5000), Workload("channel", channel, 200, 2000)]
