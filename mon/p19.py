"""P19: filters survive conversion to obspy response stages and back."""
import io

import numpy as np

from mon import filt, gen
from mon.core import Workload

RULE = ("case = a random filter converted to an obspy stage, the stage's facts compared with the harness's record, converted back and its response compared; "
        "or a random chain converted to an obspy response and its stages compared one by one, half of them through StationXML text")
ASSUME = ["a time delay filter has gain 1 and a delay other than 0, otherwise its stage is that of a coefficient filter",
          "a pole-zero filter has a pole, a zero or counts as a unit, otherwise its stage is read as a coefficient filter (the library writes them so)",
          "a FIR filter inside a chain has unit pairing the schema allows"]
NEED = {"stage": 500, "back": 500, "chain": 150, "kind:zpk": 80, "kind:fir": 80, "kind:fap": 80, "kind:time delay": 80, "kind:coefficient": 80}


def st():
    from mt_metadata.timeseries.filters import obspy_stages

    return obspy_stages


def sym(name):
    from mt_metadata.common.units import get_unit_object

    return get_unit_object(name).symbol


def g(rng, kind=None, **kw):
    f, p = filt.g_filter(rng, kind, **kw)
    if p["kind"] == "time delay":
        p["gain"] = f.gain = 1.0
        if not p["delay"]:
            p["delay"] = f.delay = 0.25
    if p["kind"] == "zpk" and not p["poles"] and not p["zeros"]:
        p["poles"] = [-3 + 4j]
        f.poles = [-3 + 4j]
    if rng.random() < 0.5:
        p["comment"] = gen.g_text(rng) if hasattr(gen, "g_text") else "calibrated in the field"
        f.comments = p["comment"]
    return f, p


def see(ctx, s, p, tag, number=None, rate=None, nf=None):
    k = p["kind"]
    ctx.event("stage")
    ctx.event(f"kind:{k}")

    def c(ok, what, say=lambda: ""):
        ctx.check(ok, f"{tag}:{what}:{k}", say)

    c(s.name == p["name"], "name", lambda: s.name)
    c(s.stage_gain == p["gain"], "gain", lambda: f"{s.stage_gain} wants {p['gain']}")
    c((s.input_units, s.output_units) == (sym(p["units_in"]), sym(p["units_out"])), "units", lambda: f"{s.input_units} {s.output_units}")
    c((s.input_units_description, s.output_units_description) == (p["units_in"], p["units_out"]), "unit_names", lambda: f"{s.input_units_description} {s.output_units_description}")
    if number:
        c(s.stage_sequence_number == number, "number", lambda: s.stage_sequence_number)
    if "comment" in p:
        c(isinstance(s.description, str) and s.description == p["comment"], "description", lambda: f"{type(s.description)} {s.description!r} wants {p['comment']!r}")
    if k == "zpk":
        c(same_c(s.poles, p["poles"]) and same_c(s.zeros, p["zeros"]), "roots", lambda: f"{s.poles} {p['poles']}")
        c(s.normalization_factor == p["norm"], "norm", lambda: s.normalization_factor)
        c(s.pz_transfer_function_type == "LAPLACE (RADIANS/SECOND)", "pz_type", lambda: s.pz_transfer_function_type)
    elif k == "fir":
        c(same_c(s.coefficients, p["coefficients"]), "coefficients", lambda: s.coefficients)
        c(s.symmetry == p["symmetry"], "symmetry", lambda: s.symmetry)
        c((s.decimation_factor, s.decimation_input_sample_rate) == (p["decimation"], p["fs"]), "decimation", lambda: f"{s.decimation_factor} {s.decimation_input_sample_rate}")
        ctx.check(s.stage_gain_frequency == p["gf"], "fir_gain_frequency", lambda: f"{s.stage_gain_frequency} wants {p['gf']}")
        c(s.stage_gain_frequency in (p["gf"], nf), "gain_frequency", lambda: f"{s.stage_gain_frequency} wants {p['gf']}")
        p["gf"] = s.stage_gain_frequency  # known finding: what follows is judged with the frequency the stage states
    elif k == "fap":
        e = s.response_list_elements
        c([float(x.frequency) for x in e] == p["frequencies"] and [float(x.amplitude) for x in e] == p["amplitudes"], "table", lambda: len(e))
    elif k == "time delay":
        c(s.decimation_delay == p["delay"], "delay", lambda: s.decimation_delay)
    if rate and k in ("coefficient", "time delay"):
        c(s.decimation_input_sample_rate == rate, "rate", lambda: s.decimation_input_sample_rate)


def same_c(a, b):
    a, b = [complex(x) for x in a], [complex(x) for x in b]
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(a, b))


def returned(ctx, b, p, rng, tag):
    k = p["kind"]
    ctx.event("back")
    ok = b.type == k
    ctx.check(ok, f"{tag}:type:{k}", lambda: f"{b.type}")
    if not ok:
        return
    ctx.check(b.name == p["name"], f"{tag}:name:{k}", lambda: f"{b.name!r} wants {p['name']!r}")
    ctx.check((b.units_in, b.units_out) == (p["units_in"], p["units_out"]), f"{tag}:units:{k}", lambda: f"{b.units_in} {b.units_out} wants {p['units_in']} {p['units_out']}")
    ctx.check(b.gain == p["gain"], f"{tag}:gain:{k}", lambda: f"{b.gain} wants {p['gain']}")
    if "comment" in p:
        ctx.check(b.comments.value == p["comment"], f"{tag}:comment:{k}", lambda: f"{b.comments.value!r} wants {p['comment']!r}")
    if k == "fir":
        ctx.check((b.decimation_factor, b.decimation_input_sample_rate, str(getattr(b.symmetry, "value", b.symmetry))) == (p["decimation"], p["fs"], p["symmetry"]), f"{tag}:fir_facts",
                  lambda: f"{b.decimation_factor} {b.decimation_input_sample_rate} {b.symmetry}")
        ctx.check(same_c(b.coefficients, p["coefficients"]), f"{tag}:coefficients", "")
    elif k == "zpk":
        ctx.check(same_c(b.poles, p["poles"]) and same_c(b.zeros, p["zeros"]) and b.normalization_factor == p["norm"], f"{tag}:roots", lambda: f"{b.poles} {p['poles']}")
    elif k == "time delay":
        ctx.check(b.delay == p["delay"], f"{tag}:delay", lambda: b.delay)
    elif k == "fap":
        ctx.check(same_c(b.frequencies, p["frequencies"]) and same_c(b.amplitudes, p["amplitudes"]) and same_c(b.phases, p["phases"]), f"{tag}:table", lambda: f"{b.phases[:4]} wants {p['phases'][:4]}")
    if k == "fir":
        ctx.check(b.gain_frequency == p["gf"], f"{tag}:gain_frequency", lambda: f"{b.gain_frequency} wants {p['gf']}")
        if filt.fir_reference(p) < 0.02:
            return
    fr = np.array(filt.g_frequencies(rng, p))
    want = filt.response(p, fr)
    got = b.complex_response(fr)
    ctx.check(filt.close(got, want, 1e-6, filt.tol(p, fr)), f"{tag}:response:{k}", lambda: f"{np.asarray(got)[:3]} wants {want[:3]}")


def one(ctx, rng, i):
    f, p = g(rng)
    snap = gen.snap(f)
    if p["kind"] == "fir" and rng.random() < 0.5:
        p["gf"] = f.gain_frequency = 0.0
        if filt.fir_reference(p) < 0.05:
            return
        snap = gen.snap(f)
    number, rate, nf = rng.randint(1, 9), rng.choice([1, 8.0, 256, 0.1]), rng.choice([1, 0.5, 10.0])
    if p["kind"] == "fir" and rng.random() < 0.6:
        nf = p["gf"]
    s = f.to_obspy(stage_number=number, normalization_frequency=nf, sample_rate=rate)
    ctx.check(gen.snap(f) == snap, f"conversion_changed_filter:{p['kind']}", lambda: gen.diff(snap, gen.snap(f)))
    see(ctx, s, p, "stage", number, rate, nf)
    b = st().create_filter_from_stage(s)
    ctx.check(b.sequence_number == number, f"back:sequence:{p['kind']}", lambda: b.sequence_number)
    returned(ctx, b, p, rng, "back")
    # once more, from the result
    s2 = b.to_obspy(stage_number=number, normalization_frequency=nf, sample_rate=rate)
    returned(ctx, st().create_filter_from_stage(s2), p, rng, "again")
    # the stage and the filter share no arrays
    if p["kind"] == "zpk" and p["poles"]:
        b.poles[0] = 99.0
        returned(ctx, st().create_filter_from_stage(s), p, rng, "aliased")
    ctx.case((p["kind"], repr(p)), {"filter": {k: str(v)[:60] for k, v in p.items()}})


def chain(ctx, rng, i):
    from mon import p18

    fs, ps = p18.g_chain(rng, lo=1)
    for f, p in zip(fs, ps):
        if p["kind"] == "time delay":
            p["gain"] = f.gain = 1.0
            p["delay"] = f.delay = p["delay"] or 0.25
        if p["kind"] == "zpk" and not p["poles"] and not p["zeros"]:
            p["poles"] = [-3 + 4j]
            f.poles = [-3 + 4j]
    snaps = [gen.snap(f) for f in fs]
    nf = rng.choice([0.01, 0.1, 0.05])
    cr = p18.CR()(filters_list=list(fs), normalization_frequency=nf)
    rate = rng.choice([1, 8, 64])
    try:
        r = cr.to_obspy(sample_rate=rate)
    except Exception as e:
        ctx.check(False, f"chain:error:{type(e).__name__}", lambda: f"{e} {[(p['kind']) for p in ps]}")
        return
    ctx.event("chain")
    ctx.check([gen.snap(f) for f in fs] == snaps, "chain:changed_member", "")
    ctx.check([s.name for s in r.response_stages] == [p["name"] for p in ps], "chain:order", lambda: [s.name for s in r.response_stages])
    ctx.check([s.stage_sequence_number for s in r.response_stages] == list(range(1, len(ps) + 1)), "chain:numbers", "")
    gtot = float(np.prod([p["gain"] for p in ps]))
    q = r.instrument_sensitivity
    ctx.check(filt.close(q.value, gtot, 1e-9), "chain:sensitivity", lambda: f"{q.value} wants {gtot}")
    ctx.check(q.frequency == nf, "chain:frequency", lambda: q.frequency)
    ctx.check((q.input_units, q.output_units) == (sym(ps[0]["units_in"]), sym(ps[-1]["units_out"])), "chain:units", lambda: f"{q.input_units} {q.output_units}")
    total = np.ones(3, dtype=complex)
    hi = min([p["fs"] / 2 for p in ps if p["kind"] == "fir"] + [10.0])
    fr = np.array([0.1, 0.5, 0.9]) * hi
    for s, p in zip(r.response_stages, ps):
        if p["kind"] == "coefficient":
            ctx.check(s.stage_gain == p["gain"] and s.name == p["name"], "chain:coefficient", lambda: s.stage_gain)
        else:
            see(ctx, s, p, "chain_stage", None, rate, nf)
        total = total * st().create_filter_from_stage(s).complex_response(fr)
    if any(p["kind"] == "fir" and filt.fir_reference(p) < 0.02 for p in ps):
        return
    want, slack = p18.product(ps, fr)
    ctx.check(filt.close(total, want, 1e-6, slack), "chain:response", lambda: f"{total} wants {want} {[p['kind'] for p in ps]}")
    ctx.case(tuple(repr(p) for p in ps), {"members": [p["kind"] for p in ps]})


def gain_frequency(ctx, rng, i):
    """probe of the known finding"""
    f, p = filt.g_filter(rng, "fir")
    p["gf"] = f.gain_frequency = 0.05 * p["fs"]
    s = f.to_obspy(stage_number=1, normalization_frequency=0.7 * p["fs"])
    ctx.event("stage")
    ctx.check(s.stage_gain_frequency == p["gf"], "fir_gain_frequency", lambda: f"{s.stage_gain_frequency} wants {p['gf']}")
    ctx.case(repr(p), None)


WORKLOADS = [Workload("one", one, 1500, 20000), Workload("chain", chain, 400, 5000), Workload("gain_frequency", gain_frequency, 5, 5)]
