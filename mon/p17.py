"""P17: each filter's complex response equals its mathematical definition."""
import numpy as np

from mon import filt, gen
from mon.core import Workload

RULE = ("case = (random filter of one of the five types, random frequency set); the response is computed from a list, tuple, array, permutation, split batches and single values "
        "and compared with the harness's own evaluation of the defining formula; then parameters are changed and it is compared again")
ASSUME = ["frequencies are finite and not at a pole on the imaginary axis; tables have two frequencies or more, phases in radians",
          "a FIR filter's taps sum (or have magnitude) away from zero at the reference frequency, so the gain correction is defined",
          "ODD symmetry is compared with the taps the library's tests fix; the SEED definition is a separate check (known finding)"]
NEED = {"response": 2000, "kind:zpk": 200, "kind:fir": 100, "kind:fap": 100, "kind:time delay": 100, "kind:coefficient": 100, "changed_parameter": 300, "derived": 500}


def compare(ctx, f, p, fr, mech):
    want = filt.response(p, fr)
    got = f.complex_response(np.array(fr))
    ctx.event("response")
    rel = 1e-7 if p["kind"] in ("zpk", "fap") else 1e-9
    ok = filt.close(got, want, rel, filt.tol(p, fr))
    ctx.check(ok, f"{mech}:{p['kind']}", lambda: f"{ {k: v for k, v in p.items()} } at {fr[:4]}: {np.asarray(got)[:4]} wants {want[:4]}")
    return got, want


def one(ctx, rng, i):
    f, p = filt.g_filter(rng)
    kind = p["kind"]
    ctx.event(f"kind:{kind}")
    fr = filt.g_frequencies(rng, p)
    before = gen.snap(f)
    arr = np.array(fr)
    keep = arr.copy()
    got, want = compare(ctx, f, p, fr, "value")
    ctx.check(np.array_equal(arr, keep), f"input_changed:{kind}", "")
    ctx.check(gen.snap(f) == before, f"filter_changed:{kind}", lambda: gen.diff(before, gen.snap(f)))
    # forms of the same frequencies
    slack = filt.tol(p, fr)
    for form in rng.sample(["list", "tuple", "perm", "batches", "single", "again", "f32", "view"], 4):
        g = got
        if form == "list":
            h = f.complex_response(list(fr))
        elif form == "tuple":
            h = f.complex_response(tuple(fr))
        elif form == "perm":
            ix = list(range(len(fr)))
            rng.shuffle(ix)
            h, g = f.complex_response(arr[ix]), np.asarray(got)[ix]
        elif form == "batches":
            k = rng.randint(0, len(fr) - 1)
            parts = [x for x in (arr[:k], arr[k:]) if len(x)]
            h = np.concatenate([np.atleast_1d(f.complex_response(x)) for x in parts])
        elif form == "single":
            k = rng.randrange(len(fr))
            h, g = f.complex_response(rng.choice([[fr[k]], np.array([fr[k]])])), np.asarray(got)[k:k + 1]
        elif form == "again":
            f.complex_response(np.array([0.5, 1.0]))
            h = f.complex_response(arr)
        elif form == "view":
            big = np.full(2 * len(fr), 1.0)
            big[::2] = arr
            h = f.complex_response(big[::2])
        else:
            a32 = np.array([1.0, 2.0, 0.5], dtype=np.float32)  # exact in both precisions
            if kind == "fir":
                a32 = (a32 * p["fs"] / 8).astype(np.float32)
            h, g = f.complex_response(a32), f.complex_response(a32.astype(float))
        ctx.event("response")
        ctx.check(filt.close(h, g, 1e-9 if form != "f32" else 1e-5, slack * (1e5 if form == "f32" else 1)), f"form:{form}:{kind}", lambda: f"{np.asarray(h)[:3]} wants {np.asarray(g)[:3]}")
    # writing into a result must not reach the filter or a later result
    r = f.complex_response(arr)
    try:
        r *= 0
    except Exception:
        pass
    ctx.check(filt.close(f.complex_response(arr), got, 1e-12, slack) and gen.snap(f) == before, f"result_aliased:{kind}", "")
    derived(ctx, f, p, rng)
    # a changed parameter is used at once
    for _ in range(2):
        change(rng, f, p)
        if kind == "fir" and filt.fir_reference(p) < 0.05:
            return
        ctx.event("changed_parameter")
        compare(ctx, f, p, filt.g_frequencies(rng, p), "after_change")
    derived(ctx, f, p, rng)
    c = f.copy()
    compare(ctx, c, p, fr, "copy")
    ctx.case((kind, repr(p), tuple(fr)), {"filter": {k: str(v)[:80] for k, v in p.items()}, "frequencies": fr[:5]})


def change(rng, f, p):
    k = p["kind"]
    what = rng.choice({"zpk": ["gain", "poles", "zeros", "norm"], "coefficient": ["gain"], "time delay": ["gain", "delay"], "fir": ["gain", "coefficients", "symmetry", "gf"],
                       "fap": ["gain", "amplitudes", "phases"]}[k])
    if what == "gain":
        p["gain"] = f.gain = filt.gain(rng)
    elif what in ("poles", "zeros"):
        p[what] = [filt.cplx(rng) for _ in range(rng.randint(0, 3))]
        setattr(f, what, rng.choice([list, np.array])(p[what]) if p[what] else [])
    elif what == "norm":
        p["norm"] = f.normalization_factor = round(rng.uniform(0.1, 50), 3)
    elif what == "delay":
        p["delay"] = f.delay = round(rng.uniform(-2, 2), 6)
    elif what == "coefficients":
        p["coefficients"] = [round(rng.uniform(0.1, 1), 6) for _ in range(rng.randint(1, 8))]
        f.coefficients = list(p["coefficients"])
    elif what == "symmetry":
        p["symmetry"] = f.symmetry = rng.choice(["NONE", "EVEN", "ODD"])
    elif what == "gf":
        p["gf"] = f.gain_frequency = rng.choice([0.0, 0.1]) * p["fs"]
    elif what == "amplitudes":
        p["amplitudes"] = [round(rng.uniform(0.1, 9), 5) for _ in p["frequencies"]]
        f.amplitudes = list(p["amplitudes"])
    elif what == "phases":
        p["phases"] = [round(rng.uniform(-3, 3), 5) for _ in p["frequencies"]]
        f.phases = list(p["phases"])


def derived(ctx, f, p, rng):
    k = p["kind"]
    ctx.event("derived")
    g = p["gain"] * (p["norm"] if k == "zpk" else 1)
    ctx.check(filt.close(f.total_gain, g, 1e-12), f"total_gain:{k}", lambda: f"{f.total_gain} wants {g}")
    ctx.check(f.decimation_active is (k == "fir" and p["decimation"] != 1), f"decimation_active:{k}", lambda: f"{f.decimation_active} {p.get('decimation')}")
    ctx.check((f.units_in, f.units_out) == (p["units_in"], p["units_out"]) and f.units_in_object.name == p["units_in"] and f.units_out_object.name == p["units_out"],
              f"units:{k}", lambda: f"{f.units_in} {f.units_out} {f.units_in_object.name} {f.units_out_object.name} wants {p['units_in']} {p['units_out']}")
    ctx.check(f.name == p["name"] and f.type == k, f"identity:{k}", lambda: f"{f.name} {f.type}")
    if k == "zpk":
        ctx.check((f.n_poles, f.n_zeros) == (len(p["poles"]), len(p["zeros"])), "counts:zpk", lambda: f"{f.n_poles} {f.n_zeros}")
        z = f.zero_pole_gain_representation()
        ctx.check(sorted(map(str, np.atleast_1d(z.poles))) == sorted(map(str, np.array(p["poles"], dtype=complex))) and sorted(map(str, np.atleast_1d(z.zeros))) == sorted(map(str, np.array(p["zeros"], dtype=complex)))
                  and z.gain == p["norm"], "zpk_representation", lambda: repr(z))
    elif k == "fir":
        ctx.check(filt.close(f.output_sampling_rate, p["fs"] / p["decimation"], 1e-12), "output_rate:fir", lambda: f.output_sampling_rate)
        ctx.check(f.n_coefficients == len(p["coefficients"]), "counts:fir", lambda: f.n_coefficients)
        ctx.check(filt.close(f.symmetry_corrected_coefficients, filt.fir_full(p), 1e-12), f"taps:{p['symmetry']}", lambda: f"{p['coefficients']} -> {f.symmetry_corrected_coefficients}")
        ref = float(np.atleast_1d(f.coefficient_gain)[0])
        want = sum(filt.fir_full(p)) if p["gf"] == 0 else filt.fir_reference(p)
        ctx.check(filt.close(ref, want, 1e-9, 1e-12), "coefficient_gain:fir", lambda: f"{ref} wants {want}")
        fr = np.array([0.0, 0.1, 0.3]) * p["fs"]
        c = filt.fir_full(p)
        ctx.check(filt.close(f.unscaled_complex_response(fr), filt.fir_dft(c, p["fs"], fr), 1e-9, 1e-11 * sum(map(abs, c))), "unscaled:fir", "")
        at = np.abs(f.complex_response(np.array([p["gf"]])))[0]
        ctx.check(filt.close(at, abs(p["gain"]), 1e-9), "gain_at_reference:fir", lambda: f"{at} wants {abs(p['gain'])}")
    elif k == "fap":
        ctx.check((f.min_frequency, f.max_frequency) == (p["frequencies"][0], p["frequencies"][-1]), "range:fap", lambda: f"{f.min_frequency} {f.max_frequency}")
        h = f.complex_response(np.array(p["frequencies"]))
        want = p["gain"] * np.array(p["amplitudes"]) * np.exp(1j * np.array(p["phases"]))
        ctx.check(filt.close(h, want, 1e-9), "at_table:fap", lambda: f"{h[:3]} wants {want[:3]}")


def shuffled_table(ctx, rng, i):
    """the order of a table's rows does not matter; nor of poles and zeros"""
    f, p = filt.g_filter(rng, rng.choice(["fap", "zpk"]))
    fr = np.array(filt.g_frequencies(rng, p))
    if p["kind"] == "fap":
        ix = list(range(len(p["frequencies"])))
        rng.shuffle(ix)
        g = filt.F().FrequencyResponseTableFilter(frequencies=[p["frequencies"][k] for k in ix], amplitudes=[p["amplitudes"][k] for k in ix], phases=[p["phases"][k] for k in ix], gain=p["gain"])
    else:
        a, b = list(p["poles"]), list(p["zeros"])
        rng.shuffle(a)
        rng.shuffle(b)
        g = filt.F().PoleZeroFilter(poles=a, zeros=b, gain=p["gain"], normalization_factor=p["norm"])
    ctx.event("response")
    ctx.check(filt.close(f.complex_response(fr), g.complex_response(fr), 1e-7, filt.tol(p, fr)), f"row_order:{p['kind']}", lambda: repr(p))
    ctx.case((p["kind"], repr(p)), None)


def odd_symmetry(ctx, rng, i):
    """SEED: odd symmetry stores the first half and the middle tap"""
    f = filt.F().FIRFilter(coefficients=[0.25, 0.5, 0.3 + i / 100], symmetry="ODD", gain=1.0)
    full = list(map(float, f.symmetry_corrected_coefficients))
    ctx.event("response")
    ctx.check(full == [0.25, 0.5, 0.3 + i / 100, 0.5, 0.25], "odd_symmetry_taps", lambda: f"[0.25, 0.5, {0.3 + i / 100}] -> {full}")
    ctx.case(("odd", i), {"taps": full})


WORKLOADS = [Workload("one", one, 2400, 30000), Workload("shuffled_table", shuffled_table, 400, 5000), Workload("odd_symmetry", odd_symmetry, 8, 8)]
