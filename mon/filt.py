"""Filters: random ones of every type, and the harness's own response of each."""
import numpy as np

from mon import gen

UNITS = ["nanoTesla", "Volt", "milliVolt", "digital counts", "milliVolt per kilometer", "Volt per meter", "Tesla", "Ampere", "meter per second"]
NAMES = ["lp", "coil 22", "dipole_100", "notch-50", "v2counts", "bf4", "sensor_resp", "a2d", "delay_1", "anti alias"]


def F():
    from mt_metadata.timeseries import filters

    return filters


def cplx(rng, real=False):
    m = 10 ** rng.uniform(-4, 4)
    if real or rng.random() < 0.4:
        return complex(-m, 0)
    return complex(-m * rng.uniform(0, 1), rng.choice([-1, 1]) * m * rng.uniform(0, 1))


def gain(rng):
    return rng.choice([1.0, 1.0, 2.0, -1.0, 0.5, 1e-9, 1e6, -3.3333333333333335, round(rng.uniform(-100, 100), 4) or 1.0, 10 ** rng.uniform(-12, 12)])


def g_filter(rng, kind=None, name=None, units=None, decimate=None):
    """(filter, parameters): parameters are the harness's own record"""
    kind = kind or rng.choice(["zpk", "zpk", "coefficient", "time delay", "fir", "fap"])
    ui, uo = units or (rng.choice(UNITS), rng.choice(UNITS))
    p = {"kind": kind, "name": name or rng.choice(NAMES), "units_in": ui, "units_out": uo, "gain": gain(rng)}
    base = {k: p[k] for k in ("name", "units_in", "units_out", "gain")}
    if kind == "zpk":
        conj = rng.random() < 0.5
        p["poles"] = [cplx(rng) for _ in range(rng.randint(0, 6))]
        p["zeros"] = [cplx(rng) if rng.random() < 0.7 else 0j for _ in range(rng.randint(0, 4))]
        if conj:
            p["poles"] += [z.conjugate() for z in p["poles"] if z.imag]
            p["zeros"] += [z.conjugate() for z in p["zeros"] if z.imag]
        p["norm"] = rng.choice([1.0, 2002.269, 1e-6, round(rng.uniform(0.1, 1e5), 3)])
        f = F().PoleZeroFilter(poles=list(p["poles"]), zeros=list(p["zeros"]), normalization_factor=p["norm"], **base)
    elif kind == "coefficient":
        f = F().CoefficientFilter(**base)
    elif kind == "time delay":
        p["delay"] = rng.choice([0.0, 0.25, -0.25, 1e-5, -0.001, round(rng.uniform(-2, 2), 6)])
        f = F().TimeDelayFilter(delay=p["delay"], **base)
    elif kind == "fir":
        while True:
            p["coefficients"] = [round(rng.uniform(-1, 1), 6) for _ in range(rng.randint(1, 30))]
            p["symmetry"] = rng.choice(["NONE", "EVEN", "ODD"])
            p["fs"] = float(rng.choice([1, 4, 8, 64, 1000, 0.1]))
            p["gf"] = rng.choice([0.0, 0.0, 0.05, 0.2]) * p["fs"]
            p["decimation"] = float(rng.choice([1, 1, 2, 5, 10])) if decimate is None else float(rng.choice([2, 5])) if decimate else 1.0
            if fir_reference(p) > 0.05:
                break
        f = F().FIRFilter(coefficients=list(p["coefficients"]), symmetry=p["symmetry"], decimation_factor=p["decimation"], decimation_input_sample_rate=p["fs"], gain_frequency=p["gf"], **base)
    else:
        n = rng.randint(2, 12)
        fr = sorted({round(10 ** rng.uniform(-4, 4), 7) for _ in range(n)})
        while len(fr) < 2:
            fr = [0.01, 10.0]
        n = len(fr)
        p["frequencies"] = fr
        p["amplitudes"] = [round(10 ** rng.uniform(-3, 3), 6) for _ in range(n)]
        p["phases"] = [round(rng.uniform(-3.1, 3.1), 6) for _ in range(n)]
        f = F().FrequencyResponseTableFilter(frequencies=list(fr), amplitudes=list(p["amplitudes"]), phases=list(p["phases"]), **base)
    return f, p


def fir_full(p, seed=False):
    """all taps: SEED's odd symmetry mirrors about the last stored coefficient, the library
    (pinned by its tests) repeats the last and drops the first"""
    c = list(p["coefficients"])
    if p["symmetry"] == "EVEN":
        return c + c[::-1]
    if p["symmetry"] == "ODD":
        return c + (c[:-1][::-1] if seed else c[1:][::-1])
    return c


def fir_dft(c, fs, f):
    f = np.asarray(f, dtype=float)
    h = np.zeros(f.shape, dtype=complex)
    for k, a in enumerate(c):
        h = h + a * np.exp(-2j * np.pi * f * k / fs)
    return h


def fir_reference(p):
    c = fir_full(p)
    return abs(sum(c)) if p["gf"] == 0 else abs(fir_dft(c, p["fs"], [p["gf"]])[0])


def interp(x, xs, ys):
    """piecewise linear, extended linearly beyond the table"""
    out = []
    for v in np.asarray(x, dtype=float).ravel():
        k = 0
        while k < len(xs) - 2 and v > xs[k + 1]:
            k += 1
        out.append(ys[k] + (ys[k + 1] - ys[k]) * (v - xs[k]) / (xs[k + 1] - xs[k]))
    return np.array(out)


def response(p, f, seed=False):
    f = np.asarray(f, dtype=float)
    k = p["kind"]
    g = p["gain"]
    if k == "zpk":
        s = 2j * np.pi * f
        h = np.full(f.shape, g * p["norm"], dtype=complex)
        z, q = list(p["zeros"]), list(p["poles"])
        while z or q:  # alternate so nothing overflows
            if z:
                h = h * (s - z.pop())
            if q:
                h = h / (s - q.pop())
        return h
    if k == "coefficient":
        return np.full(f.shape, g, dtype=complex)
    if k == "time delay":
        return g * np.exp(-2j * np.pi * f * p["delay"])
    if k == "fir":
        c = fir_full(p, seed)
        ref = sum(c) if p["gf"] == 0 else abs(fir_dft(c, p["fs"], [p["gf"]])[0])
        return g * fir_dft(c, p["fs"], f) / ref
    return g * interp(f, p["frequencies"], p["amplitudes"]) * np.exp(1j * interp(f, p["frequencies"], p["phases"]))


def close(a, b, rel=1e-9, floor=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(np.abs(a - b) <= rel * scale + floor))


def tol(p, f):
    """absolute slack for cancellation in sums (FIR) and near zeros of tables"""
    if p["kind"] == "fir":
        c = fir_full(p)
        return 1e-10 * abs(p["gain"]) * sum(abs(x) for x in c) / fir_reference(p)
    if p["kind"] == "fap":
        return 1e-10 * abs(p["gain"]) * (1 + float(np.max(np.abs(interp(f, p["frequencies"], p["amplitudes"])))))
    return 0.0


def g_frequencies(rng, p=None, n=None):
    n = n or rng.choice([1, 2, 3, 7, 20, 60])
    f = [10 ** rng.uniform(-4, 3.5) for _ in range(n)]
    if p and p["kind"] == "fap":
        lo, hi = p["frequencies"][0], p["frequencies"][-1]
        f = [rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi), rng.choice(p["frequencies"]), hi * 1.01]) for _ in range(n)]
    if p and p["kind"] == "fir":
        f = [rng.uniform(0, p["fs"] / 2) for _ in range(n)]
    if rng.random() < 0.2 and not (p and p["kind"] == "fap"):
        f[rng.randrange(n)] = float(rng.choice([1, 2, 0.5]))
    return f


def same_state(f, before):
    return gen.snap(f) == before
