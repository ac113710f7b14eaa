"""P22: transfer functions survive writing to and reading from files."""
import shutil

import numpy as np

from mon import gen, tfs
from mon.core import Workload
from mon.tfs import FMT

RULE = ("case = a random transfer function (any periods in any order, complex elements over ten decades in every quadrant, exact zeros, with/without tipper, impedance, covariances) written by the real writers, "
        "read back, and taken on through a chain of further formats; the arrays read are compared per period, channel pair and part with the harness's own record")
ASSUME = ["an element or error that is exactly 0 may be written as the format's fill value and comes back as 0 or absent", "Z-files carry errors only through covariances",
          "Z-files rotate by the channel azimuths when read; channels here are at 0/90 degrees or rotation is switched off", "periods are distinct at the five decimals Z-files hold", "model errors are in no format"]
NEED = {"off_axis": 60, "edi": 150, "xml": 150, "zmm": 150, "chain": 150, "no_tipper": 100, "no_impedance": 60, "covariance": 100, "zeros": 80, "single_period": 40}
# relative precision written, times a margin
TOL = {"edi": 2e-6, "xml": 4e-6, "zmm": 2e-4}


def same(got, want, tol, rotated=False):
    """componentwise: real and imaginary part each to the precision written; a Z-file is rotated in
    single precision when read, which mixes the elements of a period at that level"""
    got, want = np.nan_to_num(np.asarray(got)), np.asarray(want)
    if got.shape != want.shape:
        return False
    if np.iscomplexobj(want):
        slack = 3e-6 * np.abs(want).max(axis=(1, 2), keepdims=True) if rotated else 0.0
        return bool((np.abs(got.real - want.real) <= tol * np.abs(want.real) + slack).all() and (np.abs(got.imag - want.imag) <= tol * np.abs(want.imag) + slack).all())
    return np.allclose(got, want, rtol=tol, atol=0)


def judge(ctx, tf, r, tol, ptol, tag, errors=True, cov=None):
    p = np.asarray(tf.period, float)
    want = np.sort(r.period)
    if not ctx.check(p.shape == want.shape and np.allclose(np.sort(p), want, rtol=tol, atol=ptol), f"{tag}:period", lambda: f"{p[:4]} wants {want[:4]}"):
        return False
    a, b = np.argsort(p), np.argsort(r.period)
    ok = True
    has = {"z": tf.has_impedance(), "t": tf.has_tipper()}
    for k, name in (("z", "impedance"), ("t", "tipper")):
        v, e = getattr(r, k), getattr(r, f"{k}e")
        if not ctx.check(bool(has[k]) == (v is not None), f"{tag}:has:{name}", lambda: f"{has[k]} wants {v is not None}"):
            ok = False
            continue
        if v is None:
            continue
        ctx.event("elements", v.size)
        g = getattr(tf, name)
        ok &= ctx.check(g.coords["output"].data.tolist() == {"z": ["ex", "ey"], "t": ["hz"]}[k] and g.coords["input"].data.tolist() == ["hx", "hy"], f"{tag}:labels:{name}", lambda: f"{g.coords}")
        ok &= ctx.check(same(g.data[a], v[b], tol, ptol > 1e-9), f"{tag}:{name}", lambda: f"read {g.data[a][0].ravel()} wants {v[b][0].ravel()}; all {g.data.ravel()[:6]}, {v[b].ravel()[:6]}")
        if errors:
            g = getattr(tf, f"{name}_error")
            ok &= ctx.check(same(g.data[a], e[b], tol), f"{tag}:{name}_error", lambda: f"read {g.data[a].ravel()[:4]} wants {e[b].ravel()[:4]}")
    if cov and r.isp is not None:
        g = tf.inverse_signal_power
        ok &= ctx.check(g is not None and same(g.data[a], r.isp[b], tol), f"{tag}:inverse_signal_power", lambda: f"read {None if g is None else g.data[a].ravel()[:4]} wants {r.isp[b].ravel()[:4]}")
        w = r.res.copy()
        if cov == "blocks":  # EMTF XML keeps the electric and the vertical magnetic block
            w[:, 2, :2] = w[:, :2, 2] = 0
        if cov:
            g = tf.residual_covariance
            ok &= ctx.check(g is not None and same(g.data[a], w[b], tol), f"{tag}:residual_covariance", lambda: f"read {None if g is None else g.data[a].ravel()[:9]} wants {w[b].ravel()[:9]}")
    return ok


def carries(fmt, r, cov):
    """what is left after this format: (errors?, covariances?)"""
    if fmt == "edi":
        return True, False
    if fmt == "xml":
        return True, cov
    return (cov is not False), cov


def note(ctx, r):
    if r.t is None:
        ctx.event("no_tipper")
    if r.z is None:
        ctx.event("no_impedance")
    if r.isp is not None:
        ctx.event("covariance")
    if len(r.period) == 1:
        ctx.event("single_period")
    for v in (r.z, r.t):
        if v is not None and (v == 0).any():
            ctx.event("zeros")


def chain(ctx, rng, tf, r, fmts, folder, tag):
    tol, ptol, errors, cov = 0.0, 1e-12, True, ("all" if r.isp is not None else False)
    for k, f in enumerate(fmts):
        ctx.event(f)
        snap = (tf.dataset.copy(deep=True), gen.snap(tf.survey_metadata))
        fn = tfs.write(tf, f, folder)
        ctx.check(tf.dataset.equals(snap[0]), f"{tag}:{f}:writing_changes_arrays", "")
        now = gen.snap(tf.survey_metadata)
        ctx.check(now == snap[1], f"{f}:writing_changes_metadata", lambda: gen.diff(snap[1], now))
        tf = tfs.read(fn)
        tol += TOL[f]
        ptol += 6e-6 if f == "zmm" else 0
        if f == "edi":
            cov = False
        elif f == "xml" and cov == "all":
            cov = "blocks"
        elif f == "zmm" and not cov:
            errors = False
        if not judge(ctx, tf, r, tol, ptol, f"{tag}:{'>'.join(fmts[: k + 1])}" if k < 1 else f"{tag}:{fmts[k - 1]}>{f}", errors, cov):
            return None
        if not errors:  # a zmm without covariances says the errors are zero
            return tf
    return tf


def once(ctx, rng, i):
    r = tfs.g_rec(rng)
    note(ctx, r)
    folder = tfs.folder(ctx)
    try:
        tf = tfs.to_tf(r)
        for f in FMT:
            chain(ctx, rng, tf, r, [f], folder, "one")
    finally:
        shutil.rmtree(folder)
    ctx.case((r.period.tolist(), r.z is None, r.t is None, r.isp is None), {"n": len(r.period), "z": r.z is not None, "t": r.t is not None, "cov": r.isp is not None})


def chains(ctx, rng, i):
    r = tfs.g_rec(rng)
    note(ctx, r)
    fmts = [rng.choice(FMT) for _ in range(rng.randint(2, 4))]
    folder = tfs.folder(ctx)
    try:
        if chain(ctx, rng, tfs.to_tf(r), r, fmts, folder, "chain") is not None:
            ctx.event("chain")
    finally:
        shutil.rmtree(folder)
    ctx.case((fmts, r.period.tolist()), {"chain": fmts, "n": len(r.period)})


def off_axis(ctx, rng, i):
    """a Z-file of sensors off the axes is read (which turns the tensors to geographic axes), written and read again"""
    r = tfs.g_rec(rng, parts=rng.choice(["zt", "z"]), cov=True, zeros=0)
    folder = tfs.folder(ctx)
    try:
        tf = tfs.to_tf(r)
        a = rng.choice([30.0, -12.5, 200.0])
        for n, d in (("hx", a), ("hy", a + 90), ("ex", a), ("ey", a + 90)):
            tf.station_metadata.runs[0].get_channel(n).measurement_azimuth = d
        first = tfs.read(tfs.write(tf, "zmm", folder))
        for fmt in FMT:
            second = tfs.read(tfs.write(first, fmt, folder))
            ctx.event("off_axis")
            for name in ("impedance",) + (("tipper",) if r.t is not None else ()):
                x, y = (getattr(o, name).data[np.argsort(o.period)] for o in (first, second))
                ctx.check(x.shape == y.shape and np.abs(x - y).max() <= 2e-3 * np.abs(x).max(), f"{fmt}:off_axis_again", lambda: f"sensors at {a} degrees: {name} read {x[0].tolist()}, after writing again {y[0].tolist()}")
    finally:
        shutil.rmtree(folder)
    ctx.case((a, r.period.tolist()), {"azimuth": a})


WORKLOADS = [Workload("off_axis", off_axis, 30, 300), Workload("once", once, 160, 2500), Workload("chains", chains, 220, 4000)]
