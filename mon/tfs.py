"""Transfer functions: random ones with the harness's own record of every array, and reading/writing files."""
import os

import numpy as np

FMT = ("edi", "xml", "zmm")


def TF():
    from mt_metadata.transfer_functions.core import TF as C

    return C


def g_periods(rng, n, lo=-3, hi=4.5, order=None):
    # zmm files hold five decimals: keep periods apart at that precision
    p = set()
    while len(p) < n:
        p.add(round(10 ** rng.uniform(lo, hi), 4))
    p = sorted(p)
    order = order or rng.choice(["up", "up", "down", "shuffled"])
    return np.array(p if order == "up" else p[::-1] if order == "down" else rng.sample(p, n))


def cplx(rng, shape, lo=-5, hi=5, zeros=0.0):
    r = np.random.default_rng(rng.randrange(2**32))
    base = rng.uniform(lo, hi)
    mag = 10 ** np.clip(r.normal(base, rng.choice([0.1, 1.0, 2.0]), size=shape), lo, hi)
    a = mag * np.exp(1j * r.uniform(-np.pi, np.pi, size=shape))
    k = rng.random()
    if k < 0.1:
        a = a.real + 0j * a
    elif k < 0.2:
        a = 1j * a.imag
    if zeros:
        a[r.random(size=shape) < zeros] = 0
    return a


def real(rng, shape, lo=-5, hi=3, zeros=0.0):
    r = np.random.default_rng(rng.randrange(2**32))
    a = 10 ** np.clip(r.normal(rng.uniform(lo, hi), rng.choice([0.1, 1.0]), size=shape), lo, hi)
    if zeros:
        a[r.random(size=shape) < zeros] = 0
    return a


def hermitian(rng, n, k, lo=-3, hi=3):
    """positive definite, as spectra and covariances are"""
    r = np.random.default_rng(rng.randrange(2**32))
    m = r.normal(size=(n, k, k)) + 1j * r.normal(size=(n, k, k))
    h = m @ m.conj().transpose(0, 2, 1) + 0.1 * np.eye(k)
    return h * 10 ** rng.uniform(lo, hi)


class Rec:
    """the harness's record: arrays by [period, output, input]; outputs ex ey hz, inputs hx hy"""

    def __init__(self, period, z=None, ze=None, t=None, te=None, isp=None, res=None):
        self.period, self.z, self.ze, self.t, self.te, self.isp, self.res = np.array(period, float), z, ze, t, te, isp, res

    def derived(self):
        """errors that the covariances define"""
        e = np.sqrt(np.abs(np.einsum("pii->pi", self.res))[:, :, None] * np.abs(np.einsum("pii->pi", self.isp))[:, None, :])
        return e[:, :2], e[:, 2:]


def g_rec(rng, n=None, parts=None, cov=None, zeros=None, lo=-5, hi=5):
    n = n or rng.choice([1, 2, 3, 5, 8, 17, 40])
    parts = parts or rng.choice(["zt", "zt", "z", "z", "t"])
    zeros = rng.choice([0, 0, 0.1, 0.4]) if zeros is None else zeros
    cov = rng.random() < 0.5 if cov is None else cov
    r = Rec(g_periods(rng, n))
    if "z" in parts:
        r.z = cplx(rng, (n, 2, 2), lo, hi, zeros)
        r.ze = real(rng, (n, 2, 2), zeros=zeros / 2)
        if not r.z.any():
            r.z[0, 0, 1] = 1 - 2j
    if "t" in parts:
        r.t = cplx(rng, (n, 1, 2), -3, 0.5, zeros)
        r.te = real(rng, (n, 1, 2), -4, 0, zeros=zeros / 2)
        if not r.t.any():
            r.t[0, 0, 1] = 1 - 2j
    if cov:
        r.isp, r.res = hermitian(rng, n, 2), hermitian(rng, n, 3)
        gone = [i for i in range(3) if (i < 2) != ("z" in parts) and (i == 2) != ("t" in parts)] if parts != "zt" else []
        if parts == "z":
            gone = [2]
        elif parts == "t":
            gone = [0, 1]
        r.res[:, gone, :] = 0
        r.res[:, :, gone] = 0
        e = r.derived()
        if r.z is not None:
            r.ze = e[0]
        if r.t is not None:
            r.te = e[1]
    return r


def to_tf(r, rng=None, station="mt01", **kw):
    tf = TF()(period=r.period.copy(), **kw)
    tf.station = station
    tf.survey_metadata.id = "survey"
    if r.z is not None:
        tf.impedance = r.z.copy()
        tf.impedance_error = r.ze.copy()
    if r.t is not None:
        tf.tipper = r.t.copy()
        tf.tipper_error = r.te.copy()
    if r.isp is not None:
        tf.inverse_signal_power = r.isp.copy()
        tf.residual_covariance = r.res.copy()
    return tf


def write(tf, fmt, path, **kw):
    fn = os.path.join(path, f"f{len(os.listdir(path))}.{fmt}")
    tf.write(fn, **kw)
    return fn


def read(fn, **kw):
    tf = TF()(fn)
    tf.read(**kw)
    return tf


def folder(ctx):
    """a fresh directory of this case"""
    p = os.path.join(os.environ["VERIF_SCRATCH"], f"tf{os.getpid()}_{ctx.w}{ctx.i}")
    os.makedirs(p)
    return p
