"""P21: a transfer-function object keeps its arrays consistent."""
import numpy as np

from mon import gen
from mon.core import Workload

RULE = ("case = a history of assignments (numpy, nested lists, labelled arrays with channels in any order), refused assignments, reads, period relabelling and copies on one TF; "
        "after every step every quantity is compared with the harness's own arrays per channel pair and period")
ASSUME = ["values are finite; an all-zero quantity counts as absent (the library's documented test)", "errors are readable when their quantity is present", "periods are positive and distinct",
          "assigning covariances when both are present recomputes the errors from them, as documented"]
NEED = {"assign": 1500, "refused": 500, "read": 5000, "copy": 200, "labelled": 300, "period_change": 100, "nomenclature": 100}
SHAPE = {"impedance": (2, 2), "impedance_error": (2, 2), "impedance_model_error": (2, 2), "tipper": (1, 2), "tipper_error": (1, 2), "tipper_model_error": (1, 2),
         "transfer_function": (3, 2), "transfer_function_error": (3, 2), "transfer_function_model_error": (3, 2), "inverse_signal_power": (2, 2), "residual_covariance": (3, 3)}


def TF():
    from mt_metadata.transfer_functions.core import TF as C

    return C


class Model:
    def __init__(self, period):
        self.period = np.array(period, dtype=float)
        n = len(period)
        self.a = {"": np.zeros((n, 3, 2), complex), "_error": np.zeros((n, 3, 2)), "_model_error": np.zeros((n, 3, 2))}
        self.site = {}
        self.isp, self.res = np.zeros((n, 2, 2), complex), np.zeros((n, 3, 3), complex)

    def set(self, k, v):
        v = np.array(v)
        if k == "inverse_signal_power":
            self.isp = v
            self.cov()
        elif k == "residual_covariance":
            self.res = v
            self.cov()
        else:
            what, s = self.split(k)
            self.a[s][:, self.rows(what), :] = v

    def cov(self):
        if self.isp.any() and self.res.any():
            for i in range(3):
                for j in range(2):
                    self.a["_error"][:, i, j] = np.sqrt(np.abs(self.res[:, i, i]) * np.abs(self.isp[:, j, j]))

    @staticmethod
    def split(k):
        for s in ("_model_error", "_error", ""):
            if k.endswith(s):
                return k[: len(k) - len(s)], s

    @staticmethod
    def rows(what):
        return {"impedance": slice(0, 2), "tipper": slice(2, 3), "transfer_function": slice(0, 3)}[what]

    def get(self, k):
        if k == "inverse_signal_power":
            return self.isp if self.isp.any() else None
        if k == "residual_covariance":
            return self.res if self.res.any() else None
        what, s = self.split(k)
        if not self.a[""][:, self.rows(what), :].any():
            return None
        return self.a[s][:, self.rows(what), :]


NAMES = {"default": {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"}, "lemi": {"ex": "e1", "ey": "e2", "hx": "bx", "hy": "by", "hz": "bz"}, "odd": {"ex": "q5", "ey": "q4", "hx": "q3", "hy": "q2", "hz": "q1"}}


def labels(k, nom):
    e, h = [nom["ex"], nom["ey"]], [nom["hx"], nom["hy"]]
    out = {"impedance": e, "tipper": [nom["hz"]], "transfer_function": [*e, nom["hz"]]}
    if k == "inverse_signal_power":
        return h, h
    if k == "residual_covariance":
        return [*e, nom["hz"]], [*e, nom["hz"]]
    return out[Model.split(k)[0]], h


def g_array(rng, n, shape, real):
    r = np.random.default_rng(rng.randrange(2**32))
    a = r.normal(size=(n, *shape)) * 10 ** rng.uniform(-6, 6)
    if not real:
        a = a + 1j * r.normal(size=(n, *shape)) * 10 ** rng.uniform(-3, 3)
    if rng.random() < 0.2:
        a[rng.randrange(n)] = 0
    if rng.random() < 0.1:
        a = a * 0
        a[rng.randrange(n), rng.randrange(shape[0]), rng.randrange(shape[1])] = 1.5
    return np.abs(a) if real else a


def judge(ctx, tf, m, nom, tag):
    """every quantity and its labels"""
    ok = ctx.check(np.array_equal(tf.period, m.period), f"{tag}:period", lambda: f"{tf.period[:4]} wants {m.period[:4]}")
    ctx.check(np.allclose(tf.frequency, 1 / m.period), f"{tag}:frequency", "")
    has = {"impedance": tf.has_impedance(), "tipper": tf.has_tipper(), "transfer_function": tf.has_transfer_function(), "inverse_signal_power": tf.has_inverse_signal_power(), "residual_covariance": tf.has_residual_covariance()}
    for k in SHAPE:
        ctx.event("read")
        got, want = getattr(tf, k), m.get(k)
        if k in has:
            ok &= ctx.check(bool(has[k]) == (want is not None), f"{tag}:has:{k}", lambda: f"has {has[k]} wants {want is not None}")
        if (got is None) or (want is None):
            ok &= ctx.check(got is None and want is None, f"{tag}:presence:{k}", lambda: f"read {type(got).__name__} wants {type(want).__name__}")
            continue
        o, i = labels(k, nom)
        good = list(got.dims) == ["period", "output", "input"] and got.coords["output"].data.tolist() == o and got.coords["input"].data.tolist() == i and np.array_equal(got.coords["period"].data, m.period)
        ok &= ctx.check(good, f"{tag}:labels:{k}", lambda: f"{got.dims} {got.coords['output'].data} {got.coords['input'].data}")
        good = got.data.shape == want.shape and np.allclose(got.data, want, rtol=1e-12, atol=0)
        ok &= ctx.check(good, f"{tag}:value:{k}", lambda: f"{got.data.ravel()[:3]} wants {want.ravel()[:3]}")
        ctx.event("tagged")
        off = {k2: (got.attrs.get(k2), v) for k2, v in m.site.items() if got.attrs.get(k2) != v}
        ok &= ctx.check(not off, f"{tag}:site:{k}", lambda: f"{off}")
    off = {k2: (tf.dataset.attrs.get(k2), v) for k2, v in m.site.items() if tf.dataset.attrs.get(k2) != v}
    ok &= ctx.check(not off, f"{tag}:site:dataset", lambda: f"{off}")
    # by component
    z = m.get("impedance")
    if z is not None:
        for c, (r, q) in {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1)}.items():
            v = tf.dataset.transfer_function.loc[getattr(tf, f"index_{c}")].data
            ok &= ctx.check(np.array_equal(v, z[:, r, q]), f"{tag}:index_{c}", "")
    t = m.get("tipper")
    if t is not None:
        for c, q in {"tzx": 0, "tzy": 1}.items():
            v = tf.dataset.transfer_function.loc[getattr(tf, f"index_{c}")].data
            ok &= ctx.check(np.array_equal(v, t[:, 0, q]), f"{tag}:index_{c}", "")
    return ok


def labelled(rng, k, v, m, nom):
    import xarray as xr

    o, i = labels(k, nom)
    po, pi = rng.sample(range(len(o)), len(o)), rng.sample(range(len(i)), len(i))
    return xr.DataArray(v[:, po][:, :, pi].copy(), dims=["period", "output", "input"], coords={"period": m.period, "output": [o[x] for x in po], "input": [i[x] for x in pi]})


def step(ctx, rng, tf, m, nom):
    n = len(m.period)
    op = rng.choice(["assign", "assign", "assign", "assign", "labelled", "labelled", "refuse", "refuse", "period", "copy", "write_into_read", "none", "again"])
    k = rng.choice(list(SHAPE))
    real = k.endswith("error")
    if op in ("assign", "labelled"):
        ctx.event("assign")
        v = g_array(rng, n, SHAPE[k], real)
        if op == "labelled":
            ctx.event("labelled")
            x = labelled(rng, k, v, m, nom)
        else:
            x = rng.choice([lambda a: a.copy(), lambda a: a.tolist(), lambda a: tuple(map(tuple, a.tolist())), lambda a: np.asfortranarray(a)])(v)
        setattr(tf, k, x)
        m.set(k, v)
        if isinstance(x, np.ndarray):
            x *= 0
    elif op == "none":
        setattr(tf, k, None)
    elif op == "refuse":
        refuse(ctx, rng, tf, m, nom, k)
    elif op == "period":
        if rng.random() < 0.7:
            ctx.event("period_change")
            m.period = g_period(rng, n)
            if rng.random() < 0.5:
                tf.period = m.period.copy()
            else:
                tf.frequency = 1 / m.period
                if np.allclose(tf.period, m.period, rtol=1e-12):
                    m.period = tf.period.copy()
        else:
            try:
                tf.period = rng.choice([list, np.array])(list(g_period(rng, n + rng.choice([1, 2]))))
                bad = m.a[""].any()
                if not bad:  # still empty: a new size is taken
                    m.__init__(tf.period)
            except Exception as e:
                bad = type(e).__name__ not in ("TFError",)
            ctx.event("refused")
            ctx.check(not bad, "period_size_accepted", lambda: f"{m.period} -> {tf.period}")
    elif op == "copy":
        ctx.event("copy")
        c = tf.copy()
        ctx.check(c == tf, "copy_not_equal", "")
        judge(ctx, c, m, nom, "copy")
        for q in rng.sample(list(SHAPE), 3):
            setattr(c, q, g_array(rng, n, SHAPE[q], q.endswith("error")))
        c.station_metadata.location.latitude = 12.5 if tf.latitude != 12.5 else 13.5
        ctx.check(c.latitude != tf.latitude, "copy_shares_metadata", "")
        if n > 1:
            c.period = g_period(rng, n)
    elif op == "write_into_read":
        g = getattr(tf, k)
        if g is not None:
            g.data[...] = 7
    elif op == "again":
        for q in SHAPE:
            getattr(tf, q)
        str(tf), repr(tf), tf.dataset
    return op, k


def refuse(ctx, rng, tf, m, nom, k):
    n = len(m.period)
    s = SHAPE[k]
    real = k.endswith("error")
    import xarray as xr

    kind = rng.choice(["periods", "rows", "flat", "type", "labels", "other_period"])
    if kind == "periods":
        x = g_array(rng, n + rng.choice([1, 2]), s, real)
    elif kind == "rows":
        x = g_array(rng, n, (s[0] + 1, s[1]), real)
    elif kind == "flat":
        x = g_array(rng, n, s, real)[:, 0]
    elif kind == "type":
        x = rng.choice(["text", 5, {"a": 1}])
    elif kind == "labels":
        o, i = labels(k, nom)
        x = xr.DataArray(g_array(rng, n, s, real), dims=["period", "output", "input"], coords={"period": m.period, "output": [f"{c}9" for c in o], "input": i})
    else:
        if n == 1 and not (m.a[""].any()):
            return
        o, i = labels(k, nom)
        x = xr.DataArray(g_array(rng, n + 1, s, real), dims=["period", "output", "input"], coords={"period": np.append(m.period, 9e9), "output": o, "input": i})
    ctx.event("refused")
    try:
        setattr(tf, k, x)
        bad = True
    except Exception:
        bad = False
    ctx.check(not bad, f"accepted:{kind}:{k}", lambda: f"{getattr(x, 'shape', x)} for {n} periods")


def g_period(rng, n):
    p = sorted({round(10 ** rng.uniform(-4, 4), 8) for _ in range(n)})
    while len(p) < n:
        p.append(p[-1] * 1.5)
    p = p if rng.random() < 0.6 else p[::-1] if rng.random() < 0.7 else rng.sample(p, n)
    return np.array(p)


def place(rng, tf, m):
    """say which survey, station and place the arrays are from"""
    new = {"survey": rng.choice(["north", "s2"]), "id": rng.choice(["mt01", "Z9"]), "name": rng.choice(["hill", "lake"]), "latitude": round(rng.uniform(-89, 89), 4), "longitude": round(rng.uniform(-179, 179), 4),
           "elevation": round(rng.uniform(-100, 900), 1), "project": rng.choice(["P", "Q"]), "acquired_by": rng.choice(["me", "you"])}
    new = {k: v for k, v in new.items() if rng.random() < 0.8}
    paths = {"survey": "id", "project": "project"}
    for k, v in new.items():
        if k in paths:
            tf.survey_metadata.update_attribute(paths[k], v)
        elif k in ("latitude", "longitude", "elevation"):
            tf.station_metadata.update_attribute(f"location.{k}", v)
        else:
            tf.station_metadata.update_attribute({"id": "id", "name": "geographic_name", "acquired_by": "acquired_by.author"}[k], v)
    m.site.update(new)


def history(ctx, rng, i):
    n = rng.choice([1, 1, 2, 3, 5, 12, 30])
    p = g_period(rng, n) if rng.random() < 0.85 else np.arange(1.0, n + 1)
    name = rng.choice(["default", "default", "lemi", "odd"])
    nom = NAMES[name]
    kw = {}
    if name != "default":
        ctx.event("nomenclature")
        kw["channel_nomenclature"] = dict(nom)
    m = Model(p)
    first = rng.choice(["ctor", "ctor_array", "frequency", "setter", "labelled"])
    if first == "ctor":
        tf = TF()(period=p.copy(), **kw)
    elif first == "frequency":
        tf = TF()(frequency=1 / p, **kw)
        m.period = tf.period.copy()
    elif first == "ctor_array":
        z = g_array(rng, n, (2, 2), False)
        tf = TF()(period=p.copy(), **kw, impedance=z)
        m.set("impedance", z)
    elif first == "labelled":
        tf = TF()(**kw)
        k = rng.choice(["impedance", "tipper", "transfer_function"])
        v = g_array(rng, n, SHAPE[k], False)
        setattr(tf, k, labelled(rng, k, v, m, nom))
        m.set(k, v)
    else:
        tf = TF()(**kw)
        tf.period = p.copy()
    log = [(first, name, n)]
    if not judge(ctx, tf, m, nom, f"start:{first}"):
        return
    other = TF()(period=p.copy(), **kw)  # a bystander
    mo = Model(p)
    place(rng, tf, m)
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.15:
            place(rng, tf, m)
        s = step(ctx, rng, tf, m, nom)
        log.append(s)
        if not judge(ctx, tf, m, nom, f"after:{s[0]}"):
            break
    judge(ctx, other, mo, nom, "bystander")
    ctx.case(tuple(log) + (m.a[""].sum(),), {"history": log})


WORKLOADS = [Workload("history", history, 500, 7000)]
