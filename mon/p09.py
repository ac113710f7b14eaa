"""P09: positions keep their value and sign in every notation."""
from fractions import Fraction

import numpy as np

from mon import gen
from mon.core import Skip, Workload

RULE = ("case = (object with a position, field, position, notation); the harness computes the decimal value of the text "
        "with exact rationals and compares what is stored, written and read back")
ASSUME = ["seconds are written with four decimals, so text holds a position to 1.4e-8 degrees",
          "minutes or seconds of 60 and more are counted on, as documented; None is the default 0",
          "EDI files hold positions as DD:MM:SS with four decimals of a second, or as decimal degrees with six decimals"]
NEED = {"stored": 5000, "refused": 600, "dms": 5000, "edi_text": 500, "corner": 100}


def positions(rng, lim):
    k = rng.choice(["zero", "sub", "any", "any", "edge", "roll", "int", "limit", "tiny"])
    if k == "zero":
        v = rng.choice([0.0, -0.0, 0])
    elif k == "sub":
        v = rng.choice([1, -1]) * rng.random()
    elif k == "any":
        v = rng.uniform(-lim, lim)
    elif k == "edge":
        v = rng.choice([1, -1]) * (rng.randrange(lim) + rng.choice([0, 0.5, 0.25, 1 / 60, 1 / 3600, 59 / 60, 0.999999]))
    elif k == "roll":
        v = rng.choice([1, -1]) * (rng.randrange(lim) + rng.choice([1, rng.randint(1, 60) / 60]) - rng.choice([1e-9, 1e-10, 1e-8, 2e-8, 1e-12, 1e-7]))
    elif k == "int":
        v = rng.randint(-lim, lim)
    elif k == "limit":
        v = rng.choice([lim, -lim, lim - 1e-7, -lim + 1e-7, float(lim)])
    else:
        v = rng.choice([1, -1]) * rng.choice([1e-5, 1e-6, 1 / 3600, 1 / 7200, 1e-3])
    return v if abs(v) <= lim else (lim if v > 0 else -lim)


def dms(rng, lim):
    """(text, exact value) of a position given in degrees, minutes, seconds"""
    d = rng.choice([0, 0, 0, rng.randrange(lim)])
    m = rng.choice([0, 59, rng.randrange(60)])
    sdec = rng.choice([0, 1, 2, 4, 6])
    s = Fraction(rng.choice([0, 59 * 10**sdec + 10**sdec - 1, rng.randrange(60 * 10**sdec)]), 10**sdec)
    neg = rng.random() < 0.5
    st = f"{float(s):.{sdec}f}"
    if rng.random() < 0.6:
        st = st.zfill(2 + (sdec + 1 if sdec else 0))
    t = f"{'-' if neg else rng.choice(['', '', '+'])}{rng.choice([f'{d}', f'{d:02d}', f'{d:03d}'])}:{rng.choice([f'{m}', f'{m:02d}'])}:{st}"
    v = Fraction(d) + Fraction(m, 60) + s / 3600
    return t, -v if neg else v


def read_dms(text):
    a = text.strip().split(":")
    if len(a) != 3:
        return None
    neg = a[0].startswith("-")
    v = Fraction(a[0].lstrip("+-")) + Fraction(a[1]) / 60 + Fraction(a[2]) / 3600
    return -v if neg else v


_H = []


def holders():
    """(class, field, limit): every position field of the library"""
    if _H:
        return _H
    for c in gen.all_classes():
        for n in c.model_fields:
            if n in ("latitude", "lat", "reflat"):
                _H.append((c, n, 90))
            elif n in ("longitude", "lon", "reflon"):
                _H.append((c, n, 180))
    if len(_H) < 14:
        from mon.core import Harness

        raise Harness(f"{len(_H)} position fields found")
    return _H


def close(a, b, tol):
    return abs(Fraction(a) - Fraction(b)) <= tol


def notation(rng, lim):
    """(value to assign, exact position, tolerance)"""
    k = rng.choice(["float", "text", "dms", "dms", "int", "np", "textsp"])
    if k == "dms":
        t, v = dms(rng, lim)
        return k, t, v
    v = positions(rng, lim)
    if k == "int":
        v = int(v)
        return k, v, Fraction(v)
    if k == "np":
        v = np.float64(v)
        return k, v, Fraction(float(v))
    if k == "text":
        s = rng.choice([repr(v), f"{v:.6f}", f"{v:+.4f}", f"{v:e}"])
        return k, s, Fraction(s)
    if k == "textsp":
        s = f" {v:.5f} "
        return k, s, Fraction(s.strip())
    return k, v, Fraction(v)


def w_store(ctx, rng, i):
    H = holders()
    cls, f, lim = H[i % len(H)]
    k, v, want = notation(rng, lim)
    if abs(want) > lim:
        raise Skip()
    o = gen.make(cls)
    how = rng.choice(["set", "init", "update", "dict"])
    other = {n: getattr(o, n) for c, n, _ in H if c is cls and n != f}
    try:
        if how == "set":
            setattr(o, f, v)
        elif how == "init":
            o = cls(**{f: v})
        elif how == "update":
            o.update_attribute(f, v)
        else:
            o.from_dict({next(iter(o.to_dict())): {f: v}})
    except Exception as e:
        ctx.check(False, f"refused:{k}", f"{gen.cname(cls)}.{f} {how} {v!r}: {e!r:.200}")
        return
    ctx.event("stored")
    got = getattr(o, f)
    ctx.check(isinstance(got, float) and close(got, want, Fraction(1, 10**12)) and (got < 0) == (want < 0), f"stored:{k}",
              lambda: f"{gen.cname(cls)}.{f} {how} {v!r} -> {got!r}")
    ctx.check(all(getattr(o, n) == x for n, x in other.items()), "moved_other_field", gen.cname(cls))
    # the same value again, from its own export
    p = type(o)()
    _, e = ctx.attempt(p.from_dict, o.to_dict(single=True))
    if e is not None and cls.__module__.endswith("jfiles.metadata.header"):
        return  # its default BIRRP parameters do not reload (judged in P01)
    ctx.check(e is None and getattr(p, f) == got, "reload", lambda: f"{gen.cname(cls)}.{f} {getattr(p, f)!r}")
    setattr(p, f, got)
    ctx.check(getattr(p, f) == got, "reassign")
    ctx.case((gen.cname(cls), f, k, how, str(want)), (gen.cname(cls), f, repr(v), how))


BAD = ["45:30", "1:2:3:4", "a:b:c", "north", "45 30 10", "45.5N", "", "12:xx:10", ":::", "::", [45], {"a": 1}, "45,5", "1..2", object()]


def w_refuse(ctx, rng, i):
    H = holders()
    cls, f, lim = H[i % len(H)]
    if rng.random() < 0.5:
        x = lim + rng.choice([1e-6, 0.001, 1, 30, 1e6, rng.random() * 100])
        x *= rng.choice([1, -1])
        v = rng.choice([x, str(x), f"{x:.6f}"])
        if rng.random() < 0.4:
            d = lim + rng.randrange(0, 200)
            v = f"{rng.choice(['-', ''])}{d}:{rng.randrange(60)}:{rng.randint(1, 59)}"
        if rng.random() < 0.1:
            v = rng.choice([float("inf"), float("-inf"), float("nan"), "nan", "inf"])
    else:
        v = BAD[i % len(BAD)]
    o = gen.make(cls)
    keep = positions(rng, lim)
    setattr(o, f, keep)
    before = gen.snap(o)
    ctx.event("refused")
    try:
        setattr(o, f, v)
        ctx.check(False, "accepted_out_of_range" if not isinstance(v, str) or i % 2 else "accepted_malformed",
                  lambda: f"{gen.cname(cls)}.{f} {v!r} -> {getattr(o, f)!r}")
    except Exception:
        ctx.check(gen.snap(o) == before, "refused_but_changed", lambda: f"{gen.cname(cls)}.{f} {v!r}")
    if i % 3 == 0:
        from mt_metadata.utils import location_helpers as lh

        _, e = ctx.attempt(lh.validate_position, v, "latitude" if lim == 90 else "longitude")
        ctx.check(e is not None, "accepted_by_helper", lambda: f"{lim} {v!r}")
    _, e = ctx.attempt(cls, **{f: v})
    ctx.check(e is not None, "accepted_by_constructor", lambda: f"{gen.cname(cls)}.{f} {v!r}")
    ctx.case((gen.cname(cls), f, repr(v)), (gen.cname(cls), f, repr(v)[:50]))


def w_dms(ctx, rng, i):
    from mt_metadata.utils import location_helpers as lh

    for _ in range(8):
        lim = rng.choice([90, 180])
        v = positions(rng, lim)
        t = lh.convert_position_float2str(v)
        ctx.event("dms")
        x = read_dms(t)
        parts = t.lstrip("-").split(":")
        ok = x is not None and close(x, v, Fraction(1, 3600 * 20000) + Fraction(1, 10**12))
        ctx.check(ok, "to_dms", lambda: f"{v!r} -> {t}")
        if x is None:
            continue
        ctx.check(t.startswith("-") == (v < 0) or x == 0, "to_dms:sign", lambda: f"{v!r} -> {t}")
        ctx.check(0 <= float(parts[1]) < 60 and 0 <= float(parts[2]) < 60, "to_dms:rollover", lambda: f"{v!r} -> {t}")
        b = lh.convert_position_str2float(t)
        ctx.check(close(b, x, Fraction(1, 10**12)), "from_dms", lambda: f"{v!r} -> {t} -> {b!r}")
        ctx.check(lh.convert_position_float2str(b) == t or abs(b - v) < 1e-12, "dms_stable", lambda: f"{t} -> {b!r}")
        ctx.check(close(lh.validate_position(t, "latitude" if lim == 90 else "longitude"), x, Fraction(1, 10**12)), "validate_dms", t)
        t2, w = dms(rng, lim)
        ctx.check(close(lh.convert_position_str2float(t2), w, Fraction(1, 10**12)), "from_dms", lambda: f"{t2} -> {lh.convert_position_str2float(t2)!r}")
    ctx.case((i, v), (v, t, t2))


def w_edi(ctx, rng, i):
    """position text in EDI blocks"""
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement, Header

    lat, lon = positions(rng, 90), positions(rng, 180)
    lf = rng.choice(["LON", "LONG"])
    fmt = rng.choice(["dms", "dd"])
    tol = Fraction(1, 3600 * 20000) + Fraction(1, 10**12) if fmt == "dms" else Fraction(5, 10**7) + Fraction(1, 10**12)
    if rng.random() < 0.5:
        h = Header(dataid="a1", latitude=lat, longitude=lon, elevation=round(rng.uniform(-400, 8000), 3))
        lines = h.write_header(longitude_format=lf, latlon_format=fmt)
        g = Header()
        g.read_header([x for l in lines for x in (l + "\n").splitlines()] + [">INFO"])
        got = (g.latitude, g.longitude)
        ctx.check(abs(g.elevation - h.elevation) < 5.1e-4, "edi_header:elevation", lambda: f"{h.elevation} {g.elevation}")
        what = "edi_header"
    else:
        m = DefineMeasurement(reflat=lat, reflon=lon, refelev=12.5)
        lines = m.write_measurement(longitude_format=lf, latlon_format=fmt)
        g = DefineMeasurement()
        g.read_measurement([x for l in lines for x in (l + "\n").splitlines()] + [">=MTSECT"])
        got = (g.reflat, g.reflon)
        what = "edi_definemeas"
    ctx.event("edi_text")
    for n, a, b in (("latitude", lat, got[0]), ("longitude", lon, got[1])):
        ctx.check(close(a, b, tol), f"{what}:{n}:{fmt}", lambda: f"{a!r} -> {b!r} in {[l for l in lines if 'LAT' in l.upper() or 'LON' in l.upper()]}")
    ctx.case((lat, lon, lf, fmt, what), (lat, lon, lf, fmt, what))


def w_corner(ctx, rng, i):
    """positions through containers: station location, electrodes, survey corners, XML and JSON"""
    from mt_metadata.timeseries import Electric, Magnetic, Station, Survey

    k, lt, la = notation(rng, 90)
    k2, ln, lo = notation(rng, 180)
    if abs(la) > 90 or abs(lo) > 180:
        raise Skip()
    which = rng.choice(["station", "corner", "electrode", "magnetic"])
    o, base = {"station": (Station, "location"), "corner": (Survey, rng.choice(["northwest_corner", "southeast_corner"])),
               "electrode": (Electric, rng.choice(["positive", "negative"])), "magnetic": (Magnetic, "location")}[which]
    o = o()
    if which == "magnetic":
        o.component = "hx"
    o.update_attribute(f"{base}.latitude", lt)
    o.update_attribute(f"{base}.longitude", ln)
    t = type(o)()
    route = rng.choice(["dict", "json", "xml"] + ([] if which == "station" else ["series"]))
    if route == "dict":
        t.from_dict(o.to_dict())
    elif route == "json":
        t.from_json(o.to_json())
    elif route == "xml":
        t.from_xml(o.to_xml())
    else:
        t.from_series(o.to_series())
    ctx.event("corner")
    for x, nm in ((o, "set"), (t, route)):
        a, b = getattr(getattr(x, base), "latitude"), getattr(getattr(x, base), "longitude")
        ctx.check(close(a, la, Fraction(1, 10**12)) and close(b, lo, Fraction(1, 10**12)), f"container:{nm}",
                  lambda: f"{which}.{base} {lt!r} {ln!r} -> {a!r} {b!r}")
    ctx.case((which, base, route, str(la), str(lo)), (which, base, route, repr(lt), repr(ln)))


WORKLOADS = [
    Workload("store", w_store, 5600, 60000),
    Workload("refuse", w_refuse, 900, 9000),
    Workload("dms", w_dms, 1500, 30000),
    Workload("edi", w_edi, 800, 9000),
    Workload("corner", w_corner, 320, 4000),
]
