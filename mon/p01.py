"""P01: dict / JSON round trips of every metadata class."""
import json
import os

from mon import core, gen
from mon.core import Skip, Workload

RULE = ("case = (metadata class, random valid field assignment, export form); non-trivial when at least one "
        "field differs from the class default; distinct by class + field snapshot + form")
ASSUME = ["fields left at a default the class itself refuses on assignment hold no valid value and are not compared",
          "fields holding xarray/DataArray payloads or child collections are covered by P14/P21"]
NEED = {"container_export": 500, "fields_compared": 5000, "roundtrip": 500}

EMPTY = (None, "", [])
T1980 = ("time", 315532800 * 10**9)


def build(ctx, rng, i, xmlish=False):
    C = gen.all_classes()
    cls = C[i % len(C)]
    if cls.__name__ == "Experiment" or cls.__module__.endswith("emtfxml.metadata.data"):
        raise Skip()
    return fill_one(ctx, rng, cls, xmlish)


def fill_one(ctx, rng, cls, xmlish=False):
    o = gen.fill(gen.make(cls), rng, rng.choice([0.2, 0.5, 0.8]), xmlish=xmlish)
    for k, f in enumerate(getattr(o, "filters", None) or []):
        if type(f).__name__ == "AppliedFilter":
            f.stage = 1 + k
            if f.name:
                f.name += str(k)  # a name stands in the list once
    bad = gen.canonical(o)
    bad |= {p for own, n, p in gen.normal_paths(o) if n in PAYLOAD or type(own.__dict__.get(n)).__name__ == "ListDict"}
    bad |= {p for own, n, p in gen.normal_paths(o) if n == "azm"}  # derived from the electrode positions
    return cls, o, bad


def hflat(d, prefix=""):
    """flatten an exported dict with the harness's own code"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            sub = hflat(v, f"{prefix}{k}.")
            if not sub:
                out[prefix + k] = v
            out.update(sub)
        else:
            out[prefix + k] = v
    return out


def drop(d, bad):
    """the exported dict without the fields in `bad` (flat or nested)"""
    out = type(d)()
    for k, v in d.items():
        if k in bad:
            continue
        sub = {b[len(k) + 1:] for b in bad if b.startswith(k + ".")}
        out[k] = drop(v, sub) if sub and isinstance(v, dict) else v
    return out


PAYLOAD = {"data", "filters_list", "channel_weight_specs", "weights", "feature_weight_specs", "weight_kernels", "feature"}  # P29 / array payloads


def nonempty(v):
    """'' and None both stand for 'no text'; a missing stage is numbered on import"""
    if v == "":
        return None
    if isinstance(v, dict):
        return type(v)((k, nonempty(x)) for k, x in v.items() if k not in PAYLOAD)
    if isinstance(v, (list, tuple)):
        return type(v)(nonempty(x) for x in v)
    return v


def compare(ctx, cls, o, n, keys, bad, form, rel=0.0):
    """every exported field equal in the re-imported object, by the harness's own snapshot"""
    so, sn = gen.snap(o), gen.snap(n)
    fo, fn = gen.flat(so), gen.flat(sn)
    cnt = 0
    for p, v in fo.items():
        if p in bad:
            continue
        if not any(p == k or p.startswith(k + ".") or k.startswith(p + ".") for k in keys):
            continue
        cnt += 1
        v, w = nonempty(v), nonempty(fn.get(p, "<absent>"))
        if v is None and w == 0.0 and p.split(".")[-1] in ("x", "y", "z", "x2", "y2", "z2"):
            continue  # documented: unset offsets export as 0
        if gen.diff([v], [w], rel):
            ctx.violate(f"{form}:{gen.cname(cls)}.{p}", f"wrote {v!r} read {w!r}")
    ctx.event("fields_compared", cnt)
    ctx.event("roundtrip")
    return cnt


def nondefault(cls, o):
    a, b = gen.flat(gen.snap(o)), gen.flat(gen.snap(gen.make(cls)))
    return sum(1 for k in a if a[k] != b.get(k))


def complete(ctx, cls, o, keys, bad, required, form):
    """no set field is missing from the export"""
    for p, v in gen.flat(gen.snap(o)).items():
        if p in bad or v in EMPTY or v == T1980 or p.split(".")[-1].startswith("+") or p.split(".")[-1].startswith("_"):
            continue
        if isinstance(v, tuple) and v and v[0] in ("xr", "obj", "dict", "listdict"):
            continue
        hit = any(p == k or p.startswith(k + ".") or k.startswith(p + ".") for k in keys)
        ctx.check(hit, f"missing:{form}:{gen.cname(cls)}.{p}", lambda: f"{p}={v!r} not exported (required={required})")


def dict_rt(ctx, rng, i):
    cls, o, bad = build(ctx, rng, i)
    before = gen.snap(o)
    nested, required, single = rng.random() < 0.5, rng.random() < 0.6, rng.random() < 0.5
    via = rng.choice(["from_dict", "load", "json", "jsonfile"])
    form = f"{via}"
    d = o.to_dict(nested=nested, single=single, required=required)
    ctx.check(gen.snap(o) == before, f"export-side-effect:to_dict:{gen.cname(cls)}", lambda: gen.diff(before, gen.snap(o)))
    if not single:
        ctx.require(len(d) == 1, "dict-wrapper", repr(list(d)))
    body = d if single else next(iter(d.values()))
    keys = set(hflat(body))
    complete(ctx, cls, o, keys, bad, required, "dict")
    body = drop(body, bad)
    if len(body) == 1:
        single = False  # one-key dictionaries are read as {class name: body}
    src = body if single else {next(iter(d)): body} if next(iter(d)) not in body else {cls.__name__.lower(): body}
    n = gen.make(cls)
    if via == "from_dict":
        n.from_dict(src)
    elif via == "load":
        n.load(src)
    else:
        txt = o.to_json(nested=nested, required=required)
        ctx.check(gen.snap(o) == before, f"export-side-effect:to_json:{gen.cname(cls)}", "")
        jd = json.loads(txt)
        jb = drop(next(iter(jd.values())), bad)
        jd = {next(iter(jd)): jb}
        if via == "json":
            n.from_json(json.dumps(jd) if bad else txt)
        else:
            from pathlib import Path

            p = Path(os.environ["VERIF_SCRATCH"]) / "tmp" / f"c{i}.json"
            p.write_text(json.dumps(jd) if bad else txt)
            try:
                n.from_json(p if rng.random() < 0.5 else str(p))
            finally:
                p.unlink()
    compare(ctx, cls, o, n, keys, bad, form)
    d2 = n.to_dict(nested=nested, single=True, required=required)
    b1, b2 = drop(body, bad), drop(d2, bad)
    if required:
        ctx.check(set(hflat(b1)) <= set(hflat(b2)), f"re-export-keys:{gen.cname(cls)}",
                  lambda: sorted(set(hflat(b1)) - set(hflat(b2))))
    ctx.case((cls.__name__, before, nested, required, single, via),
             {"class": gen.cname(cls), "form": [via, nested, required, single], "exported": hflat(body)},
             trivial=nondefault(cls, o) == 0)


def ctor(ctx, rng, i):
    """the exported flat dict as constructor arguments, and a chain of three export forms"""
    cls, o, bad = build(ctx, rng, i)
    d = drop(o.to_dict(single=True, required=rng.random() < 0.6), bad)
    d = {k: v for k, v in d.items() if v is not None}
    n, e = ctx.attempt(lambda: cls(**json.loads(json.dumps(d, default=enc))))
    if e is None:
        so, sn = gen.flat(gen.snap(o)), gen.flat(gen.snap(n))
        for k in d:
            for p in so:
                if (p == k or p.startswith(k + ".")) and p not in bad and "_recorded" not in p and p != "run_list":
                    a, b = nonempty(so[p]), nonempty(sn.get(p, "<absent>"))
                    if gen.diff([a], [b]):
                        ctx.violate(f"ctor:{gen.cname(cls)}.{p}", f"wrote {a!r} read {b!r}")
                    ctx.event("fields_compared")
    ctx.event("constructor_accepts" if e is None else "constructor_refuses")
    # chain: dict -> json -> dict across fresh objects ends where it began
    cur = o
    for k in range(3):
        n = gen.make(cls)
        x = cur.to_dict(nested=k == 1, required=True)
        x = {next(iter(x)): drop(next(iter(x.values())), bad)}
        if k == 2:
            n.from_json(json.dumps(x, default=enc))
        else:
            n.from_dict(x)
        cur = n
    a = drop(o.to_dict(single=True), bad)
    b = drop(cur.to_dict(single=True), bad)
    for k in a:
        va, vb = nonempty(gen.snap(a[k])), nonempty(gen.snap(b.get(k)))
        if a[k] in EMPTY if not hasattr(a[k], "shape") else False:
            continue
        if gen.diff([va], [vb]):
            ctx.violate(f"chain:{gen.cname(cls)}.{k}", f"{va!r} -> {vb!r}")
        ctx.event("fields_compared")
    ctx.case((cls.__name__, "chain", gen.snap(o)), None, trivial=nondefault(cls, o) == 0)


def enc(x):
    """the harness's own JSON encoding of non-JSON leaves"""
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.dtype.kind == "c":
            return {"real": x.real.tolist(), "imag": x.imag.tolist()}
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "unicode_string"):
        return x.unicode_string()
    return str(x)


def containers(ctx, rng, i):
    """objects that hold other objects by name: exporting in any form leaves them as they were"""
    from mt_metadata import timeseries as T
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.timeseries.filters import CoefficientFilter, PoleZeroFilter
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement, EMeasurement, HMeasurement

    kind = rng.choice(["measurements", "measurements", "survey", "station", "run", "processing", "experiment"])
    if kind == "measurements":
        o = DefineMeasurement()
        d = {}
        for c in rng.sample(["ex", "ey", "hx", "hy", "hz"], rng.randint(0, 5)):
            m = (EMeasurement if c[0] == "e" else HMeasurement)(chtype=c, id=float(rng.randint(1000, 2000)))
            d[c] = gen.fill(m, rng, 0.3, only={"x", "y", "z", "azm", "acqchan"})
        o.measurements = d
        cont = [o.measurements]
    elif kind == "processing":
        o = Processing(id="p")
        for k in range(rng.randint(0, 3)):
            lv = DecimationLevel()
            lv.decimation.level = k
            o.add_decimation_level(lv)
    else:
        r = T.Run(id="a")
        for c in rng.sample(["ex", "ey", "hx", "hy", "hz"], rng.randint(0, 4)):
            r.add_channel(gen.fill(getattr(T, "Electric" if c[0] == "e" else "Magnetic")(component=c), rng, 0.2, only={"channel_number", "sample_rate", "units"}))
        o = r
        if kind != "run":
            o = T.Station(id="s")
            o.add_run(r)
            if kind != "station":
                s, o = o, T.Survey(id="v")
                for k in range(rng.randint(0, 3)):
                    o.filters[f"f{k}"] = rng.choice([CoefficientFilter(name=f"f{k}", gain=2.0), PoleZeroFilter(name=f"f{k}", poles=[-1 + 2j], zeros=[])])
                o.add_station(s)
                if kind == "experiment":
                    v, o = o, T.Experiment()
                    o.add_survey(v)
    full = lambda: (gen.snap(o), [[(k, type(v).__name__, gen.snap(v)) for k, v in x.items()] for x in ([o.measurements] if kind == "measurements" else [])])
    before = full()
    forms = [("dict", a, b) for a in (0, 1) for b in (0, 1)] + [("json", a, b) for a in (0, 1) for b in (0, 1)] + ([("xml", 0, 0)] if kind not in ("measurements", "experiment") else [])  # Experiment.to_xml sorts, as documented
    for f, nested, required in rng.sample(forms, 4):
        if f == "dict":
            o.to_dict(nested=bool(nested), required=bool(required))
        elif f == "json":
            o.to_json(nested=bool(nested), required=bool(required))
        else:
            o.to_xml(string=True)
        after = full()
        ctx.event("container_export")
        ctx.check(after == before, f"export-side-effect:{f}:{kind}", lambda: gen.diff(before[0], after[0]) or [before[1], after[1]])
    if kind == "measurements":
        n = DefineMeasurement()
        _, e = ctx.attempt(n.from_dict, o.to_dict(required=False) if rng.random() < 0.5 else o.to_dict())
        if not o.measurements:
            ctx.check(e is None, "container:measurements_empty", lambda: repr(e))
        elif type(e) is AttributeError:
            ctx.violate("container:measurements_from_dict", repr(e))
        else:
            ctx.check(e is None and gen.snap(n.measurements) == gen.snap(o.measurements), "container:measurements", lambda: repr(e) + repr(gen.diff(gen.snap(o.measurements), gen.snap(n.measurements))))
    ctx.case((kind, before), {"kind": kind})


WORKLOADS = [Workload("dict", dict_rt, 4500, 60000), Workload("chain", ctor, 2000, 24000), Workload("containers", containers, 300, 3000)]
