"""P14: an experiment survives XML, JSON and dictionary round trips."""
import json
import os
from pathlib import Path
from xml.etree import ElementTree as et

from mon import gen, p01
from mon.core import Workload

RULE = ("case = (random experiment tree: 0-3 surveys, stations, runs, channels and filters of every type with random metadata; form XML text / element / file, JSON text / file, "
        "dictionary, nested or not); distinct by tree and form")
ASSUME = ["child names are legal, unique among their siblings; filter names differ in more than case", "text is XML-legal without white space at the ends",
          "Experiment.to_xml(sort=True) sorts the children by name and fills unset channel positions, spans and boxes in place, as documented: the tree read back is compared with the tree after writing, "
          "and that one with the tree before writing apart from those", "XML groups channels by kind: without sorting their order is not kept"]
NEED = {"trees": 400, "nodes": 4000, "fields_compared": 40000, "filters_compared": 600, "empty_level": 150, "single_filter": 60}


def T():
    from mt_metadata import timeseries

    return timeseries


KIDS = {"Experiment": "surveys", "Survey": "stations", "Station": "runs", "Run": "channels"}
DERIVED = {"surveys", "stations", "runs", "channels", "filters", "run_list", "channels_recorded", "channels_recorded_electric", "channels_recorded_magnetic", "channels_recorded_auxiliary"}


def tree(o):
    """(kind, name, {field: value}, [children], {filter name: (kind, fields)})"""
    k = type(o).__name__
    name = getattr(o, "component", None) or getattr(o, "id", None)
    f = {} if k == "Experiment" else {p: p01.nonempty(v) for p, v in gen.flat(gen.snap(o, skip=DERIVED)).items()}
    kids = [tree(x) for x in getattr(o, KIDS[k])] if k in KIDS else []
    fl = {x.name: (type(x).__name__, {p: v for p, v in gen.flat(gen.snap(x)).items()}) for x in o.filters.values()} if k == "Survey" else {}
    return (k, name, f, kids, fl)


def size(t):
    return 1 + sum(size(x) for x in t[3])


XML_LOST = set()


DEFAULT = {}


def default(kind):
    if kind not in DEFAULT:
        DEFAULT[kind] = {p: p01_one(v) for p, v in gen.flat(gen.snap(getattr(T(), kind)(), skip=DERIVED)).items()}
    return DEFAULT[kind]


def same(ctx, a, b, form, path="", order=True, skip=(), filled=False, rel=0.0, site=None):
    k, name, f, kids, fl = a
    ctx.event("nodes")
    if not ctx.check(k == b[0] and name == b[1], f"kind_or_name:{form}", lambda: f"{path}: {a[:2]} read {b[:2]}"):
        return
    path = f"{path}/{k} {name}"
    for p, v in f.items():
        w = b[2].get(p)
        if any(p == s or p.startswith(s + ".") for s in skip):
            continue
        v, w = p01_one(v), p01_one(w)
        if v is None or v == p01.T1980 and w == "1980-01-01":  # unset
            ctx.check(filled or w in (None, 0.0, "1980-01-01", p01.T1980) or w == default(k).get(p), f"value_from_nowhere:{form}:{k}.{p}", lambda: f"{path}: unset, read {w!r}")
            continue
        if filled and (v in (None, 0.0, []) or v == p01.T1980):
            continue
        ctx.event("fields_compared")
        if p.split(".")[-1] in ("x", "y", "z", "x2", "y2", "z2") and v is None:
            v = 0.0
        if gen.diff([v], [w], rel):
            ctx.violate(f"value:{form}:{k}.{p}", f"{path}: {v!r} read {w!r}")
    if k == "Station":
        site = b[2]
    if filled and site:  # a sensor without a position may be given its station's, never a part of it
        for at in ("location", "positive", "negative"):
            if f"{at}.latitude" in b[2] and k not in ("Station", "Run"):
                triple = lambda d, at: [p01_one(d.get(f"{at}.{c}")) or 0.0 for c in ("latitude", "longitude", "elevation")]
                was, now = triple(f, at), triple(b[2], at)
                if not any(was):
                    ctx.event("unlocated")
                    ctx.check(now == was or now == triple(site, "location"), f"position_from_nowhere:{form}:{k}.{at}", lambda: f"{path}: {was} became {now}; station {triple(site, 'location')}")
    na, nb = [x[1] for x in kids], [x[1] for x in b[3]]
    if not kids:
        ctx.event("empty_level")
    ok = na == nb if order or k != "Run" else sorted(map(str, na)) == sorted(map(str, nb))
    if ctx.check(ok, f"children:{form}:{k}", lambda: f"{path}: {na} read {nb}"):
        by = {x[1]: x for x in b[3]}
        for x in kids:
            same(ctx, x, by[x[1]], form, path, order, skip, filled, rel, site)
    if len(fl) == 1:
        ctx.event("single_filter")
    if k == "Survey" and ctx.check(sorted(fl) == sorted(b[4]), f"filters:{form}", lambda: f"{path}: {sorted(fl)} read {sorted(b[4])}"):
        for n, (kind, pars) in fl.items():
            ctx.event("filters_compared")
            kb, pb = b[4][n]
            if ctx.check(kind == kb, f"filter_kind:{form}", lambda: f"{path} {n}: {kind} read {kb}"):
                for p, v in pars.items():
                    v, w = p01.nonempty(v), p01.nonempty(pb.get(p))
                    if gen.diff([v], [w], rel):
                        ctx.violate(f"filter_value:{form}:{kind}.{p}", f"{path} {n}: {v!r} read {w!r}")


def p01_one(v):
    v = p01.nonempty(v)
    if v == []:
        return None
    return v[0] if isinstance(v, list) and len(v) == 1 else v


# -- generation ------------------------------------------------------------
CH = {"e": ["ex", "ey", "e1"], "h": ["hx", "hy", "hz", "bx"], "a": ["temperature", "aux1", "clock"]}
SKIPF = {"id", "component", "type", "fdsn", "time_period", "filters", "location", "positive", "negative", "northwest_corner", "southeast_corner"} | DERIVED


def g_filter(rng, name):
    from mt_metadata.timeseries import filters as F

    k = rng.randrange(5)
    base = dict(name=name, units_in=rng.choice(["nT", "mV", "V", "mV/km", "m/s", "count"]), units_out=rng.choice(["V", "mV", "count", "T"]), gain=rng.choice([1.0, 2.5, -0.001, 1e6, 0.3333333333333]),
                sequence_number=rng.randint(0, 4))
    if rng.random() < 0.3:
        base["calibration_date"] = gen.g_time(rng)
    if rng.random() < 0.3:
        base["comments"] = gen.g_text(rng, False)
    c = lambda: complex(round(rng.uniform(-9, 9), 5), rng.choice([0.0, round(rng.uniform(-9, 9), 5)]))
    if k == 0:
        return F.PoleZeroFilter(poles=[c() for _ in range(rng.randint(0, 4))], zeros=[c() for _ in range(rng.randint(0, 3))], normalization_factor=rng.choice([1.0, 2002.269, 1e-9]), **base)
    if k == 1:
        return F.CoefficientFilter(**base)
    if k == 2:
        return F.TimeDelayFilter(delay=rng.choice([0.0, -0.25, 0.5, 1e-5, round(rng.uniform(-3, 3), 6)]), **base)
    if k == 3:
        return F.FIRFilter(coefficients=[round(rng.uniform(-1, 1), 6) for _ in range(rng.randint(1, 9))], decimation_factor=float(rng.choice([1, 2, 5, 10])),
                           decimation_input_sample_rate=float(rng.choice([1, 8, 64, 1000])), symmetry=rng.choice(["NONE", "ODD", "EVEN"]), gain_frequency=rng.choice([0.0, 0.5]), **base)
    n = rng.randint(1, 6)
    fr = sorted(round(rng.uniform(0.001, 1000), 5) for _ in range(n))
    return F.FrequencyResponseTableFilter(frequencies=fr, amplitudes=[round(rng.uniform(0.1, 9), 5) for _ in range(n)], phases=[round(rng.uniform(-3, 3), 5) for _ in range(n)],
                                          instrument_type=rng.choice(["", "coil"]), **base)


def decorate(rng, o, prob):
    gen.fill(o, rng, prob, only={n for n in type(o).model_fields if n not in SKIPF})
    if rng.random() < 0.7 and hasattr(o, "time_period"):
        a, b = gen.g_time(rng), gen.g_time(rng)
        for k, v in zip(("start", "end") if hasattr(o.time_period, "start") else ("start_date", "end_date"), (a, b)):
            if rng.random() < 0.8:
                setattr(o.time_period, k, v)
    for k in ("location", "positive", "negative"):
        if k in type(o).model_fields and rng.random() < 0.6:
            loc = getattr(o, k)
            loc.latitude, loc.longitude, loc.elevation = round(rng.uniform(-90, 90), 6), round(rng.uniform(-180, 180), 6), round(rng.uniform(-400, 5000), 2)
            if rng.random() < 0.25:  # only part of the position is known
                for part in rng.sample(["latitude", "longitude", "elevation"], rng.randint(1, 2)):
                    setattr(loc, part, 0.0)
            if rng.random() < 0.3:
                gen.fill(loc, rng, 0.5, only={"x", "y", "z", "x2", "y2", "z2", "declination"})
    return o


def g_experiment(rng, prob=None, most=3):
    prob = rng.choice([0, 0.1, 0.4]) if prob is None else prob
    ex = T().Experiment()
    names = iter(rng.sample(["f1", "f2", "coil_22", "lp filter", "notch-50", "dipole_100.00", "v2counts", "F_Up", "g7", "resp 3"], 10))
    for sv in rng.sample(["north", "s2", "mt_2020"], rng.choice([0, 1, 1, 1, 2, 3]) if most > 1 else 1):
        survey = decorate(rng, T().Survey(id=sv), prob)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            f = g_filter(rng, next(names))
            survey.filters[f.name.lower()] = f
        for st in rng.sample(["mt01", "MT02", "b3", "001"], rng.choice([0, 1, 1, 2, 3])):
            station = decorate(rng, T().Station(id=st), prob)
            for rn in rng.sample(["a", "b", "001", "Z9"], rng.choice([0, 1, 1, 2, 3])):
                run = decorate(rng, T().Run(id=rn), prob)
                for c in rng.sample(CH["e"] + CH["h"] + CH["a"], rng.choice([0, 1, 1, 2, 4, 6])):
                    kind = next(k for k in CH if c in CH[k])
                    ch = {"e": T().Electric, "h": T().Magnetic, "a": T().Auxiliary}[kind](component=c)
                    run.add_channel(decorate(rng, ch, prob))
                station.add_run(run)
            survey.add_station(station)
        ex.add_survey(survey)
    return ex


# -- workloads -------------------------------------------------------------
def roundtrip(ctx, rng, i):
    ex = g_experiment(rng)
    bad = gen.canonical(ex)
    for sv in ex.surveys:
        for f in sv.filters.values():
            bad |= gen.canonical(f)
    skip = {b.split("]")[-1].lstrip(".") for b in bad} - {""}
    before = tree(ex)
    form = rng.choice(["dict", "json", "jsonfile", "xml", "xml", "xmlfile", "xml_unsorted"])
    required = rng.random() < 0.8
    nested = rng.random() < 0.5
    n = T().Experiment()
    tmp = Path(os.environ["VERIF_SCRATCH"]) / "tmp" / f"e{os.getpid()}_{i}"
    order = True
    if form == "dict":
        d = ex.to_dict(nested=nested, required=required)
        n.from_dict(d)
    elif form == "json":
        t = ex.to_json(nested=nested, required=required)
        json.loads(t)
        n.from_json(t)
    elif form == "jsonfile":
        p = tmp.with_suffix(".json")
        try:
            ex.to_json(p, nested=nested, required=required)
            n.from_json(p if rng.random() < 0.5 else str(p))
        finally:
            p.unlink(missing_ok=True)
    else:
        order = form != "xml_unsorted"
        if form == "xmlfile":
            p = tmp.with_suffix(".xml")
            try:
                ex.to_xml(p if rng.random() < 0.5 else str(p), required=required)
                n.from_xml(p if rng.random() < 0.5 else str(p))
            finally:
                p.unlink(missing_ok=True)
        else:
            x = ex.to_xml(required=required, sort=order)
            x = et.fromstring(et.tostring(x))
            n.from_xml(element=x, sort=order)
        form = "xml"
    after = tree(ex)
    ctx.event("trees")
    ctx.event(f"form:{form}")
    if form == "xml":
        # what writing may change in the source
        def resort(t):
            return (*t[:3], sorted((resort(x) for x in t[3]), key=lambda x: str(x[1])), t[4])

        if order:
            same(ctx, resort(before), resort(after), "xml_source", filled=True, skip=skip | {"time_period", "northwest_corner", "southeast_corner"})
            names = lambda t: ([x[1] for x in t[3]] == sorted(x[1] for x in t[3])) and all(names(x) for x in t[3])
            ctx.check(names(after), "not_sorted", "")
        else:
            same(ctx, before, after, "xml_source", filled=True, skip=skip | {"time_period", "northwest_corner", "southeast_corner"})
    else:
        ctx.check(before == after, f"source_changed:{form}", lambda: gen.diff(before, after))
    same(ctx, after, tree(n), form, order=order, skip=skip)
    ctx.case((form, nested, required, after), {"form": form, "nodes": size(after), "filters": [sorted(s[4]) for s in after[3]]}, trivial=size(after) < 2)


WORKLOADS = [Workload("roundtrip", roundtrip, 700, 10000)]
