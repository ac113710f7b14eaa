"""P15: an experiment written to StationXML and back keeps the survey."""
import io

import numpy as np

from mon import filt, gen
from mon.core import Workload

RULE = ("case = (random experiment: 1-2 surveys, 1-3 stations, 1-4 runs, electric and magnetic channels, shared and changing sample rates, orientations, positions, sensors and filter chains; "
        "in memory or through StationXML text); every fact the format carries is recorded by the harness before and looked up afterwards at the same survey/station/run/channel; "
        "run-channel membership is compared as a whole")
ASSUME = ["identifiers are upper case FDSN-style codes without ':' or '.'; texts have no ',' or ':' (the comment syntax of the format); the hostile workload frees comments of runs, stations and channels from this, except for run id lists", "channel components are e or h with x, y or z; a channel spans its run; every filter is applied",
          "positions are distinct at 3 decimals, angles at 2, when meant to differ (the library's documented comparison)", "filters are connected chains whose stages obspy can hold (see P19); a decimating FIR filter comes back with its rate in its name (documented)",
          "a position of a dipole is that of its positive electrode"]
NEED = {"experiments": 150, "runs": 400, "channels": 1200, "facts": 10000, "filters": 600, "text": 50, "shared": 100, "changed": 100}


def T():
    from mt_metadata import timeseries

    return timeseries


TXT = ["Phoenix", "LEMI", "Narod", "USGS", "long period", "BF-4", "Zen 32", "A1 B2", "Smith J", "Zürich", "north fork 2"]


def g_experiment(ctx, rng):
    """(experiment, record) record: {survey: {facts, stations: {id: {facts, runs: {id: {facts, channels}}}}}}"""
    ex = T().Experiment()
    rec = {}
    nfilter = [0]
    for sid, net in rng.sample([("NORTH", "ZU"), ("S2020", "8P"), ("EAST", "EM")], rng.choice([1, 1, 2])):
        sv = T().Survey(id=sid)
        sv.fdsn.network = net
        sv.country = rng.choice([["USA"], ["Canada"], ["USA", "Mexico"]])
        sv.geographic_name = rng.choice(TXT)
        sv.project = rng.choice(TXT)
        sv.acquired_by.author = rng.choice(TXT)
        sv.summary = rng.choice(TXT)
        r = {"facts": {k: sv.get_attr_from_name(k) for k in ("geographic_name", "project", "acquired_by.author", "fdsn.network", "summary")}, "stations": {}}
        r["facts"]["country"] = list(sv.country)
        rec[sid] = r
        pool = chains(rng, sv, nfilter)
        for st in rng.sample(["MT01", "MT02", "REV08", "A12"], rng.randint(1, 3)):
            station = T().Station(id=st)
            lat, lon, ele = round(rng.uniform(-80, 80), 5), round(rng.uniform(-179, 179), 5), round(rng.uniform(-100, 4000), 1)
            station.location.latitude, station.location.longitude, station.location.elevation = lat, lon, ele
            station.fdsn.id = st
            station.geographic_name = rng.choice(TXT)
            station.orientation.method = rng.choice(["compass", "theodolite", "gps"])
            station.orientation.reference_frame = rng.choice(["geographic", "geomagnetic"])
            station.location.declination.value = round(rng.uniform(-20, 20), 2) or 1.0
            station.location.declination.model = rng.choice(["WMM", "IGRF"])
            station.provenance.software.name = rng.choice(TXT)
            station.provenance.software.author = rng.choice(TXT)
            station.data_type = rng.choice(["BBMT", "LPMT"])
            keys = ["location.latitude", "location.longitude", "location.elevation", "fdsn.id", "geographic_name", "orientation.method", "orientation.reference_frame",
                    "location.declination.value", "location.declination.model", "provenance.software.name", "provenance.software.author"]
            s = {"facts": {k: val(station, k) for k in keys}, "runs": {}}
            r["stations"][st] = s
            runs(ctx, rng, station, s, pool, (lat, lon, ele))
            sv.add_station(station)
        ex.add_survey(sv)
    return ex, rec


def val(o, k):
    v = o.get_attr_from_name(k)
    return getattr(v, "value", v)


def chains(rng, sv, count):
    """filter chains for electric and magnetic channels"""
    out = {"e": [], "h": []}
    for k, (a, b) in {"e": ("milliVolt per kilometer", "digital counts"), "h": ("nanoTesla", "digital counts")}.items():
        for _ in range(rng.choice([1, 2, 2])):
            n = rng.choice([0, 1, 2, 3])
            units = [a] + [rng.choice(["milliVolt", "Volt"]) for _ in range(n - 1)] + [b] if n else []
            chain = []
            for j in range(n):
                kind = rng.choice(["zpk", "coefficient", "fap", "fir", "time delay"])
                count[0] += 1
                f, p = filt.g_filter(rng, kind, name=f"{kind.replace(' ', '_')}_{count[0]:02}", units=(units[j], units[j + 1]))
                p["gain"] = f.gain = 1.0 if kind == "time delay" else rng.choice([1.0, 2.0, 0.5, 1e3, 12.5])
                if kind == "time delay":
                    p["delay"] = f.delay = p["delay"] or 0.25
                if kind == "zpk" and not p["poles"] and not p["zeros"]:
                    p["poles"] = [-3 + 4j]
                    f.poles = [-3 + 4j]
                if kind == "fir":
                    p["gf"] = f.gain_frequency = 0.0
                    if filt.fir_reference(p) < 0.05:
                        p["coefficients"] = [0.5, 0.3, 0.2]
                        f.coefficients = [0.5, 0.3, 0.2]
                sv.filters[f.name] = f
                chain.append(p)
            out[k].append(chain)
    return out


def runs(ctx, rng, station, s, pool, pos):
    start = 1577836800 + rng.randrange(10**7)
    comps = rng.sample(["ex", "ey", "hx", "hy", "hz"], rng.randint(1, 5))
    state = {}
    steady = rng.random() < 0.4
    rate = rng.choice([1.0, 8.0, 4.0, 256.0])
    for rid in rng.choice([["A", "B", "C", "D"], ["001", "002", "003", "004"], ["MT01A", "MT01B", "MT01C", "MT01D"], ["a", "b", "c", "d"], ["sr1_0001", "sr1_0002", "sr8_0001", "sr8_0002"]])[: rng.randint(1, 4)]:
        length = rng.choice([60, 3600, 86400, 7261])
        run = T().Run(id=rid)
        if not steady and rng.random() < 0.5:
            rate = rng.choice([1.0, 8.0, 4.0, 256.0, 150.0])
        a, b = np.datetime64(start, "s"), np.datetime64(start + length, "s")
        run.time_period.start, run.time_period.end = f"{a}+00:00", f"{b}+00:00"
        run.sample_rate = rate
        run.data_logger.id, run.data_logger.manufacturer, run.data_logger.model = rng.choice(["Z1", "0034", "ZEN27"]), rng.choice(TXT), rng.choice(TXT)
        run.data_logger.type = rng.choice(TXT)
        run.data_logger.firmware.version = rng.choice(["1", "V2b", "0034"])
        run.data_logger.power_source.type = rng.choice(["battery", "solar panel"])
        run.data_logger.timing_system.type = rng.choice(["GPS", "internal clock"])
        run.acquired_by.author = rng.choice(TXT)
        run.metadata_by.author = rng.choice(TXT)
        start += length + rng.choice([1, 60, 1800, 86400])
        keys = ["data_logger.id", "data_logger.manufacturer", "data_logger.model", "data_logger.type", "data_logger.firmware.version", "data_logger.power_source.type", "data_logger.timing_system.type",
                "acquired_by.author", "metadata_by.author", "sample_rate", "time_period.start", "time_period.end"]
        channels = {}
        for c in comps:
            if not steady and rng.random() < 0.15:
                continue
            if c not in state or (not steady and rng.random() < 0.3):
                new = setup(rng, c, pool, pos)
                if c in state and rng.random() < 0.7:  # one facet changes, the rest stays
                    old = state[c]
                    k = rng.choice(["chain", "chain", *old["set"]])
                    if k == "measurement_azimuth" and rng.random() < 0.5:  # sensor laid out the other way round, or across
                        new["set"][k] = round((old["set"][k] + rng.choice([180.0, 180.0, 90.0, 0.5])) % 360, 2)
                        ctx.event("reoriented")
                    new = {"set": dict(old["set"]), "chain": new["chain"]} if k == "chain" else {"set": {**old["set"], k: new["set"][k]}, "chain": old["chain"]}
                state[c] = new
            d = state[c]
            ch = (T().Electric if c[0] == "e" else T().Magnetic)(component=c)
            for k, v in d["set"].items():
                ch.update_attribute(k, v)
            ch.sample_rate = rate
            ch.units = "digital counts"
            ch.time_period.start, ch.time_period.end = f"{a}+00:00", f"{b}+00:00"
            for j, p in enumerate(d["chain"]):
                ch.add_filter(name=p["name"], applied=True, stage=j + 1)
            run.add_channel(ch)
            channels[c] = {**d, "rate": rate}
        s["runs"][rid] = {"facts": {k: val(run, k) for k in keys}, "channels": channels}
        station.add_run(run)


def setup(rng, c, pool, pos):
    lat, lon, ele = pos
    d = {"measurement_azimuth": rng.choice([0.0, 90.0, 12.0, 102.5, 359.5, round(rng.uniform(0, 359.9), 2)]), "measurement_tilt": rng.choice([0.0, 0.0, 5.25]) if c[1] != "z" else rng.choice([90.0, 88.5])}
    ele = ele + rng.choice([0.0, 0.0, 15.5])
    lat, lon = round(lat + rng.choice([0, 0.002, -0.003]), 5), round(lon + rng.choice([0, 0.002, -0.005]), 5)
    if c[0] == "e":
        d.update({"positive.latitude": lat, "positive.longitude": lon, "positive.elevation": ele, "positive.id": rng.choice(["E1", "0023"]), "negative.id": rng.choice(["E2", "0024"]),
                  "dipole_length": rng.choice([100.0, 55.5, 92.25]), "positive.manufacturer": rng.choice(TXT), "positive.model": rng.choice(TXT)})
    else:
        d.update({"location.latitude": lat, "location.longitude": lon, "location.elevation": ele, "sensor.id": rng.choice(["2284", "0034", "C7"]), "sensor.manufacturer": rng.choice(TXT),
                  "sensor.name": rng.choice(TXT), "sensor.type": rng.choice(["magnetometer", "induction coil"])})
    return {"set": d, "chain": rng.choice(pool[c[0]])}


def through(rng, ctx, ex):
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment

    inv = XMLInventoryMTExperiment().mt_to_xml(ex)
    text = rng.random() < 0.4
    if text:
        from obspy.core.inventory import read_inventory

        ctx.event("text")
        b = io.BytesIO()
        inv.write(b, "stationxml")
        b.seek(0)
        inv = read_inventory(b, format="STATIONXML")
    return XMLInventoryMTExperiment().xml_to_mt(inventory_object=inv), text


def same(a, b):
    a, b = getattr(a, "value", a), getattr(b, "value", b)
    if hasattr(a, "time_stamp") or hasattr(b, "time_stamp"):
        return str(getattr(a, "time_stamp", a))[:19] == str(getattr(b, "time_stamp", b))[:19]
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-6 * max(1, abs(a))
    return a == b


def roundtrip(ctx, rng, i):
    ex, rec = g_experiment(ctx, rng)
    before = gen.snap(ex)
    back, text = through(rng, ctx, ex)
    ctx.event("experiments")
    after = gen.snap(ex)
    where = "text" if text else "memory"
    ctx.check(after == before, "source_changed", lambda: gen.diff(before, after))
    judge(ctx, back, rec, where)
    ctx.case(repr(rec), {"surveys": {k: {s: {r: sorted(x["channels"]) for r, x in v["runs"].items()} for s, v in d["stations"].items()} for k, d in rec.items()}, "form": where})
    return ex, rec, back


def facts(ctx, o, want, what):
    for k, v in want.items():
        ctx.event("facts")
        got = val(o, k)
        ctx.check(same(got, v), f"{what}:{k}", lambda: f"{got!r} wants {v!r}")


def spans(ctx, o, q, what):
    """times of a station or survey: those of its runs"""
    if q:
        lo, hi = min(str(x["facts"]["time_period.start"])[:19] for x in q), max(str(x["facts"]["time_period.end"])[:19] for x in q)
        ctx.event("facts")
        t = o.time_period
        got = (str(t.start)[:19], str(t.end)[:19]) if what == "station" else (str(t.start_date), str(t.end_date))
        n = 19 if what == "station" else 10
        ctx.check(got[0][:n] == lo[:n] and got[1][:n] == hi[:n], f"{what}:time_period", lambda: f"{got} wants {lo} {hi}")


def judge(ctx, back, rec, where):
    if not ctx.check(sorted(s.id for s in back.surveys) == sorted(rec), "surveys", lambda: f"{[s.id for s in back.surveys]} wants {sorted(rec)}"):
        return
    for sid, r in rec.items():
        sv = back.surveys[sid]
        facts(ctx, sv, r["facts"], "survey")
        spans(ctx, sv, [q for s in r["stations"].values() for q in s["runs"].values()], "survey")
        if not ctx.check(sorted(s.id for s in sv.stations) == sorted(r["stations"]), "stations", lambda: f"{[s.id for s in sv.stations]} wants {sorted(r['stations'])}"):
            continue
        for stid, s in r["stations"].items():
            st = sv.stations[stid]
            facts(ctx, st, s["facts"], "station")
            spans(ctx, st, list(s["runs"].values()), "station")
            if not ctx.check(sorted(x.id for x in st.runs) == sorted(s["runs"]), "runs", lambda: f"{[x.id for x in st.runs]} wants {sorted(s['runs'])}"):
                continue
            for rid, q in s["runs"].items():
                ctx.event("runs")
                run = st.runs[rid]
                facts(ctx, run, {k: v for k, v in q["facts"].items() if k != "sample_rate" or q["channels"]}, "run")
                got = sorted(c.component for c in run.channels)
                if not ctx.check(got == sorted(q["channels"]), "membership", lambda: f"{sid}/{stid}/{rid}: {got} wants {sorted(q['channels'])}"):
                    continue
                for c, d in q["channels"].items():
                    channel(ctx, sv, st, run, run.channels[c], d, f"{sid}/{stid}/{rid}/{c}")


def channel(ctx, sv, st, run, ch, d, path):
    ctx.event("channels")
    ctx.check(ch.type == ("electric" if path[-2] == "e" else "magnetic"), "channel:type", lambda: f"{path} {ch.type}")
    want = dict(d["set"])
    want["sample_rate"] = d["rate"]
    want["time_period.start"], want["time_period.end"] = run.time_period.start, run.time_period.end
    for k, v in want.items():
        ctx.event("facts")
        got = val(ch, k)
        ctx.check(same(got, v), f"channel:{k}", lambda: f"{path} {k}: {got!r} wants {v!r}")
    names = [p["name"] + (f"_{p['fs']}" if p["kind"] == "fir" and p["decimation"] != 1 else "") for p in d["chain"]]
    got = [f.name for f in sorted(ch.filters, key=lambda f: f.stage)]
    if ctx.check(got == names, "channel:filters", lambda: f"{path} {got} wants {names}"):
        for n, p in zip(names, d["chain"]):
            ctx.event("filters")
            if ctx.check(n in sv.filters.keys(), "filter_missing", lambda: f"{n} not in {list(sv.filters.keys())}"):
                f = sv.filters[n]
                if p["kind"] == "fir":
                    ctx.check(f.decimation_factor == p["decimation"] and f.decimation_input_sample_rate == p["fs"], "filter_decimation", lambda: f"{f.decimation_factor} {f.decimation_input_sample_rate}")
                ctx.check(f.type == p["kind"], f"filter_type:{p['kind']}", lambda: f.type)
                ctx.check((f.units_in, f.units_out) == (p["units_in"], p["units_out"]), f"filter_units:{p['kind']}", lambda: f"{f.units_in} {f.units_out} wants {p['units_in']} {p['units_out']}")
                fr = filt.g_frequencies(__import__("random").Random(n), p, 5)
                h, w = f.complex_response(np.array(fr)), filt.response(p, fr)
                ctx.check(filt.close(h, w, 1e-6, filt.tol(p, fr)), f"filter_response:{p['kind']}", lambda: f"{path} {n} {np.asarray(h)[:2]} wants {w[:2]}")


def count_shared(ctx, rec):
    for r in rec.values():
        for s in r["stations"].values():
            seen = {}
            for q in s["runs"].values():
                for c, d in q["channels"].items():
                    if c in seen:
                        ctx.event("shared" if seen[c] == d else "changed")
                    seen[c] = d


def once(ctx, rng, i):
    ex, rec, back = roundtrip(ctx, rng, i)
    count_shared(ctx, rec)


HOSTILE = ["time 12:30:00, battery: low", "a: b, c: d", "note: , :", "author: me, comments: none", "x:y:z", "no colon, just comma"]


def hostile(ctx, rng, i):
    """free text of any punctuation never disturbs what is carried"""
    ex, rec = g_experiment(ctx, rng)
    for sv in ex.surveys:
        for st in sv.stations:
            if rng.random() < 0.5:
                st.comments.value = rng.choice(HOSTILE)
            for run in st.runs:
                if rng.random() < 0.5:
                    run.comments.value = rng.choice(HOSTILE)
                for ch in run.channels:
                    if rng.random() < 0.3:
                        ch.comments.value = rng.choice(HOSTILE)
    back, text = through(rng, ctx, ex)
    ctx.event("experiments")
    judge(ctx, back, rec, "hostile")
    ctx.case(repr(rec), None)


WORKLOADS = [Workload("hostile", hostile, 100, 1500), Workload("once", once, 300, 4000)]
