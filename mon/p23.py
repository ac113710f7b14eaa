"""P23: station and survey metadata survive transfer-function files."""
import shutil

import numpy as np

from mon import gen, tfs
from mon.core import Workload
from mon.tfs import FMT

RULE = ("case = a transfer function with random station/survey/run/channel metadata (positions in every hemisphere incl. within one degree of equator and meridian, angles, free text, dates, remote references), written by the "
        "real writers and read back, possibly through a second format; every fact the format carries is compared with what the harness set")
ASSUME = ["facts compared are those the format has a place for (tables in mon/p23.py)", "EDI text holds no equals signs, brackets, quotes, angle brackets or line breaks: the format has no escapes for them; EMTF XML text may hold any printable character, '&' included",
          "station, survey and project names are of the characters the schemas admit; EMTF XML survey name is the survey's geographic name when there is one; run and remote names hold no '_' or blanks", "angles of hx/hy (and ex/ey) differ"]
NEED = {"edi": 200, "xml": 200, "zmm": 200, "fact": 8000, "near_zero_position": 150, "chain": 60, "special_text": 80}
PREC = {"edi": (1.5e-8, 5.1e-4, 0.0051), "xml": (5.1e-7, 5.1e-4, 5.1e-4), "zmm": (5.1e-4, None, 0.0051)}
PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def word(rng, n=12):
    return "".join(rng.choice(PLAIN) for _ in range(rng.randint(1, n)))


def text(rng, hard, easy=True):
    w = [word(rng, 8) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.3:
        w[-1] += rng.choice([".", ";", " (1)", "/a", " - b", " #3", " +", "%", "é"])
    if hard and rng.random() < 0.6:
        w.insert(rng.randint(0, len(w)), rng.choice(["&", "<", ">", "a & b", "<b>", "&amp;", '"q"', "'s'", "AT&T", "x<y>z", "[1]", "&lt", "a=b", "k: v"]))
    elif rng.random() < 0.15:
        w.insert(1, rng.choice(["a=b", "x=1"] if easy else ["k:"]))
    return " ".join(w)


def angle(rng):
    return rng.choice([0.0, 12.3, -12.5, 180.0, 359.0, round(rng.uniform(-180, 360), 2)])


def position(rng):
    k = rng.random()
    lat = rng.choice([-0.5, 0.25, -0.000123, 0.999999, -0.016667, -89.5, 89.999, 45.0, -33.0]) if k < 0.4 else round(rng.uniform(-90, 90), rng.choice([0, 2, 6, 9]))
    lon = rng.choice([-0.5, 0.25, -0.000123, 0.999999, -0.016667, -179.999, 179.5, 10.0, -10.0]) if k < 0.4 else round(rng.uniform(-180, 180), rng.choice([0, 2, 6, 9]))
    return lat, lon, rng.choice([0.0, -12.3456, 8848.8, round(rng.uniform(-500, 6000), rng.choice([0, 1, 4]))])


def when(rng):
    y = rng.choice([1981, 1999, 2000, 2012, 2016, 2020, 2023])
    return f"{y}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}T{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}:{rng.randint(0, 59):02d}+00:00"


def facts(rng, fmts):
    """everything the harness sets"""
    hard = set(fmts) == {"xml"}
    easy = "edi" not in fmts
    t = lambda: text(rng, hard, easy).replace(";", "" if len(fmts) > 1 else ";")  # ";" separates the comments a second writing makes
    lat, lon, el = position(rng)
    a = angle(rng)
    b = angle(rng)
    start, end = sorted([when(rng), when(rng)])
    f = {
        "station": rng.choice(["MT01", "mt001", "a", "S_1", "Station9", "300", "peri0d", word(rng, 8)]), "lat": lat, "lon": lon, "elev": el,
        "az": {"ex": a, "ey": a + 90 if rng.random() < 0.6 else a + rng.choice([80.0, 100.5, -90.0]), "hx": b, "hy": b + 90 if rng.random() < 0.6 else b + rng.choice([80.0, 100.5, -90.0]), "hz": 0.0},
        "survey": " ".join(word(rng, 8) for _ in range(rng.randint(1, 3))) + rng.choice(["", "-1", "_x"]), "project": word(rng), "country": rng.choice(["USA", "Canada", "New Zealand"]), "summary": t(), "author": t(), "name": t(), "submitter": t(), "processor": t(), "software": t(),
        "start": start, "end": end, "processed": when(rng), "remotes": [word(rng, 6) + "r" for _ in range(rng.choice([0, 1, 1, 2, 3]))], "type": rng.choice(["robust remote", "robust single station", word(rng)]),
        "runs": None, "title": t(), "authors": t(), "year": rng.choice(["2015", "2020", "1999"]), "doi": "https://doi.org/10.1234/" + word(rng), "sign": rng.choice(["+", "-"]),
        "params": [f"p{k}={word(rng)}" for k in range(rng.randint(0, 3))], "length": rng.choice([100.0, 50.5, round(rng.uniform(1, 300), 2)]), "logger": word(rng), "sensor": {c: word(rng) for c in ("hx", "hy", "hz")}, "rate": rng.choice([1.0, 4.0, 150.0]),
    }
    while f["station"].lower() in "".join(f["remotes"]).lower():
        f["station"] = "Q" + word(rng, 10)
    if "xml" in fmts:
        f["station"] = f["station"].replace("_", "")
    f["runs"] = [f"{f['station'].replace('_', '')}{x}" for x in "abc"[: rng.randint(1, 3)]]
    who = lambda: {"author": t(), "email": f"{word(rng)}@{word(rng).lower()}.org", "organization": t(), "url": "https://" + word(rng).lower() + ".org/" + word(rng)}
    f["people"] = {k: who() for k in ("creator", "submitter")}
    f["people"]["submitter"]["author"] = f["submitter"]
    f["declination"] = {"value": round(rng.uniform(-30, 30), 3), "epoch": rng.choice(["2010", "2019", "1995"])}
    f["archive"] = "https://doi.org/10.17611/" + word(rng)
    f["software_author"] = t()
    f["geo"] = t() if rng.random() < 0.4 and easy else ""
    return f


def build(rng, f):
    r = tfs.g_rec(rng, n=rng.choice([1, 2, 4]), parts="zt", cov=rng.random() < 0.5)
    tf = tfs.to_tf(r, station=f["station"])
    sv, st = tf.survey_metadata, tf.station_metadata
    sv.id, sv.project, sv.country, sv.summary = f["survey"], f["project"], f["country"], f["summary"]
    if f["geo"]:
        sv.geographic_name = f["geo"]
    c = sv.citation_dataset
    c.title, c.authors, c.year, c.doi = f["title"], f["authors"], f["year"], f["doi"]
    st.geographic_name, st.acquired_by.author, st.provenance.submitter.author = f["name"], f["author"], f["submitter"]
    st.location.latitude, st.location.longitude, st.location.elevation = f["lat"], f["lon"], f["elev"]
    st.time_period.start, st.time_period.end = f["start"], f["end"]
    t = st.transfer_function
    t.processed_by.author, t.processed_date, t.software.name, t.processing_type, t.sign_convention = f["processor"], f["processed"], f["software"], f["type"], f["sign"]
    t.remote_references, t.runs_processed, t.processing_parameters = list(f["remotes"]), list(f["runs"]), list(f["params"])
    for who, d in f["people"].items():
        for k, v in d.items():
            st.update_attribute(f"provenance.{who}.{k}", v)
    for k, v in f["declination"].items():
        st.update_attribute(f"location.declination.{k}", v)
    st.provenance.archive.url, t.software.author = f["archive"], f["software_author"]
    run = st.runs[0]
    run.id, run.sample_rate, run.data_logger.id = f["runs"][0], f["rate"], f["logger"]
    run.time_period.start, run.time_period.end = f["start"], f["end"]
    for k, (n, a) in enumerate(f["az"].items()):
        ch = run.get_channel(n)
        ch.measurement_azimuth, ch.channel_number = a, k + 1
        if n[0] == "e":
            ch.dipole_length = f["length"]
            ch.positive.id, ch.negative.id = f"p{n}", f"n{n}"
        else:
            ch.sensor.id = f["sensor"][n]
    return tf


def wrap(a):
    return (a + 180.0) % 360.0 - 180.0


def judge(ctx, tf, f, fmt, prec, tag, carried):
    sv, st = tf.survey_metadata, tf.station_metadata
    t = st.transfer_function
    pos, el, az = prec

    def is_(name, got, want):
        if name not in carried:
            return
        ctx.event("fact")
        ctx.check(got == want, f"{tag}:{name}", lambda: f"read {got!r} wants {want!r}")

    def near(name, got, want, tol):
        if name in carried:
            ctx.event("fact")
            ctx.check(got is not None and abs(got - want) <= tol, f"{tag}:{name}", lambda: f"read {got!r} wants {want!r} within {tol}")

    is_("station", st.id, f["station"])
    is_("station", tf.station, f["station"])
    near("lat", tf.latitude, f["lat"], pos)
    near("lon", tf.longitude, f["lon"], pos)
    near("elev", tf.elevation, f["elev"], el or 0)
    for n, a in f["az"].items():
        if f"az" in carried:
            got = [run.get_channel(n).measurement_azimuth for run in st.runs[:1] if n in run.channels_recorded_all]
            ctx.event("fact")
            ctx.check(bool(got) and abs(wrap(got[0] - a)) <= az, f"{tag}:azimuth:{n[0]}", lambda: f"{n} read {got} wants {a}")
    if f["geo"] or tag != "edi>xml":  # EDI's location name stands for the survey's place as well, XML then writes the place
        is_("survey", sv.geographic_name if f["geo"] else sv.id, f["geo"] or f["survey"])
    is_("project", sv.project, f["project"])
    is_("country", list(sv.country or []), [f["country"]])
    is_("summary", sv.summary, f["summary"])
    c = sv.citation_dataset
    for k in ("title", "authors", "year"):
        is_(k, getattr(c, k), f[k])
    is_("doi", str(c.doi), f["doi"])
    is_("name", st.geographic_name, f["name"])
    is_("author", st.acquired_by.author, f["author"])
    is_("submitter", st.provenance.submitter.author, f["submitter"])
    if "people" in carried:
        for who, d in f["people"].items():
            for k, v in d.items():
                is_("people", str(getattr(getattr(st.provenance, who), k)).rstrip("/"), v)
    for k, v in f["declination"].items():
        got = getattr(st.location.declination, k)
        if k == "value":
            near("declination", got, v, 5.1e-4)
        else:
            is_("declination", str(getattr(got, "value", got)), v)
    is_("archive", str(st.provenance.archive.url), f["archive"])
    is_("software_author", t.software.author, f["software_author"])
    is_("start", str(st.time_period.start), f["start"])
    is_("end", str(st.time_period.end), f["end"])
    is_("processor", t.processed_by.author, f["processor"])
    is_("processed", str(t.processed_date), f["processed"])
    is_("software", t.software.name, f["software"])
    is_("type", t.processing_type, f["type"])
    is_("sign", t.sign_convention, f["sign"])
    is_("remotes", sorted(t.remote_references), sorted(f["remotes"]))
    is_("runs", sorted(t.runs_processed), sorted(f["runs"]))
    is_("params", [p for p in t.processing_parameters if p.startswith("p")], f["params"])
    is_("run", st.runs[0].id, f["runs"][0])
    if "rate" in carried:
        near("rate", st.runs[0].sample_rate, f["rate"], 1e-9)
    is_("logger", st.runs[0].data_logger.id, f["logger"])
    if "sensor" in carried:
        for n in f["sensor"]:
            is_("sensor", getattr(st.runs[0].get_channel(n).sensor, "id", None) if n in st.runs[0].channels_recorded_all else None, f["sensor"][n])
    if "length" in carried:
        for n in ("ex", "ey"):
            near("length", st.runs[0].get_channel(n).dipole_length if n in st.runs[0].channels_recorded_all else None, f["length"], 0.006 if fmt == "edi" else 5.1e-4)


ALWAYS = {"station", "lat", "lon", "az"}
TEXT = {"survey", "project", "country", "summary", "title", "authors", "year", "doi", "name", "author", "submitter", "start", "end", "processor", "processed", "software", "type", "sign", "remotes", "elev", "sensor", "length"}
CARRY = {"edi": ALWAYS | TEXT | {"params"}, "xml": ALWAYS | TEXT | {"runs", "run", "rate", "logger", "people", "declination", "archive", "software_author"}, "zmm": ALWAYS | {"type", "rate"}}


def go(ctx, rng, fmts):
    f = facts(rng, fmts)
    if min(abs(f["lat"]), abs(f["lon"])) < 1:
        ctx.event("near_zero_position")
    if any(c in f["survey"] + f["author"] + f["summary"] for c in "&<>=\"'["):
        ctx.event("special_text")
    tf = build(rng, f)
    folder = tfs.folder(ctx)
    try:
        carried, prec = CARRY["edi"] | CARRY["xml"] | CARRY["zmm"], [0.0, 0.0, 0.0]
        for k, fmt in enumerate(fmts):
            ctx.event(fmt)
            fn = tfs.write(tf, fmt, folder)
            tf = tfs.read(fn)
            carried &= CARRY[fmt]
            prec = [a + (b or 0) for a, b in zip(prec, PREC[fmt])]
            judge(ctx, tf, f, fmt, prec, fmt if k == 0 else f"{fmts[k - 1]}>{fmt}", carried)
    finally:
        shutil.rmtree(folder)
    ctx.case((fmts, sorted(map(str, f.items()))), {"formats": fmts, "facts": f})


def once(ctx, rng, i):
    go(ctx, rng, [FMT[i % 3]])


def chain(ctx, rng, i):
    ctx.event("chain")
    go(ctx, rng, [rng.choice(FMT), rng.choice(FMT)])


WORKLOADS = [Workload("once", once, 600, 9000), Workload("chain", chain, 120, 2000)]
