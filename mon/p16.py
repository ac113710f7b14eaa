"""P16: FDSN channel codes encode sample rate, kind and orientation."""
import math

import numpy as np

from mon.core import Workload

RULE = ("case = (sample rate, measurement kind, azimuth or direction, horizontal or vertical): the code made is compared with the harness's own band table, letters and angle "
        "arithmetic and read back; or a rate at or next to a band edge; or an arbitrary text given to the reader; or a random channel object written and read as a StationXML channel code")
ASSUME = ["where two bands share an edge or an interval either letter is right; a rate in no band gives the letter A, which names no range",
          "the tide letter is read as magnetic (documented)", "angles within 1e-6 degrees of a sector edge may take either letter"]
NEED = {"code": 1500, "read": 1500, "refused": 400, "orientation": 1500, "edge": 400, "band": 15}
BANDS = {"F": (1000, 5000), "G": (1000, 5000), "D": (250, 1000), "C": (250, 1000), "E": (80, 250), "S": (10, 80), "H": (80, 250), "B": (10, 80), "M": (1, 10),
         "L": (0.95, 1.05), "V": (0.095, 0.105), "U": (0.0095, 0.0105), "R": (0.0001, 0.001), "P": (0.00001, 0.0001), "T": (0.000001, 0.00001), "Q": (0, 0.000001)}
KINDS = {"tilt": "A", "creep": "B", "calibration": "C", "pressure": "D", "magnetic": "F", "gravity": "G", "humidity": "I", "temperature": "K", "water_current": "O",
         "electric": "Q", "rain_fall": "R", "linear_strain": "S", "tide": "T", "wind": "W"}


def M():
    from mt_metadata.timeseries.stationxml import fdsn_tools

    return fdsn_tools


def bands_of(rate):
    return {k for k, (a, b) in BANDS.items() if a <= rate <= b}


def sector(az, vertical=False):
    """the letters allowed for an azimuth"""
    a = math.fmod(math.fmod(az, 180) + 180, 180)
    d = min(a, 180 - a)  # degrees from the north-south axis
    e = 1e-5
    out = set()
    if vertical:
        if d <= 15 + e:
            out.add("Z")
        if d >= 15 - e:
            out.add("3")
        return out
    if d <= 15 + e:
        out.add("N")
    if 15 - e <= d <= 45 + e:
        out.add("1")
    if 45 - e <= d <= 75 + e:
        out.add("2")
    if d >= 75 - e:
        out.add("E")
    return out


def g_rate(rng):
    r = rng.random()
    if r < 0.5:
        a, b = rng.choice(list(BANDS.values()))
        return rng.choice([a, b, rng.uniform(a, b), rng.uniform(a, b), np.nextafter(b, 9e9), np.nextafter(a, -1) if a else 1e-9])
    if r < 0.8:
        return rng.choice([1, 8, 4, 16, 64, 128, 256, 1024, 4096, 150, 24000, 0.1, 0.01, 0.5, 10, 80, 250, 1000, 5000])
    return 10 ** rng.uniform(-7, 4.2)


def g_azimuth(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice([0, 15, 30, 45, 60, 75, 90, 105, 120, 135, 150, 165, 180]) + rng.choice([0, 0, 1e-3, -1e-3, 1, -1]) + 180 * rng.randint(-4, 4)
    return rng.choice([rng.uniform(-720, 1080), round(rng.uniform(-360, 360), 1), rng.randint(-360, 360)])


def code(ctx, rng, i):
    m = M()
    rate, kind = float(g_rate(rng)), rng.choice(list(KINDS))
    vertical = rng.random() < 0.25
    direction = rng.random() < 0.2
    az = rng.choice(["x", "y", "z", "X", "Y", "Z"]) if direction else g_azimuth(rng)
    o = "vertical" if vertical else "horizontal"
    spelled = rng.choice([kind, kind.upper(), kind.title()])
    given = az
    if not direction and rng.random() < 0.3:
        given = rng.choice([np.float64, np.float32, np.int64, np.int32])(round(az))
        az = float(given)
    c = m.make_channel_code(rate, spelled, given, orientation=o)
    ctx.event("code")
    ctx.event("orientation")
    if not ctx.check(isinstance(c, str) and len(c) == 3, "length", lambda: repr(c)):
        return
    ok = bands_of(rate) or {"A"}
    ctx.check(c[0] in ok, "band_letter", lambda: f"{rate} gives {c[0]} wants {sorted(ok)}")
    ctx.check(c[1] == KINDS[kind], f"kind_letter:{kind}", lambda: f"{spelled} gives {c[1]}")
    want = {{"x": "N", "y": "E", "z": "Z"}[az.lower()]} if direction else sector(az, vertical)
    ctx.check(c[2] in want, f"orientation_letter:{o}", lambda: f"{az} gives {c[2]} wants {sorted(want)}")
    ctx.check(c == m.make_channel_code(rate, spelled, given, orientation=o), "repeat", "")
    if not direction:
        k = rng.choice([-720, -360, 360, 720, 180, -180])
        c2 = m.make_channel_code(rate, spelled, az + k, orientation=o)
        ctx.check(c2 == c or len(want) > 1, "equivalent_angle", lambda: f"{az} {c} {az + k} {c2}")
        c3 = m.make_channel_code(rate, spelled, -az, orientation=o)
        ctx.check(c3 == c or len(want) > 1, "mirrored_angle", lambda: f"{az} {c} {c3}")
    # the parts on their own
    ctx.check(m.get_period_code(rate) == c[0] and m.get_measurement_code(spelled) == c[1], "parts", "")
    back = m.read_channel_code(c)
    ctx.event("read")
    ctx.check(back["measurement"] == ("magnetic" if kind == "tide" else kind), f"read_kind:{kind}", lambda: back["measurement"])
    if bands_of(rate):
        ctx.check(back["period"]["min"] <= rate <= back["period"]["max"], "read_range", lambda: f"{rate} {c} {back['period']}")
        ctx.check((back["period"]["min"], back["period"]["max"]) == BANDS[c[0]], "read_range_value", lambda: f"{c} {back['period']}")
    mid, var = back["orientation"]["angle"], back["orientation"]["variance"]
    if not direction and not vertical:
        a = abs(math.fmod(az, 180))
        d = min(a, 180 - a)
        ctx.check(abs(d - mid) <= var + 1e-6, "read_direction", lambda: f"{az} {c} {mid}+-{var}")
    if kind in ("electric", "magnetic"):
        comp = m.create_mt_component(c)
        ctx.check(comp == {"electric": "e", "magnetic": "h"}[kind] + {"N": "x", "1": "x", "E": "y", "2": "y", "Z": "z", "3": "z"}[c[2]], "component", lambda: f"{c} {comp}")
    ctx.case((rate, kind, az, o), {"rate": rate, "kind": kind, "azimuth": az, "code": c})


def edges(ctx, rng, i):
    """rates at and next to every band edge, given as every kind of number"""
    m = M()
    k = sorted(BANDS)[i % len(BANDS)]
    a, b = BANDS[k]
    for x in (a, b, (a + b) / 2, np.nextafter(b, 9e9), np.nextafter(a, -1) if a else 0.0, rng.uniform(a, b)):
        ctx.event("edge")
        x = rng.choice([float, np.float64])(x)
        ok = bands_of(x) or {"A"}
        got = m.get_period_code(x)
        ctx.check(got in ok, "edge_letter", lambda: f"{x!r} gives {got} wants {sorted(ok)}")
    if float(a).is_integer():
        ctx.check(m.get_period_code(int(b)) in (bands_of(int(b)) or {"A"}), "edge_int", "")
    ctx.event("band")
    ctx.case((k, i), None)


def reader(ctx, rng, i):
    m = M()
    r = rng.random()
    L = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    if r < 0.6:
        c = "".join(rng.choice(L) for _ in range(3))
    elif r < 0.8:
        c = "".join(rng.choice(L + "abcxyz -é") for _ in range(rng.choice([0, 1, 2, 4, 5, 3])))
    else:
        c = rng.choice("".join(sorted(BANDS))) + rng.choice("".join(KINDS.values())) + rng.choice("NEZ123")
    legal = len(c) == 3 and c[1] in KINDS.values() and c[2] in "NEZ123"
    try:
        back = m.read_channel_code(c)
        refused = False
    except ValueError:
        refused = True
    ctx.event("read" if legal else "refused")
    ctx.check(refused != legal, "refusal", lambda: f"{c!r} refused={refused}")
    if legal and not refused:
        kind = {v: k for k, v in KINDS.items()}[c[1]]
        ctx.check(back["measurement"] == ("magnetic" if kind == "tide" else kind), "reader_kind", lambda: f"{c} {back}")
        if c[0] in BANDS:
            ctx.check((back["period"]["min"], back["period"]["max"]) == BANDS[c[0]], "reader_range", lambda: f"{c} {back}")
        ang = {"N": 0, "E": 90, "Z": 0, "1": 30, "2": 60, "3": 0}[c[2]]
        ctx.check(back["orientation"]["angle"] == ang, "reader_angle", lambda: f"{c} {back}")
    ctx.case(c, None)


def channel(ctx, rng, i):
    """the code a channel gets in StationXML"""
    from mt_metadata.timeseries import Electric, Magnetic
    from mt_metadata.timeseries.stationxml import XMLChannelMTChannel

    kind, comp = rng.choice([("electric", "ex"), ("electric", "ey"), ("magnetic", "hx"), ("magnetic", "hy"), ("magnetic", "hz")])
    ch = {"electric": Electric, "magnetic": Magnetic}[kind](component=comp, channel_number=rng.randint(0, 99))
    rate = float(g_rate(rng))
    ch.sample_rate = rate
    az = round(float(g_azimuth(rng)) % 360, 3)
    ch.measurement_azimuth = az
    if comp == "hz":
        ch.measurement_tilt = 90
    ch.time_period.start, ch.time_period.end = "2020-01-01T00:00:00", "2020-01-02T00:00:00"
    if kind == "magnetic":
        ch.location.latitude, ch.location.longitude = 10.0, 20.0
    hard = rng.random() < 0.5
    x = XMLChannelMTChannel().mt_to_xml(ch, {}, hard_code=hard)
    ctx.event("code")
    ctx.event("orientation")
    ok = bands_of(rate) or {"A"}
    want = {{"x": "N", "y": "E", "z": "Z"}[comp[-1]]} if hard else sector(az, comp[-1] == "z")
    ctx.check(x.code[0] in ok and x.code[1] == KINDS[kind], "channel:letters", lambda: f"{rate} {kind} {x.code}")
    ctx.check(x.code[2] in want, f"channel:orientation:{hard}", lambda: f"{comp} {az} {x.code} wants {want}")
    lc = M().create_location_code(ch)
    ctx.check(lc == f"{comp[0].upper()}{ch.channel_number % 10}", "channel:location_code", lambda: lc)
    ctx.case((kind, comp, rate, az), None)


WORKLOADS = [Workload("code", code, 2500, 60000), Workload("edges", edges, 160, 1600), Workload("reader", reader, 2000, 40000), Workload("channel", channel, 300, 3000)]
