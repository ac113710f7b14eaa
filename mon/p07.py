"""P07: date-time text denotes one UTC instant and round-trips."""
import datetime as dt
import re
from fractions import Fraction

import numpy as np
import pandas as pd

from mon.core import Skip, Workload

RULE = ("case = (instant, form it is given in, object it is given to); the harness computes the instant in integer "
        "nanoseconds from the calendar fields and compares every representation the object offers with it")
ASSUME = ["an epoch number is taken as nanoseconds when it exceeds 3e11, as documented, so smaller epoch-nanosecond "
          "numbers are outside",
          "numpy datetimes with 500..999 trailing nanoseconds are rounded to the microsecond (documented round-off guard); "
          "floats carry microseconds",
          "text without a year, and numeric dates not in year-first order, are read by dateutil's rules and are outside",
          "GPS times within a minute of a leap second are outside"]
NEED = {"instants": 3000, "representations": 20000, "rereads": 6000, "rejected": 150, "clipped": 100, "gps": 150,
        "set_parts": 300}

EPOCH = dt.date(1970, 1, 1).toordinal()
DAY = 86400 * 10**9
NSMIN, NSMAX = -(2**63) + 1, 2**63 - 1


def split(ns):
    """calendar fields of an instant, computed without pandas"""
    d, r = divmod(ns, DAY)
    day = dt.date.fromordinal(EPOCH + d)
    h, r = divmod(r, 3600 * 10**9)
    m, r = divmod(r, 60 * 10**9)
    s, r = divmod(r, 10**9)
    return day.year, day.month, day.day, h, m, s, r


def join(y, mo, d, h=0, mi=0, s=0, ns=0):
    return ((dt.date(y, mo, d).toordinal() - EPOCH) * 86400 + h * 3600 + mi * 60 + s) * 10**9 + ns


ISO = re.compile(r"^(\d{4})-(\d\d)-(\d\d)(?:[T ](\d\d):(\d\d)(?::(\d\d)(?:\.(\d{1,9}))?)?)?(Z|[+-]\d\d:\d\d)?$")


def read_iso(text):
    m = ISO.match(text)
    if not m:
        return None
    y, mo, d, h, mi, s = (int(x or 0) for x in m.groups()[:6])
    ns = int((m.group(7) or "0").ljust(9, "0"))
    off = m.group(8)
    t = join(y, mo, d, h, mi, s, ns)
    if off and off != "Z":
        k = (int(off[1:3]) * 60 + int(off[4:6])) * 60 * 10**9
        t -= k if off[0] == "+" else -k
    return t


def g_ns(rng, lo=1900, hi=2200):
    y = rng.choice([rng.randint(lo, hi), rng.randint(1970, 2030), rng.choice([1970, 1980, 1999, 2000, 2016, 2020, 2024])])
    mo = rng.choice([1, 2, 12, rng.randint(1, 12)])
    last = (dt.date(y + (mo == 12), mo % 12 + 1, 1) - dt.timedelta(days=1)).day
    d = rng.choice([1, last, rng.randint(1, last)])
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)),
                           (rng.randint(0, 23), 0, 0), (0, rng.randint(0, 59), 0)])
    ns = rng.choice([0, 0, 1, 999, 500, 1000, 999999999, 999999000, 100000000, rng.randrange(10**9),
                     rng.randrange(10**6) * 1000, rng.randrange(1000) * 10**6])
    return join(y, mo, d, h, mi, s, ns)


def offset(rng):
    k = rng.choice([0, 60, -60, 330, -210, 825, -720, 840, 5 * 60 + 45, -30, 15, rng.randint(-720, 840)])
    return k


def q(ns, unit):
    return ns // unit * unit


def offtext(k):
    return f"{'-' if k < 0 else '+'}{abs(k) // 60:02d}:{abs(k) % 60:02d}"


def text(ns, frac, sep="T", tail="", trim=False):
    y, mo, d, h, mi, s, r = split(ns)
    f = ""
    if frac:
        f = f"{r:09d}"[:frac]
        f = "." + (f.rstrip("0") if trim and f.rstrip("0") else f)
    return f"{y:04d}-{mo:02d}-{d:02d}{sep}{h:02d}:{mi:02d}:{s:02d}{f}{tail}"


def forms(ns, rng):
    """(label, value, instant it denotes)"""
    k = rng.choice(["iso", "iso", "iso_z", "iso_off", "iso_off", "iso_off", "space", "date", "slash", "compact", "minute",
                    "datetime", "datetime_tz", "datetime_off", "np", "pd", "pd_tz", "sec", "sec_f", "ns", "np_ns", "np_sec", "np_f",
                    "obspy", "h24", "h24s", "h24off", "dict", "mtime", "pydate", "utcword", "np_unit", "monthname", "yearmonth"])
    u = {0: 10**9, 3: 10**6, 6: 10**3, 9: 1}
    fr = rng.choice([0, 3, 6, 9, 9, rng.randint(1, 9)])
    unit = 10 ** (9 - fr)
    t = q(ns, unit)
    if k == "iso":
        return k, text(t, fr), t
    if k == "iso_z":
        return k, text(t, fr, tail="Z"), t
    if k == "utcword":
        t = q(ns, 1000)  # a zone given by name: microseconds
        return k, text(t, 6, tail=" UTC"), t
    if k == "iso_off":
        o = offset(rng)
        return k, text(t + o * 60 * 10**9, fr, sep=rng.choice("T "), tail=offtext(o)), t
    if k == "space":
        return k, text(t, fr, sep=" "), t
    if k in ("date", "slash", "compact", "pydate", "yearmonth"):
        y, mo, d = split(ns)[:3]
        t = join(y, mo, d)
        if k == "yearmonth":
            return k, f"{y:04d}-{mo:02d}", join(y, mo, 1)
        if k == "pydate":
            return k, dt.date(y, mo, d), t
        if k == "compact" and rng.random() < 0.5:
            t2 = q(ns, 10**9)
            return k, text(t2, 0).replace("-", "").replace(":", ""), t2
        return k, {"date": f"{y:04d}-{mo:02d}-{d:02d}", "slash": f"{y:04d}/{mo:02d}/{d:02d}",
                   "compact": f"{y:04d}{mo:02d}{d:02d}"}[k], t
    if k == "monthname":
        y, mo, d, h, mi, s, _ = split(ns)
        mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][mo - 1]
        return k, f"{d:02d} {mn} {y:04d} {h:02d}:{mi:02d}:{s:02d}", join(y, mo, d, h, mi, s)
    if k == "minute":
        t = q(ns, 60 * 10**9)
        return k, text(t, 0)[:-3], t
    us = q(ns, 1000)
    if k in ("datetime", "datetime_tz", "datetime_off"):
        v = dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=us // 1000)
        if k == "datetime_tz":
            v = v.replace(tzinfo=dt.timezone.utc)
        elif k == "datetime_off":
            o = dt.timezone(dt.timedelta(minutes=offset(rng)))
            v = v.replace(tzinfo=dt.timezone.utc).astimezone(o)
        return k, v, us
    if k == "np":
        v = ns if ns % 1000 < 500 else us
        return k, np.datetime64(v, "ns"), v
    if k == "np_unit":
        un = rng.choice(["us", "ms", "s", "D"])
        size = {"us": 10**3, "ms": 10**6, "s": 10**9, "D": DAY}[un]
        return k, np.datetime64(ns // size, un), q(ns, size)
    if k == "pd":
        un = rng.choice(["ns", "ns", "us", "ms", "s"])
        size = {"ns": 1, "us": 10**3, "ms": 10**6, "s": 10**9}[un]
        return k, pd.Timestamp(ns // size, unit=un), q(ns, size)
    if k == "pd_tz":
        v = pd.Timestamp(ns, unit="ns", tz="UTC")
        return k, v.tz_convert(dt.timezone(dt.timedelta(minutes=offset(rng)))), ns
    s = q(ns, 10**9)
    if k == "sec":
        if abs(s) > 2 * 10**11 * 10**9:
            raise Skip()
        return k, s // 10**9, s
    if k == "np_sec":
        return k, np.int64(s // 10**9), s
    if k == "np_f":
        v = (ns // 10**6) / 1e3
        return k, np.float64(v), round(Fraction(v) * 10**6) * 1000
    if k == "sec_f":
        v = (ns // 10**6) / 1e3
        return k, v, round(Fraction(v) * 10**6) * 1000
    if k in ("ns", "np_ns"):
        if ns < 4 * 10**11:
            raise Skip()
        return k, ns if k == "ns" else np.int64(ns), ns
    if k == "obspy":
        from obspy import UTCDateTime

        y, mo, d, h, mi, sec, r = split(us)
        return k, UTCDateTime(y, mo, d, h, mi, sec, r // 1000), us
    if k in ("h24", "h24s", "h24off"):
        y, mo, d = split(ns)[:3]
        if y >= 2200:  # the fallback reader clips these, as documented
            raise Skip()
        t = join(y, mo, d) + DAY
        tail = {"h24": "", "h24s": "", "h24off": rng.choice(["Z", "+00:00"])}[k]
        return k, f"{y:04d}-{mo:02d}-{d:02d}{' ' if k == 'h24s' else 'T'}24:00:00{tail}", t
    if k == "dict":
        return k, {"time_stamp": text(ns, 9, tail="+00:00"), "gps_time": False}, ns
    if k == "mtime":
        from mt_metadata.common.mttime import MTime

        return k, MTime(time_stamp=text(ns, 9)), ns
    raise AssertionError(k)


def observe(ctx, t, ns, mech, tag):
    """every representation denotes the instant ns"""
    def rep(ok, name, detail=""):
        ctx.event("representations")
        ctx.check(ok, f"{mech}:{name}", lambda: f"{tag!r:.150} wants {text(ns, 9)} got {detail}")

    y, mo, d, h, mi, s, r = split(ns)
    rep(int(t.time_stamp.value) == ns, "instant", t.isoformat())
    rep(t.time_stamp.tz is not None and t.time_stamp.utcoffset() == dt.timedelta(0), "utc", t.time_stamp.tz)
    for name, txt in (("isoformat", t.isoformat()), ("str", str(t)), ("repr", repr(t)), ("to_dict", t.to_dict()),
                      ("iso_str", t.iso_str), ("iso_no_tz", t.iso_no_tz)):
        rep(read_iso(txt) == ns, name, txt)
        if name != "iso_no_tz":
            rep(txt.endswith(("+00:00", "Z")), name + "_zone", txt)
    rep(t.date == f"{y:04d}-{mo:02d}-{d:02d}" == t.isodate(), "date", t.date)
    got = (t.year, t.month, t.day, t.hour, t.minutes, t.seconds, t.microseconds * 1000 + t.nanoseconds)
    rep(got == (y, mo, d, h, mi, s, r), "parts", got)
    rep(abs(t.epoch_seconds - ns / 1e9) <= 1.1e-6 + abs(ns) * 4e-25, "epoch_seconds", t.epoch_seconds)
    rep(tuple(t.isocalendar()) == tuple(dt.date(y, mo, d).isocalendar()), "isocalendar", t.isocalendar())


def reread(ctx, t, mech, tag):
    from mt_metadata.common.mttime import MTime

    for name, v in (("isoformat", t.isoformat()), ("str", str(t)), ("iso_no_tz", t.iso_no_tz), ("object", t),
                    ("timestamp", t.time_stamp), ("dump", t.model_dump())):
        ctx.event("rereads")
        u = MTime(time_stamp=v)
        ctx.check(u == t and t == u and not (u != t) and hash(u) == hash(t), f"{mech}:{name}", lambda: f"{tag!r:.120}: {v!r} -> {u}")
    u = MTime(**t.model_dump())
    if not t.gps_time:
        ctx.check(u == t, f"{mech}:kwargs", lambda: f"{tag!r:.120} -> {u}")
    u = t.copy()
    ctx.check(u == t and u is not t, f"{mech}:copy", lambda: f"{tag!r}")


def holders():
    from mt_metadata.common import Comment, Provenance, Software, TimePeriod
    from mt_metadata.common.mttime import MTime, parse

    def mt(v):
        return MTime(time_stamp=v)

    def fd(v):
        t = MTime()
        t.from_dict(v)
        return t

    def ps(v):
        return MTime(time_stamp=parse(v))

    def start(v):
        return TimePeriod(start=v).start

    def end(v):
        p = TimePeriod()
        p.end = v
        return p.end

    def com(v):
        return Comment(value="x", time_stamp=v).time_stamp

    def prov(v):
        p = Provenance()
        p.creation_time = v
        return p.creation_time

    def soft(v):
        p = Software()
        p.update_attribute("last_updated", v)
        return p.last_updated

    return [mt, mt, mt, fd, ps, start, end, com, prov, soft]


def w_forms(ctx, rng, i):
    ns = g_ns(rng)
    label, v, want = forms(ns, rng)
    H = holders()
    hold = H[rng.randrange(len(H))]
    ctx.event("instants")
    ctx.event(f"form_{label}")
    try:
        t = hold(v)
    except Exception as e:
        ctx.check(False, f"{label}:refused", f"{hold.__name__} {v!r}: {e!r:.300}")
        return
    observe(ctx, t, want, f"{label}" if hold.__name__ == "mt" else f"{label}:{hold.__name__}", v)
    reread(ctx, t, f"reread:{label}", v)
    ctx.case((label, hold.__name__, want), (label, hold.__name__, repr(v)[:60]))


NULLS = [None, "", "none", "None", "NONE", "Na", {}, np.datetime64("NaT"), pd.NaT]
BAD = ["hello", "not a date", "2020-02-30", "2021-02-29", "2020-04-31T00:00:00", "2020-01-01T25:00:00", "2020-01-01T00:61:00",
       "2020-01-01T00:00:61", "----", "2020-00-10", "2020-01-00", "x2020", "2020-01-32", "yesterday-ish", "20200230",
       "1900-02-29", float("nan"), float("inf"), [1], object()]


def w_bad(ctx, rng, i):
    """text that is no date is refused and leaves the holder as it was"""
    from mt_metadata.common import TimePeriod
    from mt_metadata.common.mttime import MTime

    r = rng.random()
    if r < 0.6:
        v = BAD[i % len(BAD)]
        if rng.random() < 0.4:
            y = rng.randint(1900, 2100)
            bad = rng.choice([(2, 30), (4, 31), (6, 31), (9, 31), (11, 31), (1, 32), (12, 35)] + ([(2, 29)] if y % 4 else []))
            v = f"{y}-{bad[0]:02d}-{bad[1]:02d}" + rng.choice(["", "T12:30:00", " 00:00:01.5", "T00:00:00+00:00"])
        ctx.event("rejected")
        try:
            t = MTime(time_stamp=v)
        except Exception:
            t = None
        ctx.check(t is None, "bad_text_accepted", lambda: f"{v!r} -> {t}")
        p = TimePeriod(start="2001-02-03T04:05:06.7+00:00")
        try:
            p.start = v
            ctx.check(False, "bad_text_accepted:field", lambda: f"{v!r} -> {p.start}")
        except Exception:
            ctx.check(str(p.start) == "2001-02-03T04:05:06.700000+00:00", "bad_text_changed_field", lambda: str(p.start))
    elif r < 0.8:
        v = NULLS[i % len(NULLS)]
        t = MTime(time_stamp=v)
        observe(ctx, t, join(1980, 1, 1), "null", v)
        ctx.check(t.is_default(), "null:is_default", repr(v))
    else:
        y = rng.choice([rng.randint(1, 1676), rng.randint(2263, 9999)])
        v = text(0, 0).replace("1970", f"{y:04d}") if rng.random() < 0.5 else f"{y:04d}-07-0{rng.randint(1, 9)}"
        if rng.random() < 0.3:
            v = dt.datetime(y, rng.randint(1, 12), rng.randint(1, 28), 5)
        ctx.event("clipped")
        t = MTime(time_stamp=v)
        ctx.check(int(t.time_stamp.value) == (NSMIN if y < 1900 else NSMAX), "out_of_range", lambda: f"{v!r} -> {t}")
    ctx.case((i, repr(v)), repr(v)[:60])


def w_edge(ctx, rng, i):
    """near the limits of the range nothing moves"""
    from mt_metadata.common.mttime import MTime

    ns = rng.choice([g_ns(rng, 1678, 1700), g_ns(rng, 2200, 2261), NSMIN + rng.randrange(1, 10**9), NSMAX - rng.randrange(1, 10**9)])
    v = text(ns, 9, tail=rng.choice(["", "Z", "+00:00"]))
    t = MTime(time_stamp=v)
    ctx.event("instants")
    observe(ctx, t, ns, "edge", v)
    reread(ctx, t, "edge", v)
    ctx.case(("edge", ns), v)


LEAPS = [(1980, 1, 6), (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1), (1992, 7, 1),
         (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1), (2012, 7, 1),
         (2015, 7, 1), (2017, 1, 1)]


def w_gps(ctx, rng, i):
    from mt_metadata.common.mttime import MTime, parse

    lo, hi = join(1980, 1, 7), join(2026, 6, 30)
    if rng.random() < 0.5:
        y, mo, d = rng.choice(LEAPS[1:])
        ns = join(y, mo, d) + rng.choice([-1, 1]) * rng.randrange(60 * 10**9, 2 * DAY)
    else:
        ns = rng.randrange(lo, hi)
    leap = sum(1 for x in LEAPS if join(*x) <= ns) - 1
    un = rng.choice([10**9, 10**6, 1])
    t0 = q(ns, un)
    want = t0 - leap * 10**9
    how = rng.choice(["text", "ts", "dict", "parse", "sec", "from_dict"])
    if how == "text":
        t = MTime(time_stamp=text(t0, 9), gps_time=True)
    elif how == "ts":
        t = MTime(time_stamp=pd.Timestamp(t0, unit="ns"), gps_time=True)
    elif how == "dict":
        t = MTime(time_stamp={"time_stamp": text(t0, 9), "gps_time": True})
    elif how == "from_dict":
        t = MTime(gps_time=True)
        t.from_dict(text(t0, 9) if rng.random() < 0.5 else pd.Timestamp(t0, unit="ns"))
    elif how == "sec":
        t0 = q(ns, 10**9)
        if t0 // 10**9 < 4e8:
            raise Skip()
        want = t0 - leap * 10**9
        t = MTime(time_stamp=t0 // 10**9, gps_time=True)
    else:
        t = MTime(time_stamp=parse(text(t0, 9), gps_time=True))
    ctx.event("gps")
    observe(ctx, t, want, "gps", (how, text(t0, 9)))
    for u in (t.copy(), MTime(time_stamp=t), MTime(time_stamp=t.isoformat())):
        ctx.check(u == t, "gps:reread", lambda: f"{t} {u}")
    ctx.case((how, t0), (how, text(t0, 9)))


PARTS = ["year", "month", "day", "hour", "minutes", "seconds", "microseconds", "nanoseconds"]


def w_parts(ctx, rng, i):
    """assigning one part changes that part only"""
    from mt_metadata.common.mttime import MTime

    ns = g_ns(rng, 1902, 2190)
    t = MTime(time_stamp=text(ns, 9))
    steps = []
    for _ in range(rng.randint(1, 5)):
        p = rng.choice(PARTS + ["epoch"])
        y, mo, d, h, mi, s, r = split(ns)
        cur = dict(year=y, month=mo, day=d, hour=h, minutes=mi, seconds=s, microseconds=r // 1000, nanoseconds=r % 1000)
        if p == "epoch":
            v = rng.randint(-2 * 10**9, 6 * 10**9)
            t.epoch_seconds = v if rng.random() < 0.5 else float(v)
            ns = v * 10**9
        else:
            v = {"year": rng.randint(1902, 2190), "month": rng.randint(1, 12), "day": rng.randint(1, 31), "hour": rng.randint(0, 23),
                 "minutes": rng.randint(0, 59), "seconds": rng.randint(0, 59), "microseconds": rng.randrange(10**6),
                 "nanoseconds": rng.randrange(1000)}[p]
            if rng.random() < 0.15 and p not in ("year", "nanoseconds", "microseconds"):
                v = rng.choice([-1, 61, 99])
            new = dict(cur, **{p: v})
            try:
                want = join(new["year"], new["month"], new["day"], new["hour"], new["minutes"], new["seconds"],
                            new["microseconds"] * 1000 + new["nanoseconds"])
                bad = not (0 <= new["hour"] < 24 and 0 <= new["minutes"] < 60 and 0 <= new["seconds"] < 60)
            except ValueError:
                bad = True
            try:
                setattr(t, p, v)
                ctx.check(not bad, f"part_accepted:{p}", lambda: f"{cur} {v} -> {t}")
                if bad:
                    return
                ns = want
            except Exception as e:
                ctx.check(bad, f"part_refused:{p}", lambda: f"{cur} {v}: {e!r}")
                if not bad:
                    return
        steps.append((p, v))
        ctx.event("set_parts")
        observe(ctx, t, ns, f"part:{p}", steps)
    ctx.case((i, steps), steps)


def w_date(ctx, rng, i):
    """dates: every form gives the UTC date, and its text reads back"""
    from mt_metadata.common import TimePeriodDate
    from mt_metadata.common.mttime import MDate, MTime

    ns = g_ns(rng)
    label, v, want = forms(ns, rng)
    if label in ("dict",) and rng.random() < 0.5:
        raise Skip()
    y, mo, d = split(want)[:3]
    day = f"{y:04d}-{mo:02d}-{d:02d}"
    m = MDate(time_stamp=v)
    ctx.event("instants")
    for name, got in (("str", str(m)), ("isoformat", m.isoformat()), ("isodate", m.isodate()), ("date", m.date), ("to_dict", m.to_dict()),
                      ("repr", repr(m))):
        ctx.event("representations")
        ctx.check(got == day, f"mdate:{label}:{name}", lambda: f"{v!r} -> {got}, wants {day}")
    ctx.check((m.year, m.month, m.day) == (y, mo, d), f"mdate:{label}:parts", lambda: f"{v!r} -> {m}")
    m2 = MDate(time_stamp=str(m))
    ctx.check(str(m2) == day and hash(m2) == hash(m), "mdate:reread", lambda: f"{m2}")
    if label in ("date", "slash", "pydate"):
        ctx.check(m2 == m and int(m2.time_stamp.value) == join(y, mo, d), "mdate:reread_equal", lambda: f"{v!r} {m2}")
    p = TimePeriodDate(start_date=v)
    p.end_date = v
    ctx.check(str(p.start_date) == day == str(p.end_date), f"mdate:{label}:period", lambda: f"{v!r} -> {p.start_date} {p.end_date}")
    ctx.case((label, want), (label, repr(v)[:60]))


WORKLOADS = [
    Workload("forms", w_forms, 4000, 60000),
    Workload("bad", w_bad, 800, 8000),
    Workload("edge", w_edge, 400, 4000),
    Workload("gps", w_gps, 400, 6000),
    Workload("parts", w_parts, 400, 6000),
    Workload("date", w_date, 800, 10000),
]
