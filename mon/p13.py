"""P13: parents' time spans and bounding boxes enclose their children."""
from mon import gen
from mon.core import Workload

RULE = ("case = a history of adding, re-adding, changing, merging and removing children with set, half-set and unset time periods (any order, any instants since 1900) "
        "and positions in any hemisphere on runs, stations, surveys; each parent's span and box is compared with the harness's running minimum/maximum")
ASSUME = ["the instant 1980-01-01T00:00:00 means unset (the library's default)", "a survey's dates are the UTC days holding the instants",
          "every station has a position (the library cannot tell an unset position from 0, 0)", "spans never shrink: a bound reached earlier counts as the parent's own"]
NEED = {"span_checked": 4000, "box_checked": 500, "unset_child": 500, "own_kept": 200, "southern_or_western": 150, "tight": 2000}

UNSET = None


def T():
    from mt_metadata import timeseries

    return timeseries


def g_sec(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([-2208988800, 0, 315532799, 315532801, 315532800 - 86400, 951782400, 1583020800])
    if k == 1:
        return rng.randint(315532801, 315532800 + 3 * 86400)
    if k == 2:
        return 1577836800 + 86400 * rng.randint(0, 3) + rng.choice([0, 1, 86399, 43200])
    return rng.randint(-2208988800, 4102444800)


def text(rng, s):
    """the same instant in one of several notations"""
    from datetime import datetime, timedelta, timezone

    t = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=s)
    k = rng.randrange(4)
    if k == 0:
        return t.isoformat()
    if k == 1:
        return t.strftime("%Y-%m-%dT%H:%M:%S") if t.year >= 1000 else t.isoformat()
    if k == 2:
        return t.astimezone(timezone(timedelta(hours=rng.choice([-8, 5, 1])))).isoformat()
    return float(s) if rng.random() < 0.5 else t.isoformat()


def ns(t):
    """epoch seconds of a library time value, by its text"""
    from datetime import datetime, timezone

    x = str(t)
    if len(x) == 10:
        x += "T00:00:00+00:00"
    d = datetime.fromisoformat(x)
    if d.tzinfo is None:
        d = d.replace(tzinfo=timezone.utc)
    v = (d - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds()
    return UNSET if v == 315532800 else v


class M:
    """model: own span and children"""

    def __init__(self, start=UNSET, end=UNSET, kids=None, lat=None, lon=None):
        self.start, self.end, self.kids, self.lat, self.lon = start, end, kids if kids is not None else {}, lat, lon

    def clone(self):
        return M(self.start, self.end, {k: v.clone() for k, v in self.kids.items()}, self.lat, self.lon)

    def refresh(self, day=False):
        a = [k.start for k in self.kids.values() if k.start is not UNSET]
        b = [k.end for k in self.kids.values() if k.end is not UNSET]
        f = (lambda x: x // 86400 * 86400) if day else (lambda x: x)
        off = lambda x: UNSET if x == 315532800 else x
        if a:
            self.start = off(f(min(a + ([self.start] if self.start is not UNSET else []))))
        if b:
            self.end = off(f(max(b + ([self.end] if self.end is not UNSET else []))))

    def take(self, o, level):
        """what update() does: children first, then the set values, then the span"""
        for k, v in o.kids.items():
            if k in self.kids:
                self.kids[k].take(v, level - 1)
            else:
                self.kids[k] = v.clone()
        self.start = o.start if o.start is not UNSET else self.start
        self.end = o.end if o.end is not UNSET else self.end
        if o.lat not in (None, 0.0):
            self.lat = o.lat
        if o.lon not in (None, 0.0):
            self.lon = o.lon
        if level:
            self.refresh()


def span(rng, day=False):
    a, b = sorted([g_sec(rng), g_sec(rng)])
    k = rng.randrange(6)
    if day:
        a, b = a // 86400 * 86400, b // 86400 * 86400
    a = UNSET if k in (0, 1) or a == 315532800 else a
    b = UNSET if k in (0, 2) or b == 315532800 else b
    return a, b


def put(rng, o, m, day=False):
    tp = o.time_period
    a, b = ("start_date", "end_date") if day else ("start", "end")
    if m.start is not UNSET:
        setattr(tp, a, text(rng, m.start))
    if m.end is not UNSET:
        setattr(tp, b, text(rng, m.end))


def mk_channel(rng, name):
    m = M(*span(rng))
    o = {"e": T().Electric, "h": T().Magnetic, "t": T().Auxiliary}[name[0]](component=name)
    put(rng, o, m)
    return o, m


def mk_run(rng, name):
    m = M(*(span(rng) if rng.random() < 0.4 else (UNSET, UNSET)))
    o = T().Run(id=name)
    put(rng, o, m)
    for c in rng.sample(CH, rng.randint(0, 3)):
        x, y = mk_channel(rng, c)
        o.add_channel(x)
        m.kids[c] = y
        m.refresh()
    return o, m


def mk_station(rng, name):
    m = M(*(span(rng) if rng.random() < 0.4 else (UNSET, UNSET)))
    o = T().Station(id=name)
    put(rng, o, m)
    m.lat, m.lon = position(rng)
    o.location.latitude, o.location.longitude = m.lat, m.lon
    for r in rng.sample(RUNS, rng.randint(0, 3)):
        x, y = mk_run(rng, r)
        o.add_run(x)
        m.kids[r] = y
        m.refresh()
    return o, m


def position(rng):
    k = rng.randrange(9)
    if k == 8:  # exactly on the equator, the prime meridian, or both
        return rng.choice([(0.0, 12.5), (-7.25, 0.0), (0.0, -100.0), (33.0, 0.0), (0.0, 0.0)])
    base = [(40, -110), (-30, 130), (-0.5, -0.25), (0.01, 179.9), (-89, -179.99), (65, 20), (-45, -70)]
    if k == 7:
        return round(rng.uniform(-90, 90), 5), round(rng.uniform(-180, 180), 5)
    a, b = base[k]
    return round(a + rng.uniform(-0.9, 0.9), 6), max(-180.0, round(b + rng.uniform(-0.09, 0.09), 6))


CH = ["ex", "ey", "hx", "hy", "hz", "temperature"]
RUNS = ["a", "b", "c", "001"]
STS = ["mt01", "mt02", "x", "q9", "z"]


def check(ctx, o, m, level, why):
    kind = ["Channel", "Run", "Station", "Survey"][level]
    tp = o.time_period
    a, b = (tp.start_date, tp.end_date) if level == 3 else (tp.start, tp.end)
    a, b = ns(a), ns(b)
    ctx.event("span_checked")
    if not m.kids:
        ctx.event("own_kept")
    ctx.check(a == m.start and b == m.end, f"span:{kind}:{why}", lambda: f"{a}..{b} wants {m.start}..{m.end}; children {[(k, v.start, v.end) for k, v in m.kids.items()]}")
    # the statement itself, apart from the running model
    for k, v in m.kids.items():
        if v.start is UNSET or v.end is UNSET:
            ctx.event("unset_child")
        if v.start is not UNSET:
            ctx.check(a is not UNSET and a <= v.start or a is UNSET and level == 3, f"encloses:{kind}:{why}", lambda: f"{kind} starts {a}, {k} starts {v.start}")
            ctx.event("tight")
        if v.end is not UNSET:
            ctx.check(b is not UNSET and b + (86399.999 if level == 3 else 0) >= v.end or b is UNSET and level == 3, f"encloses:{kind}:{why}", lambda: f"{kind} ends {b}, {k} ends {v.end}")
    if level == 3 and m.kids:
        la = [v.lat for v in m.kids.values() if v.lat is not None]
        lo = [v.lon for v in m.kids.values() if v.lon is not None]
        ctx.event("box_checked")
        if la and min(la) < 0 or lo and min(lo) < 0:
            ctx.event("southern_or_western")
        bb = o.survey_extent
        got = (o.southeast_corner.latitude, o.northwest_corner.latitude, o.northwest_corner.longitude, o.southeast_corner.longitude)
        if la:
            ctx.check(got[:2] == (min(la), max(la)), f"box:latitude:{why}", lambda: f"{got[:2]} wants {min(la)}, {max(la)}")
            ctx.check((bb["latitude"]["min"], bb["latitude"]["max"]) == (min(la), max(la)), f"extent:latitude:{why}", lambda: repr(bb))
        if lo:
            ctx.check(got[2:] == (min(lo), max(lo)), f"box:longitude:{why}", lambda: f"{got[2:]} wants {min(lo)}, {max(lo)}")
            ctx.check((bb["longitude"]["min"], bb["longitude"]["max"]) == (min(lo), max(lo)), f"extent:longitude:{why}", lambda: repr(bb))
    if level > 1:
        coll = o.runs if level == 2 else o.stations
        for k, v in m.kids.items():
            check(ctx, coll[k], v, level - 1, why)


def history(ctx, rng, i):
    level = rng.choice([1, 1, 2, 2, 3, 3])
    mk = [None, mk_channel, mk_run, mk_station][level]
    pool = [None, CH, RUNS, STS][level]
    m = M(*(span(rng, level == 3) if rng.random() < 0.35 else (UNSET, UNSET)))
    o = [None, T().Run, T().Station, T().Survey][level](id="p1")
    put(rng, o, m, level == 3)
    ch = [None, "channel", "run", "station"][level]
    day = level == 3
    check(ctx, o, m, level, "init")
    log = []
    for step in range(rng.randint(2, 9)):
        op = rng.choice(["add", "add", "add", "add", "re_add", "change", "own", "remove", "merge", "late", "ask"])
        coll = [None, "channels", "runs", "stations"][level]
        if op in ("add", "re_add"):
            x = rng.choice(pool)
            c, cm = mk(rng, x)
            getattr(o, f"add_{ch}")(c)
            if x in m.kids:
                op = "re_add"
                m.kids[x].take(cm, level - 1)
            else:
                op = "add"
                m.kids[x] = cm
            m.refresh(day)
        elif op == "late":
            # added without an update, then asked for
            x = rng.choice(pool)
            if x in m.kids:
                continue
            c, cm = mk(rng, x)
            getattr(o, f"add_{ch}")(c, update=False)
            m.kids[x] = cm
            if level == 3:
                o.update_all()
            elif level == 2:
                o.update_all()
            else:
                o.update_time_period()
            m.refresh(day)
        elif op in ("change", "ask"):
            if not m.kids:
                continue
            x = rng.choice(list(m.kids))
            c, cm = getattr(o, coll)[x], m.kids[x]
            if op == "change":
                a, b = span(rng)
                n = M(a, b)
                put(rng, c, n)
                cm.start, cm.end = (a if a is not UNSET else cm.start), (b if b is not UNSET else cm.end)
                if level == 3:
                    cm.lat, cm.lon = position(rng)
                    c.location.latitude, c.location.longitude = cm.lat, cm.lon
                if level > 1:
                    c.update_time_period()
                    cm.refresh()
            o.update_time_period()
            if level == 3:
                o.update_bounding_box()
            m.refresh(day)
        elif op == "own":
            a, b = span(rng, day)
            put(rng, o, M(a, b), day)
            m.start, m.end = (a if a is not UNSET else m.start), (b if b is not UNSET else m.end)
            o.update_time_period()
            m.refresh(day)
        elif op == "remove":
            if not m.kids:
                continue
            x = rng.choice(list(m.kids))
            m.kids.pop(x)
            getattr(o, f"remove_{ch}")(x)
            if level == 1:
                o.update_time_period()
            m.refresh(day)
        elif op == "merge":
            om = M()
            q = [None, T().Run, T().Station, T().Survey][level](id="p2")
            for x in rng.sample(pool, rng.randint(0, 2)):
                c, cm = mk(rng, x)
                getattr(q, f"add_{ch}")(c)
                om.kids[x] = cm
            o.merge(q, inplace=True)
            for x, v in om.kids.items():
                m.kids[x] = v.clone()
            m.refresh(day)
        log.append(op)
        n = sum(ctx.vcount.values())
        check(ctx, o, m, level, op)
        if sum(ctx.vcount.values()) > n:
            return
    ctx.case((level, log, m.start, m.end), {"level": level, "operations": log, "span": [m.start, m.end]}, trivial=not m.kids)


def order(ctx, rng, i):
    """the same children in any order give the same span and box"""
    level = rng.choice([1, 2, 3])
    mk = [None, mk_channel, mk_run, mk_station][level]
    pool = [None, CH, RUNS, STS][level]
    kids = [(x,) + mk(rng, x) for x in rng.sample(pool, rng.randint(2, 4))]
    seen = []
    for k in range(3):
        rng.shuffle(kids)
        o = [None, T().Run, T().Station, T().Survey][level](id="p1")
        for x, c, cm in kids:
            getattr(o, ["", "add_channel", "add_run", "add_station"][level])(c.copy())
        m = M(kids={x: cm for x, c, cm in kids})
        m.refresh(level == 3)
        check(ctx, o, m, level, "order")
    ctx.case((level, [(x, m.start, m.end) for x, _, m in kids]), {"level": level})


WORKLOADS = [Workload("history", history, 1400, 18000), Workload("order", order, 400, 5000)]
