"""P08: time comparison is a total order and arithmetic matches it."""
import datetime as dt
import functools

import numpy as np
import pandas as pd

from mon import p07
from mon.core import Skip, Workload

RULE = ("case = (2..6 instants, the forms of the operands, an operation or a chain of them); the harness orders and adds "
        "integer nanoseconds and compares every operator's answer with it")
ASSUME = ["float seconds count to the nanosecond nearest their value, as floats allow; distances are floats",
          "comparing with something that is no time (None, words) is outside"]
NEED = {"pairs": 4000, "operators": 30000, "sums": 3000, "distances": 3000, "triples": 500, "mdate": 300}

OPS = [("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b),
       ("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)]


def mk(ns, rng=None, cls=None):
    from mt_metadata.common.mttime import MTime

    cls = cls or MTime
    if rng is not None and rng.random() < 0.4:
        o = p07.offset(rng)
        return cls(time_stamp=p07.text(ns + o * 60 * 10**9, 9, tail=p07.offtext(o)))
    return cls(time_stamp=p07.text(ns, 9))


def near(rng, ns):
    return ns + rng.choice([0, 0, 0, 1, -1, rng.randrange(-999, 1000), 999, 1000, -1000, 10**6, 10**9, -10**9, p07.DAY, -p07.DAY, 3600 * 10**9,
                            rng.randrange(-10**9, 10**9), rng.randrange(-10**17, 10**17)])


FORMS = ["obj", "obj", "obj", "text", "off", "ts", "np", "dt", "sec", "ns", "tstz"]


def operand(ns, rng):
    """(operand, the instant it denotes, form)"""
    k = rng.choice(FORMS)
    if k == "obj":
        return mk(ns, rng), ns, k
    if k == "text":
        return p07.text(ns, 9), ns, k
    if k == "off":
        o = p07.offset(rng)
        return p07.text(ns + o * 60 * 10**9, 9, tail=p07.offtext(o)), ns, k
    if k == "ts":
        return pd.Timestamp(ns, unit="ns", tz="UTC"), ns, k
    if k == "tstz":
        return pd.Timestamp(ns, unit="ns", tz="UTC").tz_convert(dt.timezone(dt.timedelta(minutes=p07.offset(rng)))), ns, k
    us = ns // 1000 * 1000
    if k == "np":
        return np.datetime64(us, "ns"), us, k
    if k == "dt":
        return dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=us // 1000), us, k
    s = ns // 10**9 * 10**9
    if k == "sec":
        return s // 10**9, s, k
    if ns < 4 * 10**11:
        return mk(ns), ns, "obj"
    return ns, ns, k


def truth(op, a, b):
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def w_pairs(ctx, rng, i):
    a = p07.g_ns(rng, 1905, 2190)
    b = near(rng, a)
    x = mk(a, rng)
    y, b, form = operand(b, rng)
    ctx.event("pairs")
    before = (x.isoformat(), repr(y))
    for op, f in OPS:
        got = f(x, y)
        ctx.event("operators")
        ctx.check(got is truth(op, a, b), f"order:{op}:{form}", lambda: f"{x} {op} {y!r} -> {got!r}")
    if form in ("obj", "text", "off", "sec", "ns"):
        for op, f in OPS:
            if form == "obj" or op in ("==", "!="):
                got = f(y, x)
                ctx.event("operators")
                ctx.check(got is truth(op, b, a), f"order:reflected{op}:{form}", lambda: f"{y!r} {op} {x} -> {got!r}")
    elif form != "np":  # numpy on the left never asks the library
        for op, f in OPS:
            got, err = ctx.attempt(f, y, x)
            if err is None and op in ("<", "<=", ">", ">="):
                ctx.event("operators")
                ctx.check(bool(got) is truth(op, b, a), f"order:reflected{op}:{form}", lambda: f"{y!r} {op} {x} -> {got!r}")
    if form == "obj":
        ctx.check((hash(x) == hash(y)) or a != b, "hash", lambda: f"{x} {y}")
        ctx.check(len({x, y}) == (1 if a == b else 2), "hash:set", lambda: f"{x} {y}")
    # distances
    d = x - y if form not in ("sec", "ns") else x - mk(b)
    ctx.event("distances")
    ctx.check(isinstance(d, float) and abs(d - (a - b) / 1e9) <= 1e-9 + abs(a - b) / 1e9 * 4e-16, f"distance:{form}",
              lambda: f"{x} - {y!r} = {d!r}, wants {(a - b) / 1e9!r}")
    ctx.check((x.isoformat(), repr(y)) == before, "operand_changed", before)
    ctx.case((a, b, form), (x.isoformat(), form, repr(y)))


def w_order(ctx, rng, i):
    """sorting, minimum and maximum over a handful of close times"""
    base = p07.g_ns(rng, 1905, 2190)
    ns = [base]
    for _ in range(rng.randint(2, 6)):
        ns.append(near(rng, rng.choice(ns)))
    xs = [mk(k, rng) for k in ns]
    ctx.event("triples")
    got = [int(t.time_stamp.value) for t in sorted(xs)]
    ctx.check(got == sorted(ns), "sorted", lambda: f"{got} {sorted(ns)}")
    ctx.check(int(max(xs).time_stamp.value) == max(ns) and int(min(xs).time_stamp.value) == min(ns), "minmax", lambda: str(xs))
    cmp = functools.cmp_to_key(lambda a, b: -1 if b > a else (1 if a > b else 0))
    got = [int(t.time_stamp.value) for t in sorted(xs, key=cmp)]
    ctx.check(got == sorted(ns), "sorted_gt", lambda: f"{got}")
    ctx.check(len(set(xs)) == len(set(ns)), "distinct", lambda: f"{xs}")
    for a, x in zip(ns, xs):
        ctx.check(sum((x < y) + (x == y) + (x > y) for y in xs) == len(xs), "trichotomy", lambda: f"{x} {xs}")
        ctx.check(x <= x and x >= x and x == x and not x < x and not x > x and not x != x, "reflexive", str(x))
        ctx.event("operators", 6)
    ctx.case(("order", tuple(ns)), [str(x) for x in xs])


def delta(rng):
    """(amount, exact ns, kind)"""
    k = rng.choice(["int", "int", "float", "float", "td", "np", "pd", "pd", "zero"])
    if k == "zero":
        return rng.choice([0, 0.0, pd.Timedelta(0)]), 0, k
    if k == "int":
        v = rng.choice([1, -1, 60, 86400, rng.randint(-10**6, 10**6), rng.randint(-10**8, 10**8)])
        return v, v * 10**9, k
    if k == "float":
        v = rng.choice([0.5, 0.25, 1.5, 0.1, 1e-3, 1e-6, 1e-9, 12.345678, rng.uniform(-1000, 1000), round(rng.uniform(-100, 100), 3)])
        return v, None, k
    us = rng.choice([1, -1, rng.randint(-10**9, 10**9), rng.randint(-10**13, 10**13)])
    if k == "td":
        return dt.timedelta(microseconds=us), us * 1000, k
    if k == "np":
        un = rng.choice(["ns", "us", "ms", "s", "m", "h", "D"])
        n = rng.randint(-1000, 1000)
        size = dict(ns=1, us=10**3, ms=10**6, s=10**9, m=6 * 10**10, h=36 * 10**11, D=p07.DAY)[un]
        return np.timedelta64(n, un), n * size, k
    n = rng.choice([1, -1, rng.randint(-10**12, 10**12)])
    return pd.Timedelta(n, unit="ns"), n, k


def w_sum(ctx, rng, i):
    """chains of additions and subtractions move the instant by exactly that much"""
    ns = p07.g_ns(rng, 1910, 2180)
    t = mk(ns, rng)
    first, ns0 = t, ns
    steps = []
    for _ in range(rng.randint(1, 6)):
        v, n, k = delta(rng)
        sign = rng.choice([1, 1, -1])
        u = t + v if sign > 0 else t - v
        ctx.event("sums")
        steps.append((sign, repr(v)))
        got = int(u.time_stamp.value)
        if n is None:
            ok = abs(got - (ns + sign * v * 1e9)) <= 1 + abs(v) * 1e-6 if False else abs((got - ns) - sign * round(v * 1e9)) <= 1
        else:
            ok = got == ns + sign * n
        ctx.check(ok, f"sum:{k}", lambda: f"{t} {'+' if sign > 0 else '-'} {v!r} = {u}")
        ctx.check(int(t.time_stamp.value) == ns, "operand_changed:sum", lambda: str(t))
        ctx.check(type(u) is type(t) and u is not t, "sum:type", repr(type(u)))
        moved = got - ns
        ctx.check((u > t) == (moved > 0) and (u < t) == (moved < 0) and (u == t) == (moved == 0), "sum:order", lambda: f"{t} {v!r} {u}")
        d = u - t
        ctx.event("distances")
        ctx.check(abs(d - moved / 1e9) <= 1e-9 + abs(moved) / 1e9 * 4e-16, "distance:sum", lambda: f"{u} - {t} = {d}")
        back = u - v if sign > 0 else u + v
        if n is not None:
            ctx.check(back == t, f"sum_back:{k}", lambda: f"{t} {v!r} {back}")
        if not ok:
            return
        t, ns = u, got
        p07.observe(ctx, t, ns, "sum:view", steps)
    ctx.check(int(first.time_stamp.value) == ns0, "operand_changed:first", lambda: str(first))
    ctx.case((ns0, tuple(steps)), (str(first), steps))


def w_mdate(ctx, rng, i):
    """dates: order, and arithmetic in days"""
    from mt_metadata.common.mttime import MDate

    a = p07.g_ns(rng, 1910, 2180) // p07.DAY
    b = a + rng.choice([0, 1, -1, 30, 365, rng.randint(-5000, 5000)])

    def day(k):
        return (dt.date(1970, 1, 1) + dt.timedelta(days=k)).isoformat()

    x, y = MDate(time_stamp=day(a)), MDate(time_stamp=day(b))
    ctx.event("mdate")
    for op, f in OPS:
        got = f(x, y)
        ctx.event("operators")
        ctx.check(got is truth(op, a, b), f"mdate_order:{op}", lambda: f"{x} {op} {y} -> {got!r}")
        got = f(x, day(b))
        ctx.check(got is truth(op, a, b), f"mdate_order:{op}:text", lambda: f"{x} {op} {day(b)} -> {got!r}")
    ctx.check(hash(x) == hash(y) or a != b, "mdate_hash")
    ctx.check(x - y == a - b, "mdate_distance", lambda: f"{x} - {y} = {x - y}")
    n = rng.choice([1, -1, 31, rng.randint(-3000, 3000)])
    for v in (n, float(n), dt.timedelta(days=n), pd.Timedelta(days=n), np.timedelta64(n, "D")):
        u, w = x + v, x - v
        ctx.event("sums")
        ctx.check(isinstance(u, MDate) and str(u) == day(a + n) and str(w) == day(a - n), f"mdate_sum:{type(v).__name__}",
                  lambda: f"{x} +- {v!r} = {u} {w}")
    ctx.check(str(x) == day(a), "operand_changed:mdate", str(x))
    ctx.case((a, b, n), (str(x), str(y), n))


def w_leap(ctx, rng, i):
    """the leap second table, day by day"""
    from mt_metadata.common.mttime import calculate_leap_seconds

    d0 = dt.date(1980, 1, 6).toordinal()
    d1 = dt.date(2026, 6, 30).toordinal()
    for d in range(d0 + i, d1, 60):
        x = dt.date.fromordinal(d)
        want = sum(1 for y in p07.LEAPS if dt.date(*y) <= x) - 1
        ctx.check(calculate_leap_seconds(x.year, x.month, x.day) == want, "leap_seconds", str(x))
        ctx.event("leap_days")
    for bad in (dt.date(1979, 1, 1 + i % 28), dt.date(2030, 1 + i % 12, 1)):
        v, e = ctx.attempt(calculate_leap_seconds, bad.year, bad.month, bad.day)
        ctx.check(isinstance(e, ValueError), "leap_seconds:undefined", f"{bad} -> {v}")
    ctx.case(("leap", i), i)


WORKLOADS = [
    Workload("pairs", w_pairs, 5000, 60000),
    Workload("order", w_order, 700, 9000),
    Workload("sum", w_sum, 1200, 15000),
    Workload("mdate", w_mdate, 400, 5000),
    Workload("leap", w_leap, 60, 60),
]
