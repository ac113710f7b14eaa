"""P11: ListDict behaves as one ordered mapping."""
from collections import OrderedDict

from mon import gen
from mon.core import Workload

RULE = ("case = a sequence of list/dictionary operations on a ListDict, run in step with the harness's own list of (key, value) pairs; "
        "after every operation every view of the object is compared with that list")
ASSUME = ["keys are texts (or None for a child without a name); values are metadata objects, plain objects or plain data",
          "a position that holds nothing adds under the object's own name, as documented", "new names given by update_keys are distinct"]
NEED = {"op:append": 1500, "op:setkey": 800, "op:setpos": 800, "op:remove": 1500, "op:pop": 800, "op:sort": 400, "op:update": 600,
        "op:extend": 600, "op:update_keys": 400, "op:copy": 400, "op:slice": 800, "failed_op": 800, "views": 20000}


def same(a, b):
    return len(a) == len(b) and all(k == j and v is w for (k, v), (j, w) in zip(a, b))


def key_of(v):
    if hasattr(v, "id"):
        return True, v.id
    if hasattr(v, "component"):
        return True, v.component
    return False, None


class Plain:
    def __init__(self, n):
        self.n = n

    def copy(self):
        return Plain(self.n)

    def __eq__(self, o):
        return isinstance(o, Plain) and o.n == self.n


class Bare:
    """an object with no name and no copy"""


NAMES = ["a", "b", "c", "d", "e", "ex", "ey", "hx", "mt01", "mt02", "0", "1", "2", "3", "10", "z", "A"]


def value(rng, name=None):
    from mt_metadata import timeseries as ts
    from mt_metadata.timeseries import filters

    n = name or rng.choice(NAMES)
    k = rng.randrange(9)
    if k == 0:
        return ts.Run(id=n)
    if k in (1, 2):
        return ts.Station(id=n)
    if k == 3:
        return ts.Electric(component=rng.choice(["ex", "ey", "e1", "e2"]))
    if k == 4:
        return ts.Magnetic(component=rng.choice(["hx", "hy", "hz"]))
    if k == 5:
        return filters.CoefficientFilter(name=n)
    if k == 6:
        return rng.choice([{"a": [1, 2]}, [1, 2, 3], "text", 5, 2.5])
    if k == 7:
        return Bare()
    return Plain(rng.randrange(99))


def views(ctx, ld, m, why):
    """every way of looking at the list shows the model's entries"""
    ks, vs = [k for k, _ in m], [v for _, v in m]
    ctx.event("views")
    ok = (len(ld) == len(m) and ld.keys() == ks and len(ld.values()) == len(vs) and all(a is b for a, b in zip(ld.values(), vs))
          and same(list(ld.items()), m) and [id(v) for v in ld] == [id(v) for v in vs])
    ctx.check(ok, f"views:{why}", lambda: f"{why}: keys {ld.keys()} wants {ks}; {len(ld)} entries")
    if not ok:
        return False
    for j, (k, v) in enumerate(m):
        if isinstance(k, str):
            ctx.check(ld[k] is v, f"by_key:{why}", lambda: f"{k!r}")
        ctx.check(ld[j] is v, f"by_position:{why}", lambda: f"{j}")
    for bad in ("no such key", len(m), len(m) + 3):
        _, e = ctx.attempt(lambda: ld[bad])
        ctx.check(isinstance(e, KeyError), f"missing_found:{why}", lambda: f"{bad!r} {e!r}")
    return True


def put(m, k, v):
    for j, (q, _) in enumerate(m):
        if q == k:
            m[j] = (k, v)
            return
    m.append((k, v))


def other_of(rng, LD):
    pairs = []
    for _ in range(rng.randint(0, 4)):
        put(pairs, rng.choice(NAMES), value(rng))
    t = rng.choice(["dict", "od", "ld"])
    o = dict(pairs) if t == "dict" else OrderedDict(pairs) if t == "od" else LD(OrderedDict(pairs))
    return o, pairs


def w_ops(ctx, rng, i):
    from mt_metadata.common.list_dict import ListDict as LD

    m = []
    if rng.random() < 0.4:
        _, m = other_of(rng, LD)
        ld = LD(rng.choice([dict, OrderedDict, list])(m))
        m = list(m)
    else:
        ld = LD()
    log = []
    fails = 0
    if not views(ctx, ld, m, "init"):
        return
    for step in range(rng.randint(4, 30)):
        op = rng.choice(["append", "append", "append", "setkey", "setpos", "remove", "remove", "pop", "sort", "update", "extend", "update_keys",
                         "copy", "slice", "fail", "rename", "clear", "sorted"])
        before = list(m)
        if op == "append":
            v = value(rng)
            named, k = key_of(v)
            ld.append(v)
            if not named:
                # the documented key is the position; any key that is free leaves the other entries alone
                new = [x for x in ld.keys() if x not in [q for q, _ in m]]
                if not ctx.check(len(new) == 1 and ld[len(ld) - 1] is v, "append:unnamed", lambda: f"{[q for q, _ in m]} -> {ld.keys()}"):
                    return
                k = new[0]
                if str(len(m)) not in [q for q, _ in m]:
                    ctx.check(k == str(len(m)), "append:position_key", lambda: f"{k} for position {len(m)}")
            put(m, k, v)
        elif op == "setkey":
            k, v = rng.choice(NAMES), value(rng)
            ld[k] = v
            put(m, k, v)
        elif op == "setpos":
            j, v = rng.randrange(len(m) + 2), value(rng)
            ld[j] = v
            named, k = key_of(v)
            k = m[j][0] if j < len(m) else k if named else str(j)
            put(m, k, v)
        elif op == "remove":
            if not m:
                continue
            j = rng.randrange(len(m))
            ld.remove(rng.choice([m[j][0], j]))
            m.pop(j)
        elif op == "pop":
            if not m:
                continue
            j = rng.randrange(len(m))
            k, v = m.pop(j)
            got = ld.pop(k)
            ctx.check(isinstance(got, dict) and list(got) == [k] and got[k] is v, "pop:result", lambda: f"{k!r} -> {list(got)}")
        elif op == "sort":
            r = ld.sort()
            ctx.check(r is None, "sort:result", repr(r))
            m.sort(key=lambda x: x[0])
        elif op == "sorted":
            r = ld.sort(inplace=False)
            ctx.check(same(list(r.items()), sorted(m, key=lambda x: x[0])), "sorted", lambda: list(r))
            op = "sort"
        elif op in ("update", "extend"):
            o, pairs = other_of(rng, LD)
            if op == "update":
                ld.update(o)
                skip = []
            else:
                skip = rng.choice([None, None, rng.choice(NAMES), rng.sample(NAMES, 3)])
                ld.extend(o) if skip is None else ld.extend(o, skip_keys=skip)
                skip = [skip] if isinstance(skip, str) else skip or []
            for k, v in pairs:
                if k not in skip:
                    put(m, k, v)
            ctx.check(same(list(o.items()), pairs), f"{op}:changed_source", lambda: list(o))
        elif op == "update_keys":
            new = [key_of(v)[1] if key_of(v)[0] else k for k, v in m]
            if len(set(new)) < len(new):
                continue
            r = ld.update_keys()
            want = {k: n for (k, _), n in zip(m, new) if k != n}
            ctx.check(r == want, "update_keys:result", lambda: f"{r} wants {want}")
            m = [(n, v) for n, (_, v) in zip(new, m)]
        elif op == "rename":
            c = [v for _, v in m if hasattr(v, "id")]
            if not c:
                continue
            rng.choice(c).id = f"r{step}"
        elif op == "clear":
            if rng.random() < 0.8:
                continue
            ld.clear()
            m = []
        elif op == "copy":
            c = ld.copy()
            if not ctx.check(type(c) is type(ld) and c.keys() == [k for k, _ in m], "copy:keys", lambda: f"{c.keys()}"):
                return
            for (k, v), w in zip(m, c.values()):
                if gen.is_model(v):
                    ctx.check(w is not v and gen.snap(w) == gen.snap(v), "copy:value", lambda: f"{k!r}")
                elif isinstance(v, (Plain, dict, list)):
                    ctx.check(w is not v and w == v, "copy:value", lambda: f"{k!r}")
            eq = all(not isinstance(v, Bare) for _, v in m)
            if eq:
                ctx.check(c == ld and not c != ld, "copy:equal", lambda: c.keys())
            if len(c):
                c.remove(0)
                ctx.check(not c == ld, "equal_without_entry")
            c.append(value(rng))
        elif op == "slice":
            n = len(m)
            pick = lambda: rng.choice([None, rng.randint(-n - 1, n + 2), rng.choice(m)[0] if m else None])
            a, b, s = pick(), pick(), rng.choice([None, None, None, 2, -1])
            ks = [k for k, _ in m]
            ia = ks.index(a) if isinstance(a, str) else a
            ib = ks.index(b) if isinstance(b, str) else b
            r = ld[a:b:s]
            ctx.check(isinstance(r, LD) and same(list(r.items()), m[ia:ib:s]), "slice", lambda: f"[{a!r}:{b!r}:{s}] of {ks} -> {r.keys()}")
            r["not in it"] = 1
        else:
            fails += 1
            ctx.event("failed_op")
            bad = rng.choice([
                lambda: ld["no such key"], lambda: ld[len(m)], lambda: ld[1.5], lambda: ld[None:2.5], lambda: ld["no such key":],
                lambda: ld.remove("no such key"), lambda: ld.remove(len(m) + 1), lambda: ld.remove(2.5), lambda: ld.remove(None),
                lambda: ld.pop("no such key"), lambda: ld.extend([1, 2]), lambda: ld.extend(None), lambda: ld.update([("a", 1)]), lambda: ld.update("a"),
                lambda: ld.__setitem__(slice(0, 1), [1]), lambda: ld.pop(len(m)), lambda: ld.extend(5), lambda: ld.update(None)])
            _, e = ctx.attempt(bad)
            ctx.check(isinstance(e, (KeyError, TypeError, NotImplementedError)), "failure_accepted", lambda: f"{e!r}")
        ctx.event(f"op:{op}")
        log.append(op)
        if not views(ctx, ld, m, op):
            ctx.violate(f"effect:{op}", f"{[k for k, _ in before]} -> {ld.keys()}; wants {[k for k, _ in m]}")
            return
        if op in ("fail", "copy", "slice", "rename"):
            ctx.check(same(m, before), f"{op}:changed", "")
    # what the list is not equal to
    for x in (None, 5, "a", [], dict(m), object()):
        r, e = ctx.attempt(lambda: ld == x)
        ctx.check(e is None and r is False if not isinstance(x, dict) else e is None, "equal:foreign", lambda: f"== {type(x)}: {r!r} {e!r}")
    ctx.check(len(repr(ld)) > 0 and len(str(ld)) > 0, "text")
    ctx.case((log, [k for k, _ in m]), {"operations": log, "keys": [str(k) for k, _ in m]}, trivial=len(log) < 3)


WORKLOADS = [Workload("ops", w_ops, 2500, 40000)]
