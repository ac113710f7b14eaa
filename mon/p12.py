"""P12: survey/station/run/channel membership stays consistent."""
from mon import gen
from mon.core import Workload

RULE = ("case = a history of add / add-by-name / add-by-dictionary / re-add / remove / rename / assign / merge / copy operations on a tree of "
        "experiment, surveys, stations, runs and channels, run in step with the harness's own tree; every view of every level is compared after each step")
ASSUME = ["children carry a non-empty name that is legal for its kind", "after a change made directly on a child the parent is asked to update (any assignment on it also does)",
          "station.channels_recorded and the channels_recorded_* lists are sorted by name, as documented; the other lists follow the order of adding",
          "assigning a list that names fewer children does not remove any (the lists describe the children)"]
NEED = {"op:add_channel": 500, "op:re_add_channel": 100, "op:remove_channel": 150, "op:add_run": 200, "op:re_add_run": 80, "op:remove_run": 80, "op:add_station": 150,
        "op:re_add_station": 60, "op:remove_station": 40, "op:merge": 80, "op:fail": 150, "op:assign_list": 100, "op:rename": 80, "op:re_add_survey": 30,
        "op:assign_children": 50, "views": 2000, "unshared": 100}

CH = {"ex": "Electric", "ey": "Electric", "e1": "Electric", "hx": "Magnetic", "hy": "Magnetic", "hz": "Magnetic", "bx": "Magnetic",
      "temperature": "Auxiliary", "aux1": "Auxiliary", "clock": "Auxiliary"}
LIST = {"Electric": "channels_recorded_electric", "Magnetic": "channels_recorded_magnetic", "Auxiliary": "channels_recorded_auxiliary"}
RUNS = ["a", "b", "c", "d1", "001", "r_5"]
STS = ["mt01", "mt02", "s3", "x", "q9"]
SVS = ["north", "south", "v1"]


def ts():
    from mt_metadata import timeseries

    return timeseries


# -- the harness's tree: name -> [tag, children] in order ------------------
class Node:
    def __init__(self, kind, tag, kids=None, extra=0):
        self.kind, self.tag, self.extra = kind, tag, extra
        self.kids = kids if kids is not None else {}

    def clone(self):
        return Node(self.kind, self.tag, {k: v.clone() for k, v in self.kids.items()}, self.extra)

    def take(self, o):
        """update by another of the same name: set values win, children are taken in"""
        self.tag = o.tag or self.tag
        self.extra = o.extra or self.extra
        for k, v in o.kids.items():
            if k in self.kids:
                self.kids[k].take(v)
            else:
                self.kids[k] = v.clone()


def real_channel(name, n):
    return getattr(ts(), n.kind)(component=name, channel_number=n.tag, sample_rate=float(n.extra))


def real(name, n):
    if n.kind in LIST:
        return real_channel(name, n)
    T = ts()
    if n.kind == "Run":
        o = T.Run(id=name, sample_rate=float(n.extra))
        o.data_logger.id = str(n.tag)
        add = o.add_channel
    elif n.kind == "Station":
        o = T.Station(id=name, geographic_name=str(n.tag))
        add = o.add_run
    else:
        o = T.Survey(id=name, name=str(n.tag))
        add = o.add_station
    for k, v in n.kids.items():
        add(real(k, v))
    return o


COUNT = [0]


def tag(rng):
    COUNT[0] += 1
    return COUNT[0] % 9000 + 1


def new_channel(rng, name=None):
    name = name or rng.choice(list(CH))
    return name, Node(CH[name], rng.choice([tag(rng), tag(rng), 0]), None, rng.choice([0, 1, 8, 64]))


def new_run(rng, name=None, most=4):
    n = Node("Run", tag(rng), {}, rng.choice([0, 1, 8]))
    for c in rng.sample(list(CH), rng.randint(0, most)):
        n.kids[c] = new_channel(rng, c)[1]
    return name or rng.choice(RUNS), n


def new_station(rng, name=None):
    n = Node("Station", tag(rng))
    for r in rng.sample(RUNS, rng.randint(0, 3)):
        n.kids[r] = new_run(rng, r, 3)[1]
    return name or rng.choice(STS), n


def new_survey(rng, name=None):
    n = Node("Survey", tag(rng))
    for s in rng.sample(STS, rng.randint(0, 2)):
        n.kids[s] = new_station(rng, s)[1]
    return name or rng.choice(SVS), n


# -- monitors --------------------------------------------------------------
def coll(o, n):
    return {"Run": "channels", "Station": "runs", "Survey": "stations", "Experiment": "surveys"}[n.kind]


def view(ctx, o, n, why, name=None):
    k = n.kind
    names = list(n.kids)
    c = getattr(o, coll(o, n))
    ctx.event("views")
    ctx.check(c.keys() == names and len(c) == len(names), f"children:{k}:{why}", lambda: f"{k} {name}: {c.keys()} wants {names}")
    if c.keys() != names:
        return
    attr = "component" if k == "Run" else "id"
    ctx.check([getattr(x, attr) for x in c] == names, f"names:{k}:{why}", lambda: f"{[getattr(x, attr) for x in c]} wants {names}")
    m = {"Run": "channel", "Station": "run", "Survey": "station", "Experiment": "survey"}[k]
    pool = {"Run": CH, "Station": RUNS, "Survey": STS, "Experiment": SVS}[k]
    order = sorted(names) if k == "Run" else names
    ctx.check(getattr(o, f"n_{m}s") == len(names), f"count:{k}:{why}", lambda: f"{getattr(o, f'n_{m}s')} wants {len(names)}")
    for x in list(pool) + ["nope"] + names:
        has, got, ix = getattr(o, f"has_{m}")(x), getattr(o, f"get_{m}")(x), getattr(o, f"{m}_index")(x)
        ok = (has is True and got is c[x] and ix == order.index(x)) if x in n.kids else (has is False and got is None and ix is None)
        ctx.check(ok, f"lookup:{k}:{why}", lambda: f"{x!r} in {names}: has {has} index {ix} got {type(got).__name__}")
    if k == "Run":
        ctx.check(o.channels_recorded_all == sorted(names), f"list:all:{why}", lambda: f"{o.channels_recorded_all} wants {sorted(names)}")
        for kind, f in LIST.items():
            want = sorted(x for x, v in n.kids.items() if v.kind == kind)
            ctx.check(list(getattr(o, f)) == want, f"list:{kind}:{why}", lambda: f"{f} {getattr(o, f)} wants {want}")
        ctx.check(o.data_logger.id in (str(n.tag), "", None) or not n.tag, f"value:Run:{why}", lambda: f"{o.data_logger.id} wants {n.tag}")
        ctx.check(not n.extra or o.sample_rate == n.extra, f"value:Run:{why}", lambda: f"rate {o.sample_rate} wants {n.extra}")
        for x, v in n.kids.items():
            r = c[x]
            ctx.check(type(r).__name__ == v.kind, f"kind:{why}", lambda: f"{x}: {type(r).__name__} wants {v.kind}")
            ctx.check((r.channel_number or 0) == v.tag and (not v.extra or r.sample_rate == v.extra), f"value:channel:{why}",
                      lambda: f"{x}: number {r.channel_number} rate {r.sample_rate} wants {v.tag} {v.extra}")
    elif k == "Station":
        ctx.check(list(o.run_list) == names, f"list:runs:{why}", lambda: f"{o.run_list} wants {names}")
        want = sorted({x for r in n.kids.values() for x in r.kids})
        ctx.check(list(o.channels_recorded) == want, f"list:station_channels:{why}", lambda: f"{o.channels_recorded} wants {want}")
        ctx.check(o.geographic_name == str(n.tag), f"value:Station:{why}", lambda: f"{o.geographic_name} wants {n.tag}")
    elif k == "Survey":
        ctx.check(list(o.station_names) == names, f"list:stations:{why}", lambda: f"{o.station_names} wants {names}")
        ctx.check(o.name == str(n.tag), f"value:Survey:{why}", lambda: f"{o.name} wants {n.tag}")
    else:
        ctx.check(list(o.survey_names) == names, f"list:surveys:{why}", lambda: f"{o.survey_names} wants {names}")
    if k != "Run":
        for x, v in n.kids.items():
            view(ctx, c[x], v, why, x)


def objects(o, n, out=None):
    """ids of every child object below o"""
    out = {} if out is None else out
    for x in getattr(o, coll(o, n)):
        out[id(x)] = x
        if type(x).__name__ in ("Run", "Station", "Survey"):
            objects(x, Node(type(x).__name__, 0), out)
    return out


def unshared(ctx, a, na, b, nb, why):
    both = set(objects(a, na)) & set(objects(b, nb))
    ctx.event("unshared")
    ctx.check(not both, f"shared:{why}", lambda: f"{len(both)} child objects in both trees: {[type(x).__name__ for i, x in objects(a, na).items() if i in both][:4]}")


# -- operations ------------------------------------------------------------
def pick(rng, o, n, depth):
    """walk down to a node of the given depth: [(object, node)] from the top, or None"""
    path = [(o, n)]
    for _ in range(depth):
        o, n = path[-1]
        if not n.kids:
            return None
        x = rng.choice(list(n.kids))
        path.append((getattr(o, coll(o, n))[x], n.kids[x]))
    return path


def settle(rng, path):
    """the parents are told, by asking or by an unrelated assignment"""
    for o, n in reversed(path):
        if n.kind == "Station":
            if rng.random() < 0.4 and n.kids:
                o.data_type = rng.choice(["BBMT", "LPMT"])
            else:
                o.update_all()
        elif n.kind == "Run" and rng.random() < 0.3:
            o.fdsn.id = "x"
            o.data_type = "BBMT"
    # channels of a station are read from its runs


MAKE = {"Run": new_channel, "Station": new_run, "Survey": new_station, "Experiment": new_survey}
CHILD = {"Run": "channel", "Station": "run", "Survey": "station", "Experiment": "survey"}
POOL = {"Run": list(CH), "Station": RUNS, "Survey": STS, "Experiment": SVS}


def w_history(ctx, rng, i):
    T = ts()
    COUNT[0] = rng.choice([0, 1900, 5000])
    top = T.Experiment()
    tn = Node("Experiment", 0)
    start = rng.choice([0, 1, 2, 3])
    for depth in range(start):
        path = pick(rng, top, tn, depth)
        o, n = path[-1]
        x, v = MAKE[n.kind](rng)
        getattr(o, f"add_{CHILD[n.kind]}")(real(x, v))
        if x in n.kids:
            n.kids[x].take(v)
        else:
            n.kids[x] = v
        settle(rng, path)
    view(ctx, top, tn, "init")
    log = []
    for step in range(rng.randint(5, 22)):
        path = pick(rng, top, tn, rng.choice([0, 1, 2, 2, 3, 3, 3, 3]))
        if path is None:
            path = [(top, tn)]
        o, n = path[-1]
        ch = CHILD[n.kind]
        c = getattr(o, coll(o, n))
        op = rng.choice(["add", "add", "add", "re_add", "remove", "remove", "rename", "merge", "fail", "assign_list", "assign_children", "unrelated", "missing"])
        label = op
        if op in ("add", "re_add"):
            if op == "re_add":
                if not n.kids:
                    continue
                x, v = MAKE[n.kind](rng, rng.choice(list(n.kids)))
            else:
                x, v = MAKE[n.kind](rng)
                if x in n.kids:
                    op = "re_add"
            r = real(x, v)
            given = r
            if n.kind == "Run":
                how = rng.choice(["object", "object", "name", "dict"])
                if how == "name":
                    given = x
                    v = Node(CH[x], 0)
                elif how == "dict":
                    given = r.to_dict(single=True)
                    if rng.random() < 0.3:
                        word = {"Electric": "electric", "Magnetic": "magnetic", "Auxiliary": "auxiliary"}[v.kind]
                        given = {"type": rng.choice([word, word, word.capitalize(), word.upper()]), "component": x,
                                 "channel_number": v.tag, "sample_rate": float(v.extra)}
                if x in n.kids and n.kids[x].kind != v.kind:
                    continue
            before = gen.snap(given) if gen.is_model(given) else None
            getattr(o, f"add_{ch}")(given)
            if op == "add":
                n.kids[x] = v
                if gen.is_model(given):
                    ctx.check(c[x] is given or getattr(o, coll(o, n))[x] is given, "added_other_object", lambda: f"{n.kind} {x}")
            else:
                n.kids[x].take(v)
                if gen.is_model(given):
                    ctx.check(gen.snap(given) == before, "re_add_changed_given", lambda: gen.diff(before, gen.snap(given)))
                    if n.kind != "Run":
                        unshared(ctx, top, tn, given, v, f"re_add_{ch}")
            label = f"{op}_{ch}"
        elif op == "remove":
            if not n.kids:
                continue
            x = rng.choice(list(n.kids))
            sib = {k: (id(getattr(o, coll(o, n))[k]), gen.snap(getattr(o, coll(o, n))[k])) for k in n.kids if k != x}
            getattr(o, f"remove_{ch}")(x)
            n.kids.pop(x)
            c = getattr(o, coll(o, n))
            for k, (d, s) in sib.items():
                if ctx.check(k in c.keys() and id(c[k]) == d, "remove_touched_sibling", lambda: f"{n.kind}: removed {x}, {k} not the same object"):
                    ctx.check(gen.snap(c[k]) == s, "remove_touched_sibling", lambda: f"{n.kind}: removed {x}; {k} {gen.diff(s, gen.snap(c[k]))}")
            label = f"remove_{ch}"
        elif op == "missing":
            getattr(o, f"remove_{ch}")("nope")
        elif op == "rename":
            if not n.kids or n.kind == "Experiment":
                continue
            x = rng.choice(list(n.kids))
            free = [k for k in POOL[n.kind] if k not in n.kids and (n.kind != "Run" or CH[k] == n.kids[x].kind)]
            if not free:
                continue
            y = rng.choice(free)
            setattr(c[x], "component" if n.kind == "Run" else "id", y)
            r = getattr(o, f"update_{ch}_keys")()
            ctx.check(r == {x: y}, "rename:result", lambda: f"{r} wants {x}:{y}")
            n.kids = {(y if k == x else k): v for k, v in n.kids.items()}
        elif op == "merge":
            if n.kind == "Experiment":
                other = Node("Experiment", 0)
                for x in rng.sample(SVS, rng.randint(0, 2)):
                    other.kids[x] = new_survey(rng, x)[1]
                r = T.Experiment()
                for x, v in other.kids.items():
                    r.add_survey(real(x, v))
            else:
                name, other = {"Run": new_run, "Station": new_station, "Survey": new_survey}[n.kind](rng)
                r = real(name, other)
            before = gen.snap(r)
            inp = rng.random() < 0.5
            out = o.merge(r) if n.kind == "Experiment" else o.merge(r, inplace=inp)
            for x, v in other.kids.items():
                n.kids[x] = v.clone()
            ctx.check(gen.snap(r) == before, f"merge_changed_source:{n.kind}", lambda: gen.diff(before, gen.snap(r)))
            unshared(ctx, top, tn, r, other, f"merge_{n.kind}")
            if out is not None and out is not o:
                view(ctx, out, n, "merge_result")
        elif op == "assign_list":
            if n.kind == "Run":
                kind = rng.choice(list(LIST))
                add = [x for x in rng.sample(list(CH), rng.randint(0, 3)) if CH[x] == kind and x not in n.kids]
                have = [x for x, v in n.kids.items() if v.kind == kind]
                val = rng.choice([add, have + add, sorted(have + add), have[:1] + add])
                setattr(o, LIST[kind], list(val))
                for x in val:
                    n.kids.setdefault(x, Node(kind, 0))
            elif n.kind == "Station":
                have = list(n.kids)
                add = [x for x in rng.sample(RUNS, rng.randint(0, 3)) if x not in n.kids]
                val = have + add
                if len(val) <= len(have):
                    val = rng.choice([have, have[::-1], have[:1]])
                o.run_list = rng.choice([list(val), tuple(val), ", ".join(val)]) if val else []
                for x in val:
                    n.kids.setdefault(x, Node("Run", 0))
            else:
                continue
        elif op == "assign_children":
            if n.kind == "Experiment":
                continue
            keep = {}
            for _ in range(rng.randint(0, 3)):
                x, v = MAKE[n.kind](rng)
                keep[x] = v
            objs = [real(x, v) for x, v in keep.items()]
            from mt_metadata.common.list_dict import ListDict

            form = rng.choice(["list", "tuple", "dict", "ListDict"])
            if form in ("dict", "ListDict"):
                d = dict(zip(keep, objs))
                setattr(o, coll(o, n), d if form == "dict" else ListDict(d))
            else:
                setattr(o, coll(o, n), objs if form == "list" else tuple(objs))
            n.kids = keep
            c = getattr(o, coll(o, n))
            ctx.check(all(c[x] is r for x, r in zip(keep, objs)), "assigned_other_object", n.kind)
        elif op == "unrelated":
            if n.kind == "Run":
                o.comments = "text"
                o.acquired_by.author = "me"
                o.data_type = "AMT"
            elif n.kind == "Station":
                o.channel_layout = "X"
                o.location.latitude = 10
            elif n.kind == "Survey":
                o.project = "p"
        else:
            bad = [(lambda: getattr(o, f"add_{ch}")(5)), (lambda: getattr(o, f"add_{ch}")(None)), (lambda: setattr(o, coll(o, n), 5)),
                   (lambda: setattr(o, coll(o, n), [5])), (lambda: setattr(o, coll(o, n), {"a": T.Electric(component="ex").time_period})), (lambda: o.merge(5)), (lambda: o.merge({}))]
            if n.kind == "Run":
                bad += [lambda: o.add_channel({"component": "ex"}), lambda: setattr(o, "channels_recorded_electric", ["e x!"]), lambda: setattr(o, "channels_recorded_magnetic", ["hx", "zz"] if "zz" not in n.kids else 5),
                        lambda: setattr(o, "channels_recorded_electric", 5), lambda: o.add_channel(T.Run(id="a")), lambda: setattr(o, "sample_rate", "fast"), lambda: setattr(o, "data_type", 5)]
                bad.append(lambda: setattr(o, "channels_recorded_electric", ["e1", "e2", "hx2!"]))
            elif n.kind == "Station":
                long = [f"z{k}" for k in range(len(n.kids) + 1)]
                bad += [lambda: setattr(o, "run_list", long + ["b d!"]), lambda: setattr(o, "run_list", 5), lambda: o.add_run(T.Station(id="a")),
                        lambda: setattr(o, "channel_layout", "none such"), lambda: setattr(o, "id", "b d!")]
                if n.kids:
                    bad.append(lambda: setattr(o, "channels_recorded", [f"e{k}q" for k in range(9)] + ["e d!"] + list(CH)))
            elif n.kind == "Survey":
                bad += [lambda: o.add_station(T.Run(id="a")), lambda: setattr(o, "id", "b/d!")]
            before = gen.snap(o)
            f = rng.choice(bad)
            _, e = ctx.attempt(f)
            after = gen.snap(o)
            if e is not None:
                ctx.check(before == after, f"failed_op_changed:{n.kind}", lambda: f"{type(e).__name__} {str(e)[:150]}: {gen.diff(before, after)}")
            else:
                ctx.check(before == after, f"bad_value_accepted:{n.kind}", lambda: f"{gen.diff(before, after)}")
        ctx.event(f"op:{label}")
        if label == "re_add":
            label = f"re_add_{ch}"
        log.append((n.kind, label))
        if ctx.vcount and any(m.startswith(("children", "raised")) for m in ctx.vcount) and step > 400:
            return
        settle(rng, path)
        nv = sum(ctx.vcount.values())
        view(ctx, top, tn, label)
        if sum(ctx.vcount.values()) > nv:
            return
    cp = top.copy()
    view(ctx, cp, tn, "copy")
    unshared(ctx, top, tn, cp, tn, "copy")
    ctx.case((log,), {"operations": [f"{a}.{b}" for a, b in log]}, trivial=len(log) < 3)


def w_construct(ctx, rng, i):
    """runs and stations made from names or lists"""
    T = ts()
    n = Node("Run", 0)
    lists = {}
    for kind, f in LIST.items():
        xs = [x for x in rng.sample(list(CH), rng.randint(0, len(CH))) if CH[x] == kind]
        lists[f] = rng.choice([xs, tuple(xs)])
        for x in sorted(xs):
            n.kids[x] = Node(kind, 0)
    r = T.Run(id="a", **lists)
    ctx.event("constructed")
    ctx.check(set(r.channels.keys()) == set(n.kids), "construct:run_lists", lambda: f"{r.channels.keys()} wants {list(n.kids)}")
    n.kids = {k: n.kids[k] for k in r.channels.keys() if k in n.kids}
    view(ctx, r, n, "construct")
    names, rn = [], Node("Station", "")
    objs = []
    for x in rng.sample(RUNS, rng.randint(0, 4)):
        _, v = new_run(rng, x)
        rn.kids[x] = v
        objs.append(real(x, v))
    if rng.random() < 0.5:
        s = T.Station(id="s", runs=objs)
    else:
        s = T.Station(id="s", run_list=list(rn.kids))
        for v in rn.kids.values():
            v.tag, v.extra, v.kids = 0, 0, {}
    view(ctx, s, rn, "construct")
    # sorting by start time
    day = {x: rng.randint(1, 28) for x in rn.kids}
    for x, d in day.items():
        s.get_run(x).time_period.start = f"2020-01-{d:02d}T00:00:00"
    asc = rng.random() < 0.5
    want = sorted(rn.kids, key=lambda x: day[x], reverse=not asc)
    if len(set(day.values())) == len(day):
        if rng.random() < 0.5:
            got = s.sort_runs_by_time(inplace=False, ascending=asc).keys()
            view(ctx, s, rn, "sorted_elsewhere")
        else:
            s.sort_runs_by_time(ascending=asc)
            rn.kids = {x: rn.kids[x] for x in want}
            got = s.runs.keys()
            view(ctx, s, rn, "sort")
        ctx.check(got == want, "sort_order", lambda: f"{day} ascending {asc}: {got}")
    ctx.case((list(n.kids), list(rn.kids), day), {"channels": list(n.kids), "runs": list(rn.kids)})


WORKLOADS = [Workload("history", w_history, 900, 12000), Workload("construct", w_construct, 500, 5000)]
