"""P20: a channel's applied-filter list keeps order, names and flags."""
import json

import numpy as np

from mon import gen
from mon.core import Workload

RULE = ("case = a history of add/remove/assign/reload on one channel of a random kind, judged after every step against a list model; "
        "or one filter list given in one of the accepted old and new forms (name and flag lists as text, list, array, flat or nested; list of filters, dictionaries, JSON text)")
ASSUME = ["names are text that is not blank; they are the same name when they differ in case only (the library stores them in lower case)",
          "a name added again leaves the first entry (documented as skipping duplicates)", "assigned lists name each filter once", "stages without an explicit number continue after the count of the list"]
NEED = {"step": 3000, "reload": 400, "old_form": 300, "new_form": 200, "op:add": 500, "op:add_object": 300, "op:remove": 300, "op:assign": 200, "case_variant": 150}
POOL = ["low pass", "High_Pass", "notch", "V per m", "V/m", "coil 2284", "dipole_100", "ADC", "f1", "f10", "F2"]


def CH():
    from mt_metadata.timeseries import Auxiliary, Channel, Electric, Magnetic

    return [Channel, Electric, Magnetic, Auxiliary]


def AF():
    from mt_metadata.timeseries import AppliedFilter

    return AppliedFilter


def stored(n):
    return n.replace("/", " per ").lower()


def state(ch):
    return [(f.name, f.applied, f.stage, f.comments.value) for f in ch.filters]


def judge(ctx, ch, model, tag, say=""):
    got = state(ch)
    want = [tuple(m) for m in model]
    ok = ctx.check(got == want, tag, lambda: f"{say} {got} wants {want}")
    ctx.check(list(ch.filter_names) == [g[0] for g in got], "filter_names", lambda: ch.filter_names)
    return ok


def variant(ctx, rng, n):
    if rng.random() < 0.4:
        ctx.event("case_variant")
        return rng.choice([n.upper(), n.title(), n.lower()])
    return n


def history(ctx, rng, i):
    ch = rng.choice(CH())()
    comp = {"Electric": "ex", "Magnetic": "hx", "Auxiliary": "temperature"}.get(type(ch).__name__)
    if comp:
        ch.component = comp
    m = []
    log = []
    for _ in range(rng.randint(3, 14)):
        ctx.event("step")
        op = rng.choice(["add", "add", "add_stage", "add_object", "add_object", "remove", "remove", "remove_keep", "assign", "reload", "get", "flag"])
        name = variant(ctx, rng, rng.choice(POOL))
        has = stored(name) in [x[0] for x in m]
        if op in ("add", "add_stage", "add_object"):
            ctx.event("op:add" if op != "add_object" else "op:add_object")
            applied = rng.random() < 0.5
            comment = rng.choice([None, None, "a note", "1980"])
            stage = None
            if op == "add_stage" or (op == "add_object" and rng.random() < 0.5):
                stage = rng.choice([1, 2, 3, 7, 0, len(m) + 1])
            if op == "add_object":
                f = AF()(name=name, applied=applied, stage=stage) if comment is None else AF()(name=name, applied=applied, stage=stage, comments=comment)
                ch.add_filter(applied_filter=f)
            else:
                kw = {} if comment is None else {"comments": comment}
                if stage is not None:
                    kw["stage"] = stage
                ch.add_filter(name=name, applied=applied, **kw)
            if not has:
                m.append([stored(name), applied, len(m) + 1 if stage is None else stage, comment])
                m.sort(key=lambda x: x[2])
        elif op in ("remove", "remove_keep"):
            ctx.event("op:remove")
            if op == "remove":
                ch.remove_filter(name)
            else:
                ch.remove_filter(name, reset_stages=False)
            m = [x for x in m if x[0] != stored(name)]
            if op == "remove":
                m = [[a, b, k + 1, d] for k, (a, b, _, d) in enumerate(m)]
        elif op == "assign":
            ctx.event("op:assign")
            m = g_model(rng)
            sh = list(m)
            rng.shuffle(sh)
            sh.sort(key=lambda x: x[2]) if len({x[2] for x in m}) != len(m) else None
            m = sorted(sh, key=lambda x: x[2])
            ch.filters = [as_item(rng, x) for x in sh]
        elif op == "reload":
            ctx.event("reload")
            ch = reload(rng, ch)
        elif op == "get":
            f = ch.get_filter(name)
            want = next((tuple(x) for x in m if x[0] == stored(name)), None)
            ctx.check((f is None) == (want is None) and (f is None or (f.name, f.applied, f.stage, f.comments.value) == want), "get_filter", lambda: f"{name} {f!r} wants {want}")
        elif op == "flag" and m:
            k = rng.randrange(len(m))
            m[k][1] = not m[k][1]
            ch.filters[k].applied = m[k][1]
        log.append((op, name))
        if not judge(ctx, ch, m, f"after:{op}", str(log[-3:])):
            break
    ctx.case((type(ch).__name__, tuple(log)), {"history": log, "list": state(ch)}, trivial=not m)


def g_model(rng, n=None):
    names, seen = [], set()
    for x in rng.sample(POOL, rng.randint(0, 6) if n is None else n):
        if stored(x) not in seen:
            seen.add(stored(x))
            names.append(x)
    return [[stored(x), rng.random() < 0.5, k + 1, rng.choice([None, None, "note"])] for k, x in enumerate(names)]


def as_item(rng, x):
    d = {"name": x[0], "applied": x[1], "stage": x[2]}
    if x[3] is not None:
        d["comments"] = x[3]
    return AF()(**d) if rng.random() < 0.5 else d


def reload(rng, ch):
    cls = type(ch)
    new = cls()
    form = rng.choice(["dict", "dict_single", "json", "json_nested", "xml", "xml_required", "copy"])
    if form == "dict":
        new.from_dict(ch.to_dict(required=rng.random() < 0.5))
    elif form == "dict_single":
        new.from_dict(ch.to_dict(single=True))
    elif form == "json":
        new.from_json(ch.to_json())
    elif form == "json_nested":
        new.from_json(ch.to_json(nested=True))
    elif form == "copy":
        return ch.copy()
    else:
        new.from_xml(ch.to_xml(required=form == "xml_required"))
    return new


def old_form(ctx, rng, i):
    """the former pair of name list and flag list"""
    ch = rng.choice(CH())()
    n = rng.randint(1, 5)
    m = [[a, b, c, None] for a, b, c, _ in g_model(rng, n)]
    names, flags = [x[0] for x in m], [x[1] for x in m]
    names = [rng.choice([str.upper, str, str.title])(x) for x in names]
    word = rng.choice(["filter", "filtered"])
    nm = rng.choice(["list", "text", "array", "spaced"])
    names = {"list": names, "text": ",".join(names), "array": np.array(names), "spaced": " , ".join(names)}[nm]
    fl = rng.choice(["list", "text", "spaced", "array", "bracket", "tuple", "words"])
    t = [str(x) for x in flags]
    flags = {"list": flags, "text": ",".join(t), "spaced": " ".join(t), "array": np.array(flags), "bracket": "[" + ", ".join(t) + "]", "tuple": tuple(flags), "words": [s.lower() for s in t]}[fl]
    d = {f"{word}.name": names, f"{word}.applied": flags} if rng.random() < 0.5 else {word: {"name": names, "applied": flags}}
    d["component"] = {"Electric": "ex", "Magnetic": "hx"}.get(type(ch).__name__, "temperature")
    if rng.random() < 0.3:
        d = {type(ch).__name__.lower(): d}
    ctx.event("old_form")
    ch.from_dict(d)
    if judge(ctx, ch, m, f"old_form:{nm}:{fl}", str(d)):
        judge(ctx, reload(rng, ch), m, "old_form:reload")
    # unequal lengths are refused
    if n > 1:
        c2 = type(ch)()
        try:
            c2.from_dict({f"{word}.name": ["a", "b", "c"], f"{word}.applied": [True, False]})
            bad = state(c2)
        except Exception:
            bad = None
        ctx.check(bad is None, "old_form:unequal_accepted", lambda: str(bad))
    ctx.case((nm, fl, tuple(map(tuple, m))), {"form": str(d)})


def new_form(ctx, rng, i):
    """the list of applied filters in every accepted spelling, in any order"""
    ch = rng.choice(CH())()
    ch.component = {"Electric": "ex", "Magnetic": "hx"}.get(type(ch).__name__, "temperature")
    m = g_model(rng, rng.randint(1, 6))
    sh = list(m)
    rng.shuffle(sh)

    def plain(x):
        d = {"name": x[0], "applied": x[1], "stage": x[2]}
        if x[3] is not None:
            d["comments"] = {"value": x[3]}
        return d

    form = rng.choice(["from_dict", "from_dict_wrapped", "json_text", "python_text", "ctor", "from_dict_text"])
    ctx.event("new_form")
    if form == "from_dict":
        ch.from_dict({"component": ch.component, "filters": [plain(x) for x in sh]})
    elif form == "from_dict_wrapped":
        ch.from_dict({type(ch).__name__.lower(): {"component": ch.component, "filters": [{"applied_filter": plain(x)} for x in sh]}})
    elif form == "json_text":
        ch.filters = json.dumps([rng.choice([lambda y: y, lambda y: {"applied_filter": y}])(plain(x)) for x in sh])
    elif form == "python_text":
        ch.filters = str([{"applied_filter": plain(x)} for x in sh])
    elif form == "from_dict_text":
        ch.from_dict({"component": ch.component, "filters": json.dumps([{"applied_filter": plain(x)} for x in sh])})
    else:
        ch = type(ch)(component=ch.component, filters=[as_item(rng, x) for x in sh])
    if judge(ctx, ch, m, f"new_form:{form}"):
        judge(ctx, reload(rng, ch), m, f"new_form:{form}:reload")
    ctx.case((form, tuple(map(tuple, sh))), None)


WORKLOADS = [Workload("history", history, 900, 12000), Workload("old_form", old_form, 400, 5000), Workload("new_form", new_form, 400, 5000)]
