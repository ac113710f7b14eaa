"""P03: assignment stores a valid canonical value or changes nothing."""
import datetime
import decimal
import enum
import json
import math
import os
import re
import typing

import numpy as np
import pandas as pd

from mon import core, gen
from mon.core import Skip, Workload

RULE = ("case = (metadata class, sequence of up to 8 (field, hostile or valid candidate) assignments by attribute, "
        "constructor or update); non-trivial when at least one assignment was accepted and one field value changed; "
        "every assignment is judged against the declared type/options/pattern/range and the frozen field table")
ASSUME = ["mon/data/p03_spec.json freezes, per field, the declared options/pattern/range and whether right-typed values "
          "are stored verbatim; it was generated from and reviewed against the base tree",
          "fields whose stored value is a child collection or an xarray payload are covered by P11/P12/P21"]
NEED = {"assigned": 4000, "rejected": 2000, "fixed_point": 3000}

SPEC_FILE = os.path.join(os.path.dirname(__file__), "data", "p03_spec.json")
_spec = {}


def spec():
    if not _spec and os.path.exists(SPEC_FILE):
        with open(SPEC_FILE) as f:
            _spec.update(json.load(f))
    return _spec


CHILD_NAMES = ("run_list", "channels_recorded", "channels_recorded_electric", "channels_recorded_magnetic",
               "channels_recorded_auxiliary", "channels_estimated", "decimation_levels")  # assigning these builds children: P12
SKIPTYPES = ("ListDict", "DataArray", "Dataset", "xarray")


def fields(cls):
    out = []
    for n, f in cls.model_fields.items():
        if any(s in str(f.annotation) for s in SKIPTYPES) or n in ("data",) + CHILD_NAMES:
            continue
        out.append(n)
    return out


class Alien:
    def __repr__(self):
        return "<alien>"


def hostile(rng, name, ann):
    k = rng.randrange(34)
    L = [None, "", "none", "None", " ", -1, 0, 1, 7.5, -0.25, float("inf"), float("nan"), "nan", True, False, "true",
         "False", [], {}, Alien(), "12.5", "-3", "1e3", " padded ", b"bytes", 1 + 2j, np.float64(2.5), np.int64(4),
         np.array([1.0, 2.0]), ["a", 1, None], ("x", "y"), {"q": 1}, datetime.datetime(2020, 1, 2, 3, 4, 5),
         "not an option"]
    if k < 30:
        return rng.choice(L)
    return rng.choice(["x" * 500, "a,b, c", "-95", 1e30, -200.0, 361, decimal.Decimal("1.5"), np.str_("npstr"),
                       np.bool_(True), pd.Timestamp("2021-01-01"), "2020-13-45", "99:99:99", 3.0, "3.7", {"a"},
                       np.datetime64("2020-01-01"), "ümläut", "tab\tsep", "new\nline"])


def right(rng, name, ann):
    """a value of the declared type, or Skip"""
    return gen.candidate(name, ann, rng, 2)


def typed_ok(v, ann):
    """is the stored value of the declared type (enum fields store the enum's value)"""
    if v is None:
        # documented: None is this library's 'unset'; string/number fields turn it into ''/0
        return True
    for p in gen.ann_parts(ann):
        o = typing.get_origin(p) or p
        nm = getattr(p, "__name__", str(p))
        if o in (list, tuple):
            if isinstance(v, (list, tuple)):
                a = typing.get_args(p)
                if not a or all(typed_ok(x, a[0]) for x in v):
                    return True
        elif o is dict:
            if isinstance(v, dict):
                return True
        elif "ndarray" in str(p) or "NDArray" in str(p) or nm == "Array":
            if isinstance(v, np.ndarray):
                return True
        elif isinstance(o, type) and issubclass(o, enum.Enum):
            if v in [m.value for m in o] or isinstance(v, o):
                return True
        elif o is bool:
            if isinstance(v, (bool, np.bool_)):
                return True
        elif o is int:
            if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
                return True
        elif o is float:
            if isinstance(v, (float, int, np.floating)) and not isinstance(v, bool):
                return True
        elif o is str or "Email" in nm:
            if isinstance(v, str):
                return True
        elif o is typing.Any or o is object:
            return True
        elif isinstance(o, type):
            if isinstance(v, o):
                return True
        else:
            return True  # special forms
    return False


def constraints(f):
    """declared pattern and bounds of a field"""
    c = {}
    for m in f.metadata:
        for k in ("ge", "gt", "le", "lt", "pattern", "min_length", "max_length"):
            v = getattr(m, k, None)
            if v is not None:
                c[k] = v if not hasattr(v, "pattern") else v.pattern
    return c


def options(f):
    for p in gen.ann_parts(f.annotation):
        if isinstance(p, type) and issubclass(p, enum.Enum):
            # the declared default is a legal value whatever the enumeration lists
            return [m.value for m in p] + ([f.default] if isinstance(f.default, str) else [])
    return None


def meets(v, c):
    if v is None:
        return True
    if isinstance(v, bool):
        return True
    if isinstance(v, (int, float, np.number)):
        ok = True
        if "ge" in c:
            ok &= bool(v >= c["ge"])
        if "gt" in c:
            ok &= bool(v > c["gt"])
        if "le" in c:
            ok &= bool(v <= c["le"])
        if "lt" in c:
            ok &= bool(v < c["lt"])
        return ok
    if isinstance(v, str) and "pattern" in c and v != "":
        try:
            return re.search(c["pattern"], v) is not None
        except re.error:  # Rust-only syntax
            return True
    return True


def judge(ctx, o, name, v, how):
    """monitor of one stored value"""
    cls = type(o)
    key = f"{gen.cname(cls)}.{name}"
    f = cls.model_fields[name]
    sp = spec().get(key, {})
    loose = sp.get("loose", [])
    if key == "common.declination.Declination.model" and isinstance(v, str) and not isinstance(v, enum.Enum):
        # documented: any case, and a model may carry a version, IGRF-13
        v = {x.lower(): x for x in sp["options"]}.get(v.split("-")[0].lower(), v)
    if "type" not in loose:
        ctx.check(typed_ok(v, f.annotation), f"type:{key}", lambda: f"{how} stored {v!r} ({type(v).__name__}) in {f.annotation}")
    if "constraint" not in loose:
        ctx.check(meets(v, constraints(f)) and meets(v, sp.get("constraint", {})), f"constraint:{key}",
                  lambda: f"{how} stored {v!r} against {constraints(f)} / {sp.get('constraint')}")
    if sp.get("options") and "options" not in loose:
        cur = options(f) or []
        val = v.value if isinstance(v, enum.Enum) else v
        ctx.check(val is None or val in cur or val in sp["options"], f"options:{key}",
                  lambda: f"{how} stored {v!r} outside {sp['options']}")


def set_how(o, name, v, how):
    if how == "setattr":
        setattr(o, name, v)
    elif how == "update_attribute":
        o.update_attribute(name, v)
    else:
        o.from_dict({name: v}) if not isinstance(v, dict) else o.update_attribute(name, v)


def near(rng, sp):
    """a value next to what the frozen table allows"""
    c = sp.get("constraint") or {}
    if "pattern" in c or not c:
        opts = [x for x in sp.get("options") or [] if isinstance(x, str) and x]
        b = rng.choice(opts) if opts else rng.choice(["ex", "e1", "hx", "bx", "rx", "a", "ab", "abc", "2020", "2020-2021", "a_b", "S01", "1"])
        j = rng.choice(["x y", "-", " ", "!", "é", "/", ".", "\n", "-20", "2", "q", "_", "%", "#", ",", ":"])
        return rng.choice([b + j, j + b, b[:1] + j + b[1:], b, b + j + b, b[1:], b[:-1], b.upper(), j])
    e = rng.choice([c[k] for k in ("ge", "gt", "le", "lt", "min_length", "max_length") if k in c])
    return rng.choice([e, e + 1, e - 1, e + 1e-9, e - 1e-9, e + 0.5, e - 0.5, -e, e * 1000 + 7, str(e + 1), str(e - 1), int(e)])


def limited():
    out = []
    for cls in cases():
        for name in fields(cls):
            sp = spec().get(f"{gen.cname(cls)}.{name}", {})
            if sp.get("constraint") or sp.get("options"):
                out.append((cls, name, sp))
    return out


LIMITED = []


def edges(ctx, rng, i):
    """values right at and beyond the declared pattern, range or options"""
    if not LIMITED:
        LIMITED.extend(limited())
    cls, name, sp = LIMITED[i % len(LIMITED)]
    try:
        o = gen.make(cls)
    except Exception:
        raise Skip()
    key = f"{gen.cname(cls)}.{name}"
    log = []
    for _ in range(12):
        v = near(rng, sp)
        how = rng.choice(["setattr", "update_attribute", "construct"])
        before = gen.snap(o)
        if how == "construct":
            n, e = ctx.attempt(lambda: cls(**{name: v}))
        else:
            n, (_, e) = o, ctx.attempt(set_how, o, name, v, how)
        ctx.event("edge_values")
        log.append((repr(v), how, e is None))
        if e is not None:
            if how != "construct" and "rollback" not in sp.get("loose", []):
                ctx.check(before == gen.snap(o), f"not-atomic:{key}", lambda: f"{v!r} raised {type(e).__name__} but changed {gen.diff(before, gen.snap(o))}")
            continue
        judge(ctx, n, name, n.__dict__.get(name), f"{how} {v!r}")
    ctx.case((key, log), {"field": key, "values": log}, trivial=not any(x[2] for x in log))


def cp(v):
    return list(v) if isinstance(v, list) else v


def cases():
    out = []
    for c in gen.all_classes():
        if c.__name__ in ("Experiment", "ChannelResponse") or not fields(c):
            continue
        out.append(c)
    return out


def assign(ctx, rng, i):
    C = cases()
    cls = C[i % len(C)]
    try:
        o = gen.make(cls)
    except Exception:
        raise Skip()
    if rng.random() < 0.5:
        gen.fill(o, rng, 0.3, only=set(cls.model_fields) - set(CHILD_NAMES) - {"fdsn"})
    names = fields(cls)
    log, changed, acc = [], 0, 0
    for _ in range(8):
        name = rng.choice(names)
        f = cls.model_fields[name]
        key = f"{gen.cname(cls)}.{name}"
        sp = spec().get(key, {})
        isright = rng.random() < 0.45
        if isright:
            try:
                v = right(rng, name, f.annotation)
            except Skip:
                continue
        else:
            v = hostile(rng, name, f.annotation)
        how = rng.choice(["setattr", "setattr", "update_attribute"])
        if "Comment | str" in str(f.annotation).replace("mt_metadata.common.comment.", "") and not isinstance(v, (str, type(None))):
            continue  # text or a comment
        before = gen.snap(o)
        given = gen.snap(v)
        _, e = ctx.attempt(set_how, o, name, v, how)
        after = gen.snap(o)
        log.append([name, repr(v)[:60], how, e is None])
        if e is not None:
            ctx.event("rejected")
            if "rollback" not in sp.get("loose", []):
                ctx.check(before == after, f"not-atomic:{key}",
                          lambda: f"{v!r} raised {type(e).__name__} but changed {gen.diff(before, after)}")
            if isright and sp.get("accepts") and not gen.is_model(v):
                ctx.check(False, f"refuses-valid:{key}", f"{v!r}: {type(e).__name__} {str(e)[:300]}")
            if before != after:
                return
            continue
        ctx.event("assigned")
        acc += 1
        changed += before != after
        stored = o.__dict__.get(name)
        judge(ctx, o, name, stored, f"assigning {v!r}")
        if isright and sp.get("verbatim") and v is not None:
            ctx.check(gen.snap(stored) == given or same(gen.snap(stored), given), f"altered:{key}",
                      lambda: f"assigned {v!r} stored {stored!r}")
            ctx.event("verbatim")
        # text of a number, number of a text
        if not isright and sp.get("verbatim"):
            convert(ctx, key, f, v, stored)
        # fixed point
        if "fixed" not in sp.get("loose", []):
            _, e = ctx.attempt(setattr, o, name, cp(stored))
            if ctx.check(e is None or stored in (None, "") if not hasattr(stored, "shape") else True, f"refuses-stored:{key}", lambda: f"stored {stored!r}: {str(e)[:300]}") and e is None:
                again = gen.snap(o)
                ctx.check(again == after, f"not-fixed-point:{key}", lambda: f"assigned {v!r}: {gen.diff(after, again)}")
            ctx.event("fixed_point")
    ctx.case((cls.__name__, log), {"class": gen.cname(cls), "assignments": log}, trivial=not changed or not acc)


def same(a, b):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b


def convert(ctx, key, f, v, stored):
    """plain conversions that are accepted must keep the value"""
    parts = [p for p in gen.ann_parts(f.annotation) if p is not type(None)]
    if len(parts) != 1 or isinstance(v, bool) or stored is None:
        return
    if parts[0] in (float, int) and isinstance(v, (int, float, str, np.number)):
        try:
            x = float(v)
        except ValueError:
            return
        ctx.check(x == stored or math.isnan(x) and (stored == 0 or math.isnan(stored)), f"converted:{key}", lambda: f"{v!r} stored as {stored!r}")
        ctx.event("conversions")
    elif parts[0] is str and isinstance(v, (int, float)):
        ctx.check(stored == str(v) or _num(stored) == v or v != v, f"converted:{key}", lambda: f"{v!r} stored as {stored!r}")
        ctx.event("conversions")


def _num(s):
    try:
        return float(s)
    except ValueError:
        return None


def construct(ctx, rng, i):
    """constructor, attribute and update agree on what a value means"""
    C = cases()
    cls = C[i % len(C)]
    name = rng.choice(fields(cls))
    f = cls.model_fields[name]
    key = f"{gen.cname(cls)}.{name}"
    sp = spec().get(key, {})
    if "ctor" in sp.get("loose", []):
        raise Skip()  # the class names itself, or takes constructor keywords of its own
    try:
        v = right(rng, name, f.annotation) if rng.random() < 0.6 else hostile(rng, name, f.annotation)
    except Skip:
        raise
    if gen.is_model(v) or isinstance(v, dict):
        raise Skip()
    if "Comment | str" in str(f.annotation).replace("mt_metadata.common.comment.", "") and not isinstance(v, (str, type(None))):
        raise Skip()
    a, ea = ctx.attempt(lambda: cls(**{name: cp(v)}))
    b = gen.make(cls)
    _, eb = ctx.attempt(setattr, b, name, cp(v))
    ctx.event("ctor_vs_attr")
    ctx.check((ea is None) == (eb is None), f"ctor-vs-assign-accept:{key}",
              lambda: f"{v!r}: constructor {ea!r}"[:500] + f" assignment {eb!r}"[:500])
    if ea is None and eb is None:
        ctx.event("assigned", 2)
        sa, sb = gen.snap(a), gen.snap(b)
        ctx.check(sa == sb, f"ctor-vs-assign-value:{key}", lambda: f"{v!r}: {gen.diff(sa, sb)}")
        judge(ctx, a, name, a.__dict__.get(name), f"constructing with {v!r}")
    else:
        ctx.event("rejected", 2)
    ctx.case((cls.__name__, name, repr(v)[:80]), {"class": gen.cname(cls), "field": name, "value": repr(v)[:80]},
             trivial=ea is not None)


WORKLOADS = [Workload("assign", assign, 5000, 60000), Workload("construct", construct, 4000, 40000), Workload("edges", edges, 900, 9000)]
