"""Introspective generators and the monitor's own view (snapshot) of metadata objects.

Nothing here calls the library's to_dict/__eq__: the snapshot walks the declared
fields itself, so export, import, copy and equality are judged independently.
"""
from __future__ import annotations

import enum
import importlib
import math
import pkgutil
import typing
from collections import OrderedDict

import numpy as np
import pandas as pd

from . import core

_cache = {}


def all_modules():
    import mt_metadata

    out = []
    for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
        out.append(importlib.import_module(m.name))
    return out


def all_classes():
    """every concrete MetadataBase subclass of the library that can be built"""
    if "classes" in _cache:
        return _cache["classes"]
    from mt_metadata.base import MetadataBase

    all_modules()
    seen, out, todo = set(), [], [MetadataBase]
    while todo:
        for s in todo.pop().__subclasses__():
            if s in seen:
                continue
            seen.add(s)
            todo.append(s)
            if s.__module__.startswith("mt_metadata.") and "<locals>" not in s.__qualname__:
                out.append(s)
    # classes made by create_model at import have the same qualname: keep first by module path
    uniq = {}
    for c in out:
        k = (c.__module__, c.__qualname__)
        mod = importlib.import_module(c.__module__)
        if getattr(mod, c.__qualname__.split(".")[0], None) is c:
            uniq[k] = c
    _cache["classes"] = [uniq[k] for k in sorted(uniq)]
    return _cache["classes"]


REQUIRED_KW = {"TaperWeightKernel": dict(low_cut=(0.1, 0.2), high_cut=(0.8, 0.9))}


def make(cls):
    """default instance"""
    try:
        return cls()
    except Exception:
        if cls.__name__ in ("TaperWeightKernel",):
            raise core.Skip()
        raise


def cname(cls):
    return f"{cls.__module__.replace('mt_metadata.', '')}.{cls.__name__}"


# ----------------------------------------------------------------- snapshot
def is_model(v):
    from mt_metadata.base.metadata import DotNotationBaseModel

    return isinstance(v, DotNotationBaseModel)


def snap(v, skip=()):
    """canonical, comparable, side-effect free picture of a value"""
    from pydantic import BaseModel

    tn = type(v).__name__
    if v is None or isinstance(v, (bool, str)) and not isinstance(v, enum.Enum):
        return v
    if isinstance(v, enum.Enum):
        return snap(v.value)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return "nan" if math.isnan(v) else float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return ("complex", snap(float(v.real)), snap(float(v.imag)))
    if tn in ("MTime", "MDate"):
        ts = v.time_stamp
        return ("time", int(pd.Timestamp(ts).value) if ts is not None and not isinstance(ts, str) else str(ts))
    if tn == "ListDict":
        return ("listdict", [(k, snap(x)) for k, x in v.items()])
    if isinstance(v, BaseModel):
        d = OrderedDict()
        for n in type(v).model_fields:
            if n not in skip:
                d[n] = snap(v.__dict__.get(n))
        for n, x in (v.__pydantic_extra__ or {}).items():
            d["+" + n] = snap(x)
        return d
    if isinstance(v, np.ndarray):
        return ("array", v.shape, [snap(x) for x in v.ravel().tolist()])
    if tn in ("DataArray", "Dataset"):
        return ("xr", repr(type(v)), str(v.to_dict()))
    if isinstance(v, dict):
        return ("dict", sorted(((str(k), snap(x)) for k, x in v.items()), key=lambda t: t[0]))
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, pd.Timestamp):
        return ("time", int(v.value))
    if hasattr(v, "unicode_string"):
        return v.unicode_string()
    return ("obj", tn, str(v))


def flat(s, prefix=""):
    """flatten a snapshot of a model into {dotted: leaf}; lists are leaves"""
    out = {}
    for k, v in s.items():
        if isinstance(v, OrderedDict):
            out.update(flat(v, f"{prefix}{k}."))
        else:
            out[prefix + k] = v
    return out


def diff(a, b, rel=0.0, n=4):
    """first differences between two snapshots"""
    out = []

    def go(p, x, y):
        if len(out) >= n:
            return
        if isinstance(x, OrderedDict) and isinstance(y, OrderedDict):
            for k in list(x) + [k for k in y if k not in x]:
                if k not in x or k not in y:
                    out.append((f"{p}.{k}", x.get(k, "<absent>"), y.get(k, "<absent>")))
                else:
                    go(f"{p}.{k}", x[k], y[k])
        elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
            for i, (u, w) in enumerate(zip(x, y)):
                go(f"{p}[{i}]", u, w)
        elif not leaf_eq(x, y, rel):
            out.append((p, x, y))

    go("", a, b)
    return out


def leaf_eq(x, y, rel=0.0):
    if type(x) is bool or type(y) is bool:
        return x is y or x == y and type(x) is type(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if x == y:
            return True
        return rel > 0 and abs(x - y) <= rel * max(abs(x), abs(y))
    return x == y and type(x) is type(y)


# --------------------------------------------------------------- candidates
WORDS = ["mt01", "a", "ULF", "north", "Zürich", "naïve", "test station", "x-y", "p_q", "0", "007", "1e5",
         "True", "MT 300", "a.b", "c/d", "Ωm", "日本", "O'Neil", "1980", 'say "hi"', "50%", "semi;colon", "#1", "tab"]
XMLISH = ["a<b", "R&D", "x>y", "&amp;", "1 < 2 & 3 > 2", "<tag>", "]]>"]


def g_float(rng):
    k = rng.randrange(10)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.randint(-1000, 1000))
    if k == 2:
        return rng.uniform(-1, 1)
    if k == 3:
        return rng.choice([1e-9, -1e-12, 1e9, 123456.789, 0.1, -0.5, 1 / 3])
    if k == 4:
        return rng.uniform(-180, 180)
    if k == 5:
        return 10 ** rng.uniform(-6, 6)
    return round(rng.uniform(0, 90), rng.randrange(7))


def g_int(rng):
    return rng.choice([0, 1, 2, 3, 5, 8, 10, 16, 127, 1024, 65536, -1, -7, 2**31, 10**12])


def g_word(rng, xmlish=False):
    k = rng.randrange(6)
    if xmlish and k == 0:
        return rng.choice(XMLISH)
    if k <= 2:
        return rng.choice(WORDS)
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyzABC0123456789_") for _ in range(rng.randint(1, 12)))


def g_text(rng, xmlish=False):
    return " ".join(g_word(rng, xmlish) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def g_time(rng, ns=False):
    lo, hi = -9_000_000_000, 9_000_000_000  # 1684 .. 2255
    k = rng.randrange(6)
    if k == 0:
        s = rng.randint(lo, hi)
    elif k == 1:
        s = rng.choice([0, -1, 1, 315532800, 86399, 951782400, 1583020800, 1341100800, -2208988800])
    else:
        s = rng.randint(0, 2_000_000_000)
    t = pd.Timestamp(s * 10**9, tz="UTC")
    if rng.random() < 0.3:
        t = t + pd.Timedelta(rng.choice([500_000_000, 250_000_000, 123_456_000, 1_000, 999_999_000]), "ns")
    return t.isoformat()


UNITS_POOL = ["nanotesla", "millivolt", "volt", "tesla", "kilometer", "meter", "digital counts", "second",
              "millivolt per kilometer", "volt per meter", "hertz", "degree", "ampere", "ohm"]

CHANNELS = ["ex", "ey", "hx", "hy", "hz", "bx", "by", "bz", "e1", "h2", "temperature", "rr_hx"]


def by_name(name, rng):
    """candidates suggested by the field's name (many fields have patterns or validators)"""
    n = name.lower()
    out = []
    if "unit" in n:
        out.append(rng.choice(UNITS_POOL))
    if "email" in n:
        out.append(rng.choice(["a@b.org", "jane.doe@usgs.gov", "x_y@mail.co.uk"]))
    if "url" in n or "uri" in n or "doi" in n:
        out.append(rng.choice(["https://doi.org/10.1234/abc", "http://example.com/a?b=1", "https://x.org/"]))
    if n in ("run_list", "run_ids", "run_id", "runs_processed", "run_names") or n == "id":
        out.append(rng.choice(["a", "b", "001", "mt01a", "run_2"]))
    if "channels_recorded" in n or n in ("component", "channels", "ex", "ey"):
        out.append(rng.choice(CHANNELS))
    if "latitude" in n or n == "lat":
        out.append(rng.choice([rng.uniform(-90, 90), round(rng.uniform(-1, 1), 6), 0.5, -0.25]))
    if "longitude" in n or n == "lon":
        out.append(rng.choice([rng.uniform(-180, 180), round(rng.uniform(-1, 1), 6), -0.75]))
    if n in ("start", "end") or "date" in n or "time" in n:
        out.append(g_time(rng))
    return out


def ann_parts(ann):
    o = typing.get_origin(ann)
    if o is typing.Union or str(o) == "<class 'types.UnionType'>":
        return [p for a in typing.get_args(ann) for p in ann_parts(a)]
    if o is typing.Annotated:
        return ann_parts(typing.get_args(ann)[0]) if "NDArray" not in str(ann) and "Array" not in str(ann) else [ann]
    return [ann]


def candidate(name, ann, rng, depth, xmlish=False):
    """one candidate value for a field, or raise Skip when the kind is handled elsewhere"""
    if rng.random() < (0.95 if "run" in name else 0.5) and "list[" not in str(ann):
        c = by_name(name, rng)
        if c:
            return rng.choice(c)
    parts = ann_parts(ann)
    txt = str(ann)
    if "ndarray" in txt or "NDArray" in txt:
        n = rng.randint(1, 4)
        if "complex" in txt or name in ("poles", "zeros"):
            return np.array([complex(round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3)) if rng.random() < 0.9 else 0j for _ in range(n)])
        return np.array([round(rng.choice([1, 1, -1, 0]) * rng.uniform(0.001, 5), 4) for _ in range(n)])
    p = rng.choice(parts)
    if p is type(None):
        return None
    o = typing.get_origin(p)
    if o in (list, tuple):
        a = typing.get_args(p)[0] if typing.get_args(p) else str
        if o is tuple:
            x = sorted(rng.uniform(0, 10) for _ in range(2))
            return tuple(x)
        return [candidate(name, a, rng, depth, xmlish) for _ in range(rng.randint(0, 3))]
    if o is dict or p is dict:
        raise core.Skip()
    if isinstance(p, type) and issubclass(p, enum.Enum):
        return rng.choice([m.value for m in p])
    if p is bool:
        return rng.random() < 0.5
    if p is int:
        return g_int(rng)
    if p is float:
        return g_float(rng)
    if p is str:
        return g_text(rng, xmlish)
    nm = getattr(p, "__name__", str(p))
    if nm in ("MTime", "MDate", "datetime64", "Timestamp"):
        return g_time(rng)
    if nm in ("ListDict", "DataArray", "Dataset", "OrderedDict", "Path"):
        raise core.Skip()
    if "Url" in nm or "Email" in nm:
        c = by_name("email" if "Email" in nm else "url", rng)
        return rng.choice(c)
    if isinstance(p, type) and hasattr(p, "model_fields"):
        return fill(p(), rng, 0.4, depth + 1, xmlish)
    raise core.Skip()


def model_types(ann):
    return [p for p in ann_parts(ann) if isinstance(p, type) and hasattr(p, "model_fields")]


def fill(obj, rng, prob=0.6, depth=0, xmlish=False, only=None):
    """assign random valid values to the object's fields; what the library rejects is skipped"""
    for name, f in type(obj).model_fields.items():
        if only and name not in only:
            continue
        cur = obj.__dict__.get(name)
        if is_model(cur):
            if rng.random() < prob + 0.2:
                fill(cur, rng, prob, depth + 1, xmlish)
            continue
        if rng.random() > prob:
            continue
        if "DataArray" in str(f.annotation):
            continue  # computed feature values and weights: run results, not metadata
        if depth > 3 and model_types(f.annotation):
            continue
        try:
            v = candidate(name, f.annotation, rng, depth, xmlish)
        except core.Skip:
            continue
        try:
            setattr(obj, name, v)
        except Exception:
            pass
    return obj


def normal_paths(o, prefix=""):
    """(owner, field, dotted path) of every non-model field reachable through model fields"""
    for name in type(o).model_fields:
        v = o.__dict__.get(name)
        if is_model(v):
            yield from normal_paths(v, f"{prefix}{name}.")
        else:
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if is_model(x):
                        yield from normal_paths(x, f"{prefix}{name}[{k}].")
            yield o, name, prefix + name


def canonical(o, rounds=3):
    """Self-assign every field until nothing changes; the fields that refuse their own (default)
    value, or never settle, hold no valid assigned value and are returned."""
    bad = set()
    for r in range(rounds):
        before = snap(o)
        for own, name, path in list(normal_paths(o)):
            if path in bad:
                continue
            try:
                setattr(own, name, own.__dict__.get(name))
            except Exception:
                bad.add(path)
        d = diff(before, snap(o), n=50)
        if not d:
            return {b.split("[")[0] for b in bad}
    for p, _, _ in d:
        bad.add(p.lstrip("."))
    return {b.split("[")[0] for b in bad}


def null(v):
    return v is None or isinstance(v, float) and math.isnan(v)
