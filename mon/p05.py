"""P05: equality, copy and update behave as values."""
import math

import numpy as np
from pydantic import BaseModel

from mon import gen, p01, p03, p04
from mon.core import Skip, Workload

RULE = ("case = (metadata class, filled object, copy / single-field change / update); non-trivial when the object "
        "differs from the default; every pair of objects is walked for shared mutable state")
ASSUME = ["numbers within the documented tolerance (relative 1e-5) count as equal; processed_date and creation_time "
          "are documented as ignored by equality; unset forms (None, '', empty) count as equal",
          "classes whose __eq__ is their own (MTime, Comment, bands) are judged in P07/P08/P26"]
NEED = {"eq_pairs": 2000, "single_change": 800, "graph_walks": 2000, "updates": 800}


def classes():
    return [c for c in gen.all_classes() if c.__name__ not in ("ChannelResponse",)]


def mutables(v, path="", out=None, depth=0):
    """{id: path} of every mutable object reachable through fields"""
    out = {} if out is None else out
    if depth > 12 or v is None:
        return out
    tn = type(v).__name__
    if isinstance(v, BaseModel):
        if id(v) in out:
            return out
        if tn not in ("MTime", "MDate"):
            out[id(v)] = (path, v)
            for n in type(v).model_fields:
                mutables(v.__dict__.get(n), f"{path}.{n}", out, depth + 1)
            for n, x in (v.__pydantic_extra__ or {}).items():
                mutables(x, f"{path}.+{n}", out, depth + 1)
    elif tn == "ListDict":
        out[id(v)] = (path, v)
        for k, x in vars(v).items():  # the mapping it keeps its entries in, whatever its name
            if isinstance(x, (dict, list)):
                out[id(x)] = (f"{path}.{k}", x)
        for k, x in v.items():
            mutables(x, f"{path}[{k}]", out, depth + 1)
    elif isinstance(v, dict):
        out[id(v)] = (path, v)
        for k, x in v.items():
            mutables(x, f"{path}[{k}]", out, depth + 1)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = (path, v)
        for k, x in enumerate(v):
            mutables(x, f"{path}[{k}]", out, depth + 1)
    elif isinstance(v, np.ndarray):
        out[id(v)] = (path, v)
    elif tn in ("DataArray", "Dataset"):
        out[id(v)] = (path, v)
    return out


def shared(ctx, a, b, mech):
    ma, mb = mutables(a), mutables(b)
    both = [(ma[k][0], mb[k][0]) for k in ma if k in mb]
    arrs = []
    for k, (p, x) in ma.items():
        if isinstance(x, np.ndarray) and x.size:
            arrs += [(p, q) for j, (q, y) in mb.items() if isinstance(y, np.ndarray) and y.size and np.shares_memory(x, y)]
    ctx.event("graph_walks")
    ctx.event("objects_walked", len(ma) + len(mb))
    ctx.check(not both and not arrs, mech, lambda: f"shared: {both[:4]} {arrs[:4]}")


def make(ctx, rng, i, prob=None):
    C = classes()
    cls = C[i % len(C)]
    o = gen.make(cls)
    gen.fill(o, rng, prob or rng.choice([0.2, 0.5, 0.8]), only=set(cls.model_fields) - p04.linked(cls))
    kids(o, rng)
    return cls, o


def kids(o, rng):
    """children in the child collections"""
    n = type(o).__name__
    if not type(o).__module__.startswith("mt_metadata.timeseries") or n not in ("Run", "Station", "Survey", "Experiment"):
        return
    from mt_metadata import timeseries as ts

    def run(k):
        r = ts.Run(id=f"r{k}")
        for c in rng.sample(["ex", "ey"], rng.randint(0, 2)):
            r.add_channel(ts.Electric(component=c))
        if rng.random() < 0.5:
            r.add_channel(ts.Magnetic(component="hx"))
        return r

    if n == "Run":
        for c in rng.sample(["ex", "ey"], rng.randint(0, 2)):
            o.add_channel(ts.Electric(component=c))
    elif n == "Station":
        for k in range(rng.randint(0, 2)):
            o.add_run(run(k))
    elif n in ("Survey", "Experiment"):
        for k in range(rng.randint(0, 2)):
            s = ts.Station(id=f"s{k}")
            s.add_run(run(k))
            if n == "Survey":
                o.add_station(s)
                o.filters[f"f{k}"] = ts.filters.CoefficientFilter(name=f"f{k}", gain=k + 2)
            else:
                v = ts.Survey(id=f"v{k}")
                v.add_station(s)
                o.add_survey(v)


def eq(ctx, a, b, want, mech, detail=""):
    try:
        r1, r2 = a == b, b == a
        n1, n2 = a != b, b != a
    except Exception as e:
        from mon.core import in_library

        if in_library(e.__traceback__) is None:
            raise
        ctx.violate(f"eq-raises:{mech.split(':', 1)[1]}", f"{type(e).__name__} {e} {detail() if callable(detail) else detail}")
        return
    ctx.event("eq_pairs")
    ctx.check(bool(r1) == want and bool(r2) == want, mech, lambda: f"a==b {r1!r} b==a {r2!r}, expected {want}; {detail() if callable(detail) else detail}")
    ctx.check(bool(n1) == (not r1) and bool(n2) == (not r2), mech.replace(":", "-ne:", 1), lambda: f"!= {n1!r} {n2!r} with == {r1!r} {r2!r}")


def copies(ctx, rng, i):
    cls, o = make(ctx, rng, i)
    s0 = gen.snap(o)
    cn = gen.cname(cls)
    c = o.copy()
    ctx.check(gen.snap(o) == s0, f"copy-side-effect:{cn}", lambda: gen.diff(s0, gen.snap(o)))
    ctx.check(type(c) is cls and gen.snap(c) == s0, f"copy-differs:{cn}", lambda: gen.diff(s0, gen.snap(c)))
    shared(ctx, o, c, f"copy-shares:{cn}")
    eq(ctx, o, o, True, f"reflexive:{cn}")
    eq(ctx, o, c, True, f"copy-unequal:{cn}")
    r, q = o == None, o != None  # noqa
    # a Comment without text equals None
    ctx.check((r is False and q is True) if cls.__name__ != "Comment" else (isinstance(r, bool) and q is (not r)),
              f"equals-none:{cn}", f"{r!r} {q!r}")
    ctx.check(gen.snap(o) == s0 and gen.snap(c) == s0, f"eq-side-effect:{cn}", lambda: gen.diff(s0, gen.snap(o)))
    # mutate the copy through its fields: the source never moves
    n = 0
    for own, name, path in list(gen.normal_paths(c))[:60]:
        v = own.__dict__.get(name)
        if isinstance(v, list):
            v.append("zz")
            n += 1
        elif isinstance(v, dict):
            v["zz"] = 1
            n += 1
        elif isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v[0] = v[0] + 1
            n += 1
        elif isinstance(v, str) and rng.random() < 0.2:
            own.__dict__[name] = v + "x"
            n += 1
    ctx.check(gen.snap(o) == s0, f"copy-linked:{cn}", lambda: gen.diff(s0, gen.snap(o)))
    ctx.case((cn, s0, "copy"), {"class": cn, "mutated": n}, trivial=p01.nondefault(cls, o) == 0)
    # copy with overrides sets just those
    names = [k for k, f in cls.model_fields.items() if f.annotation in (str, float) and k not in p04.linked(cls)]
    if names:
        k = rng.choice(names)
        v = "zz" if cls.model_fields[k].annotation is str else 77.25
        d = o.copy(update={k: v})
        df = gen.diff(s0, gen.snap(d), n=9)
        ctx.check(getattr(d, k) == v and all(x[0] == "." + k for x in df), f"copy-update:{cn}", lambda: f"{k}={v!r}: {df}")
        shared(ctx, o, d, f"copy-update-shares:{cn}")
        ctx.event("copies_with_update")


SKIP_EQ = ("processed_date", "creation_time")


def distinct(a, b):
    """values that equality has to tell apart"""
    a, b = p01.nonempty(a), p01.nonempty(b)
    nulls = (None, "none", "None", "NONE", "null", "", [], 0, 0.0, "nan")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) > 3e-5 * max(abs(a), abs(b)) and abs(a - b) > 1e-6
    if any(x is y or x == y for x in nulls for y in (a,)) or any(x is y or x == y for x in nulls for y in (b,)):
        return False
    if isinstance(a, tuple) and a and a[0] == "array" or isinstance(b, tuple) and b and b[0] == "array":
        return False  # see arrays below
    if a == ("time", 315532800 * 10**9) or b == ("time", 315532800 * 10**9):
        return True
    return a != b


def single(ctx, rng, i):
    cls, o = make(ctx, rng, i, 0.9 if rng.random() < 0.7 else 0.4)
    cn = gen.cname(cls)
    adv = set(o.get_attribute_list())
    paths = [(own, n, p) for own, n, p in gen.normal_paths(o)
             if "[" not in p and p in adv and not any(x in p04.linked(cls) for x in p.split("."))
             and not any(k in p for k in SKIP_EQ)]
    if not paths:
        raise Skip()
    done = 0
    for _ in range(12):
        own, n, p = rng.choice(paths)
        f = type(own).model_fields[n]
        if any(x in str(f.annotation) for x in p03.SKIPTYPES):
            continue
        try:
            v = gen.candidate(n, f.annotation, rng, 2)
        except Skip:
            continue
        now = getattr(own, n)
        if type(now) is float and abs(now) > 0.1 and rng.random() < 0.5:  # close to, but beyond the tolerance
            v = now * (1 + rng.choice([5e-5, -5e-5, 4e-4]))
            ctx.event("near_change")
        c = o.copy()
        try:
            c.update_attribute(p, v)
        except Exception:
            continue
        a, b = gen.flat(gen.snap(o)), gen.flat(gen.snap(c))
        dif = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        if len(dif) != 1 or dif[0] != p:
            continue
        if "array" in (a[p][:1] + b[p][:1] if isinstance(a[p], tuple) and isinstance(b[p], tuple) else ()):
            x, y = np.array([z if not isinstance(z, tuple) else complex(z[1], z[2]) for z in a[p][2]]), np.array(
                [z if not isinstance(z, tuple) else complex(z[1], z[2]) for z in b[p][2]])
            if x.shape == y.shape and np.allclose(x, y, rtol=1e-3):
                continue
        elif not distinct(a[p], b[p]):
            continue
        eq(ctx, o, c, False, f"difference-unseen:{cn}.{p}", lambda: f"{p}: {a[p]!r} vs {b[p]!r}")
        ctx.event("single_change")
        done += 1
        if done >= 3:
            break
    ctx.case((cn, gen.snap(o), "single"), {"class": cn, "changes": done}, trivial=not done)


def isset(v, f=None):
    if v is None or v == "" or v == [] or v == 0 and not isinstance(v, bool) or v is False:
        return False
    if isinstance(v, float) and math.isnan(v) or v == "nan":
        return False
    if isinstance(v, str) and v.lower() in ("none", "null", "nan"):
        return False
    if isinstance(v, tuple) and v and v[0] == "array" and not v[2]:
        return False
    return v != p01.T1980


def update(ctx, rng, i):
    cls, a = make(ctx, rng, i)
    if cls.__name__ in ("ChannelNomenclature", "Experiment"):  # update() of their own
        raise Skip()
    cn = gen.cname(cls)
    b = gen.make(cls)
    gen.fill(b, rng, rng.choice([0.2, 0.6]), only=set(cls.model_fields) - p04.linked(cls))
    if rng.random() < 0.3:
        kids(b, rng)
    bad = gen.canonical(b)
    gen.canonical(a)
    if bad:
        # fields that refuse their own default hold no valid value; do not offer them
        pass
    sa, sb = gen.flat(gen.snap(a)), gen.flat(gen.snap(b))
    whole = gen.snap(b)
    _, e = ctx.attempt(a.update, b)
    if e is not None:
        if bad or any(v in p01.EMPTY for v in ()):
            raise Skip()
        raise e
    ctx.event("updates")
    ctx.check(gen.snap(b) == whole, f"update-source-changed:{cn}", lambda: gen.diff(whole, gen.snap(b)))
    shared(ctx, a, b, f"update-links:{cn}")
    na = gen.flat(gen.snap(a))
    exported = set(p01.hflat(b.to_dict(single=True)))
    for p, v in sb.items():
        if p in bad or not any(p == k or k.startswith(p + ".") or p.startswith(k + ".") for k in exported):
            continue
        last = p.split(".")[-1]
        if last in p04.linked(cls) or last in ("x", "y", "z", "x2", "y2", "z2"):
            continue
        if isinstance(v, tuple) and v and v[0] in ("listdict", "xr", "dict", "obj"):
            continue
        if isinstance(v, list) and v and isinstance(v[0], dict):
            continue  # lists of records: P20, P26, P27, P29
        if ".comments." in "." + p and p.endswith((".author", ".time_stamp")):
            continue  # a comment is one value: taking its text replaces author and time too
        if cls.__name__ == "Band" and last == "name":
            continue  # derived
        if isset(v):
            ctx.check(not gen.diff([p01.nonempty(v)], [p01.nonempty(na.get(p, "<absent>"))]), f"update-not-taken:{cn}.{p}",
                      lambda: f"source {v!r} target had {sa.get(p)!r} has {na.get(p)!r}")
        elif isset(sa.get(p)) and not isinstance(v, bool):
            ctx.check(na.get(p) == sa[p], f"update-erased:{cn}.{p}", lambda: f"source unset, target had {sa[p]!r} has {na.get(p)!r}")
        ctx.event("update_fields")
    ctx.case((cn, sa, sb), {"class": cn}, trivial=p01.nondefault(cls, b) == 0)


def forms(ctx, rng, i):
    """an object equals its own dictionary, JSON and Series, and the forms of a changed copy differ"""
    C = [c for c in classes() if c.__module__.startswith(("mt_metadata.common", "mt_metadata.timeseries")) and c.__name__ not in
         ("Comment", "Experiment")]
    cls = C[i % len(C)]
    cls, o, bad = p01.fill_one(ctx, rng, cls)
    if bad:
        raise Skip()
    cn = gen.cname(cls)
    s0 = gen.snap(o)
    n = gen.make(cls)
    n.from_dict(o.to_dict())
    if gen.snap(n) != s0:
        raise Skip()  # an empty list or unset text comes back as the other kind of unset: P01
    for form, x in (("dict", o.to_dict()), ("flat", o.to_dict(single=True)), ("nested", o.to_dict(nested=True)), ("json", o.to_json())):
        if len(x if isinstance(x, dict) else "xx") == 1 and form == "flat":
            continue
        r, e = ctx.attempt(lambda: o == x)
        ctx.event("form_pairs")
        ctx.check(e is None and r is True, f"unequal-to-own-{form}:{cn}", lambda: f"{r!r} {e!r}: {x!r}"[:600])
    names = [k for k, f in cls.model_fields.items() if f.annotation is float and k not in p04.linked(cls)]
    if names:
        k = rng.choice(names)
        c = o.copy()
        try:
            setattr(c, k, getattr(o, k) * 1.5 + 10)
        except Exception:
            raise Skip()
        if gen.snap(c) == s0:
            raise Skip()
        x = c.to_dict()
        ctx.check((o == x) is False and (o != x) is True, f"equal-to-other-dict:{cn}", k)
    ctx.check(gen.snap(o) == s0, f"eq-form-side-effect:{cn}", "")
    ctx.case((cn, s0, "forms"), {"class": cn}, trivial=p01.nondefault(cls, o) == 0)


WORKLOADS = [Workload("forms", forms, 800, 8000), Workload("copies", copies, 2500, 25000), Workload("single", single, 2000, 25000), Workload("update", update, 1500, 18000)]
