"""P04: dotted-name access reaches exactly the named field."""
import inspect

from mon import gen, p01, p03
from mon.core import Skip, Workload

RULE = ("case = (metadata class, filled object, history of dotted reads, writes and refused writes / one added field); "
        "non-trivial when at least one write was accepted and changed a value")
ASSUME = ["fields linked by the class itself (child name lists, FDSN id -> station id, derived azimuth) are covered by P12",
          "feature classes that fix their own name, domain and description are not judged on those",
          "which leaf names a class advertises is judged against the declared model fields, walked by the harness"]
NEED = {"reads": 20000, "writes": 3000, "leaf_sets": 500, "added_fields": 200}

LINKED = set(p03.CHILD_NAMES) | {"fdsn", "azm", "keyword"}
FIXED = {"name", "domain", "description"}  # named by the feature class itself


def classes():
    return [c for c in gen.all_classes() if c.__name__ not in ("Experiment", "ChannelResponse")]


def linked(cls):
    return LINKED | (FIXED if cls.__module__.startswith("mt_metadata.features") else set())


def walk(o, name):
    for part in name.split("."):
        o = getattr(o, part)
    return o


def declared(cls, prefix="", seen=()):
    """leaf names by walking the declared fields: a field whose default object is a model is expanded"""
    out = {}
    o = gen.make(cls) if inspect.isclass(cls) else cls
    for n, f in type(o).model_fields.items():
        v = o.__dict__.get(n)
        if gen.is_model(v) and type(v).model_fields:
            out.update(declared(v, f"{prefix}{n}."))
        else:
            out[prefix + n] = (type(o), n, f)
    return out


def access(ctx, rng, i):
    C = classes()
    cls = C[i % len(C)]
    o = gen.make(cls)
    gen.fill(o, rng, rng.choice([0.2, 0.6]), only=set(cls.model_fields) - linked(cls))
    other = gen.make(cls)
    osnap = gen.snap(other)
    names = o.get_attribute_list()
    if not names:
        raise Skip()
    s0 = gen.snap(o)
    dec = declared(cls)
    # reads
    nread = 0
    for n in names:
        try:
            w = walk(o, n)
        except AttributeError:
            ctx.violate(f"unreachable:{gen.cname(cls)}.{n}", "advertised but cannot be walked")
            continue
        r = o.get_attr_from_name(n)
        ctx.check(r is w or gen.snap(r) == gen.snap(w), f"read:{gen.cname(cls)}.{n}", lambda: f"dotted {r!r} attribute {w!r}")
        nread += 1
    ctx.event("reads", nread)
    ctx.check(gen.snap(o) == s0, f"read-side-effect:{gen.cname(cls)}", lambda: gen.diff(s0, gen.snap(o)))
    # writes
    changed, log = 0, []
    for _ in range(6):
        name = rng.choice(names)
        if name not in dec:
            continue
        parts = name.split(".")
        if any(p in linked(cls) for p in parts):
            continue
        own = walk(o, ".".join(parts[:-1])) if len(parts) > 1 else o
        f = type(own).model_fields.get(parts[-1])
        if f is None or any(x in str(f.annotation) for x in p03.SKIPTYPES):
            continue
        hostile = rng.random() < 0.2
        try:
            v = p03.hostile(rng, parts[-1], f.annotation) if hostile else gen.candidate(parts[-1], f.annotation, rng, 2)
        except Skip:
            continue
        before = gen.flat(gen.snap(o))
        twin = o.copy()
        _, e = ctx.attempt(o.update_attribute, name, v)
        after = gen.flat(gen.snap(o))
        log.append([name, repr(v)[:40], e is None])
        if e is not None:
            ctx.event("refused")
            continue
        ctx.event("writes")
        dif = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
        extra = [p for p in dif if p != name and not p.startswith(name + ".") and not name.startswith(p + ".")
                 and p.split(".")[-1] not in ("azm",) and not (p == "name" and name.startswith("frequency_"))]
        ctx.check(not extra, f"write-elsewhere:{gen.cname(cls)}.{name}", lambda: f"writing {v!r} changed {extra[:4]}")
        changed += bool(dif)
        a, b = o.get_attr_from_name(name), walk(o, name)
        ctx.check(gen.snap(a) == gen.snap(b), f"read-after-write:{gen.cname(cls)}.{name}", lambda: f"{a!r} != {b!r}")
        # the same write through plain attributes stores the same
        town = walk(twin, ".".join(parts[:-1])) if len(parts) > 1 else twin
        _, e2 = ctx.attempt(setattr, town, parts[-1], v)
        ctx.check(e2 is None, f"attribute-refuses:{gen.cname(cls)}.{name}", lambda: repr(e2)[:300])
        if e2 is None:
            ctx.check(gen.snap(twin) == gen.snap(o), f"write-differs:{gen.cname(cls)}.{name}",
                      lambda: f"{v!r}: {gen.diff(gen.snap(o), gen.snap(twin))}")
    # unknown names
    s1 = gen.snap(o)
    for bad in ("no_such.thing", names[0] + ".nope.deeper"):
        _, e = ctx.attempt(o.update_attribute, bad, 1)
        ctx.check(e is not None, f"unknown-accepted:{gen.cname(cls)}", bad)
    ctx.check(gen.snap(o) == s1, f"unknown-changes:{gen.cname(cls)}", lambda: gen.diff(s1, gen.snap(o)))
    ctx.check(gen.snap(other) == osnap, f"other-object-changed:{gen.cname(cls)}", lambda: gen.diff(osnap, gen.snap(other)))
    fresh = gen.snap(gen.make(cls))
    ctx.check(not volatile(gen.diff(osnap, fresh, n=50)), f"default-changed:{gen.cname(cls)}", lambda: gen.diff(osnap, fresh))
    ctx.case((cls.__name__, s0, log), {"class": gen.cname(cls), "writes": log}, trivial=not changed)


def volatile(d):
    """differences that a clock explains"""
    return [x for x in d if not any(k in x[0] for k in ("creat", "date", "time", "last"))]


def leaves(ctx, rng, i):
    C = classes()
    cls = C[i % len(C)]
    o = gen.make(cls)
    gen.fill(o, rng, 0.5, only=set(cls.model_fields) - linked(cls))
    names = o.get_attribute_list()
    ctx.check(len(names) == len(set(names)), f"duplicate-names:{gen.cname(cls)}", names)
    ctx.check(list(names) == sorted(names), f"unsorted-names:{gen.cname(cls)}", "")
    dec = set(declared(cls))
    adv = set(names)
    for n in sorted(dec - adv):
        if n.endswith("field_notes"):
            continue  # a list of child records (EMTF XML writer)
        ctx.check(any(a.startswith(n + ".") for a in adv), f"not-advertised:{gen.cname(cls)}.{n}", "declared field missing from the list")
    for n in sorted(adv - dec):
        ctx.check(any(n.startswith(d + ".") for d in dec) or n.split(".")[-1].startswith("_") or n in o.model_computed_fields
                  or any(d.startswith(n + ".") for d in dec),
                  f"not-declared:{gen.cname(cls)}.{n}", "advertised but not a declared field")
    d = o.to_dict(single=True, required=False)
    keys = set(p01.hflat(d)) | set(d)
    for k in sorted(keys):
        ctx.check(k in adv or any(a.startswith(k + ".") or k.startswith(a + ".") for a in adv), f"exported-unadvertised:{gen.cname(cls)}.{k}", "")
    for a in sorted(adv):
        ctx.check(a in keys or any(k.startswith(a + ".") or a.startswith(k + ".") for k in keys),
                  f"advertised-not-exported:{gen.cname(cls)}.{a}", lambda: repr(sorted(keys))[:300])
    ctx.event("leaf_sets")
    ctx.case((cls.__name__, gen.snap(o), "leaves"), {"class": gen.cname(cls), "n": len(names)})


def added(ctx, rng, i):
    """a new field: readable, writable, exported; the others undisturbed; the old class unchanged"""
    from pydantic.fields import FieldInfo

    C = classes()
    cls = C[i % len(C)]
    o = gen.make(cls)
    before_names, before_def = o.get_attribute_list(), gen.snap(o)
    kind, default, value = rng.choice([(str, "x", "new value"), (float, 1.5, -2.25), (int, 3, 8), (str, "", "été"), (bool, False, True)])
    name = rng.choice(["custom_field", "new_thing", "temp_max", "qc_flag"])
    info = FieldInfo(annotation=kind, default=default, description="added", json_schema_extra=dict(units="m" if kind is float else None, required=True, examples=["e"]))
    new = o.add_new_field(name, info)
    n = new() if inspect.isclass(new) else new
    ctx.event("added_fields")
    ctx.require(name in n.get_attribute_list(), f"added-not-advertised:{gen.cname(cls)}", n.get_attribute_list())
    ctx.check(set(n.get_attribute_list()) - {name} == set(before_names), f"added-disturbs-names:{gen.cname(cls)}",
              lambda: set(n.get_attribute_list()) ^ set(before_names))
    ctx.check(n.get_attr_from_name(name) == default and getattr(n, name) == default, f"added-default:{gen.cname(cls)}", repr(getattr(n, name)))
    s = gen.snap(n)
    n.update_attribute(name, value)
    ctx.check(n.get_attr_from_name(name) == value, f"added-write:{gen.cname(cls)}", repr(n.get_attr_from_name(name)))
    d = n.to_dict(single=True)
    ctx.check(d.get(name) == value, f"added-not-exported:{gen.cname(cls)}", repr(d.get(name)))
    s2 = gen.snap(n)
    ctx.check([x for x in gen.diff(s, s2, n=9) if x[0] != "." + name] == [], f"added-disturbs:{gen.cname(cls)}", lambda: gen.diff(s, s2))
    ctx.check(not volatile([x for x in gen.diff(before_def, s, n=50) if x[0] != "." + name]), f"added-changes-defaults:{gen.cname(cls)}", lambda: gen.diff(before_def, s))
    m = new()
    body = {k: v for k, v in d.items() if not (v is None or isinstance(v, (list, dict)) or p01.EMPTY.count(v if not hasattr(v, "shape") else 1))}
    ctx.check(name in body, "added-harness", "")
    m.update_attribute(name, d[name])
    ctx.check(getattr(m, name) == value, f"added-reimport:{gen.cname(cls)}", "")
    p = gen.make(cls)
    ctx.check(p.get_attribute_list() == before_names and name not in cls.model_fields, f"added-leaks:{gen.cname(cls)}", "")
    ctx.case((cls.__name__, name, kind.__name__), {"class": gen.cname(cls), "field": name})


WORKLOADS = [Workload("access", access, 2500, 30000), Workload("leaves", leaves, 700, 4000), Workload("added", added, 500, 3000)]
