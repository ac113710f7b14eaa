"""P02: XML and pandas Series round trips of every metadata class."""
import enum
from xml.etree import ElementTree as et

from mon import gen, p01
from mon.core import Workload

RULE = ("case = (metadata class, random valid field assignment incl. XML special characters, XML element / XML text / "
        "Series form); non-trivial when at least one field differs from the class default")
ASSUME = ["text values are XML-legal characters without leading/trailing/multiple white space",
          "child collections and array payloads are covered by P14/P21/P22; transfer-function file formats (EMTF XML etc.) by P22/P23"]
NEED = {"fields_compared": 3000, "xml_parsed": 300}


MODS = tuple("mt_metadata." + m for m in ("common", "timeseries", "transfer_functions.tf", "features"))


def classes():
    """the metadata standard that experiment XML is made of"""
    return [c for c in gen.all_classes() if c.__module__.startswith(MODS)
            and c.__name__ not in ("Experiment", "ChannelResponse")]


def build(ctx, rng, i, xmlish):
    C = classes()
    cls = C[i % len(C)]
    return p01.fill_one(ctx, rng, cls, xmlish)


def prune(x, bad, prefix=""):
    """drop the elements of fields in `bad`, and those that hold nothing (an unset field)"""
    for c in list(x):
        p = prefix + c.tag
        if p in bad:
            x.remove(c)
            continue
        if c.tag != "item":
            prune(c, bad, p + ".")
        if len(c) == 0 and not (c.text or "").strip() and not c.attrib and c.tag != "item":
            x.remove(c)


def one(v):
    """XML writes [x] and x alike, and an empty list as nothing"""
    return None if v == [] or v == ("array", (0,), []) else v[0] if isinstance(v, list) and len(v) == 1 else v


def xml_rt(ctx, rng, i):
    cls, o, bad = build(ctx, rng, i, True)
    for own, name, path in gen.normal_paths(o):
        # XML writes a list of one like a single value: a field that takes only lists cannot read it back
        v = own.__dict__.get(name)
        if isinstance(v, list) and len(v) == 1 and str(type(own).model_fields[name].annotation) == "list[str]" \
                and type(own).__name__ in ("TransferFunction", "ChannelWeightSpec"):
            v.append("b=2")
    before = gen.snap(o)
    required = rng.random() < 0.7
    string = rng.random() < 0.6
    x = o.to_xml(string=string, required=required)
    after = gen.snap(o)
    if cls.__name__ == "Comment":
        before, after, bad = p01.nonempty(before), p01.nonempty(after), bad | {"time_stamp"}
    ctx.check(after == before, f"export-side-effect:to_xml:{gen.cname(cls)}", lambda: gen.diff(before, after))
    txt = x if string else et.tostring(x, encoding="unicode")
    try:
        x = et.fromstring(txt)
    except et.ParseError as e:
        ctx.require(False, f"malformed-xml:{gen.cname(cls)}", f"{e}: {txt[:500]}")
    ctx.event("xml_parsed")
    if cls.__name__ != "Comment":
        texts(ctx, cls, o, x, bad, required)
        prune(x, bad)
    n = gen.make(cls)
    n.from_xml(x)
    so, sn = gen.flat(gen.snap(o)), gen.flat(gen.snap(n))
    dflt = gen.flat(gen.snap(gen.make(cls)))
    keys = set(p01.hflat(o.to_dict(single=True, required=required)))
    cnt = 0
    for p, v in so.items():
        if p in bad or not any(p == k or p.startswith(k + ".") or k.startswith(p + ".") for k in keys):
            continue
        a, b = one(p01.nonempty(v)), one(p01.nonempty(sn.get(p, "<absent>")))
        cnt += 1
        if a is None:
            continue  # nothing was written
        if gen.diff([a], [b]):
            ctx.violate(f"xml:{gen.cname(cls)}.{p}", f"wrote {v!r} read {sn.get(p)!r}")
    ctx.event("fields_compared", cnt)
    ctx.case((cls.__name__, before, string), {"class": gen.cname(cls), "xml": txt[:600]},
             trivial=p01.nondefault(cls, o) == 0)


def texts(ctx, cls, o, x, bad, required):
    """the element text found with a plain XML parser is the field's own text"""
    for own, name, path in gen.normal_paths(o):
        v = own.__dict__.get(name)
        if "[" in path or path in bad or not isinstance(v, str) or not v or isinstance(v, enum.Enum):
            continue
        el = x.find("/".join(path.split(".")))
        if el is None:
            continue  # absence is judged by the round trip
        got = (el.text or "").strip()
        ctx.check(got == v.strip(), f"xml-text:{gen.cname(cls)}.{path}", lambda: f"field {v!r} element text {got!r}")
        ctx.event("texts_compared")


def series_rt(ctx, rng, i):
    cls, o, bad = build(ctx, rng, i, False)
    before = gen.snap(o)
    s = o.to_series()
    ctx.check(gen.snap(o) == before, f"export-side-effect:to_series:{gen.cname(cls)}", lambda: gen.diff(before, gen.snap(o)))
    keys = set(s.index)
    s = s.drop([k for k in s.index if k in bad or gen.null(s[k])])
    n = gen.make(cls)
    n.from_series(s)
    p01.compare(ctx, cls, o, n, keys, bad, "series")
    ctx.case((cls.__name__, before, "series"), None, trivial=p01.nondefault(cls, o) == 0)


WORKLOADS = [Workload("xml", xml_rt, 4000, 50000), Workload("series", series_rt, 2000, 25000)]
