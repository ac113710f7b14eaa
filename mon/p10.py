"""P10: unit names and symbols canonicalise to one unit."""
from mon import gen
from mon.core import Harness, Skip, Workload

RULE = ("case = (unit or expression, spelling, place it is given to); the harness holds its own list of SI units and prefixes "
        "and composes the expected canonical name and symbol")
ASSUME = ["products are written with a space and ratios with '/' or 'per'; powers are no unit of the catalogue",
          "a single letter is accepted in either case when no unit has it exactly, as documented by the lookup",
          "the EMTF XML DataType stores the symbol, every other place the name"]
NEED = {"single": 1500, "compound": 1500, "unknown": 300, "places": 1500, "combine": 300}

PRE = {"": "", "yotta": "Y", "zetta": "Z", "exa": "E", "peta": "P", "tera": "T", "giga": "G", "mega": "M", "kilo": "k", "hecto": "h",
       "deca": "da", "deci": "d", "centi": "c", "milli": "m", "micro": "μ", "nano": "n", "pico": "p", "femto": "f", "atto": "a",
       "zepto": "z", "yocto": "y"}
BASE = {"meter": "m", "kilogram": "kg", "second": "s", "Ampere": "A", "Kelvin": "K", "mole": "mol", "candela": "cd", "radian": "rad",
        "hertz": "Hz", "Newton": "N", "Joule": "J", "Watt": "W", "pascal": "Pa", "Coulomb": "C", "Volt": "V", "Ohm": "Ω",
        "Siemens": "S", "weber": "Wb", "Tesla": "T", "Henry": "H"}


def table():
    t = [("unknown", "unknown"), ("digital counts", "counts"), ("samples", "samples"), ("celsius", "C")]
    t += [(p + b, ps + bs) for p, ps in PRE.items() for b, bs in BASE.items()]
    return t


TABLE = table()
COMMON = [x for x in TABLE if x[0] in ("milliVolt", "Volt", "meter", "kilometer", "nanoTesla", "Tesla", "second", "hertz", "Ampere", "Ohm",
                                         "digital counts", "celsius", "millimeter", "microVolt", "Kelvin", "radian")]


def find(x):
    from mt_metadata.common.units import get_unit_object

    return get_unit_object(x, allow_none=False)


def same(u, name, sym):
    if name == "digital counts":
        return u.name == name and u.symbol in ("count", "counts")
    return u.name == name and u.symbol == sym


def spell(name, sym, rng):
    k = rng.choice(["name", "symbol", "lower", "upper", "title", "swap", "bracket", "space", "letter"])
    if k == "name":
        return k, name
    if k == "symbol":
        return k, sym
    if k == "lower":
        return k, name.lower()
    if k == "upper":
        return k, name.upper()
    if k == "title":
        return k, name.title() if name != "digital counts" else "Digital Counts"
    if k == "swap":
        return k, "".join(rng.choice([c.lower(), c.upper()]) for c in name)
    if k == "bracket":
        return k, f"[{rng.choice([name, sym])}]"
    if k == "letter":
        syms = {s for _, s in TABLE}
        o = sym.swapcase()
        if len(sym) == 1 and sym.isalpha() and o not in syms and [s for _, s in TABLE].count(sym) == 1:
            return k, o
        return "symbol", sym
    return k, rng.choice([" ", ""]) + rng.choice([name, sym]) + rng.choice([" ", ""])


def collides(name, text):
    return name == "Coulomb" and text.strip(" []") == "C"


def w_single(ctx, rng, i):
    name, sym = TABLE[i % len(TABLE)]
    k, text = spell(name, sym, rng) if i >= len(TABLE) else ("symbol", sym)
    if name == "digital counts" and text.strip("[] ").lower() not in ("digital counts", "counts", "count"):
        raise Skip()
    u = find(text)
    ctx.event("single")
    mech = "symbol_collision:C" if collides(name, text) else f"lookup:{k}"
    if not ctx.check(same(u, name, sym), mech, lambda: f"{text!r} -> {u.name}|{u.symbol}, wants {name}|{sym}"):
        return
    for again in (u.name, u.symbol):
        v = find(again)
        m = "symbol_collision:C" if collides(name, again) else "lookup_again"
        ctx.check(v.to_dict() == u.to_dict() or (name == "digital counts" and v.name == name), m, lambda: f"{again!r} -> {v.name}")
    # what is handed out is the caller's own
    u.name = "zz"
    u.symbol = "zz"
    v = find(text)
    ctx.check(v.name != "zz" and v.symbol != "zz", "catalogue_changed", text)
    ctx.case((name, k, text), (name, text))


def expression(rng, n=None):
    """(text, canonical name, canonical symbol, factors)"""
    n = n or rng.choice([2, 2, 2, 3, 3, 4])
    fs = [rng.choice(COMMON if rng.random() < 0.6 else TABLE[1:]) for _ in range(n)]
    fs = [f if f[0] != "Coulomb" else ("Volt", "V") for f in fs]
    text, nm, sy = "", "", ""
    seps = []
    for j, (name, sym) in enumerate(fs):
        w = rng.choice([name, sym, name.lower(), name.upper() if rng.random() < 0.3 else sym])
        if name == "digital counts":
            w = rng.choice(["counts", "counts", "digital counts", "Counts", "count", "Digital Counts"])
        if j:
            s = rng.choice(["/", "/", " / ", "/ ", " /", " per ", " per ", " ", "  ", "  per "])
            text += s
            ratio = s.strip() in ("/", "per")
            seps.append(ratio)
            nm += " per " if ratio else " "
            sy += "/" if ratio else " "
        text += w
        nm += name
        sy += "counts" if name == "digital counts" else sym
    return text, nm, sy, list(zip(fs, [None] + seps))


def cnt(sym):
    """both symbols of digital counts are one"""
    return " ".join("/".join("counts" if p == "count" else p for p in q.split("/")) for q in sym.split(" "))


def w_compound(ctx, rng, i):
    text, nm, sy, parts = expression(rng)
    if rng.random() < 0.15:
        text = f"[{text}]"
    u = find(text)
    ctx.event("compound")
    ctx.check(u.name == nm, "compound:name", lambda: f"{text!r} -> {u.name!r}, wants {nm!r}")
    ctx.check(cnt(u.symbol) == sy, "compound:symbol", lambda: f"{text!r} -> {u.symbol!r}, wants {sy!r}")
    for again in (u.name, u.symbol):
        v = find(again)
        ctx.check(v.name == u.name and cnt(v.symbol) == cnt(u.symbol), "compound:again", lambda: f"{text!r} -> {again!r} -> {v.name!r}")
    ctx.case((text,), (text, nm))


def w_unknown(ctx, rng, i):
    """an unknown unit is reported and never becomes another known unit"""
    from mt_metadata.common.units import get_unit_object

    known = {n.lower() for n, _ in TABLE} | {s for _, s in TABLE} | {"count"}
    r = rng.random()
    if r < 0.4:
        x = rng.choice(["xx", "furlong", "volts", "mv", "NT", "degF", "k m", "Kilo", "metre", "m2", "milli", "nTT", "mVolt", "kilom", "hz", "db", "µ"])
    else:
        n, s = rng.choice(TABLE[4:])
        x = rng.choice([n + "s", n[:-1], "x" + n, s + "x", "x" + s, s * 2, s + "2", n.replace("e", "3")])
    if x.lower() in known or x in known or len(x) < 2 or " " in x or "/" in x or x in ("per", "counts", "samples"):
        raise Skip()
    ctx.event("unknown")
    u = get_unit_object(x)
    ctx.check(u.name == "unknown" and u.symbol == "unknown", "unknown_became_known", lambda: f"{x!r} -> {u.name}")
    v, e = ctx.attempt(get_unit_object, x, allow_none=False)
    ctx.check(isinstance(e, (KeyError, ValueError)), "unknown_not_reported", lambda: f"{x!r} -> {v!r}")
    # inside an expression
    n, s = rng.choice(COMMON)
    if n == "digital counts":
        s = "counts"
    t, want = rng.choice([(f"{s}/{x}", f"{n} per unknown"), (f"{x}/{s}", f"unknown per {n}"), (f"{x} per {s}", f"unknown per {n}"),
                          (f"{s} {x}", f"{n} unknown")])
    u = get_unit_object(t)
    ctx.check(u.name == want, "unknown_in_expression", lambda: f"{t!r} -> {u.name!r}, wants {want!r}")
    v, e = ctx.attempt(get_unit_object, t, allow_none=False)
    ctx.check(isinstance(e, (KeyError, ValueError)), "unknown_in_expression_not_reported", lambda: f"{t!r} -> {v!r}")
    ctx.case((x, t), (x, t))


_P = []


def places():
    """every field that canonicalises a unit: found by feeding it one"""
    if _P:
        return _P
    for c in gen.all_classes():
        for f in c.model_fields:
            if f not in ("units", "units_in", "units_out", "output_units", "input_units"):
                continue
            try:
                o = gen.make(c)
                setattr(o, f, "mV/km")
                got = getattr(o, f)
            except Exception:
                continue
            if got == "milliVolt per kilometer":
                _P.append((c, f, "name"))
            elif got == "mV/km" and c.__name__ == "DataType":
                _P.append((c, f, "symbol"))
    if len(_P) < 15:
        raise Harness(f"only {len(_P)} places store units")
    return _P


EXPECTED = 15


def w_places(ctx, rng, i):
    P = places()
    c, f, kind = P[i % len(P)]
    if rng.random() < 0.5:
        text, nm, sy, _ = expression(rng, rng.choice([2, 3]))
    else:
        nm, sy = rng.choice(TABLE[1:])
        if nm == "Coulomb":
            raise Skip()
        _, text = spell(nm, sy, rng)
        if nm == "digital counts":
            text = "counts"
    o = gen.make(c)
    if rng.random() < 0.5:
        setattr(o, f, text)
    else:
        o.update_attribute(f, text)
    ctx.event("places")
    got = getattr(o, f)
    want = nm if kind == "name" else sy
    ctx.check(got == want or (kind == "symbol" and cnt(got) == sy), "stored_form", lambda: f"{gen.cname(c)}.{f} {text!r} -> {got!r}, wants {want!r}")
    setattr(o, f, got)
    ctx.check(cnt(getattr(o, f)) == cnt(got), "stored_form_again", lambda: f"{gen.cname(c)}.{f} {got!r} -> {getattr(o, f)!r}")
    if rng.random() < 0.3:
        p = gen.make(c)
        _, e = ctx.attempt(p.from_dict, o.to_dict(single=True))
        if e is None:
            ctx.check(getattr(p, f) == getattr(o, f), "stored_form_reload", lambda: f"{gen.cname(c)}.{f} {getattr(p, f)!r}")
    ctx.case((gen.cname(c), f, text), (gen.cname(c), f, text))


def w_combine(ctx, rng, i):
    a, b = rng.choice(COMMON), rng.choice(COMMON)
    ua, ub = find(a[0]), find(b[0])
    da, db = ua.to_dict(), ub.to_dict()
    ratio = rng.random() < 0.5
    sep = rng.choice(["/", "per", " per "] if ratio else [" ", ""])
    u = ua.combine(ub, sep)
    ctx.event("combine")
    ctx.check(u.name == a[0] + (" per " if ratio else " ") + b[0], "combine:name", lambda: u.name)
    ctx.check(u.symbol == da["symbol"] + ("/" if ratio else " ") + db["symbol"], "combine:symbol", lambda: u.symbol)
    ctx.check(ua.to_dict() == da and ub.to_dict() == db, "combine:operands")
    v = type(ua)()
    v.from_dict(u.to_dict())
    ctx.check(v.to_dict() == u.to_dict(), "unit_dict")
    ctx.check(cnt(find(u.name).symbol) == cnt(u.symbol), "combine:again", lambda: u.name)
    ctx.case((a, b, sep), (a[0], b[0], sep))


WORKLOADS = [
    Workload("single", w_single, 2200, 22000),
    Workload("compound", w_compound, 2000, 40000),
    Workload("unknown", w_unknown, 700, 9000),
    Workload("places", w_places, 2000, 24000),
    Workload("combine", w_combine, 400, 4000),
]
