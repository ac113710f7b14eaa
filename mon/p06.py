"""P06: the field catalogue never depends on cache state."""
import enum
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
from typing import Annotated, Literal, Optional, Union, get_args, get_origin

from pydantic import BaseModel, Field, create_model

from mon import gen
from mon.core import REPO, VERIF, Ctx, Skip, Workload

RULE = ("case = (class, cache state or fault, sequence of queries); the catalogue returned is compared with one the "
        "harness derives from the class's own model_fields; non-trivial when a cache file or an earlier query exists")
ASSUME = ["memory addresses inside the text of a default or a factory are not part of the description",
          "deprecated fields are not listed (documented in the code)"]
NEED = {"catalogues_compared": 800, "files_corrupted": 100, "mutated": 200, "stale_classes": 40,
        "interrupted": 10, "processes": 15, "thread_queries": 100}

ADDR = re.compile(r"0x[0-9a-fA-F]+")


DIR = None


def SETUP(ctx):
    # the cache directory of this process is private and fresh
    d = tempfile.mkdtemp(prefix="p06_")
    os.environ["MT_METADATA_CACHE_DIR"] = d
    global DIR
    DIR = d
    import atexit

    atexit.register(shutil.rmtree, d, True)


# ---------------------------------------------------------------- oracle
def nested_model(ann):
    org = get_origin(ann)
    if org is Annotated:
        return nested_model(get_args(ann)[0])
    if org in (list, dict, tuple, set):
        return None
    if org is Union or type(ann).__name__ == "UnionType":
        for a in get_args(ann):
            if isinstance(a, type) and issubclass(a, BaseModel):
                return a
        for a in get_args(ann):
            if a is not type(None):
                return nested_model(a)
        return None
    if isinstance(ann, type) and get_origin(ann) is None and issubclass(ann, BaseModel):
        return ann
    return None


def req(x):
    if isinstance(x, bool) or x is None:
        return x
    return {"true": True, "1": True, "false": False, "0": False}.get(str(x).lower(), repr(x))


def oracle(cls, prefix="", depth=0):
    out = {}
    if depth > 10:
        raise Skip()
    for n, fi in cls.model_fields.items():
        if fi.deprecated is not None:
            continue
        sub = nested_model(fi.annotation)
        if sub is not None and sub.__name__ != "MTime":
            out.update(oracle(sub, f"{prefix}{n}.", depth + 1))
            continue
        ex = fi.json_schema_extra if isinstance(fi.json_schema_extra, dict) else {}
        ann = fi.annotation
        opts = None
        if isinstance(ann, type) and get_origin(ann) is None and issubclass(ann, enum.Enum):
            opts = [m.value for m in ann]
        elif get_origin(ann) is Literal:
            opts = list(get_args(ann))
        out[prefix + n] = {
            "type": ADDR.sub("@", repr(ann)),
            "default": ADDR.sub("@", repr(fi.default)) if fi.default is not None else None,
            "required": req(ex.get("required")), "units": ex.get("units"),
            "description": fi.description, "enum": opts,
        }
    return out


KEYS = ("type", "default", "required", "units", "description", "enum")


def norm(cat):
    out = {}
    for n, d in cat.items():
        e = {k: d.get(k) for k in KEYS}
        for k in ("type", "default"):
            if isinstance(e[k], str):
                e[k] = ADDR.sub("@", e[k])
        e["enum"] = None if e["enum"] is None else [x.value if isinstance(x, enum.Enum) else x for x in e["enum"]]
        out[n] = e
    return json.loads(json.dumps(out, default=repr))


_O = {}


def want(cls):
    if cls not in _O:
        _O[cls] = json.loads(json.dumps(oracle(cls), default=repr))
    return _O[cls]


def classes():
    return [c for c in gen.all_classes() if c.__name__ not in ("TaperWeightKernel",)]


def judge(ctx, cls, cat, mech, extra="", w=None):
    ctx.event("catalogues_compared")
    w = want(cls) if w is None else w
    g = norm(cat)
    if g == w:
        ctx.check(True, mech)
        return True
    bad = sorted(set(g) ^ set(w))[:4] or [(k, q, g[k][q], w[k][q]) for k in w for q in KEYS if g[k][q] != w[k][q]][:2]
    ctx.check(False, mech, f"{gen.cname(cls)} {extra}: {bad}")
    return False


def query(cls):
    return cls().get_all_fields()


def cold():
    from mt_metadata.base.pydantic_helpers import clear_field_caches

    clear_field_caches()


def wipe(ctx):
    d = DIR
    for f in os.listdir(d):
        p = os.path.join(d, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


# ---------------------------------------------------------------- workloads
def w_plain(ctx, rng, i):
    """missing, then warm file, then memory: all the same and right"""
    C = classes()
    cls = C[i % len(C)]
    cold()
    if rng.random() < 0.6:
        wipe(ctx)
    steps = []
    for _ in range(rng.randint(2, 4)):
        judge(ctx, cls, query(cls), "catalogue", steps)
        st = rng.choice(["cold", "wipe", "mem", "other"])
        steps.append(st)
        if st in ("cold", "wipe"):
            cold()
        if st == "wipe":
            wipe(ctx)
        if st == "other":
            query(rng.choice(C))
    o = cls()
    ctx.check(sorted(want(cls)) == o.get_attribute_list(), "attribute_list", gen.cname(cls))
    need = [k for k, v in want(cls).items() if v["required"] and v["required"] is not None]
    ctx.check(sorted(getattr(o, "_required_fields", need)) == sorted(need), "required_list", gen.cname(cls))
    ctx.case((gen.cname(cls), steps), (gen.cname(cls), steps))


GARBAGE = [b"", b"[]", b"null", b"0", b'"x"', b"{}", b"true", b"[1, 2]", b'{"a": 1}', b"{", b"\x00\xff\xfe", b"not json",
           b'{"name": {"__field__": true}}', b'{"x": {"__field__": true, "type": "int", "required": true}}', b"{}\n{}"]


def corrupt(path, rng, pool):
    kind = rng.choice(["trunc", "trunc", "garbage", "flip", "swap", "digit", "append", "dir", "key", "val"])
    data = open(path, "rb").read()
    if kind == "trunc":
        data = data[: rng.choice([0, 1, 2, len(data) - 1, len(data) // 2, rng.randrange(len(data) + 1)])]
    elif kind == "garbage":
        data = rng.choice(GARBAGE)
    elif kind == "flip":
        k = rng.randrange(len(data))
        data = data[:k] + bytes([data[k] ^ (1 << rng.randrange(8))]) + data[k + 1:]
    elif kind == "digit":
        k = rng.randrange(len(data))
        data = data[:k] + rng.choice(b"0123456789abcxyz \n{}[],:\"".decode()).encode() + data[k + 1:]
    elif kind == "swap":
        data = open(rng.choice([p for p in pool if os.path.isfile(p)]), "rb").read()
    elif kind == "append":
        data += rng.choice([b"}", b"x", data])
    elif kind == "dir":
        os.remove(path)
        os.mkdir(path)
        return kind
    elif kind in ("key", "val"):
        try:
            t = json.loads(data)
            k = rng.choice(sorted(t))
            if kind == "key":
                if rng.random() < 0.5:
                    t["zz"] = t.pop(k)
                else:
                    t.pop(k)
            else:
                t[k] = rng.choice([None, 1, "x", [], {}, {"__field__": True}, {"__field__": True, "required": True, "units": "zz"}])
            data = json.dumps(t).encode()
        except Exception:
            data = b"{}"
    with open(path, "wb") as f:
        f.write(data)
    return kind


def w_corrupt(ctx, rng, i):
    C = classes()
    cls = C[(i * 7 + rng.randrange(3)) % len(C)]
    cold()
    wipe(ctx)
    query(cls)
    if rng.random() < 0.3:
        query(rng.choice(C))
    files = [os.path.join(DIR, f) for f in sorted(os.listdir(DIR))]
    files = [f for f in files if os.path.isfile(f)]
    if not files:
        raise Skip()
    did = []
    for f in files if rng.random() < 0.4 else rng.sample(files, 1):
        did.append(corrupt(f, rng, files))
        ctx.event("files_corrupted")
    for turn in range(3):
        if turn < 2 or rng.random() < 0.5:
            cold()
        judge(ctx, cls, query(cls), "corrupt_cache:" + "+".join(sorted(set(did)) if len(set(did)) == 1 else ["several"]), (did, turn))
    for c2 in rng.sample(C, 2):
        judge(ctx, c2, query(c2), "corrupt_cache:bystander", did)
    ctx.case((gen.cname(cls), did, i), (gen.cname(cls), did))


# class definitions that change while their name does not
TYPES = [str, int, float, Optional[str], list[str], Optional[float]]


def rand_fields(rng, nest=None):
    out = {}
    for k in rng.sample(["a", "b", "c", "d", "e"], rng.randint(1, 4)):
        out[k] = (rng.choice(TYPES), Field(
            default=rng.choice([None, 0, "", "x", 1.5]), description=rng.choice(["d1", "d2"]),
            json_schema_extra={"units": rng.choice([None, "m", "km"]), "required": rng.choice([True, False])}))
    if nest is not None:
        out["kid"] = (nest, Field(default_factory=nest, description="k", json_schema_extra={"required": True}))
        if rng.random() < 0.3:
            out["kids"] = (list[nest], Field(default_factory=list, description="k"))
    return out


def edit(fields, rng):
    f = dict(fields)
    k = rng.choice([x for x in f if not x.startswith("kid")])
    t, fi = f[k]
    op = rng.choice(["drop", "add", "units", "required", "type", "desc", "default", "dep"])
    if op == "drop" and len(f) > 2:
        f.pop(k)
    elif op == "add":
        f["new"] = (str, Field(default="n", description="n", json_schema_extra={"required": True}))
    else:
        ex = dict(fi.json_schema_extra)
        kw = dict(default=fi.default, description=fi.description)
        if op == "units":
            ex["units"] = "changed"
        elif op == "required":
            ex["required"] = not ex["required"]
        elif op == "type":
            t = bool if t is not bool else int
        elif op == "desc":
            kw["description"] = "changed"
        elif op == "default":
            kw["default"] = "changed"
        elif op == "dep":
            kw["deprecated"] = True
        f[k] = (t, Field(json_schema_extra=ex, **kw))
    return f, op


def w_stale(ctx, rng, i):
    """the same class names, a changed definition at some depth, a cache written by the old one"""
    from mt_metadata.base import MetadataBase

    def model(name, f):
        # the library rewrites nothing: a plain subclass as a user would write it
        return create_model(name, __base__=MetadataBase, __module__="user_mod", **f)

    tag = f"S{i}"
    f3 = rand_fields(rng)
    C3 = model(tag + "leaf", f3)
    f2 = rand_fields(rng, C3)
    C2 = model(tag + "mid", f2)
    f1 = rand_fields(rng, C2)
    C1 = model(tag + "top", f1)
    cold()
    for c in (C1, C2, C3) if rng.random() < 0.5 else (C1,):
        judge(ctx, c, query(c), "dynamic_class", tag, w=json.loads(json.dumps(oracle(c), default=repr)))
    lvl = rng.choice(["top", "mid", "leaf"])
    if lvl == "leaf":
        f3, op = edit(f3, rng)
    elif lvl == "mid":
        f2, op = edit(f2, rng)
    else:
        f1, op = edit(f1, rng)
    D3 = model(tag + "leaf", f3)
    for f, old, new in ((f2, C3, D3),):
        for k in ("kid", "kids"):
            if k in f:
                f[k] = (new if k == "kid" else list[new], Field(default_factory=new if k == "kid" else list, description="k", json_schema_extra=f[k][1].json_schema_extra))
    D2 = model(tag + "mid", f2)
    for k in ("kid", "kids"):
        if k in f1:
            f1[k] = (D2 if k == "kid" else list[D2], Field(default_factory=D2 if k == "kid" else list, description="k", json_schema_extra=f1[k][1].json_schema_extra))
    D1 = model(tag + "top", f1)
    if rng.random() < 0.7:
        cold()
    ctx.event("stale_classes")
    for c in rng.sample([D1, D2, D3], 3):
        judge(ctx, c, query(c), f"stale_cache:{lvl}", (op, c.__name__), w=json.loads(json.dumps(oracle(c), default=repr)))
    # the old definition asked again (a branch switched back) is itself again
    cold()
    judge(ctx, C1, query(C1), f"stale_cache:back:{lvl}", op, w=json.loads(json.dumps(oracle(C1), default=repr)))
    ctx.case((tag, lvl, op), (lvl, op))


def vandalise(x, rng):
    n = 0
    for _ in range(rng.randint(1, 5)):
        if not x:
            break
        k = rng.choice(sorted(x))
        r = rng.random()
        if r < 0.25:
            x.pop(k)
        elif r < 0.4:
            x["added"] = {"__field__": True, "required": True}
        elif isinstance(x[k], dict):
            y = x[k]
            q = rng.choice(sorted(y)) if y else None
            if q and isinstance(y[q], dict) and rng.random() < 0.7:
                y[q]["required"] = "zz"
                y[q].pop("units", None)
            elif q and isinstance(y[q], list) and rng.random() < 0.7:
                y[q].append("zz")
            else:
                y["required"] = rng.choice([True, False, "zz"])
                y["units"] = "furlong"
                y["type"] = "vandal"
                if rng.random() < 0.3:
                    y.clear()
        else:
            x[k] = "zz"
        n += 1
    if rng.random() < 0.1:
        x.clear()
    return n


def w_mutate(ctx, rng, i):
    from mt_metadata.base import pydantic_helpers as ph

    C = classes()
    cls = C[(i + rng.randrange(5)) % len(C)]
    cold()
    if rng.random() < 0.5:
        wipe(ctx)
    o = cls()
    for turn in range(2):
        how = rng.choice(["obj", "obj", "class", "tree", "list", "req"])
        if how == "obj":
            got = o.get_all_fields()
        elif how == "class":
            got = ph.get_all_fields_serializable(cls)
        elif how == "tree":
            got = ph.get_all_fields_serializable(o)
        else:
            got = None
        if got is None:
            lst = o.get_attribute_list() if how == "list" else getattr(o, "_required_fields", o.get_attribute_list())
            lst.append("zz")
            lst[:1] = []
        else:
            vandalise(got, rng)
        ctx.event("mutated")
        judge(ctx, cls, cls().get_all_fields(), "mutated_by_caller:new_object", how)
        judge(ctx, cls, o.get_all_fields(), "mutated_by_caller:same_object", how)
        parent = rng.choice(C)
        judge(ctx, parent, query(parent), "mutated_by_caller:other_class", (how, gen.cname(cls)))
        if rng.random() < 0.5:
            cold()
            judge(ctx, cls, query(cls), "mutated_by_caller:after_clear", how)
    ctx.case((gen.cname(cls), i), gen.cname(cls))


def w_interrupt(ctx, rng, i):
    """an interrupt (Ctrl-C) at an arbitrary moment of a cold query"""
    C = classes()
    big = [c for c in C if len(want(c)) > 12]
    cls = big[(i * 3) % len(big)]
    hit = 0

    class Stop(BaseException):
        pass

    def boom(*_):
        raise Stop()

    o = cls()
    old = signal.signal(signal.SIGVTALRM, boom)
    try:
        for _ in range(3):
            cold()
            wipe(ctx)
            try:
                try:
                    signal.setitimer(signal.ITIMER_VIRTUAL, rng.choice([0.0005, 0.002, 0.006, 0.015, 0.04]))
                    o.get_all_fields() if rng.random() < 0.5 else cls().get_all_fields()
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except Stop:
                hit += 1
            judge(ctx, cls, cls().get_all_fields(), "after_interrupt:new_object", i)
            judge(ctx, cls, o.get_all_fields(), "after_interrupt:same_object", i)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    ctx.event("interrupted", hit)
    ctx.case((gen.cname(cls), i, hit), gen.cname(cls), trivial=not hit)


def w_threads(ctx, rng, i):
    C = classes()
    cs = rng.sample(C, 3)
    cold()
    if rng.random() < 0.7:
        wipe(ctx)
    got, errs = [], []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    start = threading.Barrier(6)

    def work(k):
        try:
            r = random.Random(i * 10 + k)
            start.wait()
            for c in r.sample(cs, 3):
                got.append((c, norm(c().get_all_fields())))
                if r.random() < 0.2:
                    cold()
        except Exception as e:  # noqa
            errs.append(e)

    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.event("thread_queries", len(got))
    ctx.check(not errs, "threads:raised", lambda: repr(errs[:2]))
    for c, g in got:
        ctx.check(g == want(c), "threads:catalogue", lambda: gen.cname(c))
    ctx.case((i, [gen.cname(c) for c in cs]), [gen.cname(c) for c in cs])


CHILD = r"""
import sys, os, json
sys.path.insert(0, {repo!r}); sys.path.insert(1, {verif!r})
setup = {setup!r}
if setup == 'nobody':
    import mt_metadata.base
from mon import gen, p06
import importlib
names = {names!r}
cs = [getattr(importlib.import_module(m), n) for m, n in names]
if setup == 'nobody':
    os.setgid(65534); os.setuid(65534)
bad = []
for rep in range({reps}):
    for c in cs:
        try:
            g = p06.norm(p06.query(c))
        except Exception as e:
            bad.append([c.__name__, 'raised ' + repr(e)[:300]]); continue
        w = p06.want(c)
        if g != w:
            bad.append([c.__name__, sorted(set(g) ^ set(w))[:4]])
    p06.cold()
print('RESULT ' + json.dumps(bad))
"""


def spawn(env, names, setup="", reps=2):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    e = {k: v for k, v in e.items() if v is not None}
    src = CHILD.format(repo=REPO, verif=VERIF, names=names, reps=reps, setup=setup)
    return subprocess.Popen([sys.executable, "-c", src], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd="/")


def collect(ctx, p, mech, extra=""):
    from mon.core import Harness

    try:
        out, err = p.communicate(timeout=100)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Harness(f"{mech}: child too slow")
    ctx.event("processes")
    line = [l for l in out.splitlines() if l.startswith("RESULT ")]
    if not line:
        inlib = os.path.join(REPO, "mt_metadata") in err
        if inlib:
            ctx.check(False, mech + ":raised", err[-1500:])
            return
        raise Harness(f"{mech}: child failed: {err[-800:]}")
    bad = json.loads(line[0][7:])
    ctx.event("catalogues_compared", 4)
    ctx.check(not bad, mech, lambda: f"{extra}: {bad[:3]}")


ENVS = ["disabled1", "disabledtrue", "file", "procdir", "fresh", "home", "xdg", "nobody", "nobody_home", "shared_warm", "missing_deep"]


def w_env(ctx, rng, i):
    """processes started with each configuration of the cache"""
    C = classes()
    names = [(c.__module__, c.__name__) for c in rng.sample(C, 8)]
    kind = ENVS[i % len(ENVS)]
    d = tempfile.mkdtemp(prefix="p06e_")
    try:
        setup = ""
        env = {"MT_METADATA_CACHE_DIR": os.path.join(d, "c")}
        if kind.startswith("disabled"):
            env["MT_METADATA_DISABLE_DISK_CACHE"] = kind[8:]
        elif kind == "file":
            open(os.path.join(d, "c"), "w").write("x")
        elif kind == "procdir":
            env["MT_METADATA_CACHE_DIR"] = "/proc/self/no/such"
        elif kind == "home":
            env = {"MT_METADATA_CACHE_DIR": None, "HOME": os.path.join(d, "h"), "XDG_CACHE_HOME": None}
        elif kind == "xdg":
            env = {"MT_METADATA_CACHE_DIR": None, "XDG_CACHE_HOME": os.path.join(d, "x")}
        elif kind in ("nobody", "nobody_home"):
            if os.getuid() != 0:
                raise Skip()
            setup = "nobody"
            os.mkdir(os.path.join(d, "c"))
            os.chmod(os.path.join(d, "c"), 0o500)
            if kind == "nobody_home":
                env = {"MT_METADATA_CACHE_DIR": None, "HOME": os.path.join(d, "c", "h"), "XDG_CACHE_HOME": None}
        elif kind == "shared_warm":
            env = {"MT_METADATA_CACHE_DIR": DIR}
        elif kind == "missing_deep":
            env["MT_METADATA_CACHE_DIR"] = os.path.join(d, "a", "b", "c")
        collect(ctx, spawn(env, names, setup), f"env:{kind}", names[:2])
        if kind in ("fresh", "home", "xdg", "missing_deep"):
            n = sum(len(f) for _, _, f in os.walk(d))
            ctx.event("cache_files_written", n)
        ctx.case((kind, names), (kind, names[0]))
    finally:
        shutil.rmtree(d, True)


def w_race(ctx, rng, i):
    """several processes on one cache directory, one of them killed at a random moment"""
    import time

    C = classes()
    names = [(c.__module__, c.__name__) for c in rng.sample(C, 6)]
    d = tempfile.mkdtemp(prefix="p06r_")
    try:
        ps = [spawn({"MT_METADATA_CACHE_DIR": d}, names, reps=3) for _ in range(3)]
        victim = spawn({"MT_METADATA_CACHE_DIR": d}, names, reps=50)
        t0 = time.monotonic()
        while time.monotonic() - t0 < 60 and not os.listdir(d):
            time.sleep(0.005)
        time.sleep(rng.random() * 0.05)
        victim.kill()
        victim.communicate()
        ctx.event("killed")
        for p in ps:
            collect(ctx, p, "race", names[:2])
        collect(ctx, spawn({"MT_METADATA_CACHE_DIR": d}, names, reps=2), "race:after", names[:2])
        ctx.case((i, names), names[0])
    finally:
        shutil.rmtree(d, True)


WORKLOADS = [
    Workload("plain", w_plain, 300, 3000),
    Workload("corrupt", w_corrupt, 480, 9000),
    Workload("stale", w_stale, 120, 2500),
    Workload("mutate", w_mutate, 240, 3600),
    Workload("interrupt", w_interrupt, 60, 1200),
    Workload("threads", w_threads, 40, 500),
    Workload("env", w_env, 22, 88),
    Workload("race", w_race, 4, 24),
]
