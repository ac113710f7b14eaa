#!/usr/bin/env python3
"""Regenerates mon/data/p03_spec.json (declared constraints and verbatim/accepting fields) from the
library given by VERIF_REPO.  Run by hand on a reviewed tree only; no check calls it."""
import json, os, random, sys
sys.path[:0] = ["/verif", os.environ.get("VERIF_REPO", "/repo")]
os.environ.setdefault("VERIF_SCRATCH", "/tmp")
from mon import gen, run
run.load_library()
from mon import p03
from mon.core import Skip
LOOSE = {"timeseries.survey.Survey.release_license": ["ctor"],
         "transfer_functions.io.edi.metadata.emeasurement.EMeasurement.azm": ["derived"],
         "timeseries.filters.frequency_response_table_filter.FrequencyResponseTableFilter.phases": ["fixed"],
         "transfer_functions.io.emtfxml.metadata.site.Site.year_collected": ["fixed"],
         "transfer_functions.io.zonge.metadata.gdp.GDP.time": ["fixed"]}
CTOR = ("features.fc_coherence.FCCoherence.", "features.feature_fc.FeatureFC.", "features.feature_ts.FeatureTS.",
        "features.coherence.Coherence.", "features.striding_window_coherence.StridingWindowCoherence.",
        "processing.aurora.channel_nomenclature.ChannelNomenclature.")
out = {}
for cls in p03.cases():
    try: gen.make(cls)
    except Skip: continue
    for name in p03.fields(cls):
        f = cls.model_fields[name]
        key = f"{gen.cname(cls)}.{name}"
        d = {}
        c = p03.constraints(f)
        if c: d["constraint"] = c
        op = p03.options(f)
        if op: d["options"] = op
        ok = verb = n = 0
        rng = random.Random(key)
        for k in range(200):
            try:
                v = p03.right(rng, name, f.annotation)
            except Skip:
                break
            if gen.is_model(v) or v is None: continue
            o = cls.__new__(cls) if False else gen.make(cls)
            n += 1
            g = gen.snap(v)
            try: setattr(o, name, v)
            except Exception: continue
            ok += 1
            s = gen.snap(o.__dict__.get(name))
            verb += s == g or p03.same(s, g)
        if n >= 20:
            if ok == n: d["accepts"] = True
            if verb == ok and ok > n / 4: d["verbatim"] = True
        if key in LOOSE: d["loose"] = LOOSE[key]
        if key.startswith(CTOR): d["loose"] = d.get("loose", []) + ["ctor"]
        if "derived" in d.get("loose", []): d.pop("verbatim", None)
        if d: out[key] = d
json.dump(out, open(p03.SPEC_FILE, "w"), indent=0, sort_keys=True)
print(len(out), sum("accepts" in d for d in out.values()), sum("verbatim" in d for d in out.values()))
