ORACLE = {
 "P01": "field snapshots taken by the harness by walking model_fields, before export and after re-import; re-export compared with the first export; snapshot of the source after export.",
 "P02": "the same snapshots; XML text is parsed again by lxml independently.",
 "P03": "the declared annotation, options, pattern and range of the field (live and as frozen at the base commit, so a loosened declaration is seen), plus a snapshot before every refused assignment.",
 "P04": "attribute walking by the harness against dotted access; a diff of all fields before and after each write.",
 "P05": "field snapshots, single-field edits, and an identity walk over every mutable object reachable from both sides.",
 "P06": "a catalogue derived by the harness from model_fields, with real cache files in every state and real concurrent processes.",
 "P07": "integer nanoseconds since the epoch worked out by the harness from calendar fields.",
 "P08": "integer order and addition on the same nanoseconds.",
 "P09": "exact rationals of the text.",
 "P10": "the harness's own table of SI units, prefixes, symbols and compositions.",
 "P11": "a plain Python list of pairs run in step.",
 "P12": "a shadow tree run in step with the history; all views of all levels after each step.",
 "P13": "running minima and maxima over the shadow tree.",
 "P14": "a shadow of the whole tree including filters and their parameters.",
 "P15": "facts recorded per survey/station/run/channel before, looked up after.",
 "P16": "the harness's band table and angle arithmetic.",
 "P17": "the defining formulas evaluated by the harness (Horner-free products, explicit FIR sums, own interpolation).",
 "P18": "products of the harness's own member responses.",
 "P19": "stage facts against the harness's record; responses before and after.",
 "P20": "a list model of (name, stage, flag, comment).",
 "P21": "the harness's own arrays per channel pair and period, compared after every step.",
 "P22": "the harness's arrays carried through chains of formats.",
 "P23": "tables of the facts each format has a place for.",
 "P24": "the formats' published formulas applied to the numbers in the text the harness wrote itself.",
 "P25": "the union of selected periods worked out from the shadow arrays.",
 "P26": "membership, order and derived numbers from the edges by the harness.",
 "P27": "expected rates, harmonics, labels and rows by the harness; shadow nomenclature per live configuration.",
 "P28": "tapers from scipy with the stored parameters, steps, counts and verdicts by the harness.",
 "P29": "closed-form taper and activation values; monotonicity, permutation and batching relations.",
 "P30": "own cut/detrend/taper/FFT; rows re-asked with foreign samples changed.",
}
WHY = {
 "P01": "tests round-trip a handful of hand-made objects; here every class and every field takes generated values, in all export forms.",
 "P02": "escaping, single-element lists, empty children, arrays and mixed-case names only fail for particular values.",
 "P03": "refusals must leave the object alone in the middle of any history; tests assign a few values to fresh objects.",
 "P06": "tests see one cache state; the states here are faults, foreign versions and concurrent writers.",
 "P12": "consistency is a property of histories (rename then merge then remove), not of single calls.",
 "P13": "hemispheres, half-set spans and orders of insertion multiply beyond any sample.",
 "P15": "attribution errors need several runs whose channels differ in one fact.",
 "P21": "histories of partial assignments by label, in any channel order.",
 "P22": "values over ten decades, exact zeros, single periods and chains of formats.",
 "P24": "the tests read fixed example files; here every number of the file is generated, so quadrants, orders and layouts are covered.",
 "P25": "coincident and interleaved periods in any order, with later edits of source and result.",
 "P30": "the pooled path, window arguments and edge alignment are only compared on one example by the tests.",
}
_MISSED = "Missed at first; the workload or monitor was strengthened (%s). Caught now."
CAUGHT = {
    "p03-station-pattern": _MISSED % "names that break the pattern only past their start",
    "p05-shallow-copy-update": _MISSED % "nested objects of a copy made with update= are changed",
    "p13-box-on-equator": _MISSED % "positions exactly on the equator and the meridian",
    "p14-electrode-elevation": _MISSED % "partly known sensor positions",
    "p24-tipper-error-rotation": _MISSED % "components of Z-files along any axes",
}
TAIL = ""
