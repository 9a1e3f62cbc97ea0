#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present, and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TRACE = "TLA+ state-machine specification (TLC); traces recorded from the code validated against it"
LAW = "exact probability laws computed by TLC from a TLA+ definition; the code's outcome frequencies compared with them"
BOTH = "TLA+ specification model-checked with TLC; trace validation of recorded runs; outcome laws compared with TLC's exact laws"
VAL = "exact rational tables and relations defined in TLA+, evaluated by TLC; the code's values validated against them as events"
T = {
 "C01": TRACE, "C02": BOTH, "C03": LAW, "C04": TRACE, "C05": BOTH, "C06": TRACE, "C07": LAW, "C08": LAW, "C09": TRACE, "C10": BOTH,
 "C11": TRACE, "C12": TRACE, "C13": BOTH, "C28": LAW, "C14": TRACE, "C22": BOTH, "C23": BOTH, "C29": BOTH, "C25": TRACE, "C26": TRACE, "C32": TRACE,
}
NOTE = {
 "law": "The specification is checked exhaustively within small bounds; the binding to the code samples inputs and keys. Chi-square rejection below p=1e-9, so alarms on correct code are practically excluded; biases smaller than about 0.5-1% per outcome may pass.",
 "trace": "The specification is checked exhaustively within small bounds; every recorded run (random shapes, counts, grids, weights with zeros, options) must be a behaviour of it, event by event. Assumes callbacks see what the code computes with.",
 "val": "Relations are checked on exact rational instances chosen so that TLC can evaluate the reference exactly; float32 tolerance. Inputs are sampled.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t = T.get(i, VAL)
        note = NOTE["trace"] if t == TRACE else NOTE["val"] if t == VAL else NOTE["law"]
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is still being built")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the code is observed through its callbacks and results. Genuine defects found are repaired in 'fix:' commits; see known_findings.json and DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
