"""Writes MANIFEST.json from properties.jsonl, the specs and the rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.index import Index
from sa.contracts import SpecSet
from sa import rules

NA = {
    "P31": "Accuracy of filters, tapers, FFTs, interpolation and regression quantifies over real-valued arrays inside third-party numerics; no static argument in reach bounds floating-point error there. What is static about them (which routine, which arguments, which axis) is decided under P11, P17, P18 and P23.",
    "P32": "The writers do not promise atomicity and nothing in the source bounds what a file system shows after a crash; deciding it needs fault enumeration at run time.",
    "P33": "A bound on accumulated rounding of window times over arbitrary sampling rates and lengths is a numerical-error question; the exact-arithmetic form of the claim is decided under P14.",
}
PENDING = "no check built yet"
NOTE = ("Sound for the differences it reports up to its assumptions (declared types respected, third-party calls are pure functions of their "
        "arguments unless listed, real arithmetic); constructs outside the understood vocabulary are reported as undecided in the evidence and raise no alarm.")

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
specs = SpecSet(Index("/repo"), os.path.join(HERE, "spec"))
have = {}
for c in specs.contracts:
    have.setdefault(c.prop, set()).add(c.id)
checks, na = [], []
for i in ids:
    nd, nr = len(have.get(i, ())), len(rules.RULES.get(i, []))
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif nd or nr:
        tech = []
        if nd:
            tech.append("gated value-graph normal forms compared with per-operation definitions")
        if nr:
            tech.append("; ".join(n for n, _, _ in rules.RULES[i]) + " (whole-package dataflow rule)")
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
                       "technique": "static dataflow: " + "; ".join(tech), "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": PENDING})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
