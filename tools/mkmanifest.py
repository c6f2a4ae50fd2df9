#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the suites that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import suites

NOTE = {
 "style": "TLC checks the property on the specification (spec/Style.tla) for every history up to a bound; every one of those histories and many longer random ones is executed on the real CSS declarations, and TLC validates each recorded step (all 75 properties read, keys, items, text form, dirtiness) against the specification. Bounded depth; values are drawn from pools over every kind. Trusted: TLC, the projection of Python values in harness/proj.py.",
 "values": "The specification (spec/Values.tla, Units.tla, ValueOps.tla) defines the grammar and exact rational arithmetic of values; TLC enumerates every text of a bounded number of grammar tokens, the real parsers run on each, and TLC judges every result, with random and systematic conversions besides. Bounded text length, numerators within TLC's 32-bit integers. Trusted: TLC, harness/proj.py.",
 "blocks": "The specification (spec/Blocks.tla) defines validators, choices, properties on classes and shorthand records; TLC checks the property on every small set of choices with every small raw, every short history of two objects with referring properties, and every shorthand of a bounded number of parts; each of those and many random ones are executed on the real code and every outcome, reading, dirty mark and text is validated by TLC. Bounded pools and depth. Trusted: TLC, harness/proj.py.",
 "box": "TLC checks the property on the state machine of a tree of boxes (spec/Box.tla) for every history up to a bound; those histories and random longer ones run on real Box objects and every stored, derived and absolute quantity is validated by TLC after each step. Bounded trees and depth. Trusted: TLC, harness/drive_box.py.",
 "layout": "The specification (spec/Layout.tla) lays documents out; TLC checks the property on its layouts for every document of a bounded family, every such document is laid out by the real engine, and TLC validates the recorded boxes (and those of random documents and of edit/layout histories) against the layout rules. Bounded documents; of features the engine does not implement (floats, absolute positioning, inline blocks) only the refusal is specified. Trusted: TLC, harness/drive_layout.py.",
}
checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in suites.SUITES:
        continue
    s = suites.SUITES[p].__name__
    checks.append({"property": p, "quick_cmd": f"python3 harness/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {p}",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": "TLA+ specification model-checked with TLC, bound to the code by trace validation and replay of model behaviours",
                   "level": "model_checking", "level_note": NOTE[s]})
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in suites.SUITES]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the checks observe public behaviour. Fix commits are listed in known-findings.jsonl."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
