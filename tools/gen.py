#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIB = "abstract interpretation of Go SSA (value-number domain with gated joins)"
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, technique=LIB, level="proof", note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note))
NA = []
def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((id, reason))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=None))

BASE_NOTE = ("All obligations are discharged on the unchanged tree for arbitrary inputs within the stated bounds; the analyzer, its hand-written models of the "
             "standard library and x/crypto, and the Go type checker and SSA builder are trusted, and cryptographic primitives are uninterpreted functions. "
             "On changed code an obligation it cannot decide is reported in the evidence and raises no alarm.")

exec(open(os.path.join(here, "tools", "props.py")).read())

PROPS.sort(key=lambda p: p["id"])
built = set(re.findall(r'reg(?:ister)?\("([A-Z]\d+)"', "".join(open(os.path.join(here, "analyzer", f)).read() for f in os.listdir(os.path.join(here, "analyzer")) if f.endswith(".go"))))
na = {i for i, _ in NA}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        if p["id"] not in built and p["id"] not in na:
            print("not built yet:", p["id"], file=sys.stderr)
            continue
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "Every check loads, type-checks and analyses /repo's current source; nothing of /repo is executed. Results per obligation are in evidence/<id>.json."}
for p in PROPS:
    if p["technique"] and p["id"] in built:
        c = "./check.sh " + p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + c, "thorough_cmd": "VERIF_TIER=thorough " + c,
            "technique": p["technique"], "level": p["level"], "level_note": p["note"] or BASE_NOTE})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
