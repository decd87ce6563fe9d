#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below (single source)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = ("Exhaustive over the enumerated bounded space (alphabet, depth and grids in DESIGN.md and in the evidence rule), executed on the "
              "real nyx code built from /repo; nothing is claimed for values outside the enumerated domains. Trusts the reference model in "
              "/verif/harness, ANISE, hifitime and nalgebra.")
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="bash build.sh", checks=[], not_applicable=[])
for p in PROPS:
    if p["id"] in NA:
        m["not_applicable"].append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}",
        thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p["technique"], level=p.get("level", "model_checking"), level_note=p.get("note", LEVEL_NOTE)))
m["notes"] = ("One engine (harness/): every case of a finite, fully enumerated space is one trace executed on the real code and compared with a "
              "reference model; see DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS.txt.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
