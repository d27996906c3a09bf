#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in propdefs.py."""
import json
from propdefs import P, NA
from props import PROPS
with open("properties.jsonl", "w") as f:
    for p in P:
        over = p.get("over", ["inputs", "histories"])
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=over, text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in PROPS:
        checks.append(dict(
            property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
            evidence_file=f"evidence/{p['id']}.json", technique="symbolic execution of the compiled Rust MIR of the real pallet with SMT (Z3), native replay",
            level="model_checking", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks are needed: the harnesses use the pallets' public interface", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current pallets to MIR, executes the dispatchables symbolically inside the FRAME storage and balances code and decides every assertion with Z3; see DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
