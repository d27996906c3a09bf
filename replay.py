#!/usr/bin/env python3
"""Re-runs a reported counterexample against the native build of /repo's current tree."""
import json, os, sys
import engine as en
r = json.load(open(sys.argv[1]))
os.environ["VERIF_PROP"] = r["property"]
a, args, nat = en.build_all(r.get("group", "main"))
print("harness", r["harness"])
for n, v in r["inputs"]:
    print("  ", n, "=", v)
for l in en.nat_run(nat, [(r["harness"], r["inputs"])])[0]:
    print(l)
