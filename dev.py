#!/usr/bin/env python3
"""Development helper: dev.py <harness>... runs harnesses and prints a summary (MIRSYM_* env passes through)."""
import sys, json, os, time, tempfile
import engine as en
grp = os.environ.get("GRP", "main")
a, args, nat = en.build_all(grp)
for h in sys.argv[1:]:
    o = tempfile.mktemp()
    p = en.sym_run(a, args, h, None, o, grp)
    txt = p.communicate()[0]
    if txt.strip(): print(txt[-6000:])
    if not os.path.exists(o):
        print(h, "NO RESULT", p.returncode); continue
    r = json.load(open(o)); os.unlink(o)
    print(h, r["status"], {k: r[k] for k in ("paths", "cut", "steps", "checks", "queries", "unknown", "fallback", "solver_s", "max_query_s", "unknown_branches","unknown_checks","wall_s", "functions_total")}, "fns", len(r["functions"]))
    if r["error"]: print("  ERROR", r["error"][:3500])
    print("  reach", r["reach"]); print("  asserts", r["assertions"])
    jobs = [(h, s["inputs"]) for s in r["samples"]] + [(h, v["inputs"]) for v in r["violations"]]
    if os.environ.get("NONAT"): continue
    res = en.nat_run(nat, jobs)
    for s, o in zip(r["samples"], res):
        exp = ["OBS %s %s" % tuple(x) for x in s["obs"]]
        got = [x for x in o if not x.startswith("REACH") and x != "END"]
        if exp != got: print("  SAMPLE MISMATCH", s["inputs"], exp, got)
    for v, o in zip(r["violations"], res[len(r["samples"]):]):
        print("  VIOLATION", v["msg"], v["inputs"], "\n    at", v["trace"][:6], "\n    native:", o[-5:])
