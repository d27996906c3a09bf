#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property of /repo's current tree with the symbolic executor.

exit 0: holds within the stated bounds; exit 1: VIOLATION (reproduced natively); exit 3: no answer.
"""
import json, os, signal, sys, tempfile, threading, time, ctypes, traceback
import engine as en
from props import PROPS

V = en.V
PR_SET_PDEATHSIG = 1


def out(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


def run_jobs(a, args, prop, jobs, slots, deadline, group):
    """jobs: dicts with harness, shard, secs. Returns list of (job, result json)."""
    q, res, lock = list(jobs), [], threading.Lock()

    def work():
        while True:
            with lock:
                if not q:
                    return
                j = q.pop(0)
            o = tempfile.mktemp(prefix="mirsym")
            env = {"MIRSYM_SECS": str(int(min(j["secs"], max(5, deadline - time.time())))), "MIRSYM_PROP": prop,
                   "MIRSYM_SAMPLES": str(j.get("samples", 6)), "MIRSYM_MAXV": "1"}
            if j.get("qms"):
                env["MIRSYM_QMS"] = str(j["qms"])
            if j.get("fb"):
                env["MIRSYM_FB"] = str(j["fb"])
            if j["shard"]:
                env["MIRSYM_SHARD"] = j["shard"]
            p = en.sym_run(a, args, j["harness"], env, o, group)
            try:
                txt = p.communicate(timeout=max(10, deadline - time.time() + 60))[0]
            except Exception:
                p.kill()
                txt = p.communicate()[0]
            r = None
            if os.path.exists(o):
                try:
                    r = json.load(open(o))
                except Exception as ex:
                    txt += f"\nbad result: {ex}"
                os.unlink(o)
            if r is None:
                r = {"status": "error", "error": f"engine ended without a result ({p.returncode}): {txt[-1500:]}", "violations": [],
                     "samples": [], "paths": 0, "steps": 0, "reach": {}, "assertions": {}, "functions": [], "queries": 0,
                     "solver_s": 0, "checks": 0, "check_queries": 0, "unknown_checks": 0, "witness": {}, "wall_s": 0, "functions_total": 0,
                     "unknown_branches": 0, "max_query_s": 0, "cut": 0}
            with lock:
                res.append((j, r))

    ts = [threading.Thread(target=work) for _ in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def obs_lines(s):
    return ["OBS %s %s" % tuple(x) for x in s["obs"]]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    group = spec.get("group", "main")
    t0 = time.time()
    os.environ["VERIF_PROP"] = prop
    a, args, nat = en.build_all(group)
    tb = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "10800"))
    deadline = t0 + tb + budget
    jobs, hs = [], {}
    for h in spec["harnesses"]:
        if h.get("tier", "quick") == "thorough" and tier == "quick":
            continue
        if h.get("tier") == "only-quick" and tier == "thorough":
            continue
        hs[h["name"]] = h
        k = h.get("shards", 1)
        for i in range(k):
            jobs.append(dict(harness=h["name"], shard=f"{i}/{k}/{h.get('depth', 1)}" if k > 1 else "", secs=h.get("secs", budget),
                             qms=h.get("qms"), fb=h.get("fb")))
    res = run_jobs(a, args, prop, jobs, int(os.environ.get("VERIF_JOBS", "8")), deadline, group)
    viol, problems = [], []
    agg = dict(paths=0, steps=0, queries=0, check_queries=0, checks=0, unknown_checks=0, unknown_branches=0, cut=0)
    solver_s, maxq = 0.0, 0.0
    funcs, reach, asserts, samples, per = set(), {}, {}, [], {}
    wit = {}
    for j, r in res:
        for k in agg:
            agg[k] += r.get(k, 0)
        solver_s += r["solver_s"]
        maxq = max(maxq, r.get("max_query_s", 0))
        funcs |= set(r["functions"])
        rr = reach.setdefault(j["harness"], {})
        for k, n in r["reach"].items():
            rr[k] = rr.get(k, 0) + n
        aa = asserts.setdefault(j["harness"], {})
        for k, (n, u) in r["assertions"].items():
            x = aa.setdefault(k, [0, 0])
            x[0] += n
            x[1] += u
        for s in r["samples"]:
            samples.append((j["harness"], s))
        for k, w in r["witness"].items():
            wit.setdefault((j["harness"], k), w)
        for v in r["violations"]:
            viol.append((j["harness"], v))
        p = per.setdefault(j["harness"], dict(paths=0, steps=0, queries=0, solver_s=0, wall_s=0, status="ok"))
        p["paths"] += r["paths"]
        p["steps"] += r["steps"]
        p["queries"] += r["queries"]
        p["solver_s"] = round(p["solver_s"] + r["solver_s"], 2)
        p["wall_s"] = round(p["wall_s"] + r["wall_s"], 2)
        if r["status"] in ("error", "unknown"):
            p["status"] = r["status"]
            problems.append(f"{j['harness']} {j['shard']}: {r['status']} {r['error'][:1500]}")
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop and not k.get("fixed")]
    # every harness must have reached its witnesses and asserted something
    if not [x for x in viol if not any(x[0] == k["harness"] and x[1]["msg"] == k["message"] for k in known)]:
        for n, h in hs.items():
            for w in h.get("reach", []):
                if not reach.get(n, {}).get(w):
                    problems.append(f"{n}: witness '{w}' not reached")
            if not asserts.get(n) and not h.get("nochecks"):
                problems.append(f"{n}: no assertion was reached")
    # the engine's paths and counterexamples against the real build
    njobs = [(h, s["inputs"]) for h, s in samples] + [(k[0], w) for k, w in wit.items()] + [(h, v["inputs"]) for h, v in viol]
    nres = en.nat_run(nat, njobs) if njobs else []
    validated = 0
    for (h, s), o in zip(samples, nres):
        got = [x for x in o if not x.startswith("REACH") and x != "END"]
        if got != obs_lines(s):
            # a sample whose native run breaks a check is itself a counterexample
            if got and (got[-1].startswith("CHECK-FAIL") or got[-1].startswith("PANIC")):
                viol.append((h, dict(msg="native: " + got[-1], inputs=s["inputs"], trace=[], native=o)))
            else:
                problems.append(f"{h}: native run of a sampled path differs: {s['inputs']} {obs_lines(s)} {got}")
        else:
            validated += 1
    off = len(samples)
    for ((h, k), w), o in zip(wit.items(), nres[off:]):
        if "REACH " + k in o:
            validated += 1
        elif o and (o[-1].startswith("CHECK-FAIL") or o[-1].startswith("PANIC")):
            viol.append((h, dict(msg="native: " + o[-1], inputs=w, trace=[], native=o)))
        elif not viol:
            problems.append(f"{h}: witness '{k}' not reached natively: {w} {o}")
    off += len(wit)
    real = []
    nv = 0
    for h, v in viol:
        if "native" in v:
            real.append((h, v, v["native"]))
            continue
        o = nres[off + nv]
        nv += 1
        if o and (o[-1].startswith("CHECK-FAIL") or o[-1].startswith("PANIC")):
            real.append((h, v, o))
        else:
            problems.append(f"{h}: counterexample does not reproduce natively: {v['msg']} {v['inputs']} {o}")
    # recorded findings: this assertion of this harness (which covers just the recorded case) may fail
    for k in known:
        hit = [x for x in real if x[0] == k["harness"] and x[1]["msg"] == k["message"]]
        if hit:
            out(f"KNOWN-FINDING: property={prop} {k['what']}")
            real = [x for x in real if x not in hit]
    samp = []
    for h, s in samples[:6]:
        samp.append(dict(harness=h, inputs=s["inputs"], observed=s["obs"]))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=agg["paths"], transitions=agg["steps"], traces_validated_against_impl=validated, samples=samp or [dict(none=True)],
            queries=agg["queries"], assertion_queries=agg["check_queries"], assertions_evaluated=agg["checks"],
            undecided_assertions=agg["unknown_checks"], solver_seconds=round(solver_s, 2), max_query_seconds=maxq,
            functions_encoded=sorted(funcs), per_harness=per, assertions=asserts, reach=reach,
            bounds={h["name"]: h.get("bounds", "") for h in hs.values()},
            explanation="states = complete symbolic paths, transitions = MIR-level steps executed symbolically over all paths; "
                        "every assertion is decided by the solver for all values on its path; sampled paths and witnesses are re-run natively",
        ),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(real),
    )
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    out(f"{prop} {tier}: {agg['paths']} paths, {agg['steps']} steps, {agg['queries']} queries ({solver_s:.1f} s), "
        f"{validated} traces validated, build {tb:.0f} s, total {time.time()-t0:.0f} s")
    if os.environ.get("VERIF_VERBOSE"):
        out(json.dumps(per, indent=1))
        out(json.dumps(reach, indent=1))
        out(json.dumps(asserts, indent=1))
    for p in problems:
        out("PROBLEM", p)
    if real:
        h, v, o = real[0]
        rp = os.path.join(V, "evidence", prop + ".replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=prop, harness=h, group=group, message=v["msg"], inputs=v["inputs"], native=o, trace=v["trace"],
                           how="python3 /verif/replay.py " + rp), f, indent=1)
        out(f"counterexample in {h}: {v['msg']}")
        for n, x in v["inputs"]:
            out(f"   {n} = {x}")
        out(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 3 if problems else 0


if __name__ == "__main__":
    try:
        rc = main()
    except en.Fail as e:
        out("ERROR", e)
        rc = 4
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
