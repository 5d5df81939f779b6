"""
Running the cases of a check, in this process.
"""

import json
import random

from . import scenario, sim

BENIGN = ("stalls", "short_reads", "short_writes", "http_delay")


def run_case(check, seed, tier, i, accept=None, limit=90.0):
    """Case number i of a check.  Returns a dictionary of plain data; a function of the arguments."""
    from . import checks
    rng = random.Random("case:%s:%s:%d" % (check, seed, i))
    gen = checks.CASES[check](rng, tier)
    out = {"i": i, "runs": [], "violation": None, "known": [], "error": None}
    send = None
    n = 0
    while True:
        try:
            sc = gen.send(send)
        except StopIteration:
            break
        sc = scenario.norm(sc)
        results = scenario.execute(sc, None, limit)
        for ph, r in enumerate(results):
            out["runs"].append(record(sc, ph, r, i, n))
        n += 1
        err = scenario.harness_error(results)
        if err:
            out["error"] = {"scenario": sc, "message": err}
            break
        v = scenario.first_violation(results)
        if v:
            if accept is not None:
                k = accept(sc, results, v)
                if k:
                    out["known"].append(k)
                    send = results
                    continue
            out["violation"] = {"class": v[0], "message": v[1], "scenario": sc, "number": n - 1,
                                "replays": [scenario.enc_replay(r.decisions) for r in results],
                                "sigs": [list(r.sig()[:5]) + [list(r.sig()[5])] for r in results]}
            break
        send = results
    return out


def record(sc, ph, r, i, n):
    plan = sc["phases"][ph]
    kinds = []
    for f in r.fired:
        f = plan["faults"][f]
        if f["site"] == "op":
            kinds.append("%s of %s: %s" % (f["op"], f["role"].split(":")[0], f["kind"]))
        else:
            kinds.append("%s: %s" % (f["site"], f["kind"]))
    for key in plan.get("src", {}):
        if key in ("damage", "pre_damage", "truncate_frac", "cut"):
            kinds.append("source: " + key)
    if plan.get("bmap") and plan["bmap"].get("damage"):
        kinds.append("bmap: damage")
    if plan.get("knobs", {}).get("disk_free") is not None:
        kinds.append("disk full")
    return {"case": i, "n": n, "phase": ph, "why": sc.get("why", ""), "reason": r.reason, "rc": r.rc, "steps": r.steps,
            "switches": r.switches, "now": r.now, "digest": r.digest, "ihash": r.ihash, "kinds": kinds,
            "benign": {b: r.soft[b] for b in BENIGN if r.soft.get(b)}, "run": plan.get("run", "copy"),
            "planned": len(plan.get("faults", ())), "tasks": 1 + len(r.procs) + bool(r.counts.get(("thread", "start")))}
