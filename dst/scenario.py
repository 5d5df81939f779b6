"""
A scenario: one or more runs in a row, the later ones starting from what the earlier ones left.
Scenarios are plain JSON data; executing one is a function of the data and the code under test.
"""

import json

from . import sim


def norm(sc):
    """The JSON round trip a replay file goes through, taken before the first execution as well."""
    return json.loads(json.dumps(sc))


def clone(x):
    return json.loads(json.dumps(x))


def enc_replay(dec):
    out = {}
    for k, v in dec:
        out["L%d" % k[1] if isinstance(k, tuple) else str(k)] = v
    return out


def dec_replay(d):
    if d is None:
        return None
    out = {}
    for k, v in d.items():
        if k.startswith("L"):
            out[("L", int(k[1:]))] = v
        else:
            out[int(k)] = v
    return out


def run_phase(plan, replay, limit):
    r = sim.run(clone(plan), replay, limit)
    if r.soft.get("hang"):
        # the program computes without ever entering the kernel; make sure it is not the machine
        r = sim.run(clone(plan), replay, limit * 2)
        if r.soft.get("hang"):
            cls = "%s:cpu-hang" % plan.get("check")
            r.reason = "cpu-hang"
            r.violations = [(cls, "the program computes for more than %d s without finishing" % (limit * 2))]
    return r


def execute(sc, replays=None, limit=90.0):
    """Run all phases; returns the list of results (shorter if a phase already violated)."""
    out = []
    carry = None
    for i, plan in enumerate(sc["phases"]):
        plan = clone(plan)
        if i and sc.get("link") == "carry":
            if carry is None:
                break
            plan["carry"] = carry
        elif i and sc.get("link") == "text":
            if carry is None or not carry.get("exists", True):
                break
            plan["bmap"]["text"] = carry["text"].decode("latin-1")
        rep = dec_replay(replays[i]) if replays is not None and i < len(replays) else None
        if i and "carry" in plan:
            r = _run_raw(plan, rep, limit)
        else:
            r = run_phase(plan, rep, limit)
        out.append(r)
        if r.violations or r.reason == "harness-error":
            break
        carry = r.info.get("carry")
    return out


def _run_raw(plan, rep, limit):
    # carried pages are not JSON
    r = sim.run(plan, rep, limit)
    if r.soft.get("hang"):
        r.reason = "cpu-hang"
        r.violations = [("%s:cpu-hang" % plan.get("check"), "the program computes for more than %d s" % limit)]
    return r


def classes(results):
    return sorted(set(c for r in results for c, _ in r.violations))


def first_violation(results):
    for r in results:
        if r.violations:
            return r.violations[0]
    return None


def harness_error(results):
    for r in results:
        if r.reason == "harness-error":
            return r.soft.get("harness_error", "?")
    return None
