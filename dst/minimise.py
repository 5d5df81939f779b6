"""
Shrinking a violating scenario: simpler schedule, fewer faults, fewer perturbations, smaller image,
fewer explicit scheduling decisions - as long as the same class of violation shows.

Only features that never make a right outcome wrong are removed, so what remains is still a violation
of the property and not an artefact of the reduction.
"""

from . import real, scenario

PLAIN = ("C01", "C02", "C05", "C06", "C07", "C09", "C10", "C17")


class Budget:
    def __init__(self, seconds, runs):
        self.end = real.monotonic() + seconds
        self.runs = runs

    def left(self):
        return self.runs > 0 and real.monotonic() < self.end


class Shrinker:
    def __init__(self, cls, budget, limit):
        self.cls, self.b, self.limit = cls, budget, limit
        self.tried = self.kept = 0

    def attempt(self, sc, replays=None):
        """Results if the violation still shows, else None."""
        if not self.b.left():
            return None
        self.b.runs -= 1
        self.tried += 1
        try:
            rs = scenario.execute(sc, replays, self.limit)
        except Exception:
            return None
        if scenario.harness_error(rs) or self.cls not in scenario.classes(rs):
            return None
        if len(rs) < len(sc["phases"]):
            # a later phase never ran: the violation is in an earlier one
            sc["phases"] = sc["phases"][:len(rs)]
        self.kept += 1
        return rs


def reductions(sc):
    """Yields (description, simpler scenario)."""
    for i, p in enumerate(sc["phases"]):
        def edit(fn, what):
            c = scenario.clone(sc)
            fn(c["phases"][i])
            return what, c
        s = p.get("sched", {})
        if s.get("strategy") != "default" or s.get("preempt"):
            def f(q):
                q["sched"] = {"seed": s.get("seed", 0), "strategy": "default", "max_steps": s.get("max_steps", 400000),
                              "cost": s.get("cost", 2000)}
            yield edit(f, "default schedule")
        if p.get("knobs"):
            yield edit(lambda q: q.update(knobs={}), "no perturbations")
            for n in sorted(p["knobs"]):
                yield edit(lambda q: q["knobs"].pop(n), "no " + n)
        fixed = p.get("must_fail") or p.get("verdict") not in (None, "ok")
        if not fixed:
            for j in range(len(p.get("faults", ()))):
                yield edit(lambda q: q["faults"].pop(j), "fault %d dropped" % j)
        for o in ("-d", "--debug", "-q", "--quiet"):
            if o in p.get("opts", ()):
                yield edit(lambda q: q["opts"].remove(o), "no " + o)
        if p.get("tty"):
            yield edit(lambda q: q.pop("tty"), "no terminal")
        if p.get("lines") and not any(f.get("site") == "line" for f in p.get("faults", ())):
            yield edit(lambda q: q.pop("lines"), "no line events")
        src = p.get("src", {})
        hurt = [x for x in ("damage", "pre_damage", "cut", "truncate", "truncate_frac", "layout") if src.get(x)]
        if p.get("check") in PLAIN and not hurt:
            if src.get("comp", "none") != "none" and not any(f.get("site") == "proc" for f in p.get("faults", ())):
                def f(q):
                    q["src"]["comp"] = "none"
                    q["src"].pop("ext", None)
                yield edit(f, "uncompressed")
            if src.get("kind") in ("http", "https", "ssh", "fileurl") and (p.get("bmap") or {}).get("where", "explicit") == "explicit":
                yield edit(lambda q: q["src"].update(kind="file"), "local file")
        im = p.get("image")
        if im and not hurt and not (p.get("bmap") or {}).get("damage") and not im.get("data") and len(im.get("ranges", ())) > 1:
            h = len(im["ranges"]) // 2
            yield edit(lambda q: q["image"].update(ranges=im["ranges"][:h]), "first half of the ranges")
            yield edit(lambda q: q["image"].update(ranges=im["ranges"][h:]), "second half of the ranges")
            if len(im["ranges"]) <= 6:
                for j in range(len(im["ranges"])):
                    yield edit(lambda q: q["image"]["ranges"].pop(j), "one range dropped")


def minimise(sc, replays, cls, seconds=60.0, runs=300, limit=90.0):
    """Returns (scenario, replays, results, note)."""
    sh = Shrinker(cls, Budget(seconds, runs), limit)
    cur = scenario.clone(sc)
    best = sh.attempt(cur)
    if best is None:
        return sc, replays, None, "the violation did not repeat"
    progress = True
    log = []
    while progress and sh.b.left():
        progress = False
        for what, cand in reductions(cur):
            cand = scenario.norm(cand)
            rs = sh.attempt(cand)
            if rs is not None:
                cur, best, progress = cand, rs, True
                log.append(what)
                break
            if not sh.b.left():
                break
    # explicit decisions from here on
    reps = [scenario.enc_replay(r.decisions) for r in best]
    rs = sh.attempt(scenario.clone(cur), reps)
    if rs is None:
        # spent, or the explicit schedule does not reproduce it: leave the seeded one
        sh.b.runs, sh.b.end = 5, real.monotonic() + 60
        rs = sh.attempt(scenario.clone(cur), reps)
    if rs is not None:
        best = rs
        for i in range(len(reps)):
            keys = list(reps[i])
            n = 2
            while len(keys) >= 1 and sh.b.left():
                size = max(1, len(keys) // n)
                for a in range(0, len(keys), size):
                    trial = [dict(r) for r in reps]
                    trial[i] = {k: reps[i][k] for k in keys[:a] + keys[a + size:]}
                    got = sh.attempt(scenario.clone(cur), trial)
                    if got is not None and len(got) == len(reps):
                        reps = trial
                        keys = list(reps[i])
                        best = got
                        n = max(2, n - 1)
                        break
                    if not sh.b.left():
                        break
                else:
                    if size == 1:
                        break
                    n = min(len(keys), n * 2)
        # what took effect, which is what the file says
        reps = [scenario.enc_replay(r.decisions) for r in best]
    else:
        reps = None
    return cur, reps, best, "%d of %d reductions kept: %s" % (sh.kept, sh.tried, ", ".join(log[:40]))
