"""
Command line of the checks.

    runner PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--workers N] [--budget SECONDS]
    runner --replay FILE
    runner --trace FILE
    runner --setup                  what MANIFEST's setup_cmd runs
    runner --selftest [--cases N]   determinism: the same seeds in other processes, orders and hash seeds
    runner --digests PROP --cases N (used by --selftest)
"""

import collections
import json
import os
import pickle
import select
import signal
import struct
import sys

from . import real

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# property: (quick cases, thorough cases)
CASES = {
    "C01": (2800, 20000), "C02": (2000, 15000), "C03": (840, 6000), "C04": (960, 6000), "C05": (960, 6000),
    "C06": (680, 4500), "C07": (1120, 8000), "C08": (1400, 10000), "C09": (960, 7000), "C10": (1000, 6000),
    "C11": (840, 6000), "C12": (4200, 30000), "C13": (1600, 12000), "C14": (1120, 8000), "C15": (2800, 20000),
    "C16": (1800, 12000), "C17": (1120, 8000), "C18": (4800, 30000), "C19": (2000, 15000),
    "C20": (2400, 20000), "C21": (2400, 20000), "C22": (1800, 14000), "C23": (1200, 10000), "C24": (1200, 10000),
}
CAP = {"quick": 330.0, "thorough": 780.0}  # seconds of searching, after which what was covered is reported


class Worker:
    """A forked process that runs cases on request."""

    def __init__(self, check, seed, tier, accept, limit):
        self.busy = None
        r1, w1 = real.os_pipe()
        r2, w2 = real.os_pipe()
        self.pid = real.os_fork()
        if self.pid == 0:
            try:
                real.os_close(w1)
                real.os_close(r2)
                self._serve(r1, w2, check, seed, tier, accept, limit)
            except BaseException:
                import traceback
                real.os_write(2, traceback.format_exc().encode())
            finally:
                real._exit(0)
        real.os_close(r1)
        real.os_close(w2)
        self.cmd, self.res = w1, r2
        self.buf = bytearray()

    @staticmethod
    def _serve(r, w, check, seed, tier, accept, limit):
        from . import engine
        while True:
            b = real.os_read(r, 8)
            if len(b) < 8:
                return
            i = struct.unpack("<q", b)[0]
            if i < 0:
                return
            o = engine.run_case(check, seed, tier, i, accept, limit)
            if o["error"]:
                # once more: the machine may have been out of breath
                o2 = engine.run_case(check, seed, tier, i, accept, limit * 2)
                if not o2["error"]:
                    o = o2
            data = pickle.dumps(o, 4)
            data = struct.pack("<q", len(data)) + data
            while data:
                n = real.os_write(w, data[:1 << 16])
                data = data[n:]

    def send(self, i):
        self.busy = i
        real.os_write(self.cmd, struct.pack("<q", i))

    def receive(self):
        """A finished case, None for not yet, False when the worker died."""
        b = real.os_read(self.res, 1 << 20)
        if not b:
            return False
        self.buf += b
        if len(self.buf) >= 8:
            n = struct.unpack("<q", self.buf[:8])[0]
            if len(self.buf) >= 8 + n:
                o = pickle.loads(bytes(self.buf[8:8 + n]))
                del self.buf[:8 + n]
                self.busy = None
                return o
        return None

    def stop(self):
        for fd in (self.cmd, self.res):
            try:
                real.os_close(fd)
            except OSError:
                pass
        try:
            real.os_kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            real.os_waitpid(self.pid, 0)
        except OSError:
            pass


def search(check, seed, tier, cases, workers, cap, accept, limit):
    """Run cases 0..cases-1; the outcome does not depend on the number of workers."""
    t0 = real.monotonic()
    ws = [Worker(check, seed, tier, accept, limit) for _ in range(workers)]
    poll = select.poll()
    by = {}
    for w in ws:
        poll.register(w.res, select.POLLIN | select.POLLHUP)
        by[w.res] = w
    done = {}
    nxt = 0
    stop_at = cases
    capped = False
    died = []
    try:
        while True:
            if real.monotonic() - t0 > cap and nxt < stop_at:
                capped = True
                stop_at = min(stop_at, nxt)
            for w in ws:
                if w.busy is None and nxt < stop_at:
                    w.send(nxt)
                    nxt += 1
            if not any(w.busy is not None for w in ws):
                break
            for fd, _ in poll.poll(1000):
                w = by[fd]
                o = w.receive()
                if o is None:
                    continue
                if o is False:
                    died.append(w.busy)
                    poll.unregister(fd)
                    by.pop(fd)
                    ws.remove(w)
                    w.stop()
                    if w.busy is not None:
                        done[w.busy] = {"i": w.busy, "runs": [], "violation": None, "known": [],
                                        "error": {"scenario": None, "message": "a worker died"}}
                    if len(died) < 3:
                        n = Worker(check, seed, tier, accept, limit)
                        ws.append(n)
                        by[n.res] = n
                        poll.register(n.res, select.POLLIN | select.POLLHUP)
                    elif not ws:
                        stop_at = nxt
                    continue
                done[o["i"]] = o
                if o["violation"]:
                    # nothing beyond this case, everything before it
                    stop_at = min(stop_at, o["i"] + 1)
    finally:
        for w in ws:
            w.stop()
    out = [done[i] for i in sorted(done) if i < stop_at]
    return out, capped, real.monotonic() - t0


def load_known():
    """known_findings.txt -> list of {property, key, text}.  Lines starting with 'fixed:' suppress nothing."""
    out = []
    try:
        with real.builtin_open(os.path.join(HERE, "known_findings.txt")) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known: "):
                    head, _, text = ln[7:].partition(" :: ")
                    d = dict(x.split("=", 1) for x in head.split())
                    d["text"] = text
                    out.append(d)
    except OSError:
        pass
    return out


def make_accept(check):
    from . import findings
    items = [d for d in load_known() if d.get("property") == check]
    if not items:
        return None
    return lambda sc, results, v: findings.match(items, sc, results, v)


REAL = ["bmaptools/CLI.py", "bmaptools/BmapCopy.py", "bmaptools/BmapCreate.py", "bmaptools/TransRead.py", "bmaptools/Filemap.py",
        "bmaptools/BmapHelpers.py", "contrib/bmap_write.py (C19)",
        "the Python standard library above the system-call layer (argparse, logging, threading, queue, subprocess.Popen, urllib, "
        "http.client, netrc, tempfile, shutil, TextIOWrapper, zlib/bz2/lzma, hashlib, ElementTree)"]
STUB = ["system calls, scheduler, clock, page cache and disks, pipes, FIFOs, terminals, sysfs, block devices, FIEMAP and "
        "SEEK_DATA/SEEK_HOLE", "buffered file objects (re-implemented over the simulated calls)",
        "gzip, pigz, bzip2, pbzip2, xz, lzop, lz4, zstd, tar, unzip/funzip, ssh, sshpass, df, sh (simulated processes; lzop and "
        "lz4/zstd use a toy container format)", "HTTP/HTTPS servers and the sockets to them (TLS itself is a stub)",
        "the python gpg module (toy signatures)", "psplash readers, other users of the device"]


def evidence(check, tier, seed, outs, capped, wall, planned, violations, extra):
    runs = [r for o in outs for r in o["runs"]]
    kinds = collections.Counter(k for r in runs for k in r["kinds"])
    benign = collections.Counter()
    for r in runs:
        for b, n in r["benign"].items():
            benign[b] += n if isinstance(n, int) else 1
    nontrivial = set()
    for r in runs:
        if r["kinds"] or r["benign"] or r["switches"]:
            nontrivial.add(r["digest"])
    samples = []
    for want in ("exit", None):
        for r in runs:
            if (want is None or r["reason"] == want) and r["kinds"] and len(samples) < (2 if want else 4):
                s = {k: r[k] for k in ("case", "why", "reason", "rc", "steps", "switches", "kinds", "run", "digest")}
                s["simulated_s"] = r["now"] / 1e9
                if s not in samples:
                    samples.append(s)
    if not samples and runs:
        samples = [{k: runs[0][k] for k in ("case", "why", "reason", "rc", "steps", "switches", "kinds", "run", "digest")}]
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(nontrivial),
        "rule": "An evaluation is one simulated execution of the program; cases are drawn from the PRNG seeded with (property, "
                "VERIF_SEED, case number): workload, configuration, schedule, then faults placed at operations the fault-free run "
                "performs.  Non-trivial: a fault or perturbation took effect or control moved between tasks; distinct: different "
                "event-log hashes.",
        "samples": samples,
        "cases": len(outs), "cases_planned": planned, "stopped_by_time": capped,
        "runs_per_hour": int(len(runs) / max(wall, 1e-6) * 3600), "seeds_per_hour": int(len(outs) / max(wall, 1e-6) * 3600),
        "simulated_seconds": round(sum(r["now"] for r in runs) / 1e9, 3),
        "steps": sum(r["steps"] for r in runs), "switches": sum(r["switches"] for r in runs),
        "runs_with_faults": sum(1 for r in runs if r["kinds"]),
        "faults_planned": sum(r["planned"] for r in runs),
        "faults_injected": dict(sorted(kinds.items())), "perturbations": dict(sorted(benign.items())),
        "distinct_interleavings": len(set(r["ihash"] for r in runs)),
        "interleaving_measure": "hash of the sequence of tasks given control at the switches of a run",
        "distinct_event_logs": len(set(r["digest"] for r in runs)),
        "outcomes": dict(sorted(collections.Counter("%s/%s" % (r["reason"], r["rc"]) for r in runs).items())),
        "kinds_of_run": dict(sorted(collections.Counter(r["why"].split(" (")[0] for r in runs).items())),
        "real_code": REAL, "stubs": STUB,
    }
    cov.update(extra)
    doc = {"property": check, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["the simulated operating system, tools and servers behave like the real ones in the respects DESIGN.md lists",
                           "sampling: a clean batch is evidence, not proof"],
           "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % check)
    with real.builtin_open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, check + ".json"))


def sig_list(r):
    s = r.sig()
    return list(s[:5]) + [list(s[5])]


def write_replay(check, seed, tier, case, cls, sc, reps, note):
    """Execute the file's content once more, the way a replay does, and store what happened."""
    from . import scenario
    traced = scenario.clone(sc)
    rs = scenario.execute(sc, reps)
    msgs = [m for r in rs for c, m in r.violations if c == cls]
    for p in traced["phases"]:
        p["want_trace"] = 300
    tr = scenario.execute(traced, reps)
    doc = {"property": check, "class": cls, "message": msgs[0] if msgs else "", "seed": seed, "tier": tier, "case": case,
           "minimised": note, "scenario": sc, "decisions": reps, "sigs": [sig_list(r) for r in rs],
           "outcome": [{"reason": r.reason, "rc": r.rc, "violations": r.violations, "fired": r.fired} for r in rs],
           "stderr": rs[-1].stderr[-2000:] if rs else "", "trace": [str(x) for x in (tr[-1].__dict__.get("trace") or [])]}
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (check, seed, case))
    with real.builtin_open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
        f.write("\n")
    return path, doc, cls in scenario.classes(rs)


def replay(path, quiet=False):
    """0: the violation does not show; 1: reproduced exactly; 4: shows, but not exactly the same run."""
    from . import scenario, sim
    sim.load()
    with real.builtin_open(path) as f:
        doc = json.load(f)
    rs = scenario.execute(doc["scenario"], doc["decisions"])
    err = scenario.harness_error(rs)
    if err:
        print("replay: harness error: %s" % err)
        return 3
    sigs = json.loads(json.dumps([sig_list(r) for r in rs]))
    same = sigs == doc["sigs"]
    shows = doc["class"] in scenario.classes(rs)
    if not quiet:
        for r in rs:
            for c, m in r.violations:
                print("%s: %s" % (c, m))
        print("replay: %s" % ("reproduced exactly" if same and shows else "reproduced, but the run differs" if shows
                              else "the violation does not show"))
    if shows:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1 if same and shows else 4 if shows else 0


def fresh_replay(path):
    """Replay in a fresh interpreter."""
    rd, wr = real.os_pipe()
    pid = real.os_fork()
    if pid == 0:
        try:
            os.dup2(wr, 1)
            os.dup2(wr, 2)
            os.chdir(HERE)
            os.execv(sys.executable, [sys.executable, "-B", "-m", "dst.runner", "--replay", path])
        finally:
            real._exit(99)
    real.os_close(wr)
    out = b""
    while True:
        b = real.os_read(rd, 65536)
        if not b:
            break
        out += b
    real.os_close(rd)
    st = real.os_waitpid(pid, 0)[1]
    return os.waitstatus_to_exitcode(st), out.decode("utf-8", "replace")


def check_main(check, a):
    from . import minimise, scenario, sim
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    cases = a.cases or CASES[check][tier == "thorough"]
    workers = a.workers or max(1, min(16, len(os.sched_getaffinity(0))))
    cap = a.budget or float(os.environ.get("VERIF_BUDGET") or CAP[tier])
    limit = 60.0
    print("property %s seed %d tier %s: %d cases, %d workers" % (check, seed, tier, cases, workers))
    sys.stdout.flush()
    t0 = real.monotonic()
    sim.load()
    accept = make_accept(check)
    outs, capped, wall = search(check, seed, tier, cases, workers, cap, accept, limit)
    known = collections.Counter(k for o in outs for k in o["known"])
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (check, k))
    bad = next((o for o in outs if o["violation"]), None)
    errors = [o for o in outs if o["error"]]
    runs = sum(len(o["runs"]) for o in outs)
    print("%d runs of %d cases in %.1f s%s, %d harness errors" % (runs, len(outs), wall, " (stopped by time)" if capped else "",
                                                                 len(errors)))
    for o in errors[:3]:
        print("harness error in case %d: %s" % (o["i"], o["error"]["message"][-1500:]))
    extra = {"harness_errors": len(errors), "known_findings": dict(known)}
    code = 0
    if bad:
        v = bad["violation"]
        print("case %d: %s: %s" % (bad["i"], v["class"], v["message"]))
        sys.stdout.flush()
        sc, reps, best, note = minimise.minimise(v["scenario"], v["replays"], v["class"],
                                                 seconds=float(os.environ.get("VERIF_MINIMISE") or 60), limit=limit)
        path, doc, shows = write_replay(check, seed, tier, bad["i"], v["class"], sc, reps, note)
        ok, text = fresh_replay(path) if shows else (0, "")
        if ok != 1:
            # the unreduced run
            path, doc, shows = write_replay(check, seed, tier, bad["i"], v["class"], v["scenario"], v["replays"], "not minimised")
            ok, text = fresh_replay(path)
        extra["replay_in_fresh_process"] = "reproduced exactly" if ok == 1 else "differs (%s): %s" % (ok, text[-300:])
        print("minimised: %s" % note)
        print("message: %s" % doc["message"])
        print("replay in a fresh process: %s" % extra["replay_in_fresh_process"])
        print("VIOLATION property=%s replay=%s" % (check, path))
        code = 1
    elif errors:
        code = 2
    evidence(check, tier, seed, outs, capped, wall, cases, 1 if bad else 0, extra)
    from . import sim
    if sim.COVER is not None:
        lines = {n: [i for i in range(4096) if sim.COVER[j * 4096 + i]] for j, n in enumerate(sim.COVER_FILES)}
        with open(os.environ["DST_COVERAGE"], "w") as f:
            json.dump(lines, f)
    print("done in %.1f s" % (real.monotonic() - t0))
    return code


def trace(path):
    from . import scenario, sim
    sim.load()
    with real.builtin_open(path) as f:
        doc = json.load(f)
    sc = doc["scenario"]
    for p in sc["phases"]:
        p["want_trace"] = 100000
    for r in scenario.execute(sc, doc.get("decisions")):
        for x in r.trace:
            print(x)
        print("-> %s rc=%s %s" % (r.reason, r.rc, r.violations))
        print(r.stderr)
    return 0


def setup():
    """The simulator itself works: a plain copy runs, whatever its outcome."""
    from . import engine
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    o = engine.run_case("C01", 1, "quick", 0)
    print("setup: python %s, code under test %s, %d simulated run(s)" % (sys.version.split()[0], os.environ.get("BMAP_REPO", "/repo"), len(o["runs"])))
    return 0


def digests(check, cases, seed, backwards):
    """One line per run: what the run was, for comparison."""
    from . import engine
    out = {}
    order = range(cases - 1, -1, -1) if backwards else range(cases)
    for i in order:
        o = engine.run_case(check, seed, "quick", i, None, 120.0)
        out[i] = [[r["digest"], r["ihash"], r["steps"], r["now"], r["rc"], r["reason"]] for r in o["runs"]]
    print(json.dumps(out, sort_keys=True))
    return 0


def selftest(cases, seed):
    """Every seed in two fresh interpreters, in opposite order and with different hash seeds."""
    import concurrent.futures
    import subprocess
    jobs = [(c, b) for c in sorted(CASES) for b in (0, 1)]

    def run(job):
        c, b = job
        env = dict(os.environ, PYTHONHASHSEED="0" if not b else "4242")
        args = [sys.executable, "-B", "-m", "dst.runner", "--digests", c, "--cases", str(cases), "--seed", str(seed)]
        p = subprocess.run(args + (["--backwards"] if b else []), cwd=HERE, env=env, stdout=subprocess.PIPE)
        return job, p.returncode, p.stdout

    res = {}
    with concurrent.futures.ThreadPoolExecutor(len(os.sched_getaffinity(0))) as ex:
        for job, rc, out in ex.map(run, jobs):
            res[job] = json.loads(out) if rc == 0 else None
    bad = runs = 0
    for c in sorted(CASES):
        a, b = res[(c, 0)], res[(c, 1)]
        if a is None or b is None:
            print("%s: failed to run" % c)
            bad += 1
            continue
        runs += sum(len(x) for x in a.values())
        diff = [i for i in a if a[i] != b.get(i)]
        if diff:
            bad += len(diff)
            print("%s: cases %s differ" % (c, diff[:10]))
    print("selftest: %d runs of %d cases executed twice, %d cases differ" % (runs, cases * len(CASES), bad))
    return 1 if bad else 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--trace")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--digests")
    ap.add_argument("--backwards", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.selftest:
        return selftest(a.cases or 20, a.seed or 1)
    if a.digests:
        return digests(a.digests, a.cases, a.seed, a.backwards)
    if a.replay:
        return replay(a.replay)
    if a.trace:
        return trace(a.trace)
    if a.property not in CASES:
        print("unknown property %s" % a.property)
        return 2
    return check_main(a.property, a)


if __name__ == "__main__":
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 130
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    real._exit(rc)
