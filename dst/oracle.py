"""
What a run must satisfy: monitors that watch while it proceeds, and judgements over its end state and
recorded history.  Violations are (class, message); the class is stable under minimisation.
"""

import hashlib
import os
import re
import xml.etree.ElementTree as ET

from . import world
from .kernel import PG, SimBug
from .world import Monitor, allocated, compare, expected_pieces, outside

MiB = 1 << 20
LIMIT = 16 * MiB


# ---------------------------------------------------------------------------------------------
# Common facts
# ---------------------------------------------------------------------------------------------


def is_nobmap(plan):
    if plan.get("run") == "api":
        return not plan.get("bmap")
    return "--nobmap" in plan.get("opts", ())


def dest_inode(k, env):
    if env.dest is not None:
        return env.dest
    path = getattr(env, "dest_path", None)
    return k.exists(path) if path else None


def pieces_of(env, plan):
    return expected_pieces(env, is_nobmap(plan))


def whole_blocks(env, plan):
    """The same, the last block counted to its end if the source is not the image the map describes."""
    p = pieces_of(env, plan)
    src = plan.get("src", {})
    if p and p[-1][1] == len(env.image) and (src.get("pre_damage") or src.get("damage") or any(
            f.get("kind") in ("dup", "flip", "drop") for f in plan.get("faults", ()))):
        bs = env.spec["bs"]
        p = p[:-1] + [(p[-1][0], (p[-1][1] + bs - 1) // bs * bs) + tuple(p[-1][2:])]
    return p


def truncates(plan):
    """Whether a regular destination starts out empty."""
    return plan.get("run") != "api" or plan["api"].get("dest_mode", "wb+").startswith("w")


def content_errors(k, env, plan, durable=False, outside_too=True):
    """Why the destination is not what a successful copy leaves."""
    if env.dest_kind == "null":
        return []
    d = dest_inode(k, env)
    if d is None:
        return ["destination does not exist"]
    if d.kind not in ("reg", "blk"):
        return ["destination is a %s" % d.kind]
    get = d.durable_get if durable else d.get
    size = (d.dur_size if durable else d.size) if d.kind == "reg" else d.size
    pieces = pieces_of(env, plan)
    out = []
    if d.kind == "reg" and size != len(env.image):
        out.append("destination has %d bytes, the image %d" % (size, len(env.image)))
    bad = compare(get, env, pieces)
    if bad:
        out.append("destination differs from the image at %s" % ", ".join(str(b[0]) for b in bad))
    if outside_too:
        if d.kind == "reg" and truncates(plan):
            for a, b in outside(pieces, min(size, len(env.image))):
                if any(any(get(x, y - x)) for x, y in allocated(d.dur_pages if durable else d.pages, a, b)):
                    out.append("bytes outside the map are not zero in [%d, %d)" % (a, b))
                    break
            if not is_nobmap(plan) and not durable:
                keep = set()
                for s, e in pieces:
                    if e - s <= 1 << 30:
                        keep.update(range(s // PG, (e - 1) // PG + 1))
                extra = [p for p in d.pages if p not in keep]
                if extra:
                    out.append("destination is not sparse outside the map: page %d allocated" % min(extra))
        elif d.kind == "blk":
            out += untouched_errors(k, env, plan, get)
    return out


def untouched_errors(k, env, plan, get):
    """Bytes of a block device outside the map keep their previous value."""
    d = env.dest
    for x, y in outside(whole_blocks(env, plan), d.size):
        for a, b in allocated(d.pages, x, y):
            have = get(a, b - a)
            old = env.dest_old[a:b]
            if have != old:
                i = next(i for i in range(len(have)) if have[i] != old[i])
                return ["device byte %d, outside the map, changed" % (a + i)]
    return []


def files_unchanged(k, env):
    """Every file that existed before, other than the destination, is as it was."""
    out = []
    for path in sorted(env.originals):
        ino, pages, size = env.originals[path]
        if ino is env.image_ino and k.plan["src"].get("late"):
            continue
        now = k.exists(path)
        if now is not ino:
            out.append("%s was %s" % (path, "removed" if now is None else "replaced"))
        elif ino.size != size or ino.pages != pages and any(
                ino.pages.get(p, b"\0" * PG) != pages.get(p, b"\0" * PG) for p in set(ino.pages) | set(pages)):
            out.append("%s was modified" % path)
    return out


def stuck(k, reason, cls):
    if reason in ("deadlock", "step-limit"):
        k.violation(cls + ":" + reason, "the program does not finish (%s)" % reason)
        return True
    return False


def must_succeed(k, env, plan, rc, reason, cls, durable=False):
    if stuck(k, reason, cls):
        return
    if reason != "exit":
        return
    if rc != 0:
        k.violation(cls + ":failed", "exit status %d although nothing was wrong: %s" % (rc, tail(k, env)))
        return
    for e in content_errors(k, env, plan)[:1]:
        k.violation(cls + ":content", "exit status 0 but " + e)
    if durable:
        for e in content_errors(k, env, plan, durable=True, outside_too=False)[:1]:
            k.violation(cls + ":durable", "exit status 0 but on stable storage " + e)


def honest(k, env, plan, rc, reason, cls, durable=False):
    """Success implies exact content."""
    if stuck(k, reason, cls):
        return
    if reason != "exit" or rc != 0:
        return
    for e in content_errors(k, env, plan)[:1]:
        k.violation(cls + ":content", "exit status 0 but " + e)
    if durable:
        for e in content_errors(k, env, plan, durable=True, outside_too=False)[:1]:
            k.violation(cls + ":durable", "exit status 0 but on stable storage " + e)


def tail(k, env):
    t = env.stderr.get(max(0, env.stderr.size - 600), 600).decode("utf-8", "replace")
    return (t.strip()[-300:] or k.soft.get("exc", "")).replace("\n", " | ")


# ---------------------------------------------------------------------------------------------
# Monitors
# ---------------------------------------------------------------------------------------------


class DestWatch(Monitor):
    """First and last write to the destination; exclusive access while writing a block device."""

    def __init__(self, k, env):
        self.k, self.env = k, env
        self.first = self.last = None
        self.nw = 0

    def on_write(self, ino, ofd, off, n):
        if ino.role != "dest":
            return
        k = self.k
        self.nw += 1
        if self.first is None:
            self.first = (k.now, k.main_steps)
            k.soft["first_write_main"] = k.main_steps
            k.soft["first_write_now"] = k.now
            k.soft["first_write_line"] = getattr(k, "main_lines", 0)
        self.last = (k.now, k.main_steps)
        k.soft["last_write_main"] = k.main_steps
        k.soft["last_write_line"] = getattr(k, "main_lines", 0)
        if ino.kind == "blk":
            for n, a in self.env.attrs.items():
                if a.value != WANTED[n]:
                    k.soft.setdefault("_untuned", {})[n] = "%r when byte %d is written" % (a.value, off)
            h = ino.excl
            mine = h is not None and any(o is h for o in k.me.fds.values())
            if not mine and not k.soft.get("nonexcl"):
                k.soft["nonexcl"] = "write at %d while the device is %s" % (
                    off, "not held exclusively" if h is None else "held exclusively by someone else")


class Usage(Monitor):
    """Read-ahead and unsynchronised data."""

    def __init__(self, k, env, plan):
        self.k, self.env = k, env
        comp = plan["src"].get("comp", "none")
        self.comp = comp != "none"
        self.read = 0
        self.written = 0
        self.max_ahead = 0
        self.max_dirty = 0
        self.max_req = 0
        self.kind = plan["src"]["kind"]
        # the parts no one has to write are read over or skipped, not kept
        self.mapped = [tuple(x) for x in expected_pieces(env, plan.get("bmap") is None)]
        self.pos = 0

    def wanted(self):
        """Bytes of the image that were read and have to be written."""
        return sum(min(e, self.pos) - s for s, e in self.mapped if s < self.pos)

    def mine(self, role):
        if self.comp:
            return role.startswith("out:") and role not in ("out:ssh", "out:sshpass")
        if self.kind in ("http", "https"):
            return role == "net"
        if self.kind == "ssh":
            return role in ("out:ssh", "out:sshpass")
        return role in ("image", "stdin")

    def on_read_req(self, ofd, n):
        if self.mine(ofd.role):
            self.max_req = max(self.max_req, n)
            if n > LIMIT:
                self.k.violation("C10:request", "a single read asks for %d bytes" % n)

    def on_read(self, ofd, n, at=None):
        if self.mine(ofd.role):
            self.read += n
            self.pos = max(self.pos, self.read if at is None else at + n)
            ahead = self.wanted() - self.written
            if ahead > self.max_ahead:
                self.max_ahead = ahead
                if ahead > LIMIT:
                    self.k.violation("C10:readahead", "%d bytes read but not yet written" % ahead)

    def on_user_read(self, ofd, n):
        if ofd is not None and self.mine(ofd.role):
            self.max_req = max(self.max_req, n)
            if n > LIMIT:
                self.k.violation("C10:request", "a single read returned %d bytes" % n)

    def on_write(self, ino, ofd, off, n):
        if ino.role != "dest":
            return
        self.written += n
        if ino.kind == "blk" and ino.dirty_bytes > self.max_dirty:
            self.max_dirty = ino.dirty_bytes
            if ino.dirty_bytes > LIMIT:
                self.k.violation("C10:dirty", "%d bytes written but not synchronised" % ino.dirty_bytes)


# ---------------------------------------------------------------------------------------------
# Hooks of a run
# ---------------------------------------------------------------------------------------------


def attach(k, env, plan):
    env.watch = DestWatch(k, env)
    k.monitors.append(env.watch)
    if plan.get("check") == "C10":
        env.usage = Usage(k, env, plan)
        k.monitors.append(env.usage)
    if plan.get("check") == "C20":
        env.times = Times(k, env)
        k.monitors.append(env.times)
    if plan.get("run") == "create" or plan.get("watch_out"):
        env.bmap_out = plan.get("bmap_out", "/out/map.bmap")
        env.path_roles[env.bmap_out] = "bmapout"


class Times(Monitor):
    """When the destination was opened, when the copy was announced, when the destination was last synchronised."""

    def __init__(self, k, env):
        self.k, self.env = k, env
        self.opened = self.said = self.synced = None

    def on_open(self, ino, ofd):
        if ino.role == "dest" and self.opened is None:
            self.opened = self.k.now

    def on_fsync(self, ino):
        if ino.role == "dest":
            self.synced = self.k.now

    def on_write(self, ino, ofd, off, n):
        if ino is self.env.stderr and self.said is None and re.search(
                rb"copying image|copy entire image", ino.get(max(0, ino.size - 400), 400)):
            self.said = self.k.now


def at_exit(k, env, plan, rc):
    """The program is about to disappear."""
    k.soft["at_exit"] = [(p.name, p.state) for p in k.procs.values() if p is not k.me]


def judge(k, env, plan, rc, reason):
    if env is None:
        return {}
    fn = JUDGES.get(plan.get("check"))
    info = {}
    if fn is not None:
        info = fn(k, env, plan, rc, reason) or {}
    if plan.get("carry_out"):
        info["carry"] = carry_out(k, env, plan, reason)
    if getattr(env, "usage", None) is not None:
        u = env.usage
        info["usage"] = (u.max_ahead, u.max_dirty, u.max_req, u.read, u.written)
    info["mounts"] = env.mount_log[:20]
    d = dest_inode(k, env) if getattr(env, "dest_path", None) else None
    if d is not None and d.kind in ("reg", "blk"):
        info["dest_size"] = d.size
    return info


def carry_out(k, env, plan, reason):
    """What survives into the next phase."""
    c = plan["carry_out"]
    import random
    rng = random.Random("carry:%s" % c.get("seed", 0))
    power = reason == "crash"
    mode = c.get("mode", "subset") if power else None
    out = {"power": power}
    what = c.get("what", "dest")
    if what == "dest":
        d = dest_inode(k, env)
        if d is None:
            return dict(out, exists=False)
        pages, size = d.crash_view(rng, mode) if power else (d.pages, d.size)
        out.update(exists=True, pages=dict(pages), size=size if d.kind == "reg" else d.size)
        if not power:
            out["attrs"] = {n: a.value for n, a in env.attrs.items()}
    elif what == "bmap":
        ino = k.exists(env.bmap_out)
        if ino is None or power and c.get("lost"):
            return dict(out, exists=False)
        pages, size = ino.crash_view(rng, mode) if power else (ino.pages, ino.size)
        text = b"".join(pages.get(p, b"\0" * PG) for p in range((size + PG - 1) // PG))[:size]
        out.update(exists=True, text=text)
    return out


# ---------------------------------------------------------------------------------------------
# Judgements
# ---------------------------------------------------------------------------------------------


def j_c01(k, env, plan, rc, reason):
    must_succeed(k, env, plan, rc, reason, "C01")


def j_c02(k, env, plan, rc, reason):
    must_succeed(k, env, plan, rc, reason, "C02")


def j_c03(k, env, plan, rc, reason):
    if stuck(k, reason, "C03") or reason != "exit" or rc != 0:
        return
    if env.bmap_damaged or plan.get("bmap_in_transit"):
        k.violation("C03:bmap", "a damaged bmap was accepted")
        return
    d = dest_inode(k, env)
    spec = env.bspec
    cs = {"1.3": "sha1"}.get(spec["version"], spec.get("cs", "sha256"))
    ref = world.image_bytes(dict(plan["image"], **plan["bmap"]["other"])) if plan["bmap"].get("other") else env.image
    nocs = spec.get("no_range_cs")
    for i, (a, b) in enumerate(spec["ranges"]):
        if nocs is True or isinstance(nocs, list) and i in nocs:
            continue
        s, e = a * spec["bs"], min((b + 1) * spec["bs"], spec["size"])
        have = d.get(s, e - s)
        want = ref[s:e]
        if len(have) != len(want) or hashlib.new(cs, have).digest() != hashlib.new(cs, want).digest():
            k.violation("C03:data", "exit status 0 but the data of blocks %d-%d does not match its checksum" % (a, b))
            return


def j_c04(k, env, plan, rc, reason):
    honest(k, env, plan, rc, reason, "C04")


def j_c05(k, env, plan, rc, reason):
    honest(k, env, plan, rc, reason, "C05", durable=plan.get("run") == "copy" or plan.get("api", {}).get("sync"))
    if reason != "exit":
        return
    hard = [plan["faults"][i] for i in k.fired]
    hard = [f for f in hard if f.get("kind") == "errno" and f.get("role") == "dest"
            and f["op"] in ("write", "ftruncate", "fsync")]
    if hard and rc == 0:
        k.violation("C05:ignored", "exit status 0 although %s on the destination failed" % hard[0]["op"])
    if plan.get("benign") and rc != 0:
        k.violation("C05:failed", "exit status %d although the destination took all data: %s" % (rc, tail(k, env)))


def j_c06(k, env, plan, rc, reason):
    if stuck(k, reason, "C06") or reason != "exit":
        return
    if plan.get("must"):
        must_succeed(k, env, plan, rc, reason, "C06:redo")
    if rc == 0:
        for e in content_errors(k, env, plan, durable=True, outside_too=False)[:1]:
            k.violation("C06:durable", "exit status 0 but after a power loss " + e)


def j_c07(k, env, plan, rc, reason):
    for e in files_unchanged(k, env)[:1]:
        k.violation("C07:other-file", e)
    d = dest_inode(k, env)
    if d is None or d.kind not in ("reg", "blk"):
        return
    if d.kind == "blk":
        if not plan.get("bmap") and not is_nobmap(plan) and plan.get("run") == "copy":
            if d.wver != 0 or d.get(0, d.size) != env.dest_old:
                k.violation("C07:no-map", "a block device was written without a block map and without --nobmap")
            if reason == "exit" and rc == 0:
                k.violation("C07:no-map", "exit status 0 without a block map and without --nobmap")
            return
        for e in untouched_errors(k, env, plan, d.get)[:1]:
            k.violation("C07:outside", e)
        for e in untouched_errors(k, env, plan, d.durable_get)[:1]:
            k.violation("C07:outside", e + " (stable storage)")
    elif truncates(plan) and not (plan["dest"]["kind"] == "reg" and d.wver == 0 and d.size == env.dest_was):
        ps = whole_blocks(env, plan)
        if d.size > max(len(env.image), ps[-1][1] if ps else 0):
            k.violation("C07:size", "the destination has %d bytes, the image %d" % (d.size, len(env.image)))
        if plan.get("bmap") or is_nobmap(plan):
            for a, b in outside(ps, d.size):
                if any(any(d.get(x, y - x)) for x, y in allocated(d.pages, a, b)):
                    k.violation("C07:outside", "destination bytes in [%d, %d), outside the map, are not zero" % (a, b))
                    break


def j_c08(k, env, plan, rc, reason):
    d = env.dest
    if k.soft.get("nonexcl"):
        k.violation("C08:exclusive", k.soft["nonexcl"])
    w = env.watch
    got_before = got_any = False
    for ev in env.mount_log:
        if ev[0] != "got":
            continue
        got_any = True
        if w.first is None or ev[1] <= w.first[0]:
            got_before = True
        elif ev[1] < w.last[0]:
            k.violation("C08:window", "another exclusive user got the device between two writes of the copy")
        elif ev[3] and rc == 0:
            k.violation("C08:window", "another exclusive user got the device before it was synchronised")
    if stuck(k, reason, "C08"):
        return
    if plan["dest"].get("held"):
        if w.first is not None:
            k.violation("C08:held", "a device held exclusively by someone else was written")
        if reason == "exit" and rc == 0:
            k.violation("C08:held", "exit status 0 although the device is held exclusively by someone else")
        return
    if plan.get("too_small"):
        if w.first is not None:
            k.violation("C08:capacity", "the image is known not to fit, but the device was written")
        if reason == "exit" and rc == 0:
            k.violation("C08:capacity", "exit status 0 although the image does not fit")
        return
    if reason != "exit":
        return
    if rc != 0:
        if w.first is not None and not plan.get("faults"):
            k.violation("C08:failed", "exit status %d after the device had been taken: %s" % (rc, tail(k, env)))
        elif not got_before and not plan.get("faults"):
            k.violation("C08:failed", "exit status %d although nobody else used the device: %s" % (rc, tail(k, env)))
    else:
        for e in content_errors(k, env, plan)[:1]:
            k.violation("C08:content", "exit status 0 but " + e)


def j_c09(k, env, plan, rc, reason):
    if stuck(k, reason, "C09"):
        return
    if reason != "exit":
        return
    procs = k.soft.get("at_exit", [])
    if rc == 0:
        left = [p for p in procs if p[1] != "reaped"]
        if left:
            k.violation("C09:left", "after a successful copy %s is still %s" % left[0])
    run = [p.name for p in k.procs.values() if p is not k.me and p.state == "running"]
    if run:
        k.violation("C09:running", "%s keeps running after the copy ended with status %s" % (run[0], rc))


def j_c10(k, env, plan, rc, reason):
    if stuck(k, reason, "C10"):
        return
    if reason == "exit" and rc == 0:
        for e in content_errors(k, env, plan)[:1]:
            k.violation("C10:content", "exit status 0 but " + e)
    if reason == "exit" and rc != 0:
        k.violation("C10:failed", "exit status %d although nothing was wrong: %s" % (rc, tail(k, env)))


WANTED = {"scheduler": "none", "max_ratio": "1"}


def j_c11(k, env, plan, rc, reason):
    if stuck(k, reason, "C11") or reason != "exit":
        return
    for n, a in sorted(env.attrs.items()):
        if a.orig == WANTED[n] and a.writes and not a.cfg.get("weird"):
            k.violation("C11:needless", "%s already was %s but was written" % (n, a.orig))
        if a.value != a.orig:
            restore_broken = bool(a.cfg.get("fail_writes") and max(a.cfg["fail_writes"]) >= 2 or a.cfg.get("fail_restore")
                                  or a.cfg.get("open_w_fails"))
            if not restore_broken:
                k.violation("C11:restore", "%s is left at %r instead of %r (exit status %d)" % (n, a.value, a.orig, rc))
            elif rc == 0:
                k.violation("C11:unreported", "%s could not be restored but the exit status is 0" % n)
    for n, what in sorted(k.soft.get("_untuned", {}).items()):
        cfg = env.attrs[n].cfg
        if not plan.get("faults") and not cfg.get("read_errno") and not cfg.get("deny") and cfg.get("fail_value") != WANTED[n] and \
                1 not in cfg.get("fail_writes", ()) and WANTED[n] in cfg.get("options", (WANTED[n],)):
            k.violation("C11:untuned", "%s could be changed but is %s" % (n, what))
    if plan.get("must"):
        if rc != 0:
            k.violation("C11:failed", "exit status %d although only the tuning was impossible: %s" % (rc, tail(k, env)))
        else:
            for e in content_errors(k, env, plan)[:1]:
                k.violation("C11:content", "exit status 0 but " + e)


def j_c12(k, env, plan, rc, reason):
    if stuck(k, reason, "C12"):
        return
    verdict = plan["sig_verdict"]
    if verdict == "invalid":
        if reason == "exit" and rc == 0:
            k.violation("C12:accepted", "exit status 0 although the signature does not verify (%s)" % plan["sig_why"])
        if env.dest is not None and env.dest.kind == "blk" and env.watch.first is not None:
            k.violation("C12:written", "the device was written although the signature does not verify (%s)"
                        % plan["sig_why"])
    elif verdict == "valid" and not plan.get("faults") and reason == "exit":
        if rc != 0:
            k.violation("C12:refused", "exit status %d although the signature is fine (%s): %s"
                        % (rc, plan["sig_why"], tail(k, env)))
    if verdict == "valid" and reason == "exit" and rc == 0:
        for e in content_errors(k, env, plan)[:1]:
            k.violation("C12:content", "exit status 0 but " + e)


def j_c17(k, env, plan, rc, reason):
    if rc == 120 and any(f.get("role") == "stderr" and f.get("sticky") for f in (plan["faults"][i] for i in k.fired)):
        rc = 0  # the interpreter's own way of saying that the standard error cannot be flushed
    must_succeed(k, env, plan, rc, reason, "C17")
    seqs = []
    data = b"".join(env.psplash_log) + (bytes(env.psplash_fifo.buf) if env.psplash_fifo else b"")
    reliable = plan.get("psplash", {}).get("reliable")
    if data or reliable:
        seqs.append(("psplash", [int(x) for x in re.findall(rb"PROGRESS (-?\d+)\n", data)]))
        rest = re.sub(rb"PROGRESS \d+\n", b"", data)
        if rest and not plan["psplash"].get("die_after"):
            k.violation("C17:psplash", "unexpected psplash data %r" % rest[:80])
    closed = plan.get("closed", ())
    if "stderr" not in closed and (plan.get("api") or "stdout" not in closed) and (
            env.stderr.kind == "tty" or plan.get("api", {}).get("progress")):
        t = env.stderr.get(0, env.stderr.size)
        seqs.append(("terminal", [int(x) for x in re.findall(rb"(-?\d+)% copied|Copied (-?\d+)%", t) for x in x if x]))
    for name, s in seqs:
        if any(b < a for a, b in zip(s, s[1:])):
            k.violation("C17:percent", "%s percentages decrease: %s" % (name, s[:40]))
        if any(x < 0 or x > 100 for x in s):
            k.violation("C17:percent", "%s percentages leave 0..100: %s" % (name, s[:40]))
        if reason == "exit" and rc == 0 and env.mapped and (not s or s[-1] != 100):
            # the terminal is only used when standard output is a terminal as well
            if name == "terminal" and plan.get("full_progress") and (
                    plan.get("api") or plan.get("tty") is True or "stdout" in (plan.get("tty") or ())) or \
                    name == "psplash" and reliable:
                k.violation("C17:percent", "%s never reaches 100: %s" % (name, s[-5:]))
    return {"percents": [len(s) for _, s in seqs]}


def j_c18(k, env, plan, rc, reason):
    if stuck(k, reason, "C18"):
        return
    v = plan["verdict"]
    if reason != "exit":
        return
    if v == "ok":
        if rc != 0:
            k.violation("C18:failed", "exit status %d: %s (%s)" % (rc, tail(k, env), plan["why"]))
        else:
            for e in content_errors(k, env, plan)[:1]:
                k.violation("C18:content", "exit status 0 but " + e)
    elif v == "fail":
        if rc == 0:
            k.violation("C18:accepted", "exit status 0 although %s" % plan["why"])
        if env.dest is not None and env.dest.kind == "blk" and env.watch.first is not None:
            k.violation("C18:written", "the device was written although %s" % plan["why"])


def j_c19(k, env, plan, rc, reason):
    if stuck(k, reason, "C19") or reason != "exit":
        return
    hard = [plan["faults"][i] for i in k.fired]
    hard = [f for f in hard if f.get("kind") == "errno" and (f.get("role"), f["op"]) in (
        ("dest", "write"), ("dest", "fsync"), ("image", "read"))]
    if hard and rc == 0:
        k.violation("C19:ignored", "exit status 0 although %s of the %s failed" % (hard[0]["op"], hard[0]["role"]))
    if rc == 0:
        d = dest_inode(k, env)
        if d is None:
            k.violation("C19:content", "exit status 0 without output")
            return
        for e in content_errors(k, env, plan)[:1]:
            if not (plan.get("short_image") or "size" in k.soft):
                k.violation("C19:content", "exit status 0 but " + e)
        if d.kind in ("reg", "blk"):
            size = d.dur_size if d.kind == "reg" else d.size
            if d.kind == "reg" and size != d.size:
                k.violation("C19:durable", "exit status 0 but only %d of %d bytes of size are on stable storage" % (size, d.size))
            for s, e in env.mapped:
                if d.durable_get(s, e - s) != d.get(s, e - s):
                    k.violation("C19:durable", "exit status 0 but the data of [%d, %d) is not on stable storage" % (s, e))
                    break
    elif plan.get("must"):
        k.violation("C19:failed", "exit status %d although nothing was wrong: %s" % (rc, tail(k, env)))


# -- bmap creation -----------------------------------------------------------------------------


def parse_bmap(text):
    """Independent reader of a bmap.  Returns (facts, None) or (None, why)."""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        return None, "not XML: %s" % e
    if root.tag != "bmap":
        return None, "root element %s" % root.tag
    f = {"version": root.attrib.get("version")}
    try:
        for tag in ("ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount"):
            f[tag] = int(root.find(tag).text)
        f["cs"] = root.find("ChecksumType").text.strip()
        f["own"] = root.find("BmapFileChecksum").text.strip()
        f["ranges"] = []
        for r in root.find("BlockMap").findall("Range"):
            m = re.fullmatch(r"\s*(\d+)\s*(?:-\s*(\d+)\s*)?", r.text)
            a = int(m.group(1))
            b = int(m.group(2)) if m.group(2) else a
            f["ranges"].append((a, b, r.attrib.get("chksum")))
    except (AttributeError, ValueError, TypeError) as e:
        return None, "incomplete: %s" % e
    return f, None


def intervals_to_blocks(ivs, bs, size):
    """Maximal block ranges touched by byte intervals."""
    out = []
    for s, e in sorted(ivs):
        e = min(e, size)
        if e <= s:
            continue
        a, b = s // bs, (e - 1) // bs
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def bmap_errors(text, env, plan, k):
    f, why = parse_bmap(text)
    if f is None:
        return [why]
    out = []
    img = env.image
    bs = f["BlockSize"]
    want = plan["expect"]
    cs = ((plan["create"].get("api") or {}).get("cs") or "sha256").lower()
    if f["cs"] != cs:
        out.append("checksum type %s instead of %s" % (f["cs"], cs))
    if f["ImageSize"] != len(img):
        out.append("image size %d instead of %d" % (f["ImageSize"], len(img)))
    lay = plan["src"].get("layout") or {}
    ok = {want["bs"]}
    if any(x.get("op") == "figetbsz" for x in plan.get("faults", ())):
        # a block size the kernel does not tell is taken from elsewhere
        ok |= {lay.get("bsz"), lay.get("blksize")}
    if bs not in ok:
        out.append("block size %d instead of %d" % (bs, want["bs"]))
        return out
    if f["BlocksCount"] != (len(img) + bs - 1) // bs:
        out.append("block count %d" % f["BlocksCount"])
    ranges = [(a, b) for a, b, _ in f["ranges"]]
    if f["MappedBlocksCount"] != sum(b - a + 1 for a, b in ranges):
        out.append("mapped count %d but the ranges have %d blocks" % (f["MappedBlocksCount"],
                                                                    sum(b - a + 1 for a, b in ranges)))
    prev = -1
    for a, b in ranges:
        if a <= prev or b < a or b >= (len(img) + bs - 1) // bs:
            out.append("ranges are not ascending, disjoint and inside the image: %s" % (ranges[:20],))
            break
        prev = b
    merged = []
    for a, b in ranges:
        if merged and a == merged[-1][1] + 1:
            merged[-1] = (merged[-1][0], b)
        else:
            merged.append((a, b))
    exp = [tuple(x) for x in intervals_to_blocks([tuple(i) for i in want["data"]], bs, len(img))]
    if not out and merged != exp:
        out.append("ranges %s, but mapped data is in blocks %s" % (merged[:10], exp[:10]))
    for a, b, c in f["ranges"]:
        if want.get("checksums", True):
            if c is None:
                out.append("range %d-%d has no checksum" % (a, b))
                break
            if hashlib.new(f["cs"], img[a * bs:(b + 1) * bs]).hexdigest() != c:
                out.append("checksum of range %d-%d is wrong" % (a, b))
                break
        elif c is not None:
            out.append("range %d-%d has a checksum" % (a, b))
            break
    own = f["own"]
    if not re.fullmatch("[0-9a-f]+", own) or hashlib.new(
            f["cs"], text.replace(own.encode(), b"0" * len(own), 1)).hexdigest() != own:
        out.append("the file's own checksum is wrong")
    return out


def created_text(k, env, plan):
    if plan["create"].get("output", True):
        ino = k.exists(env.bmap_out)
        return None if ino is None else ino.get(0, ino.size)
    return env.stdout.get(0, env.stdout.size)


def j_c13(k, env, plan, rc, reason):
    if plan.get("stage") == "copy":
        must_succeed(k, env, plan, rc, reason, "C13:copy")
        return
    if stuck(k, reason, "C13") or reason != "exit":
        return
    for e in files_unchanged(k, env)[:1]:
        k.violation("C13:modified", e)
    if rc == 0:
        if plan.get("must_fail"):
            k.violation("C13:accepted", "exit status 0 although %s" % plan["must_fail"])
            return
        hard = [plan["faults"][i] for i in k.fired] if plan.get("faults") else []
        text = created_text(k, env, plan)
        if text is None:
            k.violation("C13:bmap", "exit status 0 but there is no bmap")
            return
        for e in bmap_errors(text, env, plan, k)[:1]:
            k.violation("C13:bmap", "exit status 0 but in the bmap: %s%s" % (e, " (after %s)" % hard if hard else ""))
        return {"carry": {"text": text}}
    elif plan.get("must"):
        k.violation("C13:failed", "exit status %d although nothing was wrong: %s" % (rc, tail(k, env)))


def j_c14(k, env, plan, rc, reason):
    if plan.get("stage") == "copy":
        # a copy with what the broken-off creation left
        if stuck(k, reason, "C14") or reason != "exit" or rc != 0:
            return
        if plan["bmap"]["text"] == plan["good_text"]:
            return
        k.violation("C14:accepted", "a later copy accepted an incomplete bmap (%d of %d bytes)"
                    % (len(plan["bmap"]["text"]), len(plan["good_text"])))
        return
    if stuck(k, reason, "C14"):
        return
    if reason == "exit" and rc == 0:
        text = created_text(k, env, plan)
        if text is None or bmap_errors(text, env, plan, k):
            k.violation("C14:success", "exit status 0 but the bmap is incomplete: %s"
                        % ("missing" if text is None else bmap_errors(text, env, plan, k)[0]))
        hard = [plan["faults"][i] for i in k.fired]
        hard = [f for f in hard if f.get("kind") == "errno" and f.get("op") == "write" and f.get("role") in ("bmapout", "stdout")]
        if hard and plan["create"].get("output", True) is (hard[0]["role"] == "bmapout"):
            k.violation("C14:ignored", "exit status 0 although writing the bmap failed")
    elif reason == "exit" and plan.get("must"):
        k.violation("C14:failed", "exit status %d although nothing was wrong: %s" % (rc, tail(k, env)))


# ---------------------------------------------------------------------------------------------
# Drivers of the programming interface
# ---------------------------------------------------------------------------------------------


def drive_filemap(k, env, plan):
    """Query block maps of one file through one class."""
    from bmaptools import Filemap
    q = plan["query"]
    cls = {"seek": getattr(Filemap, "FilemapSeek", None), "fiemap": getattr(Filemap, "FilemapFiemap", None),
           "any": Filemap.filemap}[q["cls"]]
    from . import sim
    arg = env.src_arg if q.get("by_path") else sim.open_image(env, plan)
    fm = cls(arg)
    k.soft["opened"] = True
    out = []
    k.soft["_answers"] = out
    bs, n = fm.block_size, fm.blocks_cnt
    out.append(("geom", bs, n, fm.image_size))
    for a in q["asks"]:
        first = int(a["at"] * n)
        first = max(0, min(n - 1, first))
        count = max(1, min(n - first, a["count"]))
        if a["kind"] == "ranges":
            m = [tuple(r) for r in fm.get_mapped_ranges(first, count)]
            u = [tuple(r) for r in fm.get_unmapped_ranges(first, count)]
            out.append(("ranges", first, count, m, u))
        elif a["kind"] == "inter":
            # iterations side by side, in any order, with other queries in between
            import random
            rng = random.Random(a["at"])
            f2 = max(0, min(n - 1, int(a.get("at2", a["at"]) * n)))
            c2 = max(1, min(n - f2, a.get("count2", count)))
            its = [(iter(g), l) for g, l in ((fm.get_mapped_ranges(first, count), []), (fm.get_unmapped_ranges(first, count), []),
                                             (fm.get_mapped_ranges(f2, c2), []), (fm.get_unmapped_ranges(f2, c2), []))]
            live = list(its)
            while live:
                it = rng.choice(live)
                r = next(it[0], None)
                if r is None:
                    live.remove(it)
                else:
                    it[1].append(tuple(r))
                if rng.random() < 0.2:
                    b = rng.randrange(n)
                    out.append(("block", b, bool(fm.block_is_mapped(b)), bool(fm.block_is_unmapped(b))))
            out.append(("ranges", first, count, its[0][1], its[1][1]))
            out.append(("ranges", f2, c2, its[2][1], its[3][1]))
        else:
            out.append(("block", first, bool(fm.block_is_mapped(first)), bool(fm.block_is_unmapped(first))))
    k.soft["completed"] = True
    return 0


def j_c15(k, env, plan, rc, reason):
    if stuck(k, reason, "C15") or reason != "exit":
        return
    want = plan["expect"]
    bs, size = want["bs"], len(env.image)
    n = (size + bs - 1) // bs
    mapped = intervals_to_blocks([tuple(i) for i in want["data"]], bs, size)
    if rc != 0:
        if plan.get("must"):
            k.violation("C15:failed", "the query failed: %s" % tail(k, env))
        return
    hard = [plan["faults"][i] for i in k.fired] if plan.get("faults") else []
    if hard and not plan.get("may_absorb"):
        k.violation("C15:swallowed", "the kernel reported an error (%s) but the query succeeded" % (hard[0],))
    for ans in k.soft.get("_answers", ()):
        if ans[0] == "geom":
            if ans[1:] != (bs, n, size):
                k.violation("C15:geometry", "geometry %s instead of %s" % (ans[1:], (bs, n, size)))
                return
        elif ans[0] == "ranges":
            _, first, count, m, u = ans
            e = partition_errors(first, count, m, u, mapped)
            if e:
                k.violation("C15:partition", "blocks %d+%d: %s" % (first, count, e))
                return
        else:
            _, b, im, iu = ans
            if im == iu:
                k.violation("C15:block", "block %d is both or neither mapped and unmapped" % b)
            if im != bool(clipped(mapped, b, b)):
                k.violation("C15:block", "block %d is reported as %s" % (b, "mapped" if im else "unmapped"))
    if rc == 0 and not k.soft.get("completed"):
        raise SimBug("query driver ended early")


def partition_errors(first, count, m, u, mapped):
    for name, l in (("mapped", m), ("unmapped", u)):
        prev = None
        for a, b in l:
            if a > b:
                return "%s range %d-%d is empty" % (name, a, b)
            if a < first or b >= first + count:
                return "%s range %d-%d leaves the interval" % (name, a, b)
            if prev is not None and a <= prev:
                return "%s ranges are not ascending and disjoint" % name
            if prev is not None and a == prev + 1:
                return "%s ranges are not maximal at block %d" % (name, a)
            prev = b
    sm, su, want = joined(m), joined(u), clipped(mapped, first, first + count - 1)
    both = common(sm, su)
    if both:
        return "block %d is in both lists" % both[0][0]
    rest = holes(joined(sm + su), first, first + count - 1)
    if rest:
        return "block %d is in neither list" % rest[0][0]
    lost = common(want, su)
    if lost:
        return "block %d holds data but is listed as unmapped" % lost[0][0]
    extra = common(holes(want, first, first + count - 1), sm)
    if extra:
        return "block %d is a hole but is listed as mapped" % extra[0][0]
    return None


def joined(ranges):
    """Ascending, disjoint ranges that cover the same blocks."""
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def clipped(ranges, lo, hi):
    return [(max(a, lo), min(b, hi)) for a, b in ranges if a <= hi and b >= lo]


def holes(ranges, lo, hi):
    """What ascending, disjoint ranges leave of [lo, hi]."""
    out = []
    for a, b in ranges:
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
    return out + [(lo, hi)] if lo <= hi else out


def common(x, y):
    out = []
    for a, b in x:
        out += clipped(y, a, b)
    return sorted(out)


def drive_transread(k, env, plan):
    """A sequence of reads and seeks through the transparent reader, compared step by step."""
    from bmaptools import TransRead
    img = env.image
    end = len(img)
    pos = 0
    t = TransRead.TransRead(env.src_arg)
    k.soft["opened"] = True
    can_fail = bool(plan.get("faults") or plan.get("broken"))
    steps = k.soft["_log"] = []
    for n, op in enumerate(plan["ops"]):
        kind = op[0]
        try:
            if kind == "read":
                size = op[1]
                d = t.read(size) if size is not None else t.read()
                want = img[pos:] if size is None or size < 0 else img[pos:pos + size]
                if d != want:
                    if len(d) > len(want) or d != want[:len(d)]:
                        k.violation("C16:data", "step %d: read(%s) at %d returned wrong data (%d bytes, expected %d)"
                                    % (n, size, pos, len(d), len(want)))
                        return 0
                    if len(d) == 0 or size is None or size < 0:
                        k.violation("C16:early-end", "step %d: read(%s) at %d reports the end of data, %d bytes are left"
                                    % (n, size, pos, end - pos))
                        return 0
                    # a short read in the middle is allowed if the rest follows
                    k.soft["short"] = k.soft.get("short", 0) + 1
                pos += len(d)
            elif kind == "seek":
                off, whence = op[1], op[2]
                new = off if whence == 0 else pos + off if whence == 1 else end + off
                back = new < pos
                r = t.seek(off, whence)
                if plan["seekable"] or plan["src"]["kind"] == "fileurl" and plan["src"]["comp"] == "none":
                    pos = new
                    if can_fail and new > end and t.tell() == end:
                        pos = end  # an error made it read instead of seek
                elif back or whence == 2:
                    k.violation("C16:bad-seek", "step %d: a seek the source cannot do was not refused" % n)
                    return 0
                else:
                    pos = min(new, end)
                if r is not None and plan.get("seek_result") and r != pos:
                    k.violation("C16:position", "step %d: seek(%d, %d) returned %d instead of %d" % (n, off, whence, r, pos))
                    return 0
            p = t.tell()
            if p != pos:
                k.violation("C16:position", "step %d (%s): position %s instead of %d" % (n, op, p, pos))
                return 0
        except TransRead.Error as e:
            if kind == "seek" and not plan["seekable"] and (back or whence == 2):
                k.soft["refused"] = k.soft.get("refused", 0) + 1
                if t.tell() != pos:
                    k.violation("C16:position", "step %d: a refused seek moved the position" % n)
                    return 0
                continue
            if can_fail:
                k.soft["err"] = str(e)[:100]
                return 1
            k.violation("C16:error", "step %d (%s): %s" % (n, op, e))
            return 0
        except SimBug:
            raise
        except (OSError, ValueError, MemoryError, EOFError) as e:
            import http.client
            if can_fail:
                k.soft["err"] = str(e)[:100]
                return 1
            if kind == "seek" and (new < 0 or not plan["seekable"] and (back or whence == 2)):
                if new >= 0 or not plan["seekable"]:
                    pass
                continue
            k.violation("C16:error", "step %d (%s): %s: %s" % (n, op, type(e).__name__, e))
            return 0
        except Exception as e:
            if can_fail:
                k.soft["err"] = "%s: %s" % (type(e).__name__, str(e)[:100])
                return 1
            k.violation("C16:error", "step %d (%s): %s: %s" % (n, op, type(e).__name__, e))
            return 0
    t.close()
    k.soft["completed"] = True
    return 0


def j_c16(k, env, plan, rc, reason):
    if stuck(k, reason, "C16") or reason != "exit":
        return
    if rc != 0 and not (plan.get("faults") or plan.get("broken")):
        k.violation("C16:error", "opening failed: %s" % tail(k, env))


UNITS = ("byte", "bytes", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB")


def size_error(text, lo, hi=None):
    """Why a rendered size does not stand for a number of bytes (or one between two)."""
    hi = lo if hi is None else hi
    m = re.fullmatch(r"(\d+(?:\.\d)?) ([A-Za-z]+)", text)
    if not m or m.group(2) not in UNITS:
        return "%r is not a size" % text
    v, u = float(m.group(1)), m.group(2)
    if u in ("byte", "bytes"):
        if not lo <= v <= hi or (v == 1) != (u == "byte") or v >= 1024:
            return "%r instead of %s bytes" % (text, lo)
        return None
    unit = 1024.0 ** (UNITS.index(u) - 1)
    if not lo / unit - 0.0501 <= v <= hi / unit + 0.0501:
        return "%r instead of %s bytes" % (text, lo if lo == hi else "%s to %s" % (lo, hi))
    if v >= 1024.05 and u != "EiB" or v < 0.45:
        return "%r is hard to read" % text
    if hi < unit * (1 - 1e-9) and u != "KiB":
        return "%r instead of %s bytes, which a smaller unit fits" % (text, hi)
    return None


def time_error(text, lo, hi):
    m = re.fullmatch(r"(?:(\d+)h )?(?:(\d+)m )?(\d+\.\d)s", text)
    if not m:
        return "%r is not a duration" % text
    h, mi, s = int(m.group(1) or 0), int(m.group(2) or 0), float(m.group(3))
    if mi >= 60 or s > 60.01:
        return "%r is hard to read" % text
    if not lo - 0.051 <= h * 3600 + mi * 60 + s <= hi + 0.051:
        return "%r but it took %.3f to %.3f s" % (text, lo, hi)
    return None


def j_c20(k, env, plan, rc, reason):
    if plan["run"] == "create":
        if stuck(k, reason, "C20") or reason != "exit" or rc != 0:
            return
        return reported_create(k, env, plan)
    must_succeed(k, env, plan, rc, reason, "C20:copy")
    if reason != "exit" or rc != 0 or env.stderr.kind not in ("reg", "tty"):
        return
    said = env.stderr.get(0, env.stderr.size).decode("utf-8", "replace")

    def bad(what, why):
        k.violation("C20:" + what, "reported after a complete copy: " + why)

    if "--quiet" in plan["opts"]:
        if "info:" in said:
            bad("quiet", "%s although asked to be quiet" % said[:200].strip().replace("\n", " | "))
        return
    mapped = len(env.image)
    if not is_nobmap(plan):
        bs, size = env.spec["bs"], len(env.image)
        n = (size + bs - 1) // bs
        cnt = sum(b - a + 1 for a, b in env.spec["ranges"])
        mapped = cnt * bs
        m = re.search(r"(\d+) blocks of size (\d+) \(([^)]*)\), mapped (\d+) blocks \((.*) or (\d+\.\d)%\)", said)
        if not m:
            bad("blocks", "no block counts")
        elif (int(m.group(1)), int(m.group(2)), int(m.group(4))) != (n, bs, cnt):
            bad("blocks", "%s, but there are %d blocks of %d bytes, %d mapped" % (m.group(0), n, bs, cnt))
        elif size_error(m.group(3), size):
            bad("size", "image size " + size_error(m.group(3), size))
        elif size_error(m.group(5), mapped):
            bad("size", "mapped size " + size_error(m.group(5), mapped))
        elif abs(float(m.group(6)) - 100.0 * cnt / n) > 0.0501:
            bad("percent", "%s%% mapped instead of %.2f%%" % (m.group(6), 100.0 * cnt / n))
        m = re.search(r"block map format version (\S+)", said)
        if not m or m.group(1) != plan["bmap"]["version"]:
            bad("version", "block map format version %s instead of %s" % (m and m.group(1), plan["bmap"]["version"]))
    t = env.times
    lo = (t.synced - t.said) / 1e9 if t.synced and t.said else 0
    hi = (k.now - t.opened) / 1e9
    m = re.search(r"copying time: ([^,\n]*), copying speed (.*)/sec", said)
    if not m:
        if lo > 0.01:
            bad("time", "no copying time")
        return
    e = time_error(m.group(1), lo, hi)
    if e:
        bad("time", "copying time " + e)
        return
    # the speed: the mapped amount over that time
    e = size_error(m.group(2), max(0, mapped / max(hi, 1e-9) - 1), mapped / max(lo, 1e-9))
    if e:
        bad("speed", "copying speed " + e + " a second")
    return {"took": m.group(1)}


def reported_create(k, env, plan):
    text = created_text(k, env, plan)
    f, why = parse_bmap(text or b"")
    if f is None:
        k.violation("C20:bmap", "the bmap is " + why)
        return
    t = text.decode("utf-8", "replace")
    n, size = f["BlocksCount"], len(env.image)
    cnt = sum(b - a + 1 for a, b, _ in f["ranges"])
    m = re.search(r"Image size in bytes: (.*?) *-->", t)
    e = size_error(m.group(1), size) if m else "missing"
    if e:
        k.violation("C20:size", "in the bmap: image size %s" % e)
    m = re.search(r"Count of mapped blocks: (.*?) or (\d+\.\d)% *-->", t)
    if not m:
        k.violation("C20:size", "in the bmap: no count of mapped blocks in words")
        return
    e = size_error(m.group(1), cnt * f["BlockSize"])
    if e:
        k.violation("C20:size", "in the bmap: mapped size %s" % e)
    if abs(float(m.group(2)) - 100.0 * cnt / n) > 0.0501:
        k.violation("C20:percent", "in the bmap: %s%% mapped instead of %.2f%%" % (m.group(2), 100.0 * cnt / n))
    said = env.stderr.get(0, env.stderr.size).decode("utf-8", "replace")
    m = re.search(r"all (.*) are mapped, no holes in '(.*)'", said)
    if bool(m) != (cnt == n) and "stderr" not in plan.get("closed", ()):
        k.violation("C20:holes", "%d of %d blocks are mapped, but %s warning about an image without holes" % (cnt, n, "a" if m else "no"))
    elif m and (size_error(m.group(1), size) or m.group(2) != env.src_arg):
        k.violation("C20:holes", "%s: the image is %s with %d bytes" % (m.group(0), env.src_arg, size))


def j_c21(k, env, plan, rc, reason):
    x = plan["args"]
    if not x.get("clash"):
        must_succeed(k, env, plan, rc, reason, "C21:fine")
        return
    if stuck(k, reason, "C21") or reason != "exit":
        return
    why = plan["args_why"]
    if rc == 0:
        k.violation("C21:accepted", "exit status 0 with contradictory options (%s)" % why)
    d = dest_inode(k, env)
    for e in files_unchanged(k, env)[:1]:
        k.violation("C21:other-file", e)
    early = why != "sig+nobmap" or x.get("more")
    if d is not None and (early or d.kind == "blk") and (d.created or d.get(0, d.size) != getattr(env, "dest_before", env.dest_old)):
        k.violation("C21:written", "the destination was %s in spite of contradictory options (%s)"
                    % ("created" if d.created else "changed", why))
    if d is not None and not early and d.kind == "blk" and d.wver:
        k.violation("C21:written", "the destination was written in spite of contradictory options (%s)" % why)


def j_c22(k, env, plan, rc, reason):
    if plan.get("map") == "odd":
        must_succeed(k, env, plan, rc, reason, "C22:odd")
        return
    if stuck(k, reason, "C22") or reason != "exit":
        return
    why = plan.get("map_why")
    if rc == 0:
        k.violation("C22:accepted", "exit status 0 although the block map is contradictory (%s)" % why)
    d = dest_inode(k, env)
    if d is not None and d.kind == "blk" and plan.get("map") == "bad-head" and d.get(0, d.size) != env.dest_old:
        k.violation("C22:written", "the device was written although the block map is contradictory (%s)" % why)
    end = plan.get("map_end")
    if end is not None and d is not None and d.kind == "blk" and d.get(end, d.size - end) != env.dest_old[end:]:
        k.violation("C22:beyond", "the device was written beyond the end the block map declares (%s)" % why)


def j_c23(k, env, plan, rc, reason):
    if plan.get("benign"):
        must_succeed(k, env, plan, rc, reason, "C23", plan["api"]["again"][-1]["sync"])
        said = [x for x in k.soft.get("_outcomes", ()) if x]
        if said and not k.violations:
            k.violation("C23:failed", "a copy failed although nothing was wrong: " + said[0])
        return
    honest(k, env, plan, rc, reason, "C23", plan["api"]["again"][-1]["sync"])
    if reason == "exit" and rc != 0 and plan.get("seekable") and len(k.soft.get("_outcomes", ())) == len(plan["api"]["again"]) \
            and len(k.fired) == k.soft["_fired_before"] and not any(f.get("sticky") for f in plan["faults"]):
        k.violation("C23:failed", "the last copy failed although nothing was wrong any more: %s" % k.soft["_outcomes"][-1])


INTERNAL = ("TypeError", "AttributeError", "NameError", "UnboundLocalError", "AssertionError", "ZeroDivisionError", "ValueError",
            "IndexError", "KeyError", "OverflowError", "RuntimeError", "RecursionError", "UnicodeError", "UnicodeDecodeError",
            "UnicodeEncodeError", "struct.error", "StopIteration", "NotImplementedError", "LookupError", "SyntaxError")


# operations whose failure a message has to explain
REASONS = {"dest": ("write", "fsync", "ftruncate", "open"), "image": ("read",), "output": ("write", "open")}


def j_c24(k, env, plan, rc, reason):
    faults = plan.get("faults", ())
    if reason != "exit" or rc == 0 or any(f["kind"] in ("interrupt", "crash") or f.get("op") == "figetbsz" for f in faults):
        return
    exc = k.soft.get("exc")
    if exc and exc.split(":")[0] in INTERNAL:
        if exc.startswith("UnicodeDecodeError") and (plan.get("api") or {}).get("bmap_mode") == "r":
            return  # the caller's text file
        k.violation("C24:internal", "ends with an internal error: %s" % exc)
        return
    if exc and exc.startswith("FileNotFoundError") and any(repr(x) in exc for x in plan.get("missing_programs", ())):
        k.violation("C24:program", "a missing program is not reported as such: %s" % exc)
        return
    if env.stderr.kind not in ("reg", "tty") or "stderr" in plan.get("closed", ()) or plan.get("unbuffered") or \
            plan["run"] not in ("copy", "create") or any(f.get("role") == "stderr" for f in faults):
        return
    said = env.stderr.get(0, env.stderr.size).decode("utf-8", "replace")
    if not exc and not re.search(r"ERROR|error:", said):
        k.violation("C24:silent", "fails without saying why (exit status %s): %s" % (rc, tail(k, env)))
        return
    f = faults[0] if len(faults) == 1 else {}
    if any(x in str(plan.get("sysfs")) for x in ("fail", "refuse")):
        return  # another error, which may be reported instead
    if f.get("kind") == "errno" and f["site"] == "op" and k.fired and f["op"] in REASONS.get(f["role"], ()):
        if os.strerror(f["errno"]) not in said[0 if exc else said.rindex("ERROR"):]:
            k.violation("C24:reason", "%s of the %s failed with '%s', which is not reported: %s" % (
                f["op"], f["role"], os.strerror(f["errno"]), tail(k, env)))


JUDGES = {
    "C01": j_c01, "C02": j_c02, "C03": j_c03, "C04": j_c04, "C05": j_c05, "C06": j_c06, "C07": j_c07, "C08": j_c08,
    "C09": j_c09, "C10": j_c10, "C11": j_c11, "C12": j_c12, "C13": j_c13, "C14": j_c14, "C15": j_c15, "C16": j_c16,
    "C17": j_c17, "C18": j_c18, "C19": j_c19, "C20": j_c20, "C21": j_c21, "C22": j_c22, "C23": j_c23, "C24": j_c24,
}
