"""
The simulated machine: scheduler, virtual time, file system, pipes, processes, network, faults.

Everything a run does is a function of (plan, code under test).  The kernel never reads a real clock
and never draws from an unseeded generator.

Tasks are of two kinds: Python threads of the program under test (parked on a real lock, released one
at a time) and generators (child processes, servers, other users of the machine), stepped in place.
"""

import errno
import hashlib
import os as _os
import random
import stat as _stat

from . import real

PG = 4096
ZPG = bytes(PG)
MS = 1_000_000
SEC = 1_000_000_000


class SimBug(BaseException):
    """The harness itself misbehaved (never a violation)."""

    raised = []

    def __init__(self, *a):
        super().__init__(*a)
        SimBug.raised.append(" ".join(str(x) for x in a))


def oserr(code, path=None):
    msg = real.strerror(code)
    return OSError(code, msg) if path is None else OSError(code, msg, path)


# ---------------------------------------------------------------------------------------------
# Tasks
# ---------------------------------------------------------------------------------------------


class Task:
    __slots__ = ("tid", "name", "gen", "sem", "pred", "deadline", "waiting", "done", "proc", "prio",
                 "ident", "daemon", "sentinel", "nsteps", "timed_out", "where")

    def __init__(self, tid, name, gen=None, proc=None):
        self.tid, self.name, self.gen, self.proc = tid, name, gen, proc
        self.sem = None
        self.pred = None
        self.deadline = None
        self.waiting = False
        self.done = False
        self.prio = 0.0
        self.ident = None
        self.daemon = True
        self.sentinel = None
        self.nsteps = 0
        self.timed_out = False
        self.where = ""


class Wait:
    """Yielded by generator tasks that cannot go on before pred() holds or the deadline passes."""

    __slots__ = ("pred", "deadline")

    def __init__(self, pred, deadline=None):
        self.pred, self.deadline = pred, deadline


# ---------------------------------------------------------------------------------------------
# Storage
# ---------------------------------------------------------------------------------------------


class Inode:
    _kinds = {"reg": _stat.S_IFREG, "dir": _stat.S_IFDIR, "blk": _stat.S_IFBLK, "chr": _stat.S_IFCHR,
              "fifo": _stat.S_IFIFO, "lnk": _stat.S_IFLNK, "attr": _stat.S_IFREG, "null": _stat.S_IFCHR,
              "tty": _stat.S_IFCHR}

    def __init__(self, kernel, kind, role="", mode=0o644):
        kernel.next_ino += 1
        self.ino = kernel.next_ino
        self.kernel = kernel
        self.mtime = kernel.wall()
        self.kind, self.role, self.mode = kind, role, mode
        self.nlink = 1
        self.entries = {} if kind == "dir" else None
        self.parent = None
        self.target = None
        self.rdev = 0
        self.deny = ""  # 'r'/'w': EACCES when opened that way
        self.pages = {}
        self.size = 0
        self.dur_pages = {}
        self.dur_size = 0
        self.log = []  # operations not yet durable: ('w', page, bytes) / ('s', size)
        self.dirty_bytes = 0
        self.lost = 0
        self.excl = None  # holder of an exclusive open (block devices)
        self.pipe = None
        self.attr_read = None
        self.attr_write = None
        # what the kernel reports about holes; None: derived from allocated pages
        self.extents = None  # list of (start, length) for FIEMAP, bytes
        self.fiemap_errno = 0
        self.fiemap_max = None
        self.fiemap_flags = None
        self.data_segs = None  # list of (start, end) for SEEK_DATA/SEEK_HOLE, bytes
        self.delayed = ()  # intervals whose allocation waits until the file is synchronised: FIEMAP does not know them
        self.late = ()  # intervals which somebody still has to write
        self.seek_mode = "ok"
        self.bsz = 4096
        self.figetbsz_errno = 0
        self.blksize = 4096
        self.created = False
        self.wver = 0
        self.corrupt = None

    # -- content ---------------------------------------------------------------------------

    def get(self, off, n):
        """Bytes [off, off+n) clipped to the size."""
        end = min(off + n, self.size)
        if end <= off:
            return b""
        p0, p1 = off // PG, (end - 1) // PG
        pages = self.pages
        if p0 == p1:
            return pages.get(p0, ZPG)[off - p0 * PG:end - p0 * PG]
        if not pages:
            return bytes(end - off)
        b = b"".join([pages.get(p, ZPG) for p in range(p0, p1 + 1)])
        s = off - p0 * PG
        e = end - p0 * PG
        if s == 0 and e == len(b):
            return b
        return b[s:e]

    def put(self, off, data, log=True):
        n = len(data)
        if not n:
            return
        end = off + n
        pages = self.pages
        mv = memoryview(data)
        pos = off
        while pos < end:
            p = pos // PG
            a = pos - p * PG
            ln = min(PG - a, end - pos)
            if ln == PG:
                new = bytes(mv[pos - off:pos - off + PG])
            else:
                old = pages.get(p, ZPG)
                new = old[:a] + bytes(mv[pos - off:pos - off + ln]) + old[a + ln:]
            pages[p] = new
            if log:
                self.log.append(("w", p, new))
            pos += ln
        if log:
            self.dirty_bytes += n
        if end > self.size:
            self.size = end
            if log:
                self.log.append(("s", end))
        self.wver += 1
        if log:
            self.mtime = self.kernel.wall()

    def resize(self, size, log=True):
        if size < self.size:
            last = size // PG
            for p in [p for p in self.pages if p > last or (p == last and size % PG == 0)]:
                del self.pages[p]
            if last in self.pages:
                a = size - last * PG
                self.pages[last] = self.pages[last][:a] + bytes(PG - a)
        self.size = size
        self.wver += 1
        if log:
            self.log.append(("s", size))
            self.mtime = self.kernel.wall()

    @staticmethod
    def _apply(pages, size, op):
        if op[0] == "w":
            pages[op[1]] = op[2]
            return size
        new = op[1]
        if new < size:
            last = new // PG
            for p in [p for p in pages if p > last or (p == last and new % PG == 0)]:
                del pages[p]
            if last in pages:
                a = new - last * PG
                pages[last] = pages[last][:a] + bytes(PG - a)
        return new

    def make_durable(self):
        size = self.dur_size
        for op in self.log:
            size = self._apply(self.dur_pages, size, op)
        self.dur_size = size
        self.log = []
        self.dirty_bytes = 0

    def settle(self):
        """Everything present now counts as durable (used when building the initial disk)."""
        self.dur_pages = dict(self.pages)
        self.dur_size = self.size
        self.log = []
        self.dirty_bytes = 0

    def drop_dirty(self):
        """A failed fsync: the cache keeps the data but it will never reach the medium."""
        self.lost += len(self.log)
        self.log = []
        self.dirty_bytes = 0

    def crash_view(self, rng, mode):
        """(pages, size) a reboot may find.  mode: none | all | subset | prefix | torn"""
        pages, size = dict(self.dur_pages), self.dur_size
        ops = self.log
        if mode == "none":
            ops = []
        elif mode == "prefix":
            ops = ops[:rng.randint(0, len(ops))]
        elif mode in ("subset", "torn"):
            keep = rng.random()
            ops = [o for o in ops if rng.random() < keep]
        for op in ops:
            if mode == "torn" and op[0] == "w" and rng.random() < 0.2:
                cut = rng.randrange(0, PG, 512)
                old = pages.get(op[1], ZPG)
                op = ("w", op[1], op[2][:cut] + old[cut:])
            size = self._apply(pages, size, op)
        return pages, size

    def durable_get(self, off, n):
        save = self.pages, self.size
        self.pages, self.size = self.dur_pages, self.dur_size
        try:
            return self.get(off, n)
        finally:
            self.pages, self.size = save


class Pipe:
    def __init__(self, kernel, cap=65536, role=""):
        self.k = kernel
        self.buf = bytearray()
        self.cap = cap
        self.readers = 0
        self.writers = 0
        self.role = role
        self.reset = False  # connection reset: readers get ECONNRESET
        self.ever_writer = False

    # non-blocking primitives: None means "would block"
    def try_read(self, n):
        if self.reset:
            raise oserr(errno.ECONNRESET)
        if self.buf:
            out = bytes(self.buf[:n])
            del self.buf[:n]
            return out
        if self.writers == 0:
            return b""
        return None

    def try_write(self, data):
        if self.readers == 0 or self.reset:
            raise oserr(errno.EPIPE)
        room = self.cap - len(self.buf)
        if room <= 0 or (len(data) <= 4096 and room < len(data)):
            return None
        n = min(room, len(data))
        self.buf += data[:n]
        return n

    def can_read(self):
        return self.reset or self.buf or self.writers == 0

    def can_write(self, n=1):
        if self.readers == 0 or self.reset:
            return True
        room = self.cap - len(self.buf)
        return room > 0 and not (n <= 4096 and room < n)


def without(segs, gone):
    """Intervals minus intervals."""
    for s, e in gone:
        segs = [x for a, b in segs for x in ((a, min(b, s)), (max(a, e), b)) if x[0] < x[1]]
    return segs


class OFD:
    """Open file description."""

    std = False  # one of the standard streams the program was started with

    def __init__(self, kernel, kind, obj, flags=0, role=""):
        self.k, self.kind, self.obj, self.flags, self.role = kernel, kind, obj, flags, role
        self.pos = 0
        self.refs = 0
        self.excl = False
        self.gen_reads = 0
        if kind == "pr":
            obj.readers += 1
        elif kind == "pw":
            obj.writers += 1
            obj.ever_writer = True

    @property
    def readable(self):
        return self.kind == "pr" or (self.flags & 3) in (_os.O_RDONLY, _os.O_RDWR)

    @property
    def writable(self):
        return self.kind == "pw" or (self.flags & 3) in (_os.O_WRONLY, _os.O_RDWR)

    def drop(self):
        self.refs -= 1
        if self.refs > 0:
            return
        if self.kind == "pr":
            self.obj.readers -= 1
        elif self.kind == "pw":
            self.obj.writers -= 1
        elif self.kind == "ino":
            if self.excl and self.obj.excl is self:
                self.obj.excl = None


class Proc:
    def __init__(self, kernel, pid, name, args):
        self.k, self.pid, self.name, self.args = kernel, pid, name, args
        self.fds = {}
        self.state = "running"  # running, zombie, reaped
        self.code = None
        self.task = None
        self.out_bytes = 0
        self.nth = 0
        self.faults = []
        self.killed_by = None

    def close_all(self):
        for fd in sorted(self.fds):
            self.fds[fd].drop()
        self.fds.clear()

    def exit(self, code):
        if self.state != "running":
            return
        self.close_all()
        self.code = code
        self.state = "zombie"
        self.k.note("proc-exit %s %d" % (self.name, code))

    def signal(self, sig):
        """Sends a signal; the process is gone only when it is its turn to run."""
        if self.state != "running":
            return
        self.killed_by = sig
        t = self.task
        if t is None or t.done:
            self.kill(sig)
            return

        def dying():
            self.kill_now(sig)
            return
            yield

        t.gen.close()
        t.gen = dying()
        t.waiting, t.pred, t.deadline = False, None, None

    def kill_now(self, sig):
        self.exit(-sig)

    def kill(self, sig):
        if self.state != "running":
            return
        self.killed_by = sig
        if self.task is not None:
            self.task.done = True
            self.task.gen.close()
        self.exit(-sig)


# ---------------------------------------------------------------------------------------------
# Kernel
# ---------------------------------------------------------------------------------------------


class Kernel:
    def __init__(self, plan, replay=None):
        self.plan = plan
        sc = plan.get("sched", {})
        self.srng = random.Random("sched:%s" % sc.get("seed", 0))
        self.strategy = sc.get("strategy", "rand")
        self.sticky = sc.get("sticky", 0.0)
        self.bias = sc.get("bias", {})
        self.max_steps = sc.get("max_steps", 300000)
        self.replay = replay
        self.decisions = []
        self.ndec = 0
        self.changepts = set(sc.get("changepts", ()))
        self.now = 0
        self.wall0 = 1_700_000_000 * SEC
        self.wall_off = 0
        self.clock_frozen = None
        self.cost = sc.get("cost", 2000)
        self.tasks = []
        self.next_tid = 0
        self.current = None
        self.main = None
        self.active = False
        self.steps = 0
        self.switches = 0
        self.main_steps = 0
        self.main_lines = 0
        self.booting = False  # the interpreter starts up
        self.next_ino = 1
        self.counts = {}
        self.faults = {}
        self.fired = []
        self.proc_faults = [f for f in plan.get("faults", ()) if f.get("site") == "proc"]
        self.net_faults = [f for f in plan.get("faults", ()) if f.get("site") == "net"]
        self.main_faults = {}
        self.step_faults = {}
        for i, f in enumerate(plan.get("faults", ())):
            if f.get("site") == "op":
                self.faults.setdefault((f["op"], f["role"]), []).append((i, f))
            elif f.get("site") == "main":
                self.main_faults.setdefault(f["at"], []).append((i, f))
            elif f.get("site") == "step":
                self.step_faults.setdefault(f["at"], []).append((i, f))
        self.h = hashlib.sha256()
        self.trace = []
        self.trace_len = 0
        self.ihash = hashlib.sha256()
        self.violations = []
        self.finalizer = None
        self.root = Inode(self, "dir", mode=0o755)
        self.root.parent = self.root
        self.all_inodes = [self.root]
        self.procs = {}
        self.next_pid = 100
        self.me = Proc(self, 1, "bmaptool", [])
        self.procs[1] = self.me
        self.programs = {}
        self.proc_count = {}
        self.net = {}
        self.net_log = []
        self.monitors = []
        self.frozen = set()
        self.preempt_every = sc.get("preempt", 0)
        self.preempt_left = None
        self.line_no = 0
        self.env = None
        self.crashed = False
        self.bufsize = plan.get("knobs", {}).get("bufsize", 8192)
        self.pipe_cap = plan.get("knobs", {}).get("pipe_cap", 65536)
        self.io_seed = sc.get("ioseed", sc.get("seed", 0))
        self.rio = random.Random("io:%s" % self.io_seed)
        self.p_short_r = plan.get("knobs", {}).get("short_r", 0.0)
        self.p_short_w = plan.get("knobs", {}).get("short_w", 0.0)
        self.p_stall = plan.get("knobs", {}).get("stall", 0.0)
        self.soft = {}
        self.intr = False
        self.line_faults = {}
        for i, f in enumerate(plan.get("faults", ())):
            f["index"] = i
            f.pop("used", None)
            if f.get("site") == "line":
                self.line_faults.setdefault(f["at"], []).append((i, f))
        if self.preempt_every:
            self._arm_preempt()

    # -- bookkeeping -------------------------------------------------------------------------

    def note(self, msg):
        """One line of the event log (hashed; the last ones are kept for the replay file)."""
        line = "%d t%d %s" % (self.now, self.current.tid if self.current else -1, msg)
        self.h.update(line.encode("utf-8", "replace"))
        self.trace_len += 1
        self.trace.append(line)
        if len(self.trace) > 6000:
            del self.trace[:3000]

    def digest(self):
        return self.h.hexdigest()[:24]

    def violation(self, cls, msg):
        if len(self.violations) < 20:
            self.violations.append((cls, msg))
            self.note("VIOLATION %s %s" % (cls, msg))

    # -- scheduling --------------------------------------------------------------------------

    def add_task(self, name, gen=None, proc=None):
        t = Task(self.next_tid, name, gen, proc)
        self.next_tid += 1
        if gen is None:
            t.sem = real.allocate_lock()
            t.sem.acquire()
        t.prio = self.srng.random() + self.bias.get(name.split(":")[0], 0)
        self.tasks.append(t)
        return t

    def _ready(self, t):
        if t.done or t.tid in self.frozen:
            return False
        if not t.waiting or self.intr and t is self.main:
            return True
        if t.pred is not None and t.pred():
            return True
        if t.deadline is not None and self.now >= t.deadline:
            return True
        return False

    def _decide(self, ready, cur):
        n = len(ready)
        if n == 1:
            return ready[0]
        d = self.ndec
        self.ndec += 1
        default = ready.index(cur) if cur in ready else 0
        if self.replay is not None:
            c = self.replay.get(d)
            idx = default if c is None else c % n
        else:
            st = self.strategy
            if st == "default":
                idx = default
            elif st == "pct":
                if d in self.changepts and cur is not None:
                    cur.prio = -self.srng.random() - d * 1e-6
                idx = max(range(n), key=lambda i: (ready[i].prio, -ready[i].tid))
                # never starve completely: spinning tasks would livelock the run
                if self.srng.random() < 0.01:
                    idx = self.srng.randrange(n)
            elif st == "sticky":
                if cur in ready and self.srng.random() < self.sticky:
                    idx = default
                else:
                    idx = self.srng.randrange(n)
            elif st == "bias":
                w = [max(0.02, 1.0 + self.bias.get(t.name.split(":")[0], 0)) for t in ready]
                idx = self.srng.choices(range(n), w)[0]
            else:
                idx = self.srng.randrange(n)
        if idx != default:
            self.decisions.append((d, idx))
        return ready[idx]

    def _switch(self, cur, exiting=False):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.abort("step-limit")
            if self.steps in self.step_faults:
                for i, f in self.step_faults.pop(self.steps):
                    self._step_fault(i, f)
            ready = [t for t in self.tasks if self._ready(t)]
            if not ready:
                dl = [t.deadline for t in self.tasks
                      if not t.done and t.waiting and t.deadline is not None and t.tid not in self.frozen]
                if not dl:
                    self.abort("deadlock")
                self.now = max(self.now, min(dl))
                continue
            t = self._decide(ready, cur)
            t.nsteps += 1
            if t is not cur:
                self.switches += 1
                self.ihash.update(b"%d," % t.tid)
            if t.waiting:
                t.timed_out = not (t.pred is not None and t.pred())
                t.waiting = False
                t.pred = None
                t.deadline = None
            if t.gen is not None:
                self._step_gen(t)
                continue
            self.current = t
            if t is cur:
                return
            t.sem.release()
            if exiting:
                return
            cur.sem.acquire()
            self.current = cur
            return

    def _step_gen(self, t):
        prev, self.current = self.current, t
        try:
            w = next(t.gen)
        except StopIteration:
            t.done = True
        except Exception as e:
            # an error of the machine, not of the program under test
            self.harness_error(e)
        else:
            if isinstance(w, Wait):
                t.waiting, t.pred, t.deadline = True, w.pred, w.deadline
        finally:
            self.current = prev
        if t.done:
            self.tasks.remove(t)

    def pause(self, where=""):
        """A point where another task may run."""
        cur = self.current
        if cur is None or cur.gen is not None or self.booting:
            return
        if cur.tid in self.frozen:
            # the process this thread belonged to is gone
            cur.sem.acquire()
            raise SimBug("frozen thread resumed")
        self.now += self.cost
        if cur is self.main:
            self.main_steps += 1
            fl = self.main_faults.get(self.main_steps)
            if fl:
                for i, f in fl:
                    if f.get("used"):
                        continue
                    f["used"] = True
                    if f["kind"] == "interrupt":
                        self.fire(i, f)
                        self.intr = True
                    if f["kind"] == "crash":
                        self.fire(i, f)
                        self.crash(f)
                    if f["kind"] == "kill":
                        self.fire(i, f)
                        self.abort("killed")
                    if f["kind"] == "clock":
                        self.fire(i, f)
                        self.wall_off += f["by"]
                    if f["kind"] == "freeze-clock":
                        self.fire(i, f)
                        self.clock_frozen = self.wall()
        self._switch(cur)
        if self.intr and cur is self.main:
            self.intr = False
            raise KeyboardInterrupt()

    def block(self, pred, deadline=None, where=""):
        """Wait until pred() holds (True) or the deadline passes (False)."""
        cur = self.current
        if cur is None or cur.gen is not None:
            raise SimBug("block() outside a thread task")
        if pred():
            return True
        cur.waiting, cur.pred, cur.deadline = True, pred, deadline
        cur.where = where
        self._switch(cur)
        if self.intr and cur is self.main:
            self.intr = False
            raise KeyboardInterrupt()
        return pred()

    def sleep(self, ns):
        end = self.now + max(0, ns)
        self.block(lambda: self.now >= end, end, "sleep")

    # -- line level preemption ---------------------------------------------------------------

    def _arm_preempt(self):
        if self.replay is not None:
            self.preempt_left = None
            return
        self.preempt_left = 1 + int(self.srng.expovariate(1.0 / self.preempt_every))

    def line_event(self):
        cur = self.current
        if cur is None or cur.gen is not None:
            return
        self.line_no += 1
        if cur is self.main:
            self.main_lines += 1
            fl = self.line_faults.pop(self.main_lines, None) if self.line_faults else None
            if fl:
                for i, f in fl:
                    self.fire(i, f)
                    if f["kind"] == "interrupt":
                        raise KeyboardInterrupt()
                    if f["kind"] == "crash":
                        self.crash(f)
        if not self.preempt_every:
            return
        if self.replay is not None:
            if ("L", self.line_no) in self.replay:
                self._switch(cur)
            return
        self.preempt_left -= 1
        if self.preempt_left <= 0:
            self._arm_preempt()
            self.decisions.append((("L", self.line_no), 1))
            self.now += 100
            self._switch(cur)

    # -- faults ------------------------------------------------------------------------------

    def fire(self, i, f):
        self.fired.append(i)
        self.note("FAULT %s" % (f,))

    def _step_fault(self, i, f):
        k = f["kind"]
        self.fire(i, f)
        if k == "crash":
            self.crash(f)
        elif k == "clock":
            self.wall_off += f["by"]
        elif k == "interrupt":
            self.intr = True
        elif k == "freeze-clock":
            self.clock_frozen = self.wall()
        elif k == "kill":
            self.abort("killed")

    def crash(self, f):
        self.crashed = True
        self.abort("crash")

    def op(self, op, role, extra=""):
        """Enter a system call: yield, count, log, inject.  Returns a fault for the caller to apply."""
        if self.booting:
            return None
        self.pause(op)
        key = (op, role)
        n = self.counts.get(key, 0) + 1
        self.counts[key] = n
        self.note("%s %s #%d %s" % (op, role, n, extra))
        hit = None
        fl = self.faults.get(key)
        if fl:
            for i, f in fl:
                if f["nth"] == n or (f.get("sticky") and n > f["nth"]):
                    self.fire(i, f)
                    kind = f["kind"]
                    if kind == "errno":
                        raise oserr(f["errno"])
                    if kind == "memerr":
                        raise MemoryError()
                    if kind == "stall":
                        self.sleep(f["ns"])
                    elif kind == "crash":
                        self.crash(f)
                    elif kind == "interrupt":
                        if self.current is self.main:
                            raise KeyboardInterrupt()
                    else:
                        hit = f
        if self.p_stall and self.rio.random() < self.p_stall:
            self.soft["stalls"] = self.soft.get("stalls", 0) + 1
            self.sleep(self.rio.choice((10_000, MS, 50 * MS)))
        return hit

    # -- ends --------------------------------------------------------------------------------

    def abort(self, reason):
        """End of the run from inside the simulation (any thread).  Does not return."""
        self.note("ABORT %s" % reason)
        fin = self.finalizer
        self.active = False
        self.current = None
        if fin is None:
            raise SimBug("abort without finalizer: %s" % reason)
        fin(reason)
        real._exit(70)

    # -- run the program -----------------------------------------------------------------------

    def run_main(self, fn):
        t = self.add_task("main")
        self.main = t
        t.ident = real.get_ident()
        t.daemon = False
        t.proc = self.me
        self.current = t
        self.active = True
        return fn()

    def wait_nondaemon(self):
        """What interpreter shutdown does: wait for non-daemon threads."""
        me = self.main
        others = [t for t in self.tasks if t.gen is None and t is not me and not t.daemon]
        for t in others:
            self.block(lambda t=t: t.done, None, "shutdown")

    def process_exit(self):
        """The program under test is gone: freeze its threads, close its descriptors, let the rest
        of the world run until nothing moves any more."""
        me = self.main
        for t in self.tasks:
            if t.gen is None and t is not me:
                self.frozen.add(t.tid)
        self.me.close_all()
        self.note("process-exit")
        limit = self.steps + 200000

        def quiet():
            others = [t for t in self.tasks if t.gen is not None and not t.done and not t.name.startswith("actor")]
            return not others

        # drain with generators only
        while not quiet() and self.steps < limit:
            ready = [t for t in self.tasks if t.gen is not None and self._ready(t)]
            if not ready:
                dl = [t.deadline for t in self.tasks if t.gen is not None and not t.done and t.waiting and t.deadline is not None]
                if not dl:
                    break
                self.now = max(self.now, min(dl))
                continue
            self.steps += 1
            t = self._decide(ready, None)
            if t.waiting:
                t.waiting, t.pred, t.deadline = False, None, None
            self._step_gen(t)

    # -- paths ---------------------------------------------------------------------------------

    cwd = "/work"

    def walk(self, path, follow=True, depth=0):
        """Resolve to (parent inode, name, inode or None)."""
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        path = str(path)
        if path == "":
            raise oserr(errno.ENOENT, path)
        if depth > 20:
            raise oserr(errno.ELOOP, path)
        full = path if path.startswith("/") else self.cwd + "/" + path
        parts = [p for p in full.split("/") if p not in ("", ".")]
        cur = self.root
        stack = [self.root]
        i = 0
        if not parts:
            return self.root, "", self.root
        while i < len(parts):
            name = parts[i]
            if cur.kind != "dir":
                raise oserr(errno.ENOTDIR, path)
            if name == "..":
                if len(stack) > 1:
                    stack.pop()
                cur = stack[-1]
                i += 1
                if i == len(parts):
                    return cur, "", cur
                continue
            nxt = cur.entries.get(name)
            last = i == len(parts) - 1
            if nxt is None:
                if last:
                    if path.endswith("/"):
                        raise oserr(errno.ENOENT, path)
                    return cur, name, None
                raise oserr(errno.ENOENT, path)
            if nxt.kind == "lnk" and (follow or not last):
                tgt = nxt.target
                rest = "/".join(parts[i + 1:])
                if not tgt.startswith("/"):
                    base = "/" + "/".join(self._names(stack))
                    tgt = base + "/" + tgt
                newp = tgt + ("/" + rest if rest else "")
                return self.walk(newp, follow, depth + 1)
            if last:
                if path.endswith("/") and nxt.kind != "dir":
                    raise oserr(errno.ENOTDIR, path)
                return cur, name, nxt
            cur = nxt
            stack.append(cur)
            i += 1
        return cur, "", cur

    @staticmethod
    def _names(stack):
        out = []
        for parent, child in zip(stack, stack[1:]):
            for n, e in parent.entries.items():
                if e is child:
                    out.append(n)
                    break
        return out

    def lookup(self, path, follow=True):
        _, _, ino = self.walk(path, follow)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        return ino

    def exists(self, path):
        try:
            return self.walk(path)[2]
        except OSError:
            return None

    def mkdirs(self, path):
        cur = self.root
        for name in [p for p in path.split("/") if p]:
            nxt = cur.entries.get(name)
            if nxt is None:
                nxt = Inode(self, "dir", mode=0o755)
                nxt.parent = cur
                cur.entries[name] = nxt
                self.all_inodes.append(nxt)
            elif nxt.kind == "lnk":
                nxt = self.lookup(nxt.target)
            cur = nxt
        return cur

    def add(self, path, kind="reg", role="", data=None, mode=0o644):
        d, _, name = path.rpartition("/")
        parent = self.mkdirs(d)
        ino = Inode(self, kind, role, mode)
        # files that were there before: some minutes to weeks old, now and then "from the future"
        age = int.from_bytes(hashlib.sha256(("%s %s" % (self.io_seed, path)).encode()).digest()[:4], "big")
        ino.mtime -= (60 + age % 3_000_000) * SEC if age % 16 else -86400 * SEC
        parent.entries[name] = ino
        self.all_inodes.append(ino)
        if data is not None:
            ino.put(0, data, log=False)
            ino.settle()
        return ino

    def symlink(self, path, target):
        ino = self.add(path, "lnk")
        ino.target = target
        return ino

    def role_of(self, path):
        try:
            ino = self.walk(path)[2]
        except OSError:
            ino = None
        if ino is not None and ino.role:
            return ino.role
        return self.path_role(path)

    def path_role(self, path):
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        path = str(path)
        full = path if path.startswith("/") else self.cwd + "/" + path
        r = getattr(self.env, "path_roles", {}).get(full) if self.env is not None else None
        if r:
            return r
        if full.startswith("/tmp/"):
            return "tmp"
        if full.startswith(("/usr/", "/bin/")):
            return "bin"
        if full.startswith("/sys/"):
            return "sysfs-other"
        return "other"

    # -- system calls --------------------------------------------------------------------------

    def newfd(self, ofd, proc=None):
        fds = (proc or self.me).fds
        fd = 0
        while fd in fds:
            fd += 1
        ofd.refs += 1
        fds[fd] = ofd
        return fd

    def ofd(self, fd):
        o = self.me.fds.get(fd)
        if o is None:
            raise oserr(errno.EBADF)
        return o

    def sys_open(self, path, flags, mode=0o777):
        role = self.role_of(path)
        f = self.op("open", role, "%s %x" % (path, flags))
        acc = flags & 3
        if flags & getattr(_os, "O_TMPFILE", 0o20200000) == getattr(_os, "O_TMPFILE", 0o20200000):
            d = self.lookup(path)
            if d.kind != "dir":
                raise oserr(errno.ENOTDIR, path)
            if "w" in d.deny:
                raise oserr(errno.EACCES, path)
            ino = Inode(self, "reg", "tmp", mode & 0o777)
            ino.nlink = 0
            ino.seek_mode = d.seek_mode
            ino.bsz = d.bsz
            self.all_inodes.append(ino)
            return self.newfd(OFD(self, "ino", ino, flags, "tmp"))
        parent, name, ino = self.walk(path, follow=not flags & _os.O_NOFOLLOW)
        if ino is None:
            if not flags & _os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if "w" in parent.deny:
                raise oserr(errno.EACCES, path)
            ino = Inode(self, "reg", self.path_role(path), mode & 0o777)
            ino.created = True
            ino.seek_mode = parent.seek_mode
            ino.bsz = parent.bsz
            parent.entries[name] = ino
            self.all_inodes.append(ino)
            for m in self.monitors:
                m.on_create(path, ino)
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL and ino.kind != "blk":
                raise oserr(errno.EEXIST, path)
        if ino.kind == "lnk":
            raise oserr(errno.ELOOP, path)
        if ino.kind == "dir" and acc != _os.O_RDONLY:
            raise oserr(errno.EISDIR, path)
        if ("r" in ino.deny and acc in (_os.O_RDONLY, _os.O_RDWR)) or ("w" in ino.deny and acc in (_os.O_WRONLY, _os.O_RDWR)):
            for m in self.monitors:
                m.on_denied(ino, acc)
            raise oserr(errno.EACCES, path)
        role = ino.role or role
        if ino.kind == "fifo":
            return self._open_fifo(path, ino, flags, role)
        o = OFD(self, "ino", ino, flags, role)
        if ino.kind == "blk" and flags & _os.O_EXCL:
            if ino.excl is not None:
                raise oserr(errno.EBUSY, path)
            ino.excl = o
            o.excl = True
        for m in self.monitors:
            m.on_open(ino, o)
        if flags & _os.O_TRUNC and ino.kind == "reg" and acc != _os.O_RDONLY:
            if ino.size:
                ino.resize(0)
            for m in self.monitors:
                m.on_resize(ino, 0)
        if flags & _os.O_APPEND:
            o.pos = ino.size
        return self.newfd(o)

    def _open_fifo(self, path, ino, flags, role):
        p = ino.pipe
        acc = flags & 3
        nb = flags & _os.O_NONBLOCK
        if acc == _os.O_WRONLY:
            if p.readers == 0:
                if nb:
                    raise oserr(errno.ENXIO, path)
                self.block(lambda: p.readers > 0, None, "open-fifo-w")
            return self.newfd(OFD(self, "pw", p, flags, role))
        if acc == _os.O_RDONLY:
            o = OFD(self, "pr", p, flags, role)
            if not nb:
                self.block(lambda: p.writers > 0 or p.ever_writer, None, "open-fifo-r")
            return self.newfd(o)
        o = OFD(self, "pw", p, flags, role)
        return self.newfd(o)

    def sys_close(self, fd):
        o = self.me.fds.get(fd)
        if o is None:
            raise oserr(errno.EBADF)
        try:
            f = self.op("close", o.role)
        except OSError:
            # Linux: the descriptor is gone even if close() reports an error
            self.me.fds.pop(fd, None)
            if o.kind == "ino":
                o.obj.drop_dirty()
            o.drop()
            raise
        if self.me.fds.pop(fd, None) is None:
            raise oserr(errno.EBADF)
        o.drop()

    def _flip(self, f, data):
        if not data:
            return data
        b = bytearray(data)
        i = f.get("byte", 0) % len(b)
        b[i] ^= (f.get("mask", 1) or 1)
        return bytes(b)

    def sys_read(self, fd, n, pos=None):
        o = self.ofd(fd)
        if not o.readable:
            raise oserr(errno.EBADF)
        f = self.op("read", o.role, "%d" % n)
        for m in self.monitors:
            m.on_read_req(o, n)
        if f is not None and f["kind"] == "eof":
            return b""
        if n > 0:
            if f is not None and f["kind"] == "short":
                n = max(1, min(n, f.get("n", 1)))
            elif self.p_short_r and o.kind == "pr" and self.rio.random() < self.p_short_r:
                self.soft["short_reads"] = self.soft.get("short_reads", 0) + 1
                n = max(1, min(n, self.rio.choice((1, 7, 511, 512, 4095, 4096, 5000, 65536, n // 2 + 1))))
        at = None
        if o.kind == "ino":
            ino = o.obj
            if ino.kind == "dir":
                raise oserr(errno.EISDIR)
            if ino.kind == "null":
                return b""
            if ino.kind == "tty":
                return b""
            at = o.pos if pos is None else pos
            if ino.kind == "attr":
                data = ino.attr_read()[at:at + n]
            else:
                data = ino.get(at, n)
            if pos is None:
                o.pos += len(data)
        elif o.kind == "pr":
            p = o.obj
            while True:
                data = p.try_read(n)
                if data is not None:
                    break
                if o.flags & _os.O_NONBLOCK:
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                self.block(p.can_read, None, "read:" + o.role)
        else:
            raise oserr(errno.EBADF)
        if f is not None and f["kind"] == "flip":
            data = self._flip(f, data)
        for m in self.monitors:
            m.on_read(o, len(data), at)
        if len(data) > 16:
            self.h.update(b"%d" % len(data))
        return data

    def sys_write(self, fd, data, pos=None):
        o = self.ofd(fd)
        if not o.writable:
            raise oserr(errno.EBADF)
        data = memoryview(data).cast("B") if not isinstance(data, (bytes, bytearray)) else data
        n = len(data)
        f = self.op("write", o.role, "%d@%d" % (n, o.pos if pos is None else pos))
        # small writes to pipes are atomic, terminals take all or nothing
        if n > 1 and not (o.kind == "pw" and n <= 4096) and not (o.kind == "ino" and o.obj.kind == "tty"):
            if f is not None and f["kind"] == "short":
                n = max(1, min(n, f.get("n", 1)))
            elif self.p_short_w and self.rio.random() < self.p_short_w:
                self.soft["short_writes"] = self.soft.get("short_writes", 0) + 1
                n = max(1, min(n, self.rio.choice((1, 511, 512, 4096, 4097, 65536, n // 2 + 1))))
        if o.kind == "ino":
            ino = o.obj
            if ino.kind == "null":
                return n
            if ino.kind == "tty":
                at = ino.size
                ino.put(at, bytes(data[:n]), log=False)
                for m in self.monitors:
                    m.on_write(ino, o, at, n)
                return n
            if ino.kind == "attr":
                ino.attr_write(bytes(data))
                return len(data)
            if o.flags & _os.O_APPEND and pos is None:
                o.pos = ino.size
            at = o.pos if pos is None else pos
            if ino.kind == "blk":
                if at >= ino.size:
                    raise oserr(errno.ENOSPC)
                n = min(n, ino.size - at)
            else:
                cap = self.plan.get("knobs", {}).get("disk_free")
                if cap is not None and not o.role.startswith("std"):
                    room = cap - self.soft.get("disk_used", 0)
                    if n and room <= 0:
                        self.soft["enospc"] = self.soft.get("enospc", 0) + 1
                        raise oserr(errno.ENOSPC)
                    n = min(n, room)
                    self.soft["disk_used"] = self.soft.get("disk_used", 0) + n
            chunk = data if n == len(data) else data[:n]
            ino.put(at, chunk)
            if ino.late and n:
                ino.delayed = list(ino.delayed) + [(max(a, at), min(b, at + n)) for a, b in ino.late if a < at + n and b > at]
                ino.late = without(ino.late, [(at, at + n)])
            if pos is None:
                o.pos = at + n
            for m in self.monitors:
                m.on_write(ino, o, at, n)
            return n
        if o.kind == "pw":
            p = o.obj
            done = 0
            data = bytes(data[:n])
            nb = o.flags & _os.O_NONBLOCK
            while True:
                w = p.try_write(data[done:])
                if w is not None:
                    done += w
                    if done == len(data) or nb:
                        break
                    continue
                if nb:
                    if done:
                        break
                    raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
                self.block(lambda: p.can_write(len(data) - done), None, "write:" + o.role)
            for m in self.monitors:
                m.on_pipe_write(o, data[:done])
            return done
        raise oserr(errno.EBADF)

    def sys_lseek(self, fd, off, whence):
        o = self.ofd(fd)
        if o.kind != "ino":
            raise oserr(errno.ESPIPE)
        ino = o.obj
        self.op("lseek%d" % whence if whence in (3, 4) else "lseek", o.role, "%d" % off)
        if ino.kind in ("tty", "fifo"):
            raise oserr(errno.ESPIPE)
        if whence == 0:
            new = off
        elif whence == 1:
            new = o.pos + off
        elif whence == 2:
            new = ino.size + off
        elif whence in (3, 4):
            new = self._seek_hole(ino, off, whence)
        else:
            raise oserr(errno.EINVAL)
        if new < 0:
            raise oserr(errno.EINVAL)
        o.pos = new
        return new

    def segs(self, ino):
        """Data segments (start, end) in bytes as SEEK_DATA/SEEK_HOLE report them."""
        if ino.data_segs is not None:
            return without(ino.data_segs, ino.late) if ino.late else ino.data_segs
        out = []
        for p in sorted(ino.pages):
            a, b = p * PG, min((p + 1) * PG, ino.size)
            if a >= ino.size:
                continue
            if out and out[-1][1] == a:
                out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return out

    def _seek_hole(self, ino, off, whence):
        if ino.seek_mode == "einval":
            raise oserr(errno.EINVAL)
        if off < 0 or off >= ino.size:
            raise oserr(errno.ENXIO)
        if ino.seek_mode == "stub":
            return off if whence == 3 else ino.size
        segs = self.segs(ino)
        if whence == 3:
            for a, b in segs:
                if b > off:
                    return max(a, off)
            raise oserr(errno.ENXIO)
        pos = off
        for a, b in segs:
            if b <= pos:
                continue
            if a > pos:
                return pos
            pos = b
        return min(pos, ino.size)

    def sys_fsync(self, fd, name="fsync"):
        o = self.ofd(fd)
        try:
            f = self.op("fsync", o.role)
        except OSError:
            if o.kind == "ino":
                o.obj.drop_dirty()
            raise
        if o.kind != "ino" or o.obj.kind in ("null", "tty", "attr"):
            raise oserr(errno.EINVAL)
        if o.obj.kind in ("reg", "blk"):
            self.now += o.obj.dirty_bytes * 10
            o.obj.make_durable()
            o.obj.delayed = ()
            for m in self.monitors:
                m.on_fsync(o.obj)

    def sys_sync(self):
        self.op("sync", "all")
        for ino in self.all_inodes:
            if ino.kind in ("reg", "blk"):
                ino.make_durable()
                ino.delayed = ()
                for m in self.monitors:
                    m.on_fsync(ino)

    def extents(self, ino):
        """What FIEMAP reports: [(start, length)] in bytes."""
        if ino.extents is not None:
            if ino.late or ino.delayed:
                gone = list(ino.late) + list(ino.delayed)
                return [e for e in ino.extents if not any(s < e[0] + e[1] and t > e[0] for s, t in gone)]
            return ino.extents
        bsz = max(PG, ino.bsz)
        out = []
        for p in sorted(ino.pages):
            if p * PG >= ino.size:
                continue
            a = p * PG // bsz * bsz
            if out and out[-1][0] + out[-1][1] >= a + bsz:
                continue
            if out and out[-1][0] + out[-1][1] == a:
                out[-1] = (out[-1][0], out[-1][1] + bsz)
            else:
                out.append((a, bsz))
        return out

    # -- processes -----------------------------------------------------------------------------

    def new_proc(self, name, argv):
        self.next_pid += 1
        p = Proc(self, self.next_pid, name, argv)
        self.procs[p.pid] = p
        return p

    def find_program(self, name):
        cands = [name] if "/" in name else ["/usr/bin/" + name, "/bin/" + name]
        for c in cands:
            ino = self.exists(c)
            if ino is not None and ino.kind == "reg" and ino.mode & 0o111:
                return c
        return None

    def start_program(self, p, exe, argv):
        from . import programs
        prog = self.programs.get(exe)
        if prog is None:
            raise SimBug("no such simulated program: %s" % exe)
        self.assign_proc_faults(p)
        t = self.add_task("proc:" + p.name, programs.process(p, prog, argv), p)
        p.task = t
        self.note("start %s pid %d" % (" ".join(argv), p.pid))

    def assign_proc_faults(self, p):
        if p.name in ("sh", "bash"):
            return
        n = self.proc_count[p.name] = self.proc_count.get(p.name, 0) + 1
        p.nth = n
        p.faults = [f for f in self.proc_faults if f["prog"] in (p.name, "*") and f.get("nth", n) == n]

    # -- network ---------------------------------------------------------------------------------

    def net_known(self, host):
        return host in self.net

    def net_connect(self, host, port, timeout, cls):
        import socket
        from . import programs
        f = self.op("connect", "net", "%s:%s" % (host, port))
        srv = self.net.get(host)
        if srv is None or srv.get("dns_fail"):
            raise socket.gaierror(-2, "Name or service not known")
        n = srv["conns"] = srv.get("conns", 0) + 1
        if srv.get("refuse") or srv.get("port", 80) != port:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        for d in srv.get("connect_delays", ()):
            if d["conn"] == n or d["conn"] == 0:
                end = self.now + d["ns"]
                dl = None if timeout is None else self.now + int(timeout * 1e9)
                if dl is not None and dl < end:
                    self.sleep(dl - self.now)
                    raise TimeoutError("timed out")
                self.sleep(end - self.now)
        conn = programs.Conn(self, host, port, n)
        self.add_task("actor:http", programs.http_server(conn, srv))
        return cls(conn, timeout)

    def harness_error(self, err):
        import traceback
        self.soft["harness_error"] = "".join(traceback.format_exception(type(err), err, err.__traceback__))[-3000:]
        self.abort("harness-error")

    def sys_ftruncate(self, fd, size):
        o = self.ofd(fd)
        self.op("ftruncate", o.role, "%d" % size)
        if o.kind != "ino" or o.obj.kind != "reg" or not o.writable or size < 0:
            raise oserr(errno.EINVAL)
        o.obj.resize(size)
        for m in self.monitors:
            m.on_resize(o.obj, size)

    def stat_of(self, ino, kind=None):
        mode = Inode._kinds[ino.kind] | (ino.mode & 0o7777)
        alloc = len(ino.pages) * PG // 512 if ino.kind == "reg" else 0
        ns = ino.mtime if ino.kind == "reg" else self.wall()
        t = ns / SEC
        return _os.stat_result(
            (mode, ino.ino, 2049, max(ino.nlink, 0), real.getuid(), real.getgid(),
             ino.size if ino.kind in ("reg", "attr") else 0, ns // SEC, ns // SEC, ns // SEC),
            {"st_blksize": ino.blksize, "st_blocks": alloc, "st_rdev": ino.rdev,
             "st_atime": t, "st_mtime": t, "st_ctime": t,
             "st_mtime_ns": ns, "st_atime_ns": ns, "st_ctime_ns": ns})

    def sys_fstat(self, fd):
        o = self.ofd(fd)
        self.op("fstat", o.role)
        if o.kind == "ino":
            return self.stat_of(o.obj)
        return _os.stat_result((_stat.S_IFIFO | 0o600, 1, 10, 1, real.getuid(), real.getgid(), 0, 0, 0, 0),
                               {"st_blksize": 4096, "st_blocks": 0, "st_rdev": 0})

    def sys_stat(self, path, follow=True):
        role = self.role_of(path)
        self.op("stat", role, str(path))
        return self.stat_of(self.lookup(path, follow))

    def wall(self):
        if self.clock_frozen is not None:
            return self.clock_frozen
        return self.wall0 + self.now + self.wall_off
