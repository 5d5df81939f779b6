"""
One simulated execution: fork, build the machine the plan describes, run the program under test inside
it, judge the outcome, report, disappear.

Nothing of a run survives in the parent except the pickled result.
"""

import gc
import os
import pickle
import sys

from . import real

REPO = os.environ.get("BMAP_REPO", "/repo")
_loaded = None


def load():
    """Install the seam and import the code under test.  Once per process, before anything else."""
    global _loaded
    if _loaded is not None:
        return _loaded
    from . import patch
    roots = [REPO + "/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/", sys.prefix + "/",
             sys.base_prefix + "/lib/", os.path.dirname(os.__file__) + "/"]
    roots = [r for r in roots if r not in ("/", "/usr/", "/work/", "/tmp/")]
    if sys.base_prefix == "/usr":
        roots.append("/usr/lib/python3")
    patch.install(roots)
    from . import fakegpg  # noqa
    # a failing import of gpg must look the same everywhere; the run installs its own
    sys.modules.setdefault("gpg", None)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import bmaptools.CLI
    import bmaptools.TransRead, bmaptools.BmapCopy, bmaptools.BmapCreate, bmaptools.Filemap, bmaptools.BmapHelpers  # noqa
    if not os.path.abspath(bmaptools.CLI.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("bmaptools imported from %s" % bmaptools.CLI.__file__)
    try:
        with real.builtin_open(REPO + "/contrib/bmap_write.py") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            script = compile(src, REPO + "/contrib/bmap_write.py", "exec")
    except (OSError, SyntaxError):
        script = None
    from . import world, oracle, programs  # noqa
    if os.environ.get("DST_COVERAGE"):
        import mmap
        global COVER
        COVER = mmap.mmap(-1, 4096 * len(COVER_FILES))
    _loaded = {"patch": patch, "script": script}
    gc.collect()
    gc.freeze()
    return _loaded


# ---------------------------------------------------------------------------------------------
# Line events
# ---------------------------------------------------------------------------------------------


def arm_lines(k):
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "dst")
    pre = (os.path.abspath(REPO) + "/bmaptools/", os.path.abspath(REPO) + "/contrib/")

    def on_line(code, line):
        if not code.co_filename.startswith(pre):
            return mon.DISABLE
        if k.active:
            k.line_event()
        return None

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


# Which lines of the code under test were executed (an aid for development: DST_COVERAGE=FILE).
# The table is shared by all processes.
COVER_FILES = ("BmapCopy", "BmapCreate", "BmapHelpers", "CLI", "Filemap", "TransRead", "bmap_write")
COVER = None


def arm_coverage():
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "dst-coverage")
    root = os.path.abspath(REPO)

    def on_line(code, line):
        name = code.co_filename
        if name.startswith(root):
            base = os.path.basename(name)[:-3]
            if base in COVER_FILES and line < 4096:
                COVER[COVER_FILES.index(base) * 4096 + line] = 1
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


# ---------------------------------------------------------------------------------------------
# Program entry points.  Each returns the exit status a shell would see.
# ---------------------------------------------------------------------------------------------


def _status(fn, k):
    """Run fn like the interpreter runs a script ending in sys.exit(fn())."""
    from .kernel import SimBug
    try:
        try:
            rc = fn()
        except SystemExit as e:
            rc = e.code
            k.soft["exit_via"] = "SystemExit"
        if rc is None:
            return 0
        if isinstance(rc, int):
            return rc & 0xFF
        _err(str(rc) + "\n")
        return 1
    except SimBug:
        raise
    except KeyboardInterrupt as e:
        k.soft["exc"] = "KeyboardInterrupt"
        _err(_fmt(e))
        return 130
    except BaseException as e:  # noqa
        k.soft["exc"] = "%s: %s" % (type(e).__name__, _fmt(e, True)[:200])
        _err(_fmt(e))
        return 1


def _fmt(e, short=False):
    """The text of an exception.  Formatting runs code of the objects involved, which may fail."""
    import traceback
    try:
        return str(e) if short else "".join(traceback.format_exception(e))
    except SimBugType():
        raise
    except Exception:
        try:
            return "" if short else "".join(traceback.format_tb(e.__traceback__)) + type(e).__name__ + "\n"
        except Exception:
            return type(e).__name__


def SimBugType():
    from .kernel import SimBug
    return SimBug


def _err(text):
    try:
        sys.stderr.write(text)
        sys.stderr.flush()
    except BaseException:
        pass


def std_streams(k, patch, plan):
    """What the interpreter sets up at its start."""
    import _io
    raw = plan.get("unbuffered")

    def stream(fd, name, errors, **kw):
        if fd not in k.me.fds:
            return None
        f = patch.SimFileIO(fd, "rb" if fd == 0 else "wb", closefd=False)
        if fd == 0:
            f = patch.SimBufferedReader(f, k.bufsize)
        elif raw:
            kw["write_through"] = True
        else:
            f = patch.SimBufferedWriter(f, 8192)
        return _io.TextIOWrapper(f, "utf-8", errors, None, **kw)

    sys.stdout = sys.__stdout__ = stream(1, "out", "strict", line_buffering=not raw and patch.s_isatty(1))
    sys.stderr = sys.__stderr__ = stream(2, "err", "backslashreplace", line_buffering=not raw)
    sys.stdin = sys.__stdin__ = stream(0, "in", "strict")


def run_cli(k, env, plan, argv):
    def fn():
        import bmaptools.CLI as CLI
        sys.argv = argv
        return CLI.main()
    return _status(fn, k)


def run_script(k, env, plan, argv):
    code = _loaded["script"]

    def fn():
        sys.argv = argv
        g = {"__name__": "__main__", "__file__": argv[0], "__builtins__": __builtins__}
        exec(code, g)
        return 0
    return _status(fn, k)


def run_api(k, env, plan):
    """The programming interface as a user program would use it."""
    api = plan["api"]

    def fn():
        from bmaptools import BmapCopy, TransRead
        img = TransRead.TransRead(env.src_arg) if api.get("trans", True) else open(env.src_arg, "rb")
        dest = open(env.dest_path, api.get("dest_mode", "wb+"), api.get("buffering", -1))
        bmap = open(env.bmap_path, api.get("bmap_mode", "rb")) if plan.get("bmap") else None
        size = api.get("size")
        if size == "image":
            size = len(env.image)
        elif size == "obj":
            size = img.size
        cls = BmapCopy.BmapBdevCopy if api.get("bdev") else BmapCopy.BmapCopy
        w = cls(img, dest, bmap, size)
        if api.get("progress"):
            w.set_progress_indicator(sys.stderr, None)
        if api.get("psplash"):
            w.set_psplash_pipe(env.psplash_path)
        if api.get("again"):
            w = copy_again(k, env, api, w, lambda: cls(img, dest, bmap, size), dest, bmap)
        elif api.get("sync", True):
            w.copy(True, api.get("verify", True))
        else:
            w.copy(False, api.get("verify", True))
            if api.get("then_sync"):
                w.sync()
        k.soft["copied"] = True
        k.soft["geom"] = (w.image_size, w.block_size, w.blocks_cnt, w.mapped_cnt)
        if api.get("close", True):
            dest.close()
            img.close()
        return 0
    return _status(fn, k)


def copy_again(k, env, api, w, make, dest, bmap):
    """Copies several times with the same objects; only the last time counts."""
    outcomes = k.soft["_outcomes"] = []
    for n, a in enumerate(api["again"]):
        last = n == len(api["again"]) - 1
        if a.get("reset"):
            if env.dest is None or env.dest.kind == "reg":
                dest.seek(0)
                dest.truncate(0)
            else:
                dest.flush()
                env.dest.put(0, env.dest_old, log=False)
                env.dest.settle()
        if n and a.get("new") and not outcomes[-1]:
            if bmap:
                bmap.seek(0)
            w = make()
        k.soft["_fired_before"] = len(k.fired)
        try:
            w.copy(a["sync"], api.get("verify", True))
            outcomes.append(None)
        except Exception as e:
            outcomes.append("%s: %s" % (type(e).__name__, str(e)[:200]))
            k.note("copy %d failed" % n)
            if last:
                raise
    return w


def open_image(env, plan):
    """The image as a file object; some of its data may still have to be written through that object."""
    late = plan["src"].get("late")
    if not late:
        return open(env.src_arg, "rb")
    f = open(env.src_arg, "rb+")
    for s, e in late:
        # the last piece stays in the buffer
        m = max(s, (e - 1) // 4096 * 4096)
        f.seek(s)
        f.write(env.image[s:m])
        f.write(env.image[m:e])
    return f


def run_create_api(k, env, plan):
    c = plan["create"]

    def fn():
        from bmaptools import BmapCreate
        a = c["api"]
        img = open_image(env, plan) if a["image"] == "obj" else env.src_arg
        out = open(env.bmap_out, "w+") if a["bmap"] == "obj" else env.bmap_out
        creator = BmapCreate.BmapCreate(img, out, a["cs"]) if a.get("cs") else BmapCreate.BmapCreate(img, out)
        creator.generate(not c.get("no_checksum"))
        k.soft["geom"] = (creator.image_size, creator.block_size, creator.blocks_cnt, creator.mapped_cnt)
        if a["bmap"] == "obj" and a.get("close"):
            out.close()
        return 0
    return _status(fn, k)


def execute(k, env, plan):
    kind = plan.get("run", "copy")
    from . import world, oracle
    if kind == "copy":
        return run_cli(k, env, plan, plan.get("argv") or world.argv(env, plan))
    if kind == "create" and plan["create"].get("api"):
        return run_create_api(k, env, plan)
    if kind == "create":
        a = ["bmaptool", "create"]
        if plan.get("create", {}).get("no_checksum"):
            a.append("--no-checksum")
        if plan.get("create", {}).get("output", True):
            a += ["-o", env.alias_path if plan.get("alias") else env.bmap_out]
        a.append(env.src_arg)
        if "-d" in plan.get("opts", ()):
            a.insert(1, "--debug")
        return run_cli(k, env, plan, a)
    if kind == "script":
        return run_script(k, env, plan, ["/usr/bin/bmap_write.py", env.src_arg, env.dest_path])
    if kind == "api":
        return run_api(k, env, plan)
    fn = getattr(oracle, "drive_" + kind)
    return _status(lambda: fn(k, env, plan), k)


# ---------------------------------------------------------------------------------------------
# One run
# ---------------------------------------------------------------------------------------------


class Result:
    """What is known about a finished run."""

    def __init__(self, d):
        self.__dict__.update(d)

    def sig(self):
        """The deterministic part, for replay comparison."""
        return (self.reason, self.rc, self.steps, self.digest, self.ihash, tuple(sorted(set(c for c, _ in self.violations))))


def _child(plan, replay, wfd):
    patch = _loaded["patch"]
    from . import fakegpg, oracle, world
    from .kernel import Kernel, SimBug
    sent = []

    def report(res):
        if sent:
            return
        data = pickle.dumps(res, 4)
        sent.append(1)
        data = len(data).to_bytes(8, "little") + data
        while data:
            n = real.os_write(wfd, data[:65536])
            data = data[n:]

    k = None
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        SimBug.raised.clear()
        gc.disable()
        k = Kernel(plan, replay)
        state = {"rc": None}

        def finish(reason):
            k.active = False
            try:
                if SimBug.raised and reason != "harness-error":
                    k.soft["harness_error"] = "SimBug raised: %s" % (SimBug.raised[:3],)
                    reason = "harness-error"
                info = {}
                if reason != "harness-error":
                    info = oracle.judge(k, k.env, plan, state["rc"], reason) or {}
            except BaseException as e:  # noqa
                k.soft["harness_error"] = "oracle: " + _fmt(e)[-3000:]
                reason = "harness-error"
                info = {}
            env = k.env
            res = {
                "reason": reason, "rc": state["rc"], "steps": k.steps, "switches": k.switches, "now": k.now,
                "digest": k.digest(), "ihash": k.ihash.hexdigest()[:16], "counts": k.counts, "fired": k.fired,
                "violations": k.violations, "soft": {a: b for a, b in k.soft.items() if not a.startswith("_")},
                "main_steps": k.main_steps, "main_lines": getattr(k, "main_lines", 0), "decisions": k.decisions,
                "procs": [(p.name, p.nth, p.out_bytes, p.code, p.state) for p in k.procs.values() if p is not k.me],
                "stderr": env.stderr.get(max(0, env.stderr.size - 3000), 3000).decode("utf-8", "replace") if env else "",
                "stderr_size": env.stderr.size if env else 0,
                "info": info, "net_log": k.net_log[:50], "trace_len": k.trace_len,
            }
            if plan.get("want_trace"):
                res["trace"] = k.trace[-plan["want_trace"]:]
            if plan.get("want_tasks") or reason in ("deadlock", "step-limit"):
                res["tasks"] = [(t.name, t.waiting, t.where, t.tid in k.frozen) for t in k.tasks]
            report(res)

        k.finalizer = finish
        env = world.build(k, plan)
        patch.K = k
        for n, m in fakegpg.build(k).items():
            sys.modules[n] = m
        if plan.get("no_gpg"):
            sys.modules["gpg"] = None
        for v in list(os.environ):
            del os.environ[v]
        os.environ.update({"PATH": "/usr/bin:/bin", "HOME": "/root", "LC_ALL": "C.UTF-8", "TZ": "UTC"})
        import tempfile
        tempfile.tempdir = "/tmp"
        if plan.get("lines") or plan.get("sched", {}).get("preempt") or k.line_faults:
            arm_lines(k)
        if COVER is not None:
            arm_coverage()
        sys.unraisablehook = lambda u: None
        oracle.attach(k, env, plan)

        def body():
            k.booting = True
            std_streams(k, patch, plan)
            k.booting = False
            k.steps = 0
            rc = execute(k, env, plan)
            # interpreter shutdown
            k.intr = False
            k.main_faults.clear()
            try:
                import threading
                for cb in reversed(list(getattr(threading, "_threading_atexits", ()))):
                    cb()
            except Exception:
                pass
            k.wait_nondaemon()
            import atexit
            try:
                atexit._run_exitfuncs()
            except Exception:
                pass
            for s, name in ((sys.stdout, "out"), (sys.stderr, "err")):
                try:
                    if s is not None and not s.closed:
                        s.flush()
                except BaseException as e:  # noqa
                    if isinstance(e, SimBug):
                        raise
                    rc = 120
            gc.collect()
            return rc

        rc = k.run_main(body)
        state["rc"] = rc
        k.note("exit %d" % rc)
        oracle.at_exit(k, env, plan, rc)
        k.process_exit()
        finish("exit")
    except BaseException as e:  # noqa
        try:
            if k is not None:
                k.active = False
            report({"reason": "harness-error", "rc": None, "steps": 0, "switches": 0, "now": 0, "digest": "", "ihash": "",
                    "counts": {}, "fired": [], "violations": [], "main_steps": 0, "main_lines": 0, "decisions": [],
                    "procs": [], "stderr": "", "stderr_size": 0, "info": {}, "net_log": [], "trace_len": 0,
                    "soft": {"harness_error": _fmt(e)[-4000:]}})
        except BaseException:
            pass
    finally:
        real._exit(0)


def run(plan, replay=None, limit=120.0):
    """Run one plan in a forked child; returns a Result."""
    import select
    import signal
    load()
    from . import world
    world.prepare(plan)
    r, w = real.os_pipe()
    pid = real.os_fork()
    if pid == 0:
        try:
            real.os_close(r)
            _child(plan, replay, w)
        finally:
            real._exit(1)
    real.os_close(w)
    buf = bytearray()
    t0 = real.monotonic()
    dead = False
    p = select.poll()
    p.register(r, select.POLLIN)
    while True:
        left = limit - (real.monotonic() - t0)
        if left <= 0:
            dead = True
            break
        if not p.poll(min(left, 5.0) * 1000):
            continue
        b = real.os_read(r, 1 << 20)
        if not b:
            break
        buf += b
    real.os_close(r)
    if dead:
        real.os_kill(pid, signal.SIGKILL)
    usage = real.os_wait4(pid, 0)[2]
    spun = usage.ru_utime + usage.ru_stime > 0.4 * limit
    if dead or len(buf) < 8 or len(buf) < 8 + int.from_bytes(buf[:8], "little"):
        return Result({"reason": "harness-error", "rc": None, "steps": 0, "switches": 0, "now": 0, "digest": "",
                       "ihash": "", "counts": {}, "fired": [], "violations": [], "main_steps": 0, "main_lines": 0,
                       "decisions": [], "procs": [], "stderr": "", "stderr_size": 0, "info": {}, "net_log": [],
                       "trace_len": 0, "soft": dict({"harness_error": "run %s" % (
                           "took longer than %d s of real time" % limit if dead else "died")},
                           **({"hang": True} if dead and spun else {}))})
    return Result(pickle.loads(bytes(buf[8:])))
