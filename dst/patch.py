"""
The seam: every way from Python to the operating system that the repository (or the part of the
standard library it uses) takes is redirected to the simulated machine while a run is active.
Outside a run everything passes through to the real functions.

install() must run before bmaptools, subprocess, logging, queue, tempfile, socket ... are imported.
"""

import _io
import _thread
import builtins
import errno
import io
import os
import posix
import stat as _stat
import sys
import time

from . import real
from .kernel import OFD, SEC, Inode, SimBug, oserr

K = None  # the kernel of the active run
REAL_ROOTS = []


def on():
    return K is not None and K.active


# ---------------------------------------------------------------------------------------------
# Locks and threads
# ---------------------------------------------------------------------------------------------


class SimLock:
    def __init__(self):
        self._l = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if not on():
            if self._l:
                if not blocking or timeout >= 0:
                    return False
                raise SimBug("lock is held outside a run")
            self._l = True
            return True
        k = K
        k.pause("lock")
        if not self._l:
            self._l = True
            return True
        if not blocking or timeout == 0:
            return False
        dl = None
        if timeout is not None and timeout > 0:
            dl = k.now + int(timeout * 1e9)
        while self._l:
            ok = k.block(lambda: not self._l, dl, "lock")
            if not ok and dl is not None and k.now >= dl:
                return False
        self._l = True
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False

    def locked(self):
        return self._l

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    def __init__(self):
        self._lk = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = real.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._lk.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != real.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lk.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == real.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lk.release()
        return st

    def _acquire_restore(self, st):
        self._lk.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._lk = SimLock()
        self._owner = None
        self._count = 0


def _set_sentinel():
    if not on():
        return _real_set_sentinel()
    lk = SimLock()
    K.current.sentinel = lk
    return lk


def _start_new_thread(fn, args, kwargs=None):
    if not on():
        return real.start_new_thread(fn, args, kwargs or {})
    k = K
    try:
        k.op("thread", "start")
    except OSError:
        raise RuntimeError("can't start new thread")
    self = getattr(fn, "__self__", None)
    t = k.add_task("thread")
    t.proc = k.me
    t.daemon = getattr(self, "_daemonic", True)
    t.where = getattr(fn, "__name__", "?")

    def boot():
        t.sem.acquire()
        t.ident = real.get_ident()
        k.current = t
        exc = None
        try:
            fn(*args, **(kwargs or {}))
        except SystemExit:
            pass
        except SimBug as err:
            k.harness_error(err)
        except BaseException as err:  # noqa
            exc = err
            try:
                k.note("thread-exc %s: %s" % (type(err).__name__, err))
                hook = sys.unraisablehook
                import traceback
                sys.stderr.write("Exception ignored in thread started by: %r\n" % (t.where,))
                sys.stderr.write("".join(traceback.format_exception(type(err), err, err.__traceback__)))
            except BaseException:
                pass
        finally:
            exc = None
        thread_end(t)

    real.start_new_thread(boot, ())
    return 1000 + t.tid


def thread_end(t):
    k = K
    t.done = True
    if t.sentinel is not None:
        s, t.sentinel = t.sentinel, None
        if s._l:
            s._l = False
    if t in k.tasks:
        k.tasks.remove(t)
    k._switch(t, exiting=True)


# ---------------------------------------------------------------------------------------------
# os.*
# ---------------------------------------------------------------------------------------------


def _norm(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def _is_real(path):
    """Source files and the interpreter's own library stay real."""
    if isinstance(path, int):
        return False
    p = _norm(path)
    if not p.startswith("/"):
        return False
    return any(p.startswith(r) for r in REAL_ROOTS)


def _guard(name):
    """A system call the simulated machine does not offer."""
    def f(*a, **kw):
        if not on():
            return getattr(_saved, name)(*a, **kw)
        raise SimBug("os.%s is not simulated" % name)
    f.__name__ = name
    return f


class _Saved:
    pass


_saved = _Saved()


def _wrap(name, fn, module=os):
    orig = getattr(module, name, None)
    if orig is None:
        return
    if not hasattr(_saved, name):
        setattr(_saved, name, orig)

    def f(*a, **kw):
        if K is None or not K.active:
            return orig(*a, **kw)
        return fn(*a, **kw)

    f.__name__ = name
    f.__wrapped__ = orig
    setattr(module, name, f)
    if module is os:
        for coll in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if orig in coll:
                coll.add(f)


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.open(path, flags, mode)
    return K.sys_open(_norm(path), flags, mode)


def s_close(fd):
    return K.sys_close(fd)


def s_read(fd, n):
    if n < 0:
        raise oserr(errno.EINVAL)
    return K.sys_read(fd, n)


def s_write(fd, data):
    return K.sys_write(fd, data)


def s_pread(fd, n, off):
    return K.sys_read(fd, n, off)


def s_pwrite(fd, data, off):
    return K.sys_write(fd, data, off)


def s_readv(fd, bufs):
    tot = 0
    for b in bufs:
        mv = memoryview(b).cast("B")
        d = K.sys_read(fd, len(mv))
        mv[:len(d)] = d
        tot += len(d)
        if len(d) < len(mv):
            break
    return tot


def s_writev(fd, bufs):
    return K.sys_write(fd, b"".join(bytes(b) for b in bufs))


def s_preadv(fd, bufs, off, flags=0):
    tot = 0
    for b in bufs:
        mv = memoryview(b).cast("B")
        d = K.sys_read(fd, len(mv), off + tot)
        mv[:len(d)] = d
        tot += len(d)
        if len(d) < len(mv):
            break
    return tot


def s_pwritev(fd, bufs, off, flags=0):
    return K.sys_write(fd, b"".join(bytes(b) for b in bufs), off)


def s_sendfile(out_fd, in_fd, offset, count, *a, **kw):
    if offset is None:
        d = K.sys_read(in_fd, count)
    else:
        d = K.sys_read(in_fd, count, offset)
    return K.sys_write(out_fd, d) if d else 0


def s_copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
    d = K.sys_read(src, count, offset_src)
    return K.sys_write(dst, d, offset_dst) if d else 0


def s_lseek(fd, off, whence):
    if not isinstance(off, int):
        raise TypeError("an integer is required")
    if abs(off) >= 1 << 63:
        raise OverflowError("Python int too large to convert to C long")
    return K.sys_lseek(fd, off, whence)


def s_fstat(fd):
    return K.sys_fstat(fd)


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return K.sys_fstat(path)
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.stat(path, follow_symlinks=follow_symlinks)
    return K.sys_stat(_norm(path), follow_symlinks)


def s_lstat(path, *, dir_fd=None):
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.lstat(path)
    return K.sys_stat(_norm(path), False)


def s_access(path, mode, **kw):
    K.op("access", K.role_of(_norm(path)))
    ino = K.exists(_norm(path))
    if ino is None:
        return False
    if mode & os.X_OK and not ino.mode & 0o111:
        return False
    if mode & os.R_OK and "r" in ino.deny or mode & os.W_OK and "w" in ino.deny:
        return False
    return True


def s_fsync(fd):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    return K.sys_fsync(fd)


def s_ftruncate(fd, size):
    return K.sys_ftruncate(fd, size)


def s_truncate(path, size):
    if isinstance(path, int):
        return K.sys_ftruncate(path, size)
    fd = K.sys_open(_norm(path), os.O_WRONLY)
    try:
        K.sys_ftruncate(fd, size)
    finally:
        K.sys_close(fd)


def s_posix_fallocate(fd, off, ln):
    o = K.ofd(fd)
    if o.kind == "ino" and o.obj.size < off + ln:
        K.sys_ftruncate(fd, off + ln)


def s_dup(fd):
    return K.newfd(K.ofd(fd))


def s_dup2(fd, fd2, inheritable=True):
    o = K.ofd(fd)
    if fd2 == fd:
        return fd2
    if fd2 in K.me.fds:
        K.me.fds.pop(fd2).drop()
    o.refs += 1
    K.me.fds[fd2] = o
    return fd2


def s_pipe(*a):
    from .kernel import Pipe
    K.op("pipe", "pipe")
    p = Pipe(K, K.pipe_cap)
    r = K.newfd(OFD(K, "pr", p, os.O_RDONLY, "pipe"))
    w = K.newfd(OFD(K, "pw", p, os.O_WRONLY, "pipe"))
    return r, w


def s_unlink(path, *, dir_fd=None):
    path = _norm(path)
    K.op("unlink", K.role_of(path))
    parent, name, ino = K.walk(path, follow=False)
    if ino is None:
        raise oserr(errno.ENOENT, path)
    if ino.kind == "dir":
        raise oserr(errno.EISDIR, path)
    for m in K.monitors:
        m.on_unlink(path, ino)
    ino.nlink -= 1
    del parent.entries[name]


def s_rename(src, dst, **kw):
    src, dst = _norm(src), _norm(dst)
    K.op("rename", K.role_of(dst), src)
    p1, n1, i1 = K.walk(src, follow=False)
    if i1 is None:
        raise oserr(errno.ENOENT, src)
    p2, n2, i2 = K.walk(dst, follow=False)
    if i2 is not None:
        for m in K.monitors:
            m.on_unlink(dst, i2)
    del p1.entries[n1]
    p2.entries[n2] = i1
    role = K.path_role(dst)
    if role not in ("other", "tmp"):
        i1.role = role


def s_link(src, dst, **kw):
    _, _, i1 = K.walk(_norm(src))
    p2, n2, i2 = K.walk(_norm(dst), follow=False)
    if i1 is None:
        raise oserr(errno.ENOENT, src)
    if i2 is not None:
        raise oserr(errno.EEXIST, dst)
    p2.entries[n2] = i1
    i1.nlink += 1


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    path = _norm(path)
    K.op("mkdir", "dir")
    parent, name, ino = K.walk(path)
    if ino is not None:
        raise oserr(errno.EEXIST, path)
    n = Inode(K, "dir", mode=mode)
    n.parent = parent
    parent.entries[name] = n
    K.all_inodes.append(n)


def s_rmdir(path, **kw):
    path = _norm(path)
    parent, name, ino = K.walk(path)
    if ino is None:
        raise oserr(errno.ENOENT, path)
    if ino.entries:
        raise oserr(errno.ENOTEMPTY, path)
    del parent.entries[name]


def s_listdir(path="."):
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.listdir(path)
    K.op("listdir", "dir")
    ino = K.lookup(_norm(path) if path != "." else K.cwd)
    if ino.kind != "dir":
        raise oserr(errno.ENOTDIR, path)
    return sorted(ino.entries)


class _DirEntry:
    def __init__(self, base, name):
        self.name = name
        self.path = os.path.join(base, name)

    def stat(self, *, follow_symlinks=True):
        return K.sys_stat(self.path, follow_symlinks)

    def is_dir(self, *, follow_symlinks=True):
        try:
            return _stat.S_ISDIR(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return _stat.S_ISREG(self.stat(follow_symlinks=follow_symlinks).st_mode)
        except OSError:
            return False

    def is_symlink(self):
        return _stat.S_ISLNK(self.stat(follow_symlinks=False).st_mode)

    def inode(self):
        return self.stat().st_ino

    def __fspath__(self):
        return self.path


class _ScanDir:
    def __init__(self, path):
        self.it = iter([_DirEntry(_norm(path), n) for n in s_listdir(path)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def s_scandir(path="."):
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.scandir(path)
    return _ScanDir(path)


def s_readlink(path, *, dir_fd=None):
    if _is_real(path) and K.exists(_norm(path)) is None:
        return _saved.readlink(path)
    path = _norm(path)
    _, _, ino = K.walk(path, follow=False)
    if ino is None:
        raise oserr(errno.ENOENT, path)
    if ino.kind != "lnk":
        raise oserr(errno.EINVAL, path)
    return ino.target


def s_symlink(src, dst, **kw):
    dst = _norm(dst)
    parent, name, ino = K.walk(dst, follow=False)
    if ino is not None:
        raise oserr(errno.EEXIST, dst)
    K.symlink(dst if dst.startswith("/") else K.cwd + "/" + dst, _norm(src))


def s_chdir(path):
    path = _norm(path)
    K.lookup(path)
    K.cwd = path if path.startswith("/") else K.cwd + "/" + path


def s_isatty(fd):
    o = K.me.fds.get(fd)
    return bool(o and o.kind == "ino" and o.obj.kind == "tty")


def s_nop(*a, **kw):
    return None


def s_utime(path, times=None, *, ns=None, **kw):
    ino = K.ofd(path).obj if isinstance(path, int) else K.lookup(os.fspath(path))
    ino.mtime = ns[1] if ns else int(times[1] * 1e9) if times else K.wall()


def s_chmod(path, mode, **kw):
    if isinstance(path, int):
        K.ofd(path).obj.mode = mode
    else:
        K.lookup(_norm(path)).mode = mode


def s_fchmod(fd, mode):
    K.ofd(fd).obj.mode = mode


def s_set_blocking(fd, b):
    o = K.ofd(fd)
    o.flags = o.flags & ~os.O_NONBLOCK if b else o.flags | os.O_NONBLOCK


def s_get_blocking(fd):
    return not K.ofd(fd).flags & os.O_NONBLOCK


def s_kill(pid, sig):
    p = K.procs.get(pid)
    if p is None or p.state == "reaped":
        raise oserr(errno.ESRCH)
    K.op("kill", p.name)
    if pid == 1:
        raise SimBug("self-kill")
    if sig:
        p.signal(sig)


def s_waitpid(pid, options):
    k = K
    p = k.procs.get(pid) if pid > 0 else next(
        (q for q in k.procs.values() if q is not k.me and q.state != "reaped"), None)
    k.op("waitpid", p.name if p else "?")
    if p is None or p is k.me or p.state == "reaped":
        raise oserr(errno.ECHILD)
    if p.state == "running":
        if options & os.WNOHANG:
            return (0, 0)
        k.block(lambda: p.state != "running", None, "waitpid:" + p.name)
        if p.state == "reaped":
            raise oserr(errno.ECHILD)
    p.state = "reaped"
    k.note("reaped %s" % p.name)
    st = (-p.code) if p.code < 0 else (p.code << 8)
    return (p.pid, st)


def s_urandom(n):
    return bytes(K.rio.getrandbits(8) for _ in range(n))


def s_statvfs(path):
    free = K.plan.get("knobs", {}).get("disk_free")
    free = (1 << 40) if free is None else max(0, free - K.soft.get("disk_used", 0))
    return os.statvfs_result((4096, 4096, 1 << 28, free // 4096, free // 4096, 1 << 20, 1 << 20, 1 << 20, 0, 255))


def s_mkfifo(path, mode=0o666, **kw):
    from .kernel import Pipe
    path = _norm(path)
    ino = K.add(path if path.startswith("/") else K.cwd + "/" + path, "fifo")
    ino.pipe = Pipe(K, K.pipe_cap)


# ---------------------------------------------------------------------------------------------
# Files
# ---------------------------------------------------------------------------------------------


class SimFileIO(io.RawIOBase):
    """Stands in for io.FileIO."""

    def __init__(self, file, mode="r", closefd=True, opener=None):
        self._fd = -1
        self._closefd = True
        if isinstance(file, float):
            raise TypeError("integer argument expected, got float")
        m = mode.replace("b", "")
        base = [c for c in m if c in "rwax"]
        if len(base) != 1 or m.count("+") > 1 or set(m) - set("rwax+"):
            raise ValueError("invalid mode: %s" % (mode,))
        self._created = self._readable = self._writable = self._appending = False
        flags = 0
        if base[0] == "x":
            self._created = self._writable = True
            flags = os.O_EXCL | os.O_CREAT
        elif base[0] == "r":
            self._readable = True
        elif base[0] == "w":
            self._writable = True
            flags = os.O_CREAT | os.O_TRUNC
        elif base[0] == "a":
            self._writable = self._appending = True
            flags = os.O_APPEND | os.O_CREAT
        if "+" in m:
            self._readable = self._writable = True
        if self._readable and self._writable:
            flags |= os.O_RDWR
        elif self._readable:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        flags |= os.O_CLOEXEC
        if isinstance(file, int):
            self._fd = file
            self._closefd = closefd
            K.sys_fstat(file)
        else:
            if not closefd:
                raise ValueError("Cannot use closefd=False with file name")
            if opener is None:
                self._fd = K.sys_open(_norm(file), flags, 0o666)
            else:
                fd = opener(file, flags)
                if not isinstance(fd, int):
                    raise TypeError("expected integer from opener")
                if fd < 0:
                    raise OSError("Negative file descriptor")
                self._fd = fd
            o = K.ofd(self._fd)
            if o.kind == "ino" and o.obj.kind == "dir":
                K.sys_close(self._fd)
                raise oserr(errno.EISDIR, file)
        self._seekable = None
        self.name = file
        if self._appending:
            try:
                K.sys_lseek(self._fd, 0, 2)
            except OSError as err:
                if err.errno != errno.ESPIPE:
                    raise

    @property
    def _blksize(self):
        return K.bufsize if K is not None else 8192

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def readable(self):
        self._chk()
        return self._readable

    def writable(self):
        self._chk()
        return self._writable

    def seekable(self):
        self._chk()
        if self._seekable is None:
            try:
                self.tell()
            except OSError:
                self._seekable = False
            else:
                self._seekable = True
        return self._seekable

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        self._chk()
        return s_isatty(self._fd)

    def readinto(self, b):
        self._chk()
        if not self._readable:
            raise io.UnsupportedOperation("not readable")
        mv = memoryview(b).cast("B")
        try:
            d = K.sys_read(self._fd, len(mv))
        except BlockingIOError:
            return None
        mv[:len(d)] = d
        return len(d)

    def read(self, size=-1):
        self._chk()
        if not self._readable:
            raise io.UnsupportedOperation("not readable")
        if size is None or size < 0:
            return self.readall()
        if size >= 1 << 63:
            raise OverflowError("Python int too large to convert to C ssize_t")
        try:
            return K.sys_read(self._fd, size)
        except BlockingIOError:
            return None

    def readall(self):
        self._chk()
        if not self._readable:
            raise io.UnsupportedOperation("not readable")
        out = []
        o = K.ofd(self._fd)
        n = 65536
        if o.kind == "ino":
            n = max(8192, min(o.obj.size - o.pos + 1, 8 << 20))
        while True:
            try:
                d = K.sys_read(self._fd, n)
            except BlockingIOError:
                if out:
                    break
                return None
            if not d:
                break
            out.append(d)
        return b"".join(out)

    def write(self, b):
        self._chk()
        if not self._writable:
            raise io.UnsupportedOperation("not writable")
        try:
            return K.sys_write(self._fd, b)
        except BlockingIOError:
            return None

    def seek(self, pos, whence=0):
        if isinstance(pos, float):
            raise TypeError("an integer is required")
        self._chk()
        return s_lseek(self._fd, pos, whence)

    def tell(self):
        self._chk()
        return K.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._chk()
        if not self._writable:
            raise io.UnsupportedOperation("not writable")
        if size is None:
            size = self.tell()
        K.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self._fd = self._fd, -1
                if self._closefd and fd >= 0 and on():
                    K.sys_close(fd)

    def __del__(self):
        if not on() or self._fd < 0:
            return
        try:
            self.close()
        except Exception:
            pass

    @property
    def closefd(self):
        return self._closefd

    @property
    def mode(self):
        if self._created:
            return "xb+" if self._readable else "xb"
        if self._appending:
            return "ab+" if self._readable else "ab"
        if self._readable:
            return "rb+" if self._writable else "rb"
        return "wb"


class _MetaFileIO(type(io.RawIOBase)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimFileIO, _io.FileIO))

    def __call__(cls, *a, **kw):
        if not on() or (a and not isinstance(a[0], int) and _is_real(a[0]) and K.exists(_norm(a[0])) is None):
            return _io.FileIO(*a, **kw)
        return SimFileIO(*a, **kw)


class FileIOProxy(metaclass=_MetaFileIO):
    """io.FileIO as the program sees it."""


_READS = frozenset(("read", "read1", "readinto", "readinto1", "readline"))


def _buffered(base):
    """The C class with its lock moved under the scheduler's control."""

    class B(base):
        def __init__(self, raw, *a, **kw):
            self._slock = SimRLock()
            base.__init__(self, raw, *a, **kw)

    def wrap(name):
        orig = getattr(base, name)

        def f(self, *a, **kw):
            lk = self._slock
            lk.acquire()
            try:
                r = orig(self, *a, **kw)
            finally:
                lk.release()
            if name in _READS and r and K is not None and K.active:
                n = r if isinstance(r, int) else len(r)
                if n > 1 << 20:
                    o = self.raw
                    o = getattr(o, "_s", None) if isinstance(o, _SockIO) else K.me.fds.get(getattr(o, "_fd", -1))
                    for m in K.monitors:
                        m.on_user_read(o, n)
            return r
        f.__name__ = name
        setattr(B, name, f)

    for n in ("read", "read1", "readinto", "readinto1", "readline", "peek", "seek", "truncate", "write",
              "flush", "close", "detach"):
        # these two of a reader take no lock
        if hasattr(base, n) and not (base is _io.BufferedReader and n in ("flush", "detach")):
            wrap(n)
    if hasattr(base, "readline"):
        def __next__(self):
            ln = self.readline()
            if not ln:
                raise StopIteration
            return ln
        B.__next__ = __next__
    B.__name__ = base.__name__
    B.__qualname__ = base.__qualname__
    return B


SimBufferedReader = _buffered(_io.BufferedReader)
SimBufferedWriter = _buffered(_io.BufferedWriter)
SimBufferedRandom = _buffered(_io.BufferedRandom)


def s_builtin_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if K is None or not K.active or (not isinstance(file, int) and opener is None and _is_real(file)
                                     and K.exists(_norm(file)) is None):
        return real.builtin_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    if not isinstance(file, (str, bytes, int)):
        raise TypeError("invalid file: %r" % file)
    if not isinstance(mode, str):
        raise TypeError("invalid mode: %r" % mode)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    raw = SimFileIO(file, (creating and "x" or "") + (reading and "r" or "") + (writing and "w" or "") +
                    (appending and "a" or "") + (updating and "+" or ""), closefd, opener=opener)
    result = raw
    try:
        line_buffering = False
        if buffering == 1 or buffering < 0 and raw.isatty():
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = K.bufsize
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = SimBufferedRandom(raw, buffering)
        elif creating or writing or appending:
            buffer = SimBufferedWriter(raw, buffering)
        else:
            buffer = SimBufferedReader(raw, buffering)
        result = buffer
        if binary:
            return result
        text = _io.TextIOWrapper(buffer, encoding or "utf-8", errors, newline, line_buffering)
        result = text
        text.mode = mode
        return result
    except BaseException:
        result.close()
        raise


# ---------------------------------------------------------------------------------------------
# fcntl, mmap, select
# ---------------------------------------------------------------------------------------------

FIGETBSZ = 2
FIEMAP = 0xC020660B
BLKGETSIZE64 = 0x80081272
BLKGETSIZE = 0x1260
BLKSSZGET = 0x1268
BLKPBSZGET = 0x127B
BLKBSZGET = 0x80081270


def _fd(f):
    return f if isinstance(f, int) else f.fileno()


def s_ioctl(fd, request, arg=0, mutate_flag=True):
    import struct
    k = K
    o = k.ofd(_fd(fd))
    request &= 0xFFFFFFFF
    name = {FIGETBSZ: "figetbsz", FIEMAP: "fiemap"}.get(request, "ioctl")
    k.op(name, o.role, "%x" % request)
    ino = o.obj if o.kind == "ino" else None

    def give(b):
        if isinstance(arg, int) or arg is None:
            raise oserr(errno.EFAULT)
        if isinstance(arg, (bytes, str)):
            return b
        mv = memoryview(arg).cast("B")
        mv[:len(b)] = b
        return 0 if mutate_flag else bytes(mv)

    if request == FIGETBSZ:
        if ino is None or ino.kind not in ("reg", "dir", "blk"):
            raise oserr(errno.ENOTTY)
        if ino.figetbsz_errno == -1:
            return give(struct.pack("i", 0))  # file systems without a block size of their own
        if ino.figetbsz_errno:
            raise oserr(ino.figetbsz_errno)
        return give(struct.pack("i", ino.bsz))
    if request == FIEMAP:
        if ino is None or ino.kind != "reg":
            raise oserr(errno.ENOTTY if ino is None or ino.kind != "blk" else errno.EOPNOTSUPP)
        if ino.fiemap_errno:
            raise oserr(ino.fiemap_errno)
        raw = bytes(memoryview(arg).cast("B"))
        start, length, flags, _, cnt, _ = struct.unpack("=QQLLLL", raw[:32])
        if length == 0:
            raise oserr(errno.EINVAL)
        if cnt > (len(raw) - 32) // 56:
            raise SimBug("fiemap buffer overrun")
        if flags & 1:
            ino.delayed = ()
        exts = k.extents(ino)
        hit = [(i, e) for i, e in enumerate(exts) if e[0] + e[1] > start and e[0] < start + length]
        total = len(hit)
        if cnt:
            mx = cnt
            if ino.fiemap_max is not None:
                mx = min(mx, max(1, ino.fiemap_max))
            hit = hit[:mx]
            total = len(hit)
        out = struct.pack("=QQLLLL", start, length, flags, total, cnt, 0)
        if cnt:
            for i, (a, ln) in hit:
                fl = 1 if i == len(exts) - 1 else 0
                # where and how the data are stored is nobody's business here
                fl |= ino.fiemap_flags[i % len(ino.fiemap_flags)] if ino.fiemap_flags else 0
                out += struct.pack("=QQQQQLLLL", a, a + (1 << 30), ln, 0, 0, fl, 0, 0, 0)
        return give(out)
    if request in (BLKGETSIZE64, BLKGETSIZE, BLKSSZGET, BLKPBSZGET, BLKBSZGET):
        if ino is None or ino.kind != "blk":
            raise oserr(errno.ENOTTY)
        if request == BLKGETSIZE64:
            return give(struct.pack("Q", ino.size))
        if request == BLKGETSIZE:
            return give(struct.pack("L", ino.size // 512))
        return give(struct.pack("i", 512))
    raise oserr(errno.ENOTTY)


def s_fcntl(fd, cmd, arg=0):
    import fcntl as F
    o = K.ofd(_fd(fd))
    if cmd == F.F_GETFL:
        return o.flags
    if cmd == F.F_SETFL:
        o.flags = (o.flags & 3) | (arg & ~3)
        return 0
    if cmd == F.F_GETFD:
        return 1
    if cmd in (F.F_DUPFD, getattr(F, "F_DUPFD_CLOEXEC", 1030)):
        return K.newfd(o)
    if cmd == getattr(F, "F_GETPIPE_SZ", 1032):
        return o.obj.cap
    if cmd == getattr(F, "F_SETPIPE_SZ", 1031):
        return arg
    return 0


def make_mmap():
    import mmap as M
    rm = M.mmap

    class SimMmap(rm):
        _ino = None

        def __new__(cls, fileno, length, *a, **kw):
            if not on():
                return rm.__new__(cls, fileno, length, *a, **kw)
            names = ("flags", "prot", "access", "offset")
            kw = dict(kw)
            for n, v in zip(names, a):
                kw[n] = v
            access = kw.get("access", 0)
            offset = kw.get("offset", 0)
            if fileno == -1:
                return rm.__new__(cls, -1, length)
            o = K.ofd(fileno)
            K.op("mmap", o.role)
            if o.kind != "ino" or o.obj.kind not in ("reg", "blk"):
                raise oserr(errno.ENODEV)
            ino = o.obj
            flags = kw.get("flags", M.MAP_SHARED)
            prot = kw.get("prot", M.PROT_READ | M.PROT_WRITE)
            shared = (access == M.ACCESS_WRITE) or (access == 0 and flags & M.MAP_SHARED and prot & M.PROT_WRITE)
            if not o.readable or (shared and not o.writable):
                raise PermissionError(errno.EACCES, "Permission denied")
            if length == 0:
                if ino.size == 0:
                    raise ValueError("cannot mmap an empty file")
                if offset >= ino.size:
                    raise ValueError("mmap offset is greater than file size")
                length = ino.size - offset
            elif offset + length > ino.size:
                raise ValueError("mmap length is greater than file size")
            data = ino.get(offset, length)
            m = rm.__new__(cls, -1, length)
            rm.__setitem__(m, slice(0, length), data)
            if shared:
                m._ino, m._off, m._ofd = ino, offset, o
            if access == M.ACCESS_READ:
                m._ro = True
            return m

        def _sync(self):
            ino = self._ino
            if ino is None:
                return
            cur = rm.__getitem__(self, slice(0, len(self)))
            old = ino.get(self._off, len(cur))
            if cur != old:
                ino.put(self._off, cur)
                for m in K.monitors:
                    m.on_write(ino, self._ofd, self._off, len(cur))

        def __setitem__(self, i, v):
            if getattr(self, "_ro", False):
                raise TypeError("mmap can't modify a readonly memory map.")
            rm.__setitem__(self, i, v)
            self._sync()

        def write(self, b):
            if getattr(self, "_ro", False):
                raise TypeError("mmap can't modify a readonly memory map.")
            r = rm.write(self, b)
            self._sync()
            return r

        def flush(self, *a):
            if not on():
                return rm.flush(self, *a)
            self._sync()

        def close(self):
            if on() and self._ino is not None:
                self._sync()
                self._ino = None
            return rm.close(self)

    M.mmap = SimMmap


class SimPoll:
    def __init__(self):
        self.fds = {}

    def register(self, fd, events=3):
        self.fds[_fd(fd)] = events

    def modify(self, fd, events):
        self.fds[_fd(fd)] = events

    def unregister(self, fd):
        del self.fds[_fd(fd)]

    def close(self):
        pass

    def _scan(self):
        out = []
        for fd in sorted(self.fds):
            ev = self.fds[fd]
            o = K.me.fds.get(fd)
            if o is None:
                out.append((fd, 0x20))
                continue
            r = 0
            if ev & 1 and (o.kind == "ino" or o.kind == "pr" and o.obj.can_read()):
                r |= 1
            if ev & 4 and (o.kind == "ino" or o.kind == "pw" and o.obj.can_write()):
                r |= 4
            if r:
                out.append((fd, r))
        return out

    def poll(self, timeout=None, maxevents=-1):
        K.pause("poll")
        if timeout is not None and timeout >= 0:
            K.block(lambda: bool(self._scan()), K.now + int(timeout * 1e6), "poll")
        else:
            K.block(lambda: bool(self._scan()), None, "poll")
        return self._scan()


def s_select(r, w, x, timeout=None):
    p = SimPoll()
    m = {}
    for f in r:
        p.register(f, 1)
        m[_fd(f)] = f
    for f in w:
        p.fds[_fd(f)] = p.fds.get(_fd(f), 0) | 4
        m[_fd(f)] = f
    ev = p.poll(None if timeout is None else timeout * 1000)
    return ([m[fd] for fd, e in ev if e & 1], [m[fd] for fd, e in ev if e & 4], [])


# ---------------------------------------------------------------------------------------------
# Processes
# ---------------------------------------------------------------------------------------------


def s_fork_exec(args, executable_list, close_fds, fds_to_keep, cwd, env_list, p2cread, p2cwrite, c2pread, c2pwrite,
                errread, errwrite, errpipe_read, errpipe_write, *rest):
    k = K
    argv = [os.fsdecode(a) for a in args]
    exe = None
    err = errno.ENOENT
    for cand in executable_list:
        cand = os.fsdecode(cand)
        ino = k.exists(cand)
        if ino is not None and ino.kind == "reg":
            if ino.mode & 0o111:
                exe = cand
                break
            err = errno.EACCES
    name = os.path.basename(argv[0]) if argv else "?"
    k.op("fork", name, " ".join(argv)[:80])
    p = k.new_proc(name, argv)
    fds = {}
    for n, fd in ((0, p2cread), (1, c2pwrite), (2, errwrite)):
        o = k.me.fds.get(fd if fd >= 0 else n)
        if o is not None and (fd >= 0 or o.std):  # all the others are closed on exec
            o.refs += 1
            fds[n] = o
    p.fds = fds
    if exe is None:
        p.exit(255)
        w = k.ofd(errpipe_write)
        w.obj.buf += b"OSError:%x:" % err
        return p.pid
    k.start_program(p, os.path.basename(exe), argv)
    for fd, tag in ((p2cwrite, "in:"), (c2pread, "out:"), (errread, "err:")):
        if fd >= 0 and fd in k.me.fds:
            k.me.fds[fd].role = tag + p.name
    return p.pid


# ---------------------------------------------------------------------------------------------
# Network
# ---------------------------------------------------------------------------------------------


class _SockIO(io.RawIOBase):
    def __init__(self, sock, mode):
        self._s = sock
        self._m = mode
        sock._io += 1

    def readable(self):
        return "r" in self._m

    def writable(self):
        return "w" in self._m

    def seekable(self):
        return False

    def fileno(self):
        return self._s.fileno()

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        mv = memoryview(b).cast("B")
        d = self._s._recv(len(mv))
        mv[:len(d)] = d
        return len(d)

    def write(self, b):
        return self._s.send(b)

    def close(self):
        if self.closed:
            return
        super().close()
        s, self._s = self._s, None
        s._io_drop()


class SimSocket:
    """A connected TCP stream to a simulated server."""

    def __init__(self, conn, timeout):
        self.conn = conn
        self._timeout = timeout
        self._io = 0
        self._closed = False
        self._down = False
        self._fdnum = None
        conn.rx.readers += 1
        conn.tx.writers += 1
        conn.client_opened()

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self._closed else 900

    def getpeername(self):
        return ("10.0.0.1", 80)

    def getsockname(self):
        return ("10.0.0.2", 40000)

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        raw = _SockIO(self, mode)
        if buffering == 0:
            return raw
        if "w" in mode and "r" not in mode:
            return SimBufferedWriter(raw, K.bufsize)
        return SimBufferedReader(raw, K.bufsize)

    def _deadline(self):
        if self._timeout is None:
            return None
        return K.now + int(self._timeout * 1e9)

    def _recv(self, n):
        k = K
        f = k.op("recv", "net", "%d" % n)
        for m in k.monitors:
            m.on_read_req(self, n)
        if f is not None and f["kind"] == "short":
            n = max(1, min(n, f.get("n", 1)))
        elif k.p_short_r and n > 1 and k.rio.random() < k.p_short_r:
            k.soft["short_reads"] = k.soft.get("short_reads", 0) + 1
            n = max(1, min(n, k.rio.choice((1, 100, 1448, 4096, 16384, n // 2 + 1))))
        dl = self._deadline()
        rx = self.conn.rx
        if f is not None and f["kind"] == "reset":
            rx.reset = True
        while True:
            d = rx.try_read(n)
            if d is not None:
                break
            if not k.block(rx.can_read, dl, "recv") and dl is not None and k.now >= dl:
                raise TimeoutError("timed out")
        if f is not None and f["kind"] == "flip":
            d = k._flip(f, d)
        for m in k.monitors:
            m.on_read(self, len(d))
        return d

    role = "net"
    kind = "sock"

    def recv(self, n, flags=0):
        return self._recv(n)

    def recv_into(self, b, nbytes=0, flags=0):
        mv = memoryview(b).cast("B")
        d = self._recv(nbytes or len(mv))
        mv[:len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        k = K
        k.op("send", "net")
        data = bytes(data)
        dl = self._deadline()
        tx = self.conn.tx
        while True:
            try:
                n = tx.try_write(data)
            except BrokenPipeError:
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if n is not None:
                return n
            if not k.block(lambda: tx.can_write(len(data)), dl, "send") and dl is not None and k.now >= dl:
                raise TimeoutError("timed out")

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def shutdown(self, how):
        pass

    def _io_drop(self):
        self._io -= 1
        if self._closed and self._io <= 0:
            self._real_close()

    def close(self):
        if not self._closed:
            self._closed = True
            if self._io <= 0:
                self._real_close()

    def _real_close(self):
        if not self._down:
            self._down = True
            self.conn.rx.readers -= 1
            self.conn.tx.writers -= 1
            if on():
                K.note("socket-close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if on():
            self.close()

    def detach(self):
        self._closed = True
        return -1


def s_create_connection(address, timeout=None, source_address=None, *, all_errors=False):
    import socket
    if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = None
    host, port = address
    return K.net_connect(host, port, timeout, SimSocket)


def s_getaddrinfo(host, port, *a, **kw):
    import socket
    if not K.net_known(host):
        raise socket.gaierror(-2, "Name or service not known")
    return [(2, 1, 6, "", ("10.0.0.1", port))]


class StubSSLContext:
    check_hostname = True
    verify_mode = 2
    post_handshake_auth = None

    def wrap_socket(self, sock, *a, **kw):
        return sock

    def set_alpn_protocols(self, *a):
        pass

    def load_cert_chain(self, *a, **kw):
        pass


# ---------------------------------------------------------------------------------------------
# Clocks
# ---------------------------------------------------------------------------------------------


def _clock(name, fn):
    orig = getattr(time, name)

    def f(*a):
        if not on():
            return orig(*a)
        return fn(*a)
    f.__name__ = name
    return f


def _c_time_ns():
    return K.wall()


def _c_mono_ns():
    return K.now + SEC


def _c_sleep(s):
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    K.pause("sleep")
    K.sleep(int(s * 1e9))


# ---------------------------------------------------------------------------------------------


def install(real_roots):
    """Patch everything.  Call once, as early as possible."""
    for bad in ("subprocess", "logging", "queue", "tempfile", "socket", "bmaptools", "concurrent.futures"):
        if bad in sys.modules:
            raise SimBug("%s was imported before the seam was installed" % bad)
    import linecache, tokenize, traceback, warnings  # noqa: keep the real open()
    import mmap, fcntl, select, selectors, struct, signal  # noqa
    import threading, datetime  # noqa
    import encodings.idna, encodings.latin_1, encodings.ascii, stringprep  # noqa
    REAL_ROOTS.extend(real_roots)

    # a stack shown by the program ends where the program begins
    real_walk = traceback.walk_stack
    here = os.path.dirname(os.path.abspath(__file__)) + "/"

    def walk_stack(f):
        for fr, line in real_walk(f):
            if fr.f_code.co_filename.startswith(here) and on():
                return
            yield fr, line

    traceback.walk_stack = walk_stack

    # threads
    global _real_set_sentinel
    _real_set_sentinel = _thread._set_sentinel
    _thread.allocate_lock = _thread.allocate = SimLock
    _thread.RLock = SimRLock
    _thread.start_new_thread = _thread.start_new = _start_new_thread
    _thread._set_sentinel = _set_sentinel
    threading._start_new_thread = _start_new_thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading.RLock = SimRLock
    threading._set_sentinel = _set_sentinel
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()

    # clocks
    c = {
        "time": lambda: K.wall() / 1e9, "time_ns": _c_time_ns,
        "monotonic": lambda: (K.now + SEC) / 1e9, "monotonic_ns": _c_mono_ns,
        "perf_counter": lambda: (K.now + SEC) / 1e9, "perf_counter_ns": _c_mono_ns,
        "process_time": lambda: K.now / 1e9, "process_time_ns": lambda: K.now,
        "sleep": _c_sleep,
    }
    for n, fn in c.items():
        setattr(time, n, _clock(n, fn))
    threading._time = time.monotonic

    real_gmtime, real_localtime, real_strftime, real_ctime = time.gmtime, time.localtime, time.strftime, time.ctime

    def gmtime(s=None):
        return real_gmtime(K.wall() / 1e9 if s is None and on() else s) if (s is not None or on()) else real_gmtime()

    def localtime(s=None):
        if on():
            return real_gmtime(K.wall() / 1e9 if s is None else s)
        return real_localtime() if s is None else real_localtime(s)

    def strftime(fmt, t=None):
        if t is None:
            t = localtime()
        return real_strftime(fmt, t)

    time.gmtime, time.localtime, time.strftime = gmtime, localtime, strftime
    rdt = datetime.datetime

    class SimDatetime(rdt):
        @classmethod
        def now(cls, tz=None):
            if not on():
                return rdt.now(tz)
            if tz is not None:
                return rdt.fromtimestamp(K.wall() / 1e9, tz)
            return rdt.fromtimestamp(K.wall() / 1e9, datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return rdt.utcnow() if not on() else cls.now()

        @classmethod
        def today(cls):
            return rdt.today() if not on() else cls.now()

    SimDatetime.__name__ = "datetime"
    datetime.datetime = SimDatetime

    # files
    for n, fn in (("open", s_open), ("close", s_close), ("read", s_read), ("write", s_write), ("pread", s_pread),
                  ("pwrite", s_pwrite), ("readv", s_readv), ("writev", s_writev), ("preadv", s_preadv),
                  ("pwritev", s_pwritev), ("sendfile", s_sendfile), ("copy_file_range", s_copy_file_range),
                  ("lseek", s_lseek), ("fstat", s_fstat), ("stat", s_stat), ("lstat", s_lstat), ("access", s_access),
                  ("fsync", s_fsync), ("fdatasync", s_fsync), ("ftruncate", s_ftruncate), ("truncate", s_truncate),
                  ("posix_fallocate", s_posix_fallocate), ("dup", s_dup), ("dup2", s_dup2), ("pipe", s_pipe),
                  ("pipe2", s_pipe), ("unlink", s_unlink), ("remove", s_unlink), ("rename", s_rename),
                  ("replace", s_rename), ("link", s_link), ("mkdir", s_mkdir), ("rmdir", s_rmdir),
                  ("listdir", s_listdir), ("scandir", s_scandir), ("readlink", s_readlink), ("symlink", s_symlink),
                  ("getcwd", lambda: K.cwd), ("chdir", s_chdir), ("isatty", s_isatty), ("set_blocking", s_set_blocking),
                  ("get_blocking", s_get_blocking), ("set_inheritable", s_nop), ("get_inheritable", lambda fd: False),
                  ("chmod", s_chmod), ("fchmod", s_fchmod), ("chown", s_nop), ("fchown", s_nop), ("utime", s_utime),
                  ("posix_fadvise", s_nop), ("sync", lambda: K.sys_sync()), ("kill", s_kill),
                  ("waitpid", s_waitpid), ("getpid", lambda: 4242), ("getppid", lambda: 4241),
                  ("urandom", s_urandom), ("getrandom", lambda n, flags=0: s_urandom(n)), ("statvfs", s_statvfs),
                  ("fstatvfs", s_statvfs), ("mkfifo", s_mkfifo), ("umask", lambda m: 0o22),
                  ("device_encoding", lambda fd: None), ("get_terminal_size", lambda *a: os.terminal_size((80, 24))),
                  ("nice", lambda n: 0), ("cpu_count", lambda: 8), ("sched_getaffinity", lambda pid: set(range(8))),
                  ("sched_yield", lambda: K.pause("yield")), ("getloadavg", lambda: (0.0, 0.0, 0.0))):
        _wrap(n, fn)
    for n in ("fork", "forkpty", "execv", "execve", "posix_spawn", "posix_spawnp", "system", "popen", "splice", "abort",
              "killpg", "wait", "wait3", "wait4", "waitid", "chroot", "mknod", "memfd_create", "eventfd", "openpty",
              "setuid", "setgid", "lockf", "ttyname"):
        if hasattr(os, n):
            g = _guard(n)
            setattr(_saved, n, getattr(os, n))
            setattr(os, n, g)
    builtins.open = s_builtin_open
    io.open = s_builtin_open
    io.FileIO = FileIOProxy
    _wrap("ioctl", s_ioctl, fcntl)
    _wrap("fcntl", s_fcntl, fcntl)
    _wrap("flock", s_nop, fcntl)
    _wrap("lockf", s_nop, fcntl)
    make_mmap()
    rpoll = select.poll

    def poll_factory(*a, **kw):
        return SimPoll() if on() else rpoll()
    select.poll = poll_factory
    selectors.PollSelector._selector_cls = poll_factory
    selectors.DefaultSelector = selectors.PollSelector
    selectors.EpollSelector = selectors.PollSelector
    _wrap("select", s_select, select)
    selectors.SelectSelector._select = staticmethod(lambda r, w, x, t=None: select.select(r, w, x, t))

    _wrap("signal", lambda *a: signal.SIG_DFL, signal)

    # modules that bind names at import: bring them in now, on top of the seam
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    import subprocess
    _wrap("_fork_exec", s_fork_exec, subprocess)
    subprocess._USE_VFORK = False
    subprocess._USE_POSIX_SPAWN = False
    import tempfile
    import random
    import socket
    import ssl  # noqa
    import http.client
    import urllib.request, urllib.error, urllib.parse, netrc, base64, uuid  # noqa
    import logging, logging.handlers, shutil, argparse, xml.etree.ElementTree, hashlib, gettext, locale  # noqa
    import contextlib, pathlib, glob, fnmatch, shlex, string, textwrap, json, copy, functools, itertools  # noqa
    import concurrent.futures, concurrent.futures.thread, weakref, ctypes, enum, typing, dataclasses  # noqa
    import gzip, bz2, lzma, zlib, tarfile, zipfile  # noqa
    import email.parser, email.message, email.feedparser, quopri, calendar, array  # noqa
    import secrets, uuid, platform, pwd, grp, unicodedata  # noqa
    # these opened files with the real open(); what the program uses must go through the seam
    socket.create_connection, _rcc = _dispatch(socket.create_connection, s_create_connection), None
    socket.getaddrinfo = _dispatch(socket.getaddrinfo, s_getaddrinfo)
    http.client._create_https_context = lambda v: StubSSLContext()
    ssl._create_default_https_context = lambda *a, **k: StubSSLContext()
    urllib.request.proxy_bypass = lambda *a, **kw: False
    # netrc checks the owner of the default file
    tempfile._RandomNameSequence.rng = property(lambda self: K.rio if on() else random.Random(0))
    logging._lock = SimRLock()
    return _saved


def _dispatch(orig, fn):
    def f(*a, **kw):
        return fn(*a, **kw) if on() else orig(*a, **kw)
    return f
