"""
Everything outside the program under test: decompressors, tar, ssh, df, HTTP servers, psplash, other
users of the block device.  Each is a generator task stepped by the simulated kernel; it yields when
it would block and whenever somebody else may run.
"""

import base64
import bz2
import errno
import lzma
import os
import random
import re
import shlex
import struct
import tarfile
import io as _io
import zlib

from .kernel import MS, SEC, OFD, Pipe, SimBug, Wait, oserr

RealBytesIO = _io.BytesIO


class Exit(Exception):
    def __init__(self, code):
        self.code = code


# ---------------------------------------------------------------------------------------------
# Containers.  gzip, bzip2 and xz are the real formats; lzop, lz4 and zstd use a toy container with
# the same observable properties (checksummed frames and an end marker).
# ---------------------------------------------------------------------------------------------

TOY = {"lzo": b"\x89LZO\0\r\n", "lz4": b"\x04\x22\x4d\x18", "zst": b"\x28\xb5\x2f\xfd"}


def toy_compress(kind, data):
    out = bytearray(TOY[kind])
    for i in range(0, len(data), 65536):
        c = zlib.compress(data[i:i + 65536], 1)
        out += struct.pack("<II", len(c), zlib.crc32(c)) + c
    out += struct.pack("<II", 0, zlib.crc32(data))
    return bytes(out)


class BadData(Exception):
    pass


class ToyDecomp:
    def __init__(self, kind):
        self.magic = TOY[kind]
        self.b = bytearray()
        self.started = False
        self.eof = False
        self.crc = 0
        self.unused = False

    def feed(self, d):
        self.b += d
        out = []
        while True:
            if self.eof:
                if self.b:
                    self.unused = True
                break
            if not self.started:
                if len(self.b) < len(self.magic):
                    break
                if bytes(self.b[:len(self.magic)]) != self.magic:
                    raise BadData("bad magic")
                del self.b[:len(self.magic)]
                self.started = True
            if len(self.b) < 8:
                break
            n, crc = struct.unpack("<II", self.b[:8])
            if n == 0:
                if crc != self.crc:
                    raise BadData("content checksum")
                del self.b[:8]
                self.eof = True
                continue
            if n > 1 << 20:
                raise BadData("frame size")
            if len(self.b) < 8 + n:
                break
            c = bytes(self.b[8:8 + n])
            if zlib.crc32(c) != crc:
                raise BadData("frame checksum")
            del self.b[:8 + n]
            try:
                p = zlib.decompress(c)
            except zlib.error as e:
                raise BadData(str(e))
            self.crc = zlib.crc32(p, self.crc)
            out.append(p)
        return b"".join(out)

    def complete(self):
        return self.eof and not self.b


class RealDecomp:
    """gzip / bzip2 / xz, concatenated members allowed."""

    def __init__(self, kind):
        self.kind = kind
        self.unused = False
        self.first = True
        self._new()
        self.tail = b""

    def _new(self):
        self.d = {"gz": lambda: zlib.decompressobj(31), "bz2": bz2.BZ2Decompressor,
                  "xz": lzma.LZMADecompressor}[self.kind]()
        self.any = False

    def feed(self, data):
        out = []
        data = self.tail + data
        self.tail = b""
        while data:
            if not self.any and not self.first:
                magic = {"gz": b"\x1f\x8b", "bz2": b"BZh", "xz": b"\xfd7zXZ\0"}[self.kind]
                if self.kind == "xz":
                    data = data.lstrip(b"\0")
                    if not data:
                        break
                if len(data) < len(magic) and magic.startswith(data):
                    self.tail = data
                    break
                if not data.startswith(magic):
                    self.unused = True
                    break
            try:
                out.append(self.d.decompress(data))
            except (zlib.error, OSError, EOFError, lzma.LZMAError, ValueError) as e:
                self.partial = b"".join(out)
                raise BadData(str(e))
            self.any = True
            if self.d.eof:
                data = self.d.unused_data
                self.first = False
                self._new()
            else:
                data = b""
        return b"".join(out)

    def complete(self):
        return not self.any and not self.first


def decomp(kind):
    return ToyDecomp(kind) if kind in TOY else RealDecomp(kind)


def compress(kind, data, level=1):
    if kind in TOY:
        return toy_compress(kind, data)
    if kind == "gz":
        c = zlib.compressobj(level, zlib.DEFLATED, 31)
        return c.compress(data) + c.flush()
    if kind == "bz2":
        return bz2.compress(data, max(1, level))
    if kind == "xz":
        return lzma.compress(data, preset=0)
    raise SimBug(kind)


def make_tar(name, data):
    f = RealBytesIO()
    t = tarfile.open(fileobj=f, mode="w", format=tarfile.USTAR_FORMAT)
    ti = tarfile.TarInfo(name)
    ti.size = len(data)
    ti.mtime = 0
    t.addfile(ti, RealBytesIO(data))
    t.close()
    return f.getvalue()


def make_zip(name, data):
    n = name.encode()
    c = zlib.compressobj(1, zlib.DEFLATED, -15)
    body = c.compress(data) + c.flush()
    crc = zlib.crc32(data)
    lh = struct.pack("<IHHHHHIIIHH", 0x04034B50, 20, 0, 8, 0, 0x21, crc, len(body), len(data), len(n), 0) + n
    cd = struct.pack("<IHHHHHHIIIHHHHHII", 0x02014B50, 20, 20, 0, 8, 0, 0x21, crc, len(body), len(data), len(n),
                     0, 0, 0, 0, 0, 0) + n
    end = struct.pack("<IHHHHIIH", 0x06054B50, 0, 0, 1, 1, len(cd), len(lh) + len(body), 0)
    return lh + body + cd + end


EXT = {
    "gz": (".gz", ".gzip"), "bz2": (".bz2",), "xz": (".xz",), "lzo": (".lzo",), "lz4": (".lz4",), "zst": (".zst",),
    "tar.gz": (".tar.gz", ".tgz"), "tar.bz2": (".tar.bz2", ".tbz2", ".tbz", ".tb2"), "tar.xz": (".tar.xz", ".txz"),
    "tar.lzo": (".tar.lzo", ".tzo"), "tar.lz4": (".tar.lz4", ".tlz4"), "tar.zst": (".tar.zst", ".tzst"),
    "zip": (".zip",),
}


def pack(comp, data, inner="disk.img"):
    if comp == "none":
        return data
    if comp == "zip":
        return make_zip(inner, data)
    if comp.startswith("tar."):
        return compress(comp[4:], make_tar(inner, data))
    return compress(comp, data)


# ---------------------------------------------------------------------------------------------
# Descriptors as the programs see them
# ---------------------------------------------------------------------------------------------


def rd(p, fd, n):
    """Generator: read(fd, n)."""
    k = p.k
    o = p.fds.get(fd)
    if o is None:
        raise oserr(errno.EBADF)
    p.nread = getattr(p, "nread", 0) + 1
    if o.kind == "pr":
        while True:
            d = o.obj.try_read(n)
            if d is not None:
                break
            yield Wait(o.obj.can_read)
    elif o.kind == "ino":
        if o.obj.kind in ("null", "tty"):
            return b""
        key = ("cread", o.role)
        k.counts[key] = c = k.counts.get(key, 0) + 1
        for i, f in k.faults.get(key, ()):
            if f["nth"] == c or f.get("sticky") and c > f["nth"]:
                k.fire(i, f)
                if f["kind"] == "errno":
                    raise oserr(f["errno"])
                if f["kind"] == "eof":
                    return b""
        d = o.obj.get(o.pos, n)
        o.pos += len(d)
    else:
        raise oserr(errno.EBADF)
    k.note("%s read %d" % (p.name, len(d)))
    yield
    return d


def wr(p, fd, data):
    """Generator: write all of data, applying this process's faults at output byte counts."""
    k = p.k
    o = p.fds.get(fd)
    if o is None:
        return
    mv = data
    while mv:
        step = len(mv)
        for f in p.faults:
            if not f.get("used"):
                step = min(step, max(0, f["after"] - p.out_bytes))
        if step == 0:
            for f in p.faults:
                if not f.get("used") and f["after"] <= p.out_bytes:
                    f["used"] = True
                    k.fire(f["index"], f)
                    if f["kind"] == "kill":
                        p.killed_by = f.get("sig", 9)
                        raise Exit(-f.get("sig", 9))
                    if f["kind"] == "exit":
                        raise Exit(f["code"])
                    if f["kind"] == "stall":
                        end = k.now + f["ns"]
                        yield Wait(lambda: k.now >= end, end)
                    if f["kind"] == "hang":
                        yield Wait(lambda: False)
                    if f["kind"] == "flip":
                        mv = bytes([mv[0] ^ f.get("mask", 0x41)]) + mv[1:]
                    if f["kind"] == "dup":
                        mv = mv[:512] + mv
                    if f["kind"] == "drop":
                        mv = mv[512:]
                    break
            continue
        piece = mv[:step]
        if o.kind == "pw":
            w = o.obj.try_write(piece)
            if w is None:
                yield Wait(lambda: o.obj.can_write(len(piece)))
                continue
        elif o.kind == "ino":
            if o.obj.kind not in ("null",):
                o.obj.put(o.obj.size, piece, log=False)
            w = len(piece)
        else:
            raise oserr(errno.EBADF)
        p.out_bytes += w
        mv = mv[w:]
        k.note("%s wrote %d" % (p.name, w))
        yield


def chunk(p):
    return p.k.rio.choice((512, 4096, 16384, 65536))


def say(p, msg):
    yield from wr_err(p, msg.encode() + b"\n")


def wr_err(p, data):
    o = p.fds.get(2)
    if o is None:
        return
    if o.kind == "ino" and o.obj.kind == "tty":
        o.obj.put(o.obj.size, data, log=False)
    elif o.kind == "pw":
        try:
            o.obj.try_write(data)
        except OSError:
            pass
    yield


# (kind, exit code on damaged or truncated input, exit code on trailing garbage, stop reading after the end?)
DECOMP = {
    "gzip": ("gz", 1, 2), "pigz": ("gz", 1, 0), "bzip2": ("bz2", 2, 0), "pbzip2": ("bz2", 1, 1), "xz": ("xz", 1, 1),
    "lzop": ("lzo", 1, 2), "lz4": ("lz4", 68, 1), "zstd": ("zst", 1, 1),
    "gunzip": ("gz", 1, 2), "zcat": ("gz", 1, 2), "bunzip2": ("bz2", 2, 0), "bzcat": ("bz2", 2, 0),
    "xzcat": ("xz", 1, 1), "unxz": ("xz", 1, 1), "unpigz": ("gz", 1, 0), "zstdcat": ("zst", 1, 1),
    "lz4cat": ("lz4", 68, 1),
}


def run_decomp(p, argv):
    kind, bad, trail = DECOMP[os.path.basename(argv[0])]
    d = decomp(kind)
    try:
        while True:
            b = yield from rd(p, 0, chunk(p))
            if not b:
                break
            out = d.feed(b)
            if out:
                yield from wr(p, 1, out)
        if not d.complete():
            if d.unused:
                yield from say(p, "%s: trailing garbage ignored" % argv[0])
                return trail
            yield from say(p, "%s: unexpected end of file" % argv[0])
            return bad
        yield from wr(p, 1, b"")
    except BadData as e:
        part = getattr(d, "partial", b"")
        if part:
            yield from wr(p, 1, part)
        yield from say(p, "%s: %s" % (argv[0], e))
        return bad
    return 0


def run_funzip(p, argv):
    hdr = b""
    while len(hdr) < 30:
        b = yield from rd(p, 0, 4096)
        if not b:
            yield from say(p, "funzip error: input not a zip or gzip file")
            return 3
        hdr += b
    if hdr[:4] != b"PK\x03\x04":
        yield from say(p, "funzip error: input not a zip or gzip file")
        return 3
    method, = struct.unpack("<H", hdr[8:10])
    crc, csz, usz, nl, xl = struct.unpack("<IIIHH", hdr[14:30])
    buf = hdr[30:]
    while len(buf) < nl + xl:
        b = yield from rd(p, 0, 4096)
        if not b:
            return 4
        buf += b
    buf = buf[nl + xl:]
    d = zlib.decompressobj(-15)
    total, c = 0, 0
    while not d.eof:
        if not buf:
            buf = yield from rd(p, 0, chunk(p))
            if not buf:
                yield from say(p, "funzip error: invalid compressed data -- unexpected end of file")
                return 4
        try:
            out = d.decompress(buf)
        except zlib.error:
            yield from say(p, "funzip error: invalid compressed data")
            return 4
        buf = b""
        c = zlib.crc32(out, c)
        total += len(out)
        if out:
            yield from wr(p, 1, out)
    if c != crc or total != usz:
        yield from say(p, "funzip error: invalid compressed data--crc error")
        return 4
    # the rest of the archive is not read
    return 0


class TarParse:
    """Streaming reader of a tar archive: yields member content."""

    def __init__(self):
        self.b = bytearray()
        self.left = 0
        self.pad = 0
        self.end = False
        self.members = 0

    def feed(self, data):
        self.b += data
        out = []
        while True:
            if self.end:
                self.b.clear()
                break
            if self.left:
                n = min(self.left, len(self.b))
                if not n:
                    break
                out.append(bytes(self.b[:n]))
                del self.b[:n]
                self.left -= n
                continue
            if self.pad:
                n = min(self.pad, len(self.b))
                if not n:
                    break
                del self.b[:n]
                self.pad -= n
                continue
            if len(self.b) < 512:
                break
            h = bytes(self.b[:512])
            del self.b[:512]
            if h == bytes(512):
                self.end = True
                continue
            try:
                chk = int(h[148:156].replace(b"\0", b" ").strip() or b"0", 8)
                size = int(h[124:136].replace(b"\0", b" ").strip() or b"0", 8)
            except ValueError:
                raise BadData("This does not look like a tar archive")
            if chk != sum(h[:148]) + 8 * 32 + sum(h[156:]):
                raise BadData("This does not look like a tar archive")
            self.members += 1
            self.left = size
            self.pad = -size % 512
        return b"".join(out)


TARFLAG = {"z": "gz", "j": "bz2", "J": "xz"}


def run_tar(p, argv):
    kind = None
    stdout = False
    i = 1
    longs = {"--lzo": "lzo", "--lzop": "lzo", "--gzip": "gz", "--bzip2": "bz2", "--xz": "xz", "--zstd": "zst"}
    progs = {"lz4": "lz4", "zstd": "zst", "gzip": "gz", "pigz": "gz", "bzip2": "bz2", "pbzip2": "bz2", "xz": "xz",
             "lzop": "lzo"}
    while i < len(argv):
        a = argv[i]
        if a in longs:
            kind = longs[a]
        elif a == "--to-stdout":
            stdout = True
        elif a.startswith("--use-compress-program="):
            kind = progs[a.split("=", 1)[1].split()[0]]
        elif a in ("--extract", "--absolute-names", "-"):
            pass
        elif a in ("-C", "--directory", "-f"):
            i += 1
        elif a.startswith("-I"):
            prog = a[2:]
            if not prog:
                i += 1
                prog = argv[i]
            kind = progs[prog.split()[0]]
        elif a.startswith("-") and not a.startswith("--") or i == 1:
            for c in a.lstrip("-"):
                if c in TARFLAG:
                    kind = TARFLAG[c]
                elif c == "O":
                    stdout = True
                elif c in ("C", "f"):
                    i += 1
                elif c == "I":
                    raise SimBug("tar " + " ".join(argv))
        i += 1
    if not stdout:
        raise SimBug("tar without -O: " + " ".join(argv))
    d = decomp(kind) if kind else None
    t = TarParse()
    try:
        while True:
            b = yield from rd(p, 0, chunk(p))
            if not b:
                break
            out = t.feed(d.feed(b) if d else b)
            if out:
                yield from wr(p, 1, out)
        if d and not d.complete():
            yield from say(p, "tar: Child returned status 1")
            return 2
        if t.left or t.pad or t.b or not t.members and not t.end:
            yield from say(p, "tar: Unexpected EOF in archive")
            return 2
    except BadData as e:
        part = getattr(d, "partial", b"")
        yield from say(p, "tar: %s" % e)
        return 2
    return 0


def run_cat(p, argv):
    while True:
        b = yield from rd(p, 0, chunk(p))
        if not b:
            return 0
        yield from wr(p, 1, b)


def run_df(p, argv):
    path = argv[-1]
    cfg = p.k.plan.get("df", {})
    mode = cfg.get("mode", "ok")
    ino = p.k.exists(path)
    if mode == "fail" or ino is None:
        yield from wr_err(p, b"df: %s: No such file or directory\n" % path.encode())
        return 1
    if mode == "empty":
        return 0
    if mode == "stall":
        end = p.k.now + cfg.get("ns", SEC)
        yield Wait(lambda: p.k.now >= end, end)
    fs = cfg.get("fs", "ext4")
    yield from wr(p, 1, b"Filesystem     Type 1K-blocks     Used Available Use% Mounted on\n")
    yield
    yield from wr(p, 1, b"/dev/root      %s  456499712 86956288 369543424  20%% /\n" % fs.encode())
    return 0


def run_true(p, argv):
    yield
    return 0


def run_sh(p, argv):
    if "-c" not in argv:
        raise SimBug("sh " + " ".join(argv))
    script = argv[argv.index("-c") + 1]
    words = shlex.split(script)
    if words and words[0] == "exec":
        words = words[1:]
    if any(w in ("|", "&&", ";", "||", "&") for w in words):
        raise SimBug("shell syntax: " + script)
    out = []
    for w in words:
        if w.startswith("<") or w.startswith(">"):
            raise SimBug("shell redirection: " + script)
        out.append(w)
    prog = p.k.find_program(out[0])
    if prog is None:
        yield from wr_err(p, b"sh: 1: not found\n")
        return 127
    p.name = os.path.basename(prog)
    p.k.assign_proc_faults(p)
    yield
    return (yield from p.k.programs[os.path.basename(prog)](p, out))


def remote_shell(cmd, files):
    """The simple commands of a remote command line as lists of words, or None if it makes no sense."""
    import fnmatch
    cmds, words, cur, pat = [], [], None, ""
    i = 0

    def end_word():
        nonlocal cur, pat
        if cur is not None:
            hits = sorted(f for f in files if fnmatch.fnmatchcase(f, pat)) if pat != glob_quote(cur) else []
            words.extend(hits or [cur])
        cur, pat = None, ""

    def glob_quote(t):
        return re.sub(r"([*?[])", r"[\1]", t)

    def add(t, quoted):
        nonlocal cur, pat
        cur = (cur or "") + t
        pat += glob_quote(t) if quoted else t

    while i < len(cmd):
        c = cmd[i]
        if c == "'":
            j = cmd.find("'", i + 1)
            if j < 0:
                return None
            add(cmd[i + 1:j], True)
            i = j
        elif c == '"':
            i += 1
            add("", True)
            while i < len(cmd) and cmd[i] != '"':
                if cmd[i] == "\\" and cmd[i + 1:i + 2] in ("$", "`", '"', "\\"):
                    i += 1
                elif cmd[i] == "$":
                    m = re.compile(r"\$\w+").match(cmd, i)
                    if m:
                        i = m.end()
                        continue
                elif cmd[i] == "`":
                    return None
                add(cmd[i], True)
                i += 1
            if i >= len(cmd):
                return None
        elif c == "\\":
            i += 1
            add(cmd[i:i + 1], True)
        elif c in " \t\n":
            end_word()
        elif c == "&" and cmd[i + 1:i + 2] == "&":
            end_word()
            if not words:
                return None
            cmds.append(words)
            words = []
            i += 1
        elif c in "&;|<>()`":
            return None
        elif c == "$" and re.compile(r"\w+").match(cmd, i + 1):
            i = re.compile(r"\w+").match(cmd, i + 1).end() - 1
        elif c == "#" and cur is None:
            break
        elif c == "~" and cur is None:
            add("/home/user", True)
        else:
            add(c, False)
        i += 1
    end_word()
    if not words:
        return None
    return cmds + [words]


def run_ssh(p, argv):
    k = p.k
    cfg = k.plan.get("ssh", {})
    pw = None
    a = argv
    if os.path.basename(a[0]) == "sshpass":
        i = 1
        while i < len(a) and a[i].startswith("-"):
            if a[i].startswith("-p"):
                pw = a[i][2:]
                if pw == "":
                    i += 1
                    pw = a[i]
            i += 1
        a = a[i:]
        if not a or k.find_program(a[0]) is None:
            return 3
    i = 1
    opts = []
    port = 22
    while i < len(a) and a[i].startswith("-"):
        if a[i] == "-o":
            if re.match(r" *Port[ =]", a[i + 1]):
                port = int(re.split("[ =]+", a[i + 1].strip())[1])
            opts.append(a[i + 1])
            i += 1
        elif a[i].startswith("-o"):
            opts.append(a[i][2:].strip())
        elif a[i] == "-p":
            i += 1
            port = int(a[i])
        elif a[i].startswith("-p"):
            port = int(a[i][2:])
        elif a[i] in ("-l", "-i", "-F"):
            i += 1
        i += 1
    if i >= len(a):
        return 255
    dest = a[i]
    cmd = " ".join(a[i + 1:])
    n = k.soft["ssh_n"] = k.soft.get("ssh_n", 0) + 1
    k.net_log.append(("ssh", dest, cmd, pw))
    d = cfg.get("delay", {}).get(str(n))
    if d:
        end = k.now + d
        yield Wait(lambda: k.now >= end, end)
    user, _, host = dest.rpartition("@")
    if host != cfg.get("host", "sshhost") or port != cfg.get("port", 22) or n in cfg.get("unreachable", ()):
        yield from wr_err(p, b"ssh: connect to host: Connection refused\n")
        return 255
    if cfg.get("password") is not None:
        if pw is None:
            yield from wr_err(p, b"Permission denied (publickey,password).\n")
            return 255
        if pw != cfg["password"] or (cfg.get("user") and user != cfg["user"]):
            return 5
    elif cfg.get("key_denied"):
        yield from wr_err(p, b"Permission denied (publickey).\n")
        return 255
    elif cfg.get("user") and user != cfg["user"]:
        yield from wr_err(p, b"Permission denied (publickey).\n")
        return 255
    # the remote shell; relative names start at the home directory
    files = k.env.ssh_files
    cmds = remote_shell(cmd, list(files) + [f[11:] for f in files if f.startswith("/home/user/")])
    if cmds is None:
        yield from wr_err(p, b"sh: syntax error\n")
        return 2
    for w in cmds:
        w = [w[0]] + [x if x[:1] in ("/", "-", "]") else "/home/user/" + x for x in w[1:]]
        if w[0] == "true":
            continue
        if w[0] in ("test", "["):
            w = [x for x in w[1:] if x != "]"]
            if len(w) != 2:
                yield from wr_err(p, b"sh: test: unexpected operator\n")
                return 2
            ok = w[1] in files
            if w[0] == "-r" and w[1] in cfg.get("unreadable", ()):
                ok = False
            if not ok:
                return 1
            continue
        if w[0] == "cat":
            w = [x for x in w if x != "--"]
            if len(w) != 2 or w[1] not in files or w[1] in cfg.get("vanished", ()):
                yield from wr_err(p, b"cat: No such file or directory\n")
                return 1
            data = files[w[1]]
            pos = 0
            while pos < len(data):
                c = chunk(p)
                yield from wr(p, 1, data[pos:pos + c])
                pos += c
            # faults placed at the very end
            yield from wr_tail(p)
            continue
        if w[0] in ("dd",):
            raise SimBug("remote command " + cmd)
        return 127
    return 0


def wr_tail(p):
    for f in p.faults:
        if not f.get("used") and f["after"] <= p.out_bytes and f["kind"] in ("kill", "exit"):
            f["used"] = True
            p.k.fire(f["index"], f)
            raise Exit(-f.get("sig", 9) if f["kind"] == "kill" else f["code"])
    yield


PROGRAMS = {
    "funzip": run_funzip, "tar": run_tar, "cat": run_cat, "df": run_df, "sh": run_sh, "bash": run_sh, "ssh": run_ssh,
    "sshpass": run_ssh, "true": run_true, "unzip": run_funzip,
}
for _n in DECOMP:
    PROGRAMS[_n] = run_decomp


def process(p, prog, argv):
    """The task of one process."""
    k = p.k
    code = 1
    try:
        yield
        code = yield from prog(p, argv)
        yield from wr_tail(p)
    except Exit as e:
        code = e.code
    except GeneratorExit:
        return
    except OSError as e:
        if e.errno == errno.EPIPE:
            code = -13
        else:
            o = p.fds.get(2)
            if o is not None and o.kind == "ino":
                o.obj.put(o.obj.size, b"%s: I/O error\n" % p.name.encode(), log=False)
            code = {"tar": 2, "bzip2": 1, "lz4": 1}.get(p.name, 1)
    p.exit(code or 0)


# ---------------------------------------------------------------------------------------------
# HTTP
# ---------------------------------------------------------------------------------------------


class Conn:
    def __init__(self, k, host, port, n):
        self.k, self.host, self.port, self.n = k, host, port, n
        self.rx = Pipe(k, k.plan.get("knobs", {}).get("sock_buf", 65536), "net")  # server -> client
        self.tx = Pipe(k, 65536, "net")  # client -> server
        self.rx.writers = 1
        self.tx.readers = 1

    def client_opened(self):
        pass


def http_server(conn, srv):
    """One connection: read a request, answer, close."""
    k = conn.k
    req = b""
    try:
        while b"\r\n\r\n" not in req:
            d = conn.tx.try_read(4096)
            if d is None:
                yield Wait(conn.tx.can_read)
                continue
            if not d:
                return
            req += d
            yield
        head = req.split(b"\r\n\r\n", 1)[0].decode("latin-1").split("\r\n")
        method, path, _ = head[0].split(" ", 2)
        hdrs = {}
        for h in head[1:]:
            n, _, v = h.partition(":")
            hdrs[n.strip().lower()] = v.strip()
        n = srv["n"] = srv.get("n", 0) + 1
        res = srv["files"].get(path)
        k.net_log.append(("http", conn.host, conn.port, path, hdrs.get("authorization")))
        k.note("http request %d %s auth=%s" % (n, path, "authorization" in hdrs))
        if res is None:
            yield from send(conn, b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\nConnection: close\r\n\r\nnot found")
            return
        rn = res["n"] = res.get("n", 0) + 1
        for d in res.get("delays", ()):
            if d["req"] == rn or d["req"] == 0:
                end = k.now + d["ns"]
                k.soft["http_delay"] = k.soft.get("http_delay", 0) + 1
                yield Wait(lambda: k.now >= end, end)
        auth = res.get("auth")
        if auth:
            want = "Basic " + base64.b64encode(("%s:%s" % tuple(auth)).encode()).decode()
            if hdrs.get("authorization") != want:
                body = b"denied"
                yield from send(conn, b"HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: Basic realm=\"r\"\r\n"
                                b"Content-Length: 6\r\nConnection: close\r\n\r\n" + body)
                return
        st = res.get("status", 200)
        if st == "garbage":
            yield from send(conn, b"GARBAGE\r\n\r\n")
            return
        if st == "close":
            return
        if st in (301, 302):
            yield from send(conn, ("HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
                                   % (st, res["location"])).encode())
            return
        if st != 200:
            yield from send(conn, b"HTTP/1.1 %d Error\r\nContent-Length: 5\r\nConnection: close\r\n\r\nerror" % st)
            return
        body = res["data"]
        mode = res.get("mode", "length")
        if mode == "length":
            yield from send(conn, b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body))
        elif mode == "chunked":
            yield from send(conn, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
        else:
            yield from send(conn, b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n")
        pos = 0
        drop = None
        stalls = []
        hit = set()
        for f in k.net_faults:
            if f.get("path", path) != path or f.get("used") and not f.get("sticky"):
                continue
            if f.get("req", rn) not in (0, rn):
                continue
            if f["kind"] in ("fin", "rst"):
                if drop is None or f["after"] < drop["after"]:
                    drop = f
            elif f["kind"] in ("stall", "flip"):
                stalls.append(f)
        while pos < len(body) or (drop is not None and drop["after"] >= len(body) and mode == "chunked"):
            c = k.rio.choice((1448, 4096, 16384, 65536))
            piece = body[pos:pos + c]
            for f in stalls:
                if id(f) not in hit and pos <= f["after"] < pos + len(piece):
                    hit.add(id(f))
                    f["used"] = True
                    k.fire(f["index"], f)
                    if f["kind"] == "stall":
                        end = k.now + f["ns"]
                        yield Wait(lambda: k.now >= end, end)
                    else:
                        i = f["after"] - pos
                        piece = piece[:i] + bytes([piece[i] ^ f.get("mask", 0x21)]) + piece[i + 1:]
            cut = drop is not None and drop["after"] <= pos + len(piece)
            if cut:
                piece = piece[:drop["after"] - pos]
            if mode == "chunked":
                if cut:
                    # the connection breaks inside or between chunks
                    if piece:
                        yield from send(conn, b"%x\r\n" % (len(piece) + drop.get("in_chunk", 0)) + piece +
                                        (b"" if drop.get("in_chunk") else b"\r\n"))
                elif piece:
                    yield from send(conn, b"%x\r\n" % len(piece) + piece + b"\r\n")
            elif piece:
                yield from send(conn, piece)
            pos += len(piece)
            if cut:
                drop["used"] = True
                k.fire(drop["index"], drop)
                if drop["kind"] == "rst":
                    conn.rx.reset = True
                return
        if mode == "chunked":
            yield from send(conn, b"0\r\n\r\n")
    except OSError:
        pass  # the client went away
    finally:
        conn.rx.writers = 0
        conn.tx.readers = 0


def send(conn, data):
    while data:
        n = conn.rx.try_write(data)
        if n is None:
            yield Wait(lambda: conn.rx.can_write(len(data)))
            continue
        data = data[n:]
        yield


# ---------------------------------------------------------------------------------------------
# Other actors
# ---------------------------------------------------------------------------------------------


def psplash(k, ino, cfg, log):
    """Reads progress commands from its pipe; may be slow, late, or die."""
    pipe = ino.pipe

    def pause(ns):
        end = k.now + ns
        return Wait(lambda: k.now >= end, end)

    if cfg.get("start"):
        yield pause(cfg["start"])
    o = OFD(k, "pr", pipe, os.O_RDONLY, "psplash")
    n = 0
    try:
        while True:
            if cfg.get("die_after") is not None and n >= cfg["die_after"]:
                return
            if cfg.get("slow"):
                yield pause(cfg["slow"])
            d = pipe.buf and bytes(pipe.buf[:4096])
            if d:
                del pipe.buf[:len(d)]
                log.append(d)
                n += 1
                yield
            else:
                yield Wait(lambda: bool(pipe.buf), k.now + 3600 * SEC)
                if not pipe.buf:
                    return
    finally:
        pipe.readers -= 1


def mounter(k, blk, cfg, log):
    """Another user of the block device, trying to get it exclusively at arbitrary instants."""
    rng = random.Random("mounter:%s" % cfg.get("seed", 0))
    for i in range(cfg.get("tries", 6)):
        gap = rng.choice((0, 1000, 20000, MS, 5 * MS, 50 * MS)) if not cfg.get("gaps") else cfg["gaps"][i]
        end = k.now + gap
        yield Wait(lambda: k.now >= end, end)
        if blk.excl is None:
            o = OFD(k, "ino", blk, os.O_RDWR | os.O_EXCL, "mounter")
            o.refs = 1
            o.excl = True
            blk.excl = o
            k.note("mounter got the device")
            log.append(("got", k.now, blk.wver, blk.dirty_bytes))
            hold = cfg.get("hold")
            if hold is None:
                hold = rng.choice((0, 5000, MS, 20 * MS))
            if hold < 0:
                return
            end = k.now + hold
            yield Wait(lambda: k.now >= end, end)
            log.append(("rel", k.now, blk.wver))
            o.drop()
            k.note("mounter released the device")
        else:
            log.append(("busy", k.now, blk.wver))
        yield


def feeder(k, pipe, data, cfg):
    """Whoever is on the other side of a piped standard input."""
    pos = 0
    cut = cfg.get("cut")
    try:
        while pos < len(data):
            c = k.rio.choice((1, 512, 4096, 65536, 65536))
            piece = data[pos:pos + c]
            if cut is not None and pos + len(piece) > cut:
                piece = piece[:cut - pos]
                if not piece:
                    return
            n = pipe.try_write(piece)
            if n is None:
                yield Wait(lambda: pipe.can_write(len(piece)))
                continue
            pos += n
            yield
    except OSError:
        pass
    finally:
        pipe.writers -= 1
