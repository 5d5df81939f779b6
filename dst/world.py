"""
Builds the simulated machine a plan describes and the reference against which its run is judged.
"""

import errno
import hashlib
import json
import os
import random
import re
import urllib.parse

from . import fakegpg, programs
from .kernel import MS, PG, SEC, OFD, Inode, Pipe, Proc, SimBug

OLD = b"\xa5" * PG  # what block devices and old files hold before the run


class Monitor:
    def on_write(self, ino, ofd, off, n): pass
    def on_open(self, ino, ofd): pass
    def on_resize(self, ino, size): pass
    def on_create(self, path, ino): pass
    def on_denied(self, ino, acc): pass
    def on_read_req(self, ofd, n): pass
    def on_read(self, ofd, n, at=None): pass
    def on_user_read(self, ofd, n): pass
    def on_fsync(self, ino): pass
    def on_pipe_write(self, ofd, data): pass
    def on_unlink(self, path, ino): pass


# ---------------------------------------------------------------------------------------------
# Images and bmaps
# ---------------------------------------------------------------------------------------------


def clip(ranges, bs, size):
    """Byte intervals covered by block ranges."""
    out = []
    for a, b in ranges:
        s, e = a * bs, min((b + 1) * bs, size)
        if e > s:
            out.append((s, e))
    return out


class Sparse:
    """Bytes of which only a few are not zero: images and disks of gigabytes and more."""

    def __init__(self, size, segs):
        self.size = size
        self.segs = segs  # [(start, bytes)], ascending, disjoint

    def __len__(self):
        return self.size

    def __getitem__(self, at):
        if not isinstance(at, slice):
            return self[at:at + 1][0]
        a, b, _ = at.indices(self.size)
        if b <= a:
            return b""
        if a == 0 and b > 32 << 20:
            return Sparse(b, [(s, d[:b - s]) for s, d in self.segs if s < b])
        if b - a > 256 << 20:
            raise SimBug("a slice of %d bytes of a sparse image" % (b - a))
        out = bytearray(b - a)
        for s, d in self.segs:
            x, y = max(a, s), min(b, s + len(d))
            if x < y:
                out[x - a:y - a] = d[x - s:y - s]
        return bytes(out)


def image_bytes(spec):
    """The image: unique data in mapped blocks, zeros (or junk) elsewhere."""
    size, bs = spec["size"], spec["bs"]
    rng = random.Random("image:%s" % spec.get("seed", 0))
    style = spec.get("style", "rand")
    if spec.get("sparse"):
        # what is too large to keep holds nothing
        return Sparse(size, [(s, rng.randbytes(e - s) if style != "zero" else bytes(e - s))
                             for s, e in spec.get("data") or clip(spec["ranges"], bs, size) if e - s <= 16 << 20])
    if spec.get("junk"):
        unit = rng.randbytes(4096)
        buf = bytearray((unit * (size // 4096 + 1))[:size])
    else:
        buf = bytearray(size)
    for s, e in spec.get("data") or clip(spec["ranges"], bs, size):
        n = e - s
        if style == "zero":
            d = bytes(n)
        elif style == "rep":
            d = (rng.randbytes(64) * (n // 64 + 1))[:n]
        elif style == "holes":
            # mapped, but some blocks are all zeros
            d = bytearray(rng.randbytes(n))
            for p in range(0, n, bs):
                if rng.random() < 0.3:
                    d[p:p + bs] = bytes(min(bs, n - p))
        else:
            d = rng.randbytes(n)
        buf[s:e] = d
    return bytes(buf)


HEAD = """<?xml version="1.0" ?>
<!-- This file contains the block map for an image file -->

<bmap version="%s">
    <!-- Image size in bytes -->
    <ImageSize> %d </ImageSize>

    <!-- Size of a block in bytes -->
    <BlockSize> %d </BlockSize>

    <!-- Count of blocks in the image file -->
    <BlocksCount> %d </BlocksCount>

    <!-- Count of mapped blocks: 468.0 KiB or 58.2%%    -->
    <MappedBlocksCount> %d    </MappedBlocksCount>

"""


def make_bmap(spec, image):
    """A block map in any of the format versions, written by hand (not by the code under test)."""
    ver = spec.get("version", "2.0")
    size, bs, ranges = spec["size"], spec["bs"], spec["ranges"]
    cnt = (size + bs - 1) // bs
    mapped = spec.get("mapped_cnt", sum(b - a + 1 for a, b in ranges))
    out = HEAD % (ver, size, bs, cnt, mapped)
    cs, attr, tag = None, None, None
    if ver in ("1.4", "2.0"):
        cs = spec.get("cs", "sha256")
        attr, tag = "chksum", "BmapFileChecksum"
        out += "    <ChecksumType> %s </ChecksumType>\n\n" % cs
    elif ver == "1.3":
        cs, attr, tag = "sha1", "sha1", "BmapFileSHA1"
    zero = None
    if tag:
        zero = "0" * len(hashlib.new(cs).hexdigest())
        out += "    <%s> %s </%s>\n\n" % (tag, zero, tag)
    out += "    <BlockMap>\n"
    nocs = spec.get("no_range_cs")
    for i, (a, b) in enumerate(ranges):
        at = ""
        if attr and not (nocs is True or isinstance(nocs, list) and i in nocs):
            at = ' %s="%s"' % (attr, hashlib.new(cs, image[a * bs:(b + 1) * bs]).hexdigest())
        if a == b and spec.get("single", True):
            out += "        <Range%s> %d </Range>\n" % (at, a)
        elif spec.get("spaces"):
            out += "        <Range%s> %d - %d </Range>\n" % (at, a, b)
        else:
            out += "        <Range%s> %d-%d </Range>\n" % (at, a, b)
    out += "    </BlockMap>\n</bmap>\n"
    if spec.get("craft"):
        # written by another program, or by nobody who cared: the text is edited before it is sealed
        for pat, new in spec["craft"]:
            out = re.sub(pat, lambda m: new.replace("\\1", m.group(1) if m.re.groups else ""), out, count=1, flags=re.S)
        m = re.search(r"<ChecksumType>\s*(\w+)\s*</", out)
        if m and m.group(1) in hashlib.algorithms_available and not m.group(1).startswith("shake"):
            cs = m.group(1)
        if zero and cs:
            n = len(hashlib.new(cs).hexdigest())
            out = out.replace(zero, "0" * n, 1)
            zero = "0" * n
    data = out.encode(spec.get("encoding", "utf-8"))
    if spec.get("bom"):
        data = b"\xef\xbb\xbf" + data
    if zero:
        good = hashlib.new(cs, data).hexdigest()
        data = data.replace(zero.encode(), good.encode(), 1)
    return data


# ---------------------------------------------------------------------------------------------


class Attr:
    """A sysfs attribute."""

    def __init__(self, k, ino, cfg, name):
        self.k, self.ino, self.cfg, self.name = k, ino, cfg, name
        self.value = cfg["value"]
        self.orig = cfg["value"]
        self.writes = []
        self.bad_restore = False
        self.set_failed = False
        ino.attr_read = self.read
        ino.attr_write = self.write
        ino.deny = cfg.get("deny", "")

    def read(self):
        if self.cfg.get("read_errno"):
            raise OSError(self.cfg["read_errno"], os.strerror(self.cfg["read_errno"]))
        if "options" in self.cfg:
            v = " ".join("[%s]" % o if o == self.value else o for o in self.cfg["options"])
        else:
            v = self.value
        return (v + "\n").encode()

    def write(self, data):
        v = data.decode("ascii", "replace").strip()
        self.writes.append(v)
        self.k.note("sysfs %s <- %s" % (self.name, v))
        n = len(self.writes)
        if n in self.cfg.get("fail_writes", ()) or self.cfg.get("fail_value") == v:
            raise OSError(errno.EINVAL, "Invalid argument")
        if "options" in self.cfg and v not in self.cfg["options"]:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.value = v


class Env:
    def __init__(self):
        self.path_roles = {}
        self.ssh_files = {}
        self.attrs = {}
        self.dest = None
        self.image_ino = None
        self.mount_log = []
        self.psplash_log = []
        self.psplash_fifo = None
        self.originals = {}


def build(k, plan):
    """Populate the kernel; returns the environment with the reference data."""
    env = Env()
    k.env = env
    k.programs = dict(programs.PROGRAMS)
    env.plan = plan
    for d in ("/work", "/tmp", "/dev", "/root", "/proc/self", "/sys/dev/block", "/sys/module", "/usr/bin", "/bin",
              "/out", "/img"):
        k.mkdirs(d)
    missing = set(plan.get("missing_programs", ()))
    for name in k.programs:
        if name in ("sh", "bash"):
            k.add("/bin/" + name, role="bin", data=b"#", mode=0o755)
        elif name not in missing:
            k.add("/usr/bin/" + name, role="bin", data=b"#", mode=0o755)
    k.add("/proc/meminfo", role="proc", data=b"MemTotal: 1 kB\nMemFree: 0 kB\n")
    k.add("/proc/self/status", role="proc", data=b"Name: x\n")
    null = k.add("/dev/null", "null", "devnull")
    null.rdev = os.makedev(1, 3)

    tty = plan.get("tty", False)
    for fd, name in ((0, "stdin"), (1, "stdout"), (2, "stderr")):
        tt = "tty" if tty is True or isinstance(tty, list) and name in tty else "reg"
        ino = Inode(k, tt, name)
        k.all_inodes.append(ino)
        if name == "stdin" and tt == "reg":
            ino = null
        setattr(env, name, ino)
        if name in plan.get("closed", ()):
            continue
        o = OFD(k, "ino", ino, os.O_RDWR | (os.O_APPEND if name != "stdin" else 0), name)
        o.refs += 1
        o.std = True
        k.me.fds[fd] = o

    # the image and its map
    spec = plan.get("image")
    if spec:
        env.image = content(plan)[0]
        env.spec = spec
        env.mapped = clip(spec["ranges"], spec["bs"], spec["size"])
        build_source(k, plan, env)
    bm = plan.get("bmap")
    if bm is not None:
        build_bmap(k, plan, env, bm)
    build_dest(k, plan, env)
    if plan.get("psplash"):
        build_psplash(k, plan, env)
    for path, cfg in plan.get("files", {}).items():
        ino = k.add(path, cfg.get("kind", "reg"), cfg.get("role", "file"),
                    cfg["data"].encode("latin-1") if "data" in cfg else None)
        ino.deny = cfg.get("deny", "")
    if plan.get("mounter"):
        m = plan["mounter"]
        k.add_task("mounter", programs.mounter(k, env.dest, m, env.mount_log))
    if plan.get("zfs_param") is not None:
        k.add("/sys/module/zfs/parameters/zfs_dmu_offset_next_sync", role="zfs",
              data=plan["zfs_param"].encode()).deny = plan.get("zfs_deny", "")
    if plan.get("alias"):
        build_alias(k, plan, env)
    resolve_net_faults(k, env)
    for path, ino in k_walk(k.root, ""):
        if ino.kind in ("reg",) and ino.role not in ("dest", "bmapout"):
            env.originals[path] = (ino, dict(ino.pages), ino.size)
    return env


def login(cred):
    """User name and password as a URL has them."""
    from urllib.parse import quote
    return "%s@" % ":".join(quote(x, safe="") for x in cred) if cred else ""


def ssh_names(plan, name):
    """Where a file is on the other host, and its URL in one of the possible forms."""
    cfg = plan.get("ssh", {})
    cred = plan.get("src", {}).get("url_auth")
    who = (login(cred)) + cfg.get("host", "sshhost")
    form = cfg.get("form")
    if form == "relative":
        return "/home/user/pub/img/" + name, "ssh://%s:pub/img/%s" % (who, name)
    if form == "colon":
        return "/srv/" + name, "ssh://%s:/srv/%s" % (who, name)
    if cfg.get("port"):
        who += ":%d" % cfg["port"]
    return "/srv/" + name, "ssh://%s/srv/%s" % (who, name)


def build_alias(k, plan, env):
    """Another name, or the same one, of one of the input files."""
    a = plan["alias"]
    path = {"image": env.src_arg, "bmap": getattr(env, "bmap_path", None), "sig": getattr(env, "sig_arg", None)}[a["of"]]
    via = a["via"]
    if via != "same":
        path = os.path.join(k.cwd, path)
    if via == "dots":
        d, n = os.path.split(path)
        path = "%s/../%s//./%s" % (d, os.path.basename(d), n)
    elif via == "relative":
        path = os.path.relpath(path, k.cwd)
    elif via == "symlink":
        k.symlink("/work/other.img", path)
        path = "/work/other.img"
    elif via == "hardlink":
        parent, _, _ = k.walk("/work/other.img")
        ino = k.exists(path)
        parent.entries["other.img"] = ino
        ino.nlink += 1
        path = "/work/other.img"
    env.alias_path = path


def k_walk(d, pre):
    for n in sorted(d.entries):
        e = d.entries[n]
        if e.kind == "dir":
            yield from k_walk(e, pre + "/" + n)
        else:
            yield pre + "/" + n, e


def resolve_net_faults(k, env):
    """Faults name the file they strike and how far into its body by role and fraction."""
    for f in k.net_faults:
        which = f.get("path")
        if which == "@src":
            f["path"] = getattr(env, "src_path", None)
            body = len(env.packed)
        elif which == "@bmap":
            f["path"] = urllib.parse.urlparse(env.bmap_path).path
            body = len(env.bmap_text)
        else:
            continue
        a = f["after"]
        if isinstance(a, (list, tuple)):
            f["after"] = max(0, min(body - 1, int(a[1] * body)))


_cache = {}


def prepare(plan):
    """Compress the image ahead of the run, in the parent, so that runs over the same image share the work."""
    src = plan.get("src") or {}
    if plan.get("image") and src.get("comp", "none") != "none":
        content(plan)


def content(plan):
    """The image, and what the source holds before any damage to the container."""
    key = json.dumps([plan["image"], plan.get("src", {}).get("comp"), plan.get("src", {}).get("pre_damage")], sort_keys=True)
    if _cache.get("key") != key:
        src = plan.get("src", {"kind": "file"})
        comp = src.get("comp", "none")
        im = image_bytes(plan["image"])
        c = damage(im, src["pre_damage"]) if src.get("pre_damage") else im
        _cache.clear()
        _cache.update(key=key, image=im, packed=programs.pack(comp, c) if comp != "none" else c)
    return _cache["image"], _cache["packed"]


def build_source(k, plan, env):
    src = plan.get("src", {"kind": "file"})
    comp = src.get("comp", "none")
    packed = content(plan)[1]
    dmg = src.get("damage")
    if dmg:
        packed = damage(packed, dmg)
    trunc = src.get("truncate")
    if src.get("truncate_frac") is not None:
        trunc = min(int(src["truncate_frac"] * len(packed)), max(0, len(packed) - 1))
    if trunc is not None:
        packed = packed[:trunc]
    if src.get("append"):
        packed = packed + bytes.fromhex(src["append"])
    env.packed = packed
    kind = src["kind"]
    name = src.get("name", "disk.img") + src.get("ext", "")
    env.src_name = name
    if kind in ("file", "fileurl"):
        d = src.get("dir", "/img")
        sparse = isinstance(packed, Sparse)
        ino = k.add(d + "/" + name, role="image", data=None if sparse else packed)
        env.image_ino = ino
        lay = src.get("layout")
        if sparse:
            for at, data in packed.segs:
                ino.put(at, data, log=False)
            ino.size = packed.size
            ino.settle()
        elif comp == "none":
            # holes are real holes unless they hold junk
            if not plan["image"].get("junk"):
                keep = set()
                for s, e in spec_data(plan["image"], env):
                    keep.update(range(s // PG, (e - 1) // PG + 1))
                for p in [p for p in ino.pages if p not in keep]:
                    del ino.pages[p]
                ino.settle()
        if lay:
            apply_layout(ino, lay)
            if lay.get("seek_mode"):
                # a property of the file system: temporary files next to the image share it
                k.walk(d)[2].seek_mode = lay["seek_mode"]
        if src.get("late"):
            # the program that asks has data to write itself
            ino.late = [tuple(x) for x in src["late"]]
            for s, e in ino.late:
                ino.put(s, bytes(min(e, ino.size) - s), log=False)
            ino.settle()
        env.src_arg = ino_path = d + "/" + name
        if kind == "fileurl":
            env.src_arg = "file://" + ino_path
        if src.get("relative"):
            k.cwd = d
            env.src_arg = name
        if src.get("deny"):
            ino.deny = src["deny"]
    elif kind == "stdin":
        # redirected from a file
        ino = k.add("/img/" + name, role="image", data=packed)
        env.image_ino = ino
        o = OFD(k, "ino", ino, os.O_RDONLY, "image")
        o.refs += 1
        k.me.fds[0].drop()
        o.std = True
        k.me.fds[0] = o
        env.src_arg = "-"
    elif kind == "pipe":
        p = Pipe(k, k.pipe_cap, "stdin")
        o = OFD(k, "pr", p, os.O_RDONLY, "stdin")
        o.refs += 1
        k.me.fds[0].drop()
        o.std = True
        k.me.fds[0] = o
        p.writers += 1
        k.add_task("actor:feeder", programs.feeder(k, p, packed, src))
        env.src_arg = "-"
    elif kind in ("http", "https"):
        host = src.get("host", "img.example")
        srv = k.net.setdefault(host, {"files": {}})
        for f in ("refuse", "dns_fail", "connect_delays"):
            if src.get(f):
                srv[f] = src[f]
        port = src.get("port", 443 if kind == "https" else 80)
        srv["port"] = port
        res = {"data": packed}
        for f in ("mode", "auth", "status", "delays", "location"):
            if f in src:
                res[f] = src[f]
        path = src.get("path", "/pub/") + name
        srv["files"][path] = res
        cred = src.get("url_auth")
        env.src_arg = "%s://%s%s%s%s" % (kind, login(cred), host,
                                       ":%d" % port if port not in (80, 443) else "", path)
        env.srv, env.src_path = srv, path
        if src.get("redirect"):
            srv["files"]["/old/" + name] = {"data": b"", "status": 302, "location": env.src_arg}
            env.src_arg = "%s://%s%s/old/%s" % (kind, host, ":%d" % port if port not in (80, 443) else "", name)
    elif kind == "ssh":
        cfg = plan.get("ssh", {})
        path, env.src_arg = ssh_names(plan, name)
        env.ssh_files[path] = packed
        env.src_path = path
        if "@src" in cfg.get("unreadable", ()):
            cfg["unreadable"] = [path]
    if src.get("netrc") is not None:
        ino = k.add("/root/.netrc", role="netrc", data=src["netrc"].encode("utf-8", "surrogateescape"))
        ino.mode = src.get("netrc_mode", 0o600)
        if src.get("netrc_deny"):
            ino.deny = "r"


def spec_data(spec, env):
    """Byte intervals that hold something."""
    return [tuple(x) for x in spec["data"]] if spec.get("data") else env.mapped


def apply_layout(ino, lay):
    for a in ("extents", "data_segs", "delayed"):
        if lay.get(a) is not None:
            setattr(ino, a, [tuple(x) for x in lay[a]])
    for a in ("fiemap_errno", "fiemap_max", "fiemap_flags", "seek_mode", "bsz", "figetbsz_errno", "blksize"):
        if lay.get(a) is not None:
            setattr(ino, a, lay[a])


def damage(data, dmg):
    """At-rest damage: list of operations."""
    b = bytearray(data)
    n = len(b)
    if not n:
        return data
    for op in dmg:
        kind = op["op"]
        at = int(op["at"] * n) if isinstance(op["at"], float) else op["at"]
        at = min(max(0, at), n - 1)
        if kind == "flip":
            b[at] ^= op.get("mask", 1)
        elif kind == "zero":
            m = min(op.get("n", 512), n - at)
            b[at:at + m] = bytes(m)
        elif kind == "cut":
            del b[at:]
        elif kind == "drop":
            del b[at:at + op.get("n", 1)]
        elif kind == "dup":
            b[at:at] = b[at:at + op.get("n", 1)]
        elif kind == "swap":
            m = op.get("n", 512)
            to = op["to"]
            if at + m <= n and to + m <= n:
                x, y = bytes(b[at:at + m]), bytes(b[to:to + m])
                b[at:at + m], b[to:to + m] = y, x
        elif kind == "sub":
            old, new = op["old"].encode(), op["new"].encode()
            i = bytes(b).find(old)
            if i >= 0:
                b[i:i + len(old)] = new
        if not b:
            break
        n = len(b)
    return bytes(b)


def build_bmap(k, plan, env, bm):
    if bm.get("text") is not None:
        good = bm["text"].encode("latin-1")
    else:
        spec = dict(plan["image"])
        img = env.image
        if bm.get("other"):
            # the map of another image
            spec.update(bm["other"])
            img = image_bytes(spec)
        spec.update({x: bm[x] for x in ("version", "cs", "no_range_cs", "single", "spaces", "mapped_cnt",
                                       "craft", "encoding", "bom") if x in bm})
        good = make_bmap(spec, img)
        env.bspec = spec
    env.bmap_good = good
    text = damage(good, bm["damage"]) if bm.get("damage") else good
    env.bmap_damaged = text != good
    sig = plan.get("sig")
    if sig and sig.get("how") == "clear":
        if sig.get("also"):
            # a detached signature of the clear-signed text on top of it
            env.sig_arg = "/work/my.sig"
            k.add(env.sig_arg, role="sig", data=fakegpg.make_sig(fakegpg.make_clear(text, sig["states"]), ["good"]))
        text = fakegpg.make_clear(text, sig["states"])
        if sig.get("damage"):
            text = damage(text, sig["damage"])
    env.bmap_text = text
    where = bm.get("where", "explicit")
    src = plan.get("src", {})
    name = src.get("name", "disk.img")
    kind = bm.get("kind", "file")
    full = name + src.get("ext", "")
    if where == "explicit":
        fn = bm.get("name", "map.bmap")
    elif where == "full":
        fn = full + ".bmap"  # disk.img.gz.bmap
    else:
        # strip `strip` extensions
        base = full
        for _ in range(bm.get("strip", 1)):
            base = os.path.splitext(base)[0]
        fn = base + ".bmap"
    env.bmap_arg = None
    if kind == "file":
        path = ("/img/" if where != "explicit" else "/work/") + fn
        ino = k.add(path, role="bmap", data=text)
        if bm.get("deny"):
            ino.deny = bm["deny"]
        env.bmap_path = path
        if where == "explicit":
            env.bmap_arg = path
    elif kind == "http":
        host = src.get("host", "img.example") if where != "explicit" else bm.get("host", "map.example")
        srv = k.net.setdefault(host, {"files": {}})
        path = src.get("path", "/pub/") + fn
        res = {"data": text}
        for f in ("mode", "auth", "status", "delays"):
            if f in bm:
                res[f] = bm[f]
        srv["files"][path] = res
        env.bmap_path = "http://%s%s%s" % (host, ":%d" % srv["port"] if srv.get("port", 80) not in (80, 443) else "", path)
        if src.get("kind") == "https" and where != "explicit":
            env.bmap_path = env.bmap_path.replace("http:", "https:", 1)
        if where == "explicit":
            env.bmap_arg = env.bmap_path
        srv.setdefault("port", 80)
    elif kind == "ssh":
        path, env.bmap_path = ssh_names(plan, fn)
        env.ssh_files[path] = text
        if where == "explicit":
            env.bmap_arg = env.bmap_path
    env.sig_arg = getattr(env, "sig_arg", None)
    if sig and sig.get("how") in ("asc", "sig", "explicit"):
        blob = fakegpg.make_sig(text, sig["states"])
        if sig.get("damage"):
            blob = damage(blob, sig["damage"])
        if sig.get("raw") is not None:
            blob = sig["raw"].encode("latin-1")
        if sig["how"] == "explicit":
            if sig.get("kind") == "http":
                srv = k.net.setdefault("sig.example", {"files": {}, "port": 80})
                res = {"data": blob}
                if sig.get("status"):
                    res["status"] = sig["status"]
                srv["files"]["/my.sig"] = res
                env.sig_arg = "http://sig.example/my.sig"
                for f in ("refuse", "dns_fail"):
                    if sig.get(f):
                        srv[f] = sig[f]
            else:
                env.sig_arg = "/work/my.sig"
                if not sig.get("absent"):
                    ino = k.add(env.sig_arg, role="sig", data=blob)
                    ino.deny = sig.get("deny", "")
        elif env.bmap_path.startswith("/"):
            ino = k.add(env.bmap_path + "." + sig["how"], role="sig", data=blob)
            ino.deny = sig.get("deny", "")
        elif env.bmap_path.startswith("http"):
            srv = k.net[src.get("host", "img.example") if where != "explicit" else bm.get("host", "map.example")]
            srv["files"][urllib.parse.urlparse(env.bmap_path).path + "." + sig["how"]] = {"data": blob}
        if sig.get("second"):
            # the other name exists as well
            other = "sig" if sig["how"] == "asc" else "asc"
            b2 = fakegpg.make_sig(text, sig["second"])
            if env.bmap_path.startswith("/"):
                k.add(env.bmap_path + "." + other, role="sig", data=b2)


def build_dest(k, plan, env):
    d = plan.get("dest")
    if not d:
        return
    kind = d["kind"]
    size = plan["image"]["size"] if plan.get("image") else 0
    env.dest_kind = kind
    if kind == "new":
        env.dest_path = d.get("path", "/out/dest.img")
        env.path_roles[env.dest_path] = "dest"
        env.dest_old = b""
    elif kind == "reg":
        env.dest_path = d.get("path", "/out/dest.img")
        n = max(0, size + d.get("extra", 0) if not isinstance(env.image, Sparse) else 300000 + d.get("extra", 0))
        ino = k.add(env.dest_path, role="dest", data=(OLD * (n // PG + 1))[:n])
        ino.wver = 0
        env.dest = ino
        env.dest_was = n
        env.dest_old = b""
        env.dest_before = ino.get(0, n)
    elif kind in ("blk", "part"):
        env.dest_path = "/dev/sdx" if kind == "blk" else "/dev/sdx1"
        ino = k.add(env.dest_path, "blk", "dest", mode=0o660)
        n = max(0, size + d.get("extra", 0))
        n = (n + 511) // 512 * 512
        ino.size = n
        if isinstance(env.image, Sparse):
            # too large to fill: old content around what will be written, and at both ends
            near = {0, max(0, n // PG - 1)}
            for at, data in env.image.segs:
                near.update(p for q in (at // PG, (at + len(data)) // PG) for p in range(q - 2, q + 3))
            near = sorted(p for p in near if 0 <= p < n // PG)
            ino.pages = {p: OLD for p in near}
            env.dest_old = Sparse(n, [(p * PG, OLD) for p in near])
        else:
            for p in range((n + PG - 1) // PG):
                ino.pages[p] = OLD
            env.dest_old = (OLD * (n // PG + 1))[:n]
        ino.settle()
        env.dest = ino
        ino.rdev = os.makedev(8, 16 if kind == "blk" else 17)
        build_sysfs(k, plan, env, kind)
        mounts = b"/dev/root / ext4 rw,relatime 0 0\nproc /proc proc rw,nosuid 0 0\ntmpfs /tmp tmpfs rw 0 0\n"
        info = b"22 1 8:32 / / rw,relatime - ext4 /dev/root rw\n"
        if d.get("held") == "mount":
            mounts += b"%s /mnt vfat rw,relatime 0 0\n" % env.dest_path.encode()
            info += b"40 22 8:%d / /mnt rw,relatime - vfat %s rw\n" % (16 if kind == "blk" else 17, env.dest_path.encode())
        for path, text in (("/proc/mounts", mounts), ("/proc/self/mounts", mounts), ("/proc/self/mountinfo", info),
                           ("/etc/mtab", mounts), ("/proc/swaps", b"Filename\tType\tSize\tUsed\tPriority\n")):
            k.add(path, role="proc", data=text)
        if d.get("held"):
            o = OFD(k, "ino", ino, os.O_RDWR | os.O_EXCL, "mounter")
            o.refs = 1
            o.excl = True
            ino.excl = o
        ino.deny = d.get("deny", "")
        if d.get("link"):
            k.symlink("/dev/disk-by-id", env.dest_path)
            env.dest_path = "/dev/disk-by-id"
    elif kind == "null":
        env.dest_path = "/dev/null"
        env.dest_old = b""
    c = plan.get("carry")
    if c and kind != "null":
        # what an earlier, broken-off attempt left
        if kind in ("new", "reg"):
            if not c["exists"]:
                if kind == "reg":
                    raise SimBug("destination vanished")
            else:
                ino = env.dest if env.dest is not None else k.add(env.dest_path, role="dest")
                ino.pages, ino.size = dict(c["pages"]), c["size"]
                ino.settle()
                ino.mtime = k.wall() - 30 * SEC
        else:
            env.dest.pages = dict(c["pages"])
            env.dest.settle()
            env.dest_old = env.dest.get(0, env.dest.size) if not isinstance(env.image, Sparse) else Sparse(
                env.dest.size, [(q * PG, env.dest.pages[q]) for q in sorted(env.dest.pages)])
            for n, v in c.get("attrs", {}).items():
                if n in env.attrs:
                    env.attrs[n].value = env.attrs[n].orig = v
    if plan.get("fs", {}).get("dest_ro"):
        k.lookup("/out").deny = "w"


def build_sysfs(k, plan, env, kind):
    s = plan.get("sysfs", {})
    if s.get("absent"):
        return
    base = "/sys/devices/pci0/host0/block/sdx"
    k.mkdirs(base)
    if kind == "part":
        k.mkdirs(base + "/sdx1")
        k.symlink("/sys/dev/block/8:17", "../../devices/pci0/host0/block/sdx/sdx1")
    k.symlink("/sys/dev/block/8:16", "../../devices/pci0/host0/block/sdx")
    k.mkdirs("/sys/devices/virtual/bdi/8:16")
    k.symlink(base + "/bdi", "../../../../virtual/bdi/8:16")
    k.mkdirs(base + "/queue")
    sch = s.get("scheduler", {"value": "mq-deadline", "options": ["mq-deadline", "kyber", "none"]})
    rat = s.get("max_ratio", {"value": "100"})
    for name, path, cfg in (("scheduler", base + "/queue/scheduler", sch),
                            ("max_ratio", "/sys/devices/virtual/bdi/8:16/max_ratio", rat)):
        if cfg is None:
            continue
        ino = k.add(path, "attr", "sysfs:" + name)
        env.attrs[name] = Attr(k, ino, cfg, name)


def build_psplash(k, plan, env):
    cfg = plan["psplash"]
    env.psplash_path = "/tmp/psplash_fifo"
    mode = cfg.get("mode", "fifo")
    if mode == "fifo":
        ino = k.add(env.psplash_path, "fifo", "psplash")
        ino.pipe = env.psplash_fifo = Pipe(k, cfg.get("cap", 65536), "psplash")
        if cfg.get("reader", True):
            ino.pipe.readers += 1 if not cfg.get("start") else 0
            k.add_task("actor:psplash", programs.psplash(k, ino, cfg, env.psplash_log)) if cfg.get("start") else \
                k.add_task("actor:psplash", _psplash_now(k, ino, cfg, env))
        if cfg.get("remove_at"):
            k.add_task("actor:rm", _remover(k, env.psplash_path, cfg["remove_at"]))
    elif mode == "reg":
        k.add(env.psplash_path, "reg", "psplash-reg", data=b"")
    elif mode == "missing":
        pass


def _psplash_now(k, ino, cfg, env):
    ino.pipe.readers -= 1
    yield from programs.psplash(k, ino, cfg, env.psplash_log)


def _remover(k, path, ops):
    """Removes the pipe after a number of its own turns."""
    from .kernel import Wait
    for _ in range(ops):
        yield
    parent, name, ino = k.walk(path)
    if ino is not None:
        del parent.entries[name]
        k.note("psplash pipe removed")


def shuffled_argv(env, plan):
    """A command line with its options in any order and spelling, possibly a contradictory one."""
    x = plan["args"]
    rng = random.Random("args:%s" % x["seed"])
    clash = {c for c in (x.get("clash"), x.get("more")) if c}
    opts = set(plan.get("opts", ()))
    before, after = [], [[o] for o in sorted(opts & {"--nobmap", "--no-sig-verify", "--no-verify"})]
    bmap, sig, image = getattr(env, "bmap_arg", None), getattr(env, "sig_arg", None), env.src_arg
    some = getattr(env, "bmap_path", None) or "/work/none.bmap"
    if "quiet+debug" in clash:
        before += [rng.choice((["-q"], ["--quiet"])), rng.choice((["-d"], ["--debug"]))]
    elif rng.random() < 0.2:
        before.append(rng.choice((["-q"], ["--debug"])))
    if "nobmap+bmap" in clash:
        bmap = bmap or some
        if ["--nobmap"] not in after:
            after.append(["--nobmap"])
    if "sig+nosig" in clash:
        sig = sig or "/work/map.bmap.asc"
        if ["--no-sig-verify"] not in after:
            after.append(["--no-sig-verify"])
    if "image=bmap" in clash:
        if bmap or not getattr(env, "bmap_path", None) or ["--nobmap"] in after or rng.random() < 0.5:
            bmap = image
            after = [o for o in after if o != ["--nobmap"]] if "nobmap+bmap" not in clash else after
        else:
            image = some
    if "sig+nobmap" in clash:
        sig = sig or some + ".sig"
        if "nobmap+bmap" not in clash:
            bmap = None
        if ["--nobmap"] not in after:
            after.append(["--nobmap"])

    def opt(name, value):
        return rng.choice(([name, value], ["%s=%s" % (name, value)]))

    if bmap:
        after.append(opt("--bmap", bmap))
    if sig:
        after.append(opt("--bmap-sig", sig))
    rng.shuffle(before)
    rng.shuffle(after)
    pos = [image, env.alias_path if "dest=input" in clash else env.dest_path]
    if "usage" in clash:
        how = x["how"]
        if how == "no dest":
            pos = pos[:1]
        elif how == "no arguments":
            pos = []
        elif how == "third":
            pos.append("/work/third")
        elif how == "unknown option":
            after.append(["--no-such-option"])
        elif how == "bmap without value":
            return ["bmaptool", "copy"] + pos + ["--bmap"]
        elif how == "no command":
            return ["bmaptool"] + [y for o in before for y in o]
        elif how == "unknown command":
            return ["bmaptool", "clone"] + pos
    # options may stand before, between and after the names
    out = []
    for o in after:
        out.insert(rng.randint(0, len(out)), o)
    k = sorted(rng.randint(0, len(out)) for _ in pos)
    for i, (at, name) in enumerate(zip(k, pos)):
        out.insert(at + i, [name])
    return ["bmaptool"] + [y for o in before for y in o] + ["copy"] + [y for o in out for y in o]


def argv(env, plan):
    """The command line of a copy."""
    if plan.get("args"):
        return shuffled_argv(env, plan)
    a = ["bmaptool"]
    opts = plan.get("opts", [])
    if "-q" in opts or "--quiet" in opts:
        a.append("--quiet")
    if "-d" in opts or "--debug" in opts:
        a.append("--debug")
    a.append("copy")
    for o in ("--nobmap", "--no-sig-verify", "--no-verify"):
        if o in opts:
            a.append(o)
    if getattr(env, "bmap_arg", None):
        a += ["--bmap", env.bmap_arg]
    if getattr(env, "sig_arg", None):
        a += ["--bmap-sig", env.sig_arg]
    if plan.get("psplash"):
        a += ["--psplash-pipe", env.psplash_path]
    a += [env.src_arg, env.dest_path]
    return a


# ---------------------------------------------------------------------------------------------
# Reference: what the destination must hold
# ---------------------------------------------------------------------------------------------


def expected_pieces(env, nobmap):
    """[(start, end)] byte intervals that must equal the image."""
    if nobmap:
        return [(0, len(env.image))]
    return env.mapped


def compare(get, env, pieces, limit=3):
    """Differences between what `get(off, n)` returns and the image, over the pieces."""
    bad = []
    img = env.image
    for s, e in pieces:
        pos = s
        while pos < e:
            n = min(1 << 20, e - pos)
            have = get(pos, n)
            want = img[pos:pos + n]
            if have != want:
                i = 0
                while i < len(have) and have[i] == want[i]:
                    i += 1
                bad.append((pos + i, len(have) - n))
                if len(bad) >= limit:
                    return bad
            pos += n
    return bad


def allocated(pages, a, b, limit=1 << 21):
    """The parts of [a, b) worth looking at: all of it if it is small, else what is on allocated pages."""
    if b - a <= limit:
        return [(a, b)]
    return [(max(a, p * PG), min(b, (p + 1) * PG)) for p in sorted(pages) if a < (p + 1) * PG and p * PG < b]


def outside(pieces, end):
    """Complement of the pieces in [0, end)."""
    out = []
    pos = 0
    for s, e in sorted(pieces):
        if s > pos:
            out.append((pos, min(s, end)))
        pos = max(pos, e)
    if pos < end:
        out.append((pos, end))
    return [(a, b) for a, b in out if b > a]
