"""
Generators of plans: images, maps, sources, destinations, schedules, knobs.  Everything is drawn from
the generator handed in, so a plan is a function of (check, seed, case number).
"""

from . import programs

MS, SEC = 1_000_000, 1_000_000_000
MiB = 1 << 20

SCHEDULES = ("default", "rand", "rand", "sticky", "sticky", "bias", "bias", "pct")
ACTORS = ("main", "thread", "proc", "actor", "mounter")


def sched(rng, preempt=True, max_steps=400000):
    st = rng.choice(SCHEDULES)
    s = {"seed": rng.randrange(1 << 32), "strategy": st, "max_steps": max_steps,
         "cost": rng.choice((100, 2000, 2000, 50000))}
    if st == "sticky":
        s["sticky"] = rng.choice((0.5, 0.8, 0.9, 0.95, 0.99))
    elif st == "bias":
        s["bias"] = {a: rng.choice((-0.98, -0.9, 0, 0, 5, 30)) for a in ACTORS}
    elif st == "pct":
        s["changepts"] = sorted(rng.randrange(1, rng.choice((50, 500, 3000))) for _ in range(rng.randint(1, 6)))
    if preempt and rng.random() < 0.3:
        s["preempt"] = rng.choice((3, 10, 40, 200))
    return s


def knobs(rng, benign=True):
    """Benign environmental variety: buffer and pipe sizes, short transfers, slow operations."""
    k = {}
    r = rng.random()
    if r < 0.3:
        k["bufsize"] = rng.choice((512, 4096, 16384, 65536, 131072))
    if rng.random() < 0.3:
        k["pipe_cap"] = rng.choice((4096, 8192, 65536, 1 << 20))
    if rng.random() < 0.4:
        k["short_r"] = rng.choice((0.02, 0.1, 0.5))
    if rng.random() < 0.3:
        k["short_w"] = rng.choice((0.02, 0.1, 0.4))
    if rng.random() < 0.25:
        k["stall"] = rng.choice((0.005, 0.03))
    if rng.random() < 0.2:
        k["sock_buf"] = rng.choice((4096, 16384, 1 << 20))
    return k


BLOCKS = (4096,) * 8 + (512, 1024, 2048, 8192, 16384, 65536, 1 << 20, 1536, 5000)


def image(rng, big=False, maxsize=None, allow_empty_map=True, bs=None, huge_bs=True):
    """Size, block size, mapped ranges, style."""
    if bs is None:
        bs = rng.choice(BLOCKS)
        if huge_bs and rng.random() < 0.04:
            bs = rng.choice((2 * MiB, 3 * MiB // 2, MiB + 4096))
    shape = rng.choice(("tiny", "small", "small", "many", "batch", "batch", "deep"))
    lim = maxsize or (9 * MiB if not big else 24 * MiB)
    batch = max(1, MiB // bs)
    if bs > MiB:
        n = rng.randint(1, max(1, lim // bs))
        shape = "tiny"
    elif shape == "tiny":
        n = rng.randint(1, 5)
    elif shape == "small":
        n = rng.randint(1, 80)
    elif shape == "many":
        n = rng.randint(20, 400)
    elif shape == "batch":
        n = max(1, batch * rng.randint(1, 3) + rng.choice((-2, -1, 0, 0, 1, 2)))
    else:
        n = batch * rng.randint(3, 9) + rng.randint(-3, 3)
    n = max(1, min(n, max(1, lim // bs)))
    size = n * bs
    if rng.random() < 0.45:
        size -= rng.choice((1, rng.randrange(1, bs), bs - 1, min(bs - 1, 512)))
    size = max(1, size)
    n = (size + bs - 1) // bs
    ranges = gen_ranges(rng, n, shape, batch, allow_empty_map)
    im = {"size": size, "bs": bs, "ranges": ranges, "seed": rng.randrange(1 << 32),
          "style": rng.choice(("rand", "rand", "rand", "rep", "holes", "zero") if rng.random() < 0.5 else ("rand",))}
    if rng.random() < 0.25:
        im["junk"] = True
    return im


def far_offsets(rng, n, bs):
    """Block numbers worth trying in a file of `n` blocks: around the powers of two that numbers get cut off at."""
    marks = [x for b in (31, 32, 33, 40, 41) for x in ((1 << b) // bs, 1 << b) if x < n] + [0, n - 1, n - 1, rng.randrange(n)]
    return max(0, min(n - 1, rng.choice(marks) + rng.choice((-2, -1, 0, 0, 1, 2, rng.randint(-200, 200)))))


def sparse_image(rng, top=62):
    """An image of gigabytes to exabytes with a few mapped blocks far apart."""
    bs = rng.choice((4096,) * 4 + (512, 1024, 65536, 1 << 20))
    size = rng.choice((1 << rng.randint(28, top), rng.randint(1 << 28, 1 << rng.randint(30, top)))) + rng.choice((0, 0, 1, -1, bs, -bs))
    n = (size + bs - 1) // bs
    left = rng.choice((MiB // 2, 3 * MiB))
    ranges = []
    for _ in range(rng.randint(1, 9)):
        a = far_offsets(rng, n, bs)
        b = min(n - 1, a + rng.choice((0, 0, 1, 2, 9, 300)))
        if left < (b - a + 1) * bs or any(a <= y + 1 and b >= x - 1 for x, y in ranges):
            continue
        left -= (b - a + 1) * bs
        ranges.append((a, b))
    return {"size": size, "bs": bs, "ranges": [list(r) for r in sorted(ranges)], "seed": rng.randrange(1 << 32),
            "style": rng.choice(("rand", "rand", "zero")), "sparse": True}


def sparse_plan(rng, dests=("new", "new", "reg", "blk", "part")):
    """A copy of such an image: only where nothing has to read over the holes."""
    plan = {"run": "copy", "image": sparse_image(rng)}
    source(rng, plan, kinds=("file",), comps=("none",))
    bmap(rng, plan, 0.6)
    dest(rng, plan, dests)
    if plan["dest"]["kind"] in ("blk", "part"):
        sysfs(rng, plan)
    opts(rng, plan)
    plan["sched"] = sched(rng)
    plan["knobs"] = knobs(rng)
    if rng.random() < 0.15:
        plan["tty"] = True
    return plan


def pressure(rng, nobmap=False, dests=("new", "reg", "blk")):
    """An image of many full batches and a writer that lags behind: the queue is full most of the time."""
    bs = rng.choice((4096, 4096, 65536, 1 << 20))
    size = rng.randint(9 * MiB // bs, 15 * MiB // bs) * bs
    n = size // bs
    size -= rng.choice((0, 0, 1, bs // 2))
    plan = {"run": "copy", "image": {"size": size, "bs": bs, "ranges": [[0, n - 1]], "seed": rng.randrange(1 << 32), "style": "rand"}}
    if rng.random() < 0.4 and not nobmap:
        m = rng.randint(1, n - 2)
        plan["image"]["ranges"] = [[0, m - 1], [m, n - 1]] if rng.random() < 0.5 else [[0, m - 1], [m + 1, n - 1]]
    source(rng, plan, kinds=("file", "file", "file", "pipe", "http"), comps=("none", "none", "none", "lz4"))
    if plan["src"]["comp"] != "none":
        plan["image"]["style"] = "rep"
    if not nobmap:
        bmap(rng, plan, 0.6)
    dest(rng, plan, dests)
    if plan["dest"]["kind"] in ("blk", "part"):
        sysfs(rng, plan)
    opts(rng, plan, nobmap)
    plan["sched"] = sched(rng, preempt=False)
    if rng.random() < 0.85:
        plan["sched"].update(strategy="bias", bias={"main": rng.choice((-0.98, -0.95, -0.8)), "thread": 5, "proc": 5, "actor": 5})
    plan["knobs"] = {"pipe_cap": 1 << 20, "sock_buf": 1 << 20}
    return plan


def streams(rng, plan, p):
    """Unusual standard streams."""
    if rng.random() < p:
        if rng.random() < 0.5:
            plan["unbuffered"] = True
        else:
            free = ["stdout", "stderr"] + ([] if plan.get("src", {}).get("kind") in ("stdin", "pipe") else ["stdin"])
            plan["closed"] = sorted(rng.sample(free, rng.randint(1, len(free))))


def gen_ranges(rng, n, shape, batch, allow_empty=True):
    r = rng.random()
    if r < 0.15:
        return [[0, n - 1]]
    if r < 0.19 and allow_empty:
        return []
    if r < 0.27:
        return [[n - 1, n - 1]]
    if r < 0.33:
        a = rng.randrange(n)
        return [[a, rng.randint(a, n - 1)]]
    out = []
    pos = rng.choice((0, 0, 1, rng.randrange(n)))
    many = shape == "many"
    while pos < n and len(out) < 400:
        if shape in ("batch", "deep") and rng.random() < 0.6:
            ln = max(1, batch * rng.randint(1, 3) + rng.choice((-1, 0, 0, 1)))
        else:
            ln = rng.choice((1, 1, 2, 3)) if many else rng.choice((1, 1, 2, 5, rng.randint(1, 40)))
        end = min(n - 1, pos + ln - 1)
        out.append([pos, end])
        gap = rng.choice((1, 1, 2, 3)) if many else rng.choice((0, 1, 1, 2, 7, rng.randint(1, 60)))
        pos = end + 1 + gap
    if not out or rng.random() < 0.3 and out[-1][1] < n - 1:
        out.append([n - 1, n - 1])
    return out


COMPS = ("gz", "bz2", "xz", "lzo", "lz4", "zst", "tar.gz", "tar.bz2", "tar.xz", "tar.lzo", "tar.lz4", "tar.zst", "zip")


def compress_spec(rng, im, comp):
    """Keep slow compressors away from large random data."""
    if comp in ("xz", "tar.xz", "bz2", "tar.bz2") and im["size"] > 2 * MiB:
        im["style"] = "rep"
        im.pop("junk", None)


def source(rng, plan, kinds=None, comps=None, p_comp=0.55):
    im = plan["image"]
    kinds = kinds or ("file",) * 6 + ("http",) * 4 + ("pipe", "pipe", "stdin", "ssh", "ssh", "https", "fileurl")
    kind = rng.choice(kinds)
    src = {"kind": kind}
    if kind in ("pipe", "stdin"):
        comp = "none"  # names decide the compression, standard input has none
    elif comps is not None:
        comp = rng.choice(comps)
    else:
        comp = rng.choice(COMPS) if rng.random() < p_comp else "none"
    src["comp"] = comp
    if comp != "none":
        src["ext"] = rng.choice(programs.EXT[comp])
        compress_spec(rng, im, comp)
        alt = {"gz": "pigz", "bz2": "pbzip2"}.get(comp)
        if alt and rng.random() < 0.5:
            plan.setdefault("missing_programs", []).append(alt)
    src["name"] = rng.choice(("disk.img", "disk.img", "image", "my.disk.raw", "a b.img" if kind != "ssh" and
                              not kind.startswith("http") else "ab.img"))
    if kind in ("http", "https"):
        src["mode"] = rng.choice(("length", "length", "chunked", "close"))
        if rng.random() < 0.15:
            src["port"] = 8080
        if rng.random() < 0.15:
            src["redirect"] = True
    if kind == "file" and rng.random() < 0.15:
        src["relative"] = True
    plan["src"] = src
    return src


def bmap(rng, plan, explicit=0.6, versions=None):
    src = plan["src"]
    b = {"version": rng.choice(versions or ("2.0",) * 5 + ("1.4", "1.4", "1.3", "1.3", "1.2", "1.1", "1.0"))}
    if b["version"] in ("1.4", "2.0"):
        b["cs"] = rng.choice(("sha256", "sha256", "sha256", "sha1", "md5", "sha512"))
    if rng.random() < 0.1:
        n = len(plan["image"]["ranges"])
        b["no_range_cs"] = True if rng.random() < 0.4 or not n else sorted(rng.sample(range(n), rng.randint(1, n)))
    b["single"] = rng.random() < 0.7
    b["spaces"] = rng.random() < 0.2
    if rng.random() < explicit or src["kind"] in ("pipe", "stdin", "fileurl"):
        b["where"] = "explicit"
        if src["kind"] in ("http", "https") and rng.random() < 0.3:
            b["kind"] = "http"
        elif src["kind"] == "ssh" and rng.random() < 0.3:
            b["kind"] = "ssh"
    else:
        nexts = (src["name"] + src.get("ext", "")).count(".")
        if src.get("name", "").startswith("."):
            nexts -= 1
        where = rng.choice(("full", "strip", "strip"))
        if where == "strip" and nexts >= 1:
            b["where"] = "strip"
            b["strip"] = rng.randint(1, nexts)
        else:
            b["where"] = "full"
        b["kind"] = {"file": "file", "http": "http", "https": "http", "ssh": "ssh"}[src["kind"]]
        if src.get("redirect"):
            src.pop("redirect")
    plan["bmap"] = b
    return b


def dest(rng, plan, kinds=("new", "new", "reg", "blk", "blk", "part")):
    kind = rng.choice(kinds)
    d = {"kind": kind}
    if kind == "reg":
        d["extra"] = rng.choice((0, 4096, -4096, 100000, -100000, 1))
    elif kind in ("blk", "part"):
        d["extra"] = rng.choice((0, 0, 512, 4096, MiB, 3 * MiB))
        if rng.random() < 0.2:
            d["link"] = True
    plan["dest"] = d
    return d


def sysfs(rng, plan):
    r = rng.random()
    if r < 0.5:
        return
    if r < 0.6:
        plan["sysfs"] = {"absent": True}
        return
    s = {}
    if rng.random() < 0.6:
        s["scheduler"] = rng.choice((None, {"value": "none", "options": ["none", "mq-deadline"]},
                                     {"value": "cfq", "options": ["noop", "deadline", "cfq"]},
                                     {"value": "none"}, {"value": "bfq", "options": ["none", "bfq"]}))
    if rng.random() < 0.6:
        s["max_ratio"] = rng.choice((None, {"value": "1"}, {"value": "100"}, {"value": "25"}))
    plan["sysfs"] = s


def opts(rng, plan, nobmap=False):
    o = []
    if rng.random() < 0.15:
        o.append(rng.choice(("--quiet", "--debug")))
    if nobmap:
        o.append("--nobmap")
    plan["opts"] = o
    return o


def copy_plan(rng, nobmap=False, big=False, kinds=None, comps=None, dests=None, maxsize=None, p_comp=0.55, bs=None,
              versions=None, explicit=0.6, empty_map=True, huge_bs=True):
    """A plain copy, no faults."""
    plan = {"run": "copy"}
    plan["image"] = image(rng, big=big, maxsize=maxsize, allow_empty_map=empty_map, bs=bs, huge_bs=huge_bs)
    if nobmap:
        # without a map everything counts
        im = plan["image"]
        n = (im["size"] + im["bs"] - 1) // im["bs"]
        if not im["ranges"] or rng.random() < 0.5:
            im["ranges"] = [[0, n - 1]]
    source(rng, plan, kinds, comps, p_comp)
    if not nobmap:
        bmap(rng, plan, explicit, versions)
    dest(rng, plan, dests or ("new", "new", "reg", "blk", "blk", "part"))
    if plan["dest"]["kind"] in ("blk", "part"):
        sysfs(rng, plan)
    opts(rng, plan, nobmap)
    plan["sched"] = sched(rng)
    plan["knobs"] = knobs(rng)
    if rng.random() < 0.15:
        plan["tty"] = True
    streams(rng, plan, 0.06)
    return plan


def api_variant(rng, plan):
    """Turn a copy into a use of the programming interface (local map and source arguments)."""
    if plan["src"]["kind"] not in ("file", "http", "https", "ssh", "fileurl"):
        return plan
    if plan.get("bmap") and plan["bmap"].get("kind", "file") != "file":
        return plan
    plan["run"] = "api"
    a = {"bdev": plan["dest"]["kind"] in ("blk", "part")}
    plain = plan["src"]["kind"] == "file" and plan["src"]["comp"] == "none"
    a["trans"] = not plain or rng.random() < 0.6
    if a["bdev"]:
        a["dest_mode"] = rng.choice(("wb+", "rb+", "wb"))
    else:
        a["dest_mode"] = rng.choice(("wb+", "wb", "rb+") if plan["dest"]["kind"] == "reg" else ("wb+", "wb"))
    if rng.random() < 0.3:
        a["buffering"] = rng.choice((0, 512, 4096, 1 << 20))
    if a.get("buffering") == 0 and plan.get("knobs"):
        # an unbuffered file object may write less than asked; its callers have to cope, this tool's is documented to
        # take a file object that does not
        plan["knobs"].pop("short_w", None)
    a["size"] = rng.choice((None, "image", "obj") if a["trans"] else (None, "image"))
    if plan.get("bmap") is not None:
        a["size"] = rng.choice((None, None, "image"))
        a["bmap_mode"] = rng.choice(("r", "rb"))
    r = rng.random()
    a["sync"] = r < 0.6
    a["then_sync"] = r > 0.8
    a["verify"] = rng.random() < 0.8
    plan["api"] = a
    plan.pop("tty", None)
    return plan
