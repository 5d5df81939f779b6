"""
The cases of each check.  cases_Cxx(rng, tier) is a generator: it yields scenarios and is sent the list
of results of each, so that later scenarios can place their faults inside operations an earlier,
fault-free execution of the same workload and schedule is known to perform.
"""

import errno

from . import oracle, workload as w
from .scenario import clone

MS, SEC, MiB = w.MS, w.SEC, w.MiB


def one(plan, **kw):
    return dict({"phases": [plan]}, **kw)


def nth_of(rng, n):
    r = rng.random()
    if r < 0.2:
        return 1
    if r < 0.45:
        return n
    return rng.randint(1, n)


def pick_op(rng, counts, table):
    """table: [(op, role prefix, [fault templates])] -> a fault inside an operation known to happen."""
    avail = []
    for op, pre, tmpl in table:
        for (o, r), n in sorted(counts.items()):
            if o == op and (r == pre or pre.endswith("*") and r.startswith(pre[:-1])):
                avail.append((o, r, n, tmpl))
    if not avail:
        return None
    o, r, n, tmpl = rng.choice(avail)
    f = dict(rng.choice(tmpl), site="op", op=o, role=r, nth=nth_of(rng, n))
    if f.get("kind") == "stall" and "ns" not in f:
        f["ns"] = rng.choice((MS, 200 * MS, 3 * SEC, 20 * SEC, 400 * SEC))
    return f


def err(*codes, sticky=False):
    out = [{"kind": "errno", "errno": getattr(errno, c)} for c in codes]
    if sticky:
        out += [dict(t, sticky=True) for t in out]
    return out


MEM = [{"kind": "memerr"}]
STALL = [{"kind": "stall"}]

SRC_TABLE = [
    ("read", "image", err("EIO", "ESTALE") + MEM), ("read", "stdin", err("EIO", "EAGAIN") + MEM),
    ("read", "out:*", MEM + err("EIO")), ("cread", "image", err("EIO")),
    ("recv", "net", err("ECONNRESET", "ETIMEDOUT", "EIO") + MEM), ("fork", "*", err("EAGAIN", "ENOMEM")),
    ("write", "in:*", err("EPIPE", "EIO")), ("lseek", "image", err("EIO", "EINVAL")),
    ("open", "tmp", err("ENOSPC", "EMFILE")), ("write", "tmp", err("ENOSPC", "EIO")), ("read", "tmp", err("EIO")),
    ("read", "bmap", err("EIO")), ("thread", "start", MEM), ("pipe", "pipe", err("EMFILE")),
    ("mmap", "*", err("ENOMEM")),
]


def blind_cut(plan):
    """A stream that ends early is, for this copy, the same as a shorter image."""
    src = plan["src"]
    nobmap = oracle.is_nobmap(plan)
    if not nobmap or src.get("comp", "none") != "none":
        return False
    return src["kind"] in ("stdin", "pipe", "file", "fileurl") or src.get("mode") == "close"


def source_fault(rng, plan, res):
    """Something that keeps bytes from arriving.  Returns (plan changes, faults)."""
    src = plan["src"]
    comp = src.get("comp", "none")
    opts = ["op"] * 3
    procs = [p for p in res.procs if p[0] not in ("df", "sh", "bash", "true")]
    if procs:
        opts += ["proc"] * 4
    if src["kind"] in ("http", "https") and not blind_cut(plan):
        opts += ["net"] * 4
    cuttable = not blind_cut(plan)
    # an uncompressed image without a map that is short where it lies is just another image
    whole = not (comp == "none" and oracle.is_nobmap(plan))
    if cuttable and whole and src["kind"] in ("file", "fileurl", "stdin", "http", "https", "ssh"):
        opts += ["cut"] * (3 if comp != "none" else 2)
    if cuttable and src["kind"] == "pipe":
        opts += ["feed"] * 3
    if cuttable and (("read", "image") in res.counts or ("cread", "image") in res.counts):
        opts += ["eof"]
    k = rng.choice(opts)
    if k == "op":
        f = pick_op(rng, res.counts, SRC_TABLE if rng.random() < 0.3 else SRC_TABLE[:5])
        return ({}, [f]) if f else None
    if k == "proc":
        name, nth, out, code, state = rng.choice(procs)
        if rng.random() < 0.7:
            big = [p for p in procs if p[2] > 0]
            if big:
                name, nth, out, code, state = rng.choice(big)
        after = rng.choice((0, out, rng.randint(0, out), max(0, out - rng.randint(1, 5000)), rng.randint(0, out)))
        f = {"site": "proc", "prog": name, "nth": nth, "after": after}
        if rng.random() < 0.5:
            f.update(kind="kill", sig=rng.choice((9, 11, 15)))
        else:
            f.update(kind="exit", code=rng.choice((1, 1, 3, 4, 68, 255)))
        return {}, [f]
    if k == "net":
        f = {"site": "net", "kind": rng.choice(("fin", "rst")), "after": ("frac", rng.random()),
             "path": "@src", "in_chunk": rng.choice((0, 0, 7))}
        return {}, [f]
    if k == "cut":
        return {"src": {"truncate_frac": rng.choice((0.0, rng.random(), rng.random(), 0.999))}}, []
    if k == "feed":
        return {"src": {"cut": rng.randrange(plan["image"]["size"])}}, []
    if k == "eof":
        key = ("read", "image") if ("read", "image") in res.counts else ("cread", "image")
        return {}, [{"site": "op", "op": key[0], "role": "image", "kind": "eof",
                     "nth": nth_of(rng, res.counts[key]), "sticky": True}]


def with_fault(plan, change, faults, **kw):
    p = clone(plan)
    for k, v in change.items():
        p.setdefault(k, {}).update(v) if isinstance(v, dict) else p.__setitem__(k, v)
    p["faults"] = p.get("faults", []) + clone(faults)
    p.update(kw)
    return p


# ---------------------------------------------------------------------------------------------


def cases_C01(rng, tier):
    r = rng.random()
    plan = w.pressure(rng) if r < 0.05 else w.copy_plan(rng, big=r < 0.08) if r < 0.94 else w.sparse_plan(rng)
    if rng.random() < 0.2:
        w.api_variant(rng, plan)
    elif rng.random() < 0.12:
        plan["opts"].append("--no-verify")
    plan["check"] = "C01"
    to_nowhere(rng, plan)
    yield one(plan)


def cases_C02(rng, tier):
    r = rng.random()
    plan = w.pressure(rng, True) if r < 0.04 else w.copy_plan(rng, nobmap=True, big=r < 0.08)
    if rng.random() < 0.25:
        w.api_variant(rng, plan)
    plan["check"] = "C02"
    to_nowhere(rng, plan)
    yield one(plan)


def to_nowhere(rng, plan):
    """Now and then into /dev/null, which takes everything but cannot be synchronised."""
    if rng.random() < 0.03 and plan["dest"]["kind"] in ("new", "reg"):
        plan["dest"] = {"kind": "null"}


# -- damaged data ------------------------------------------------------------------------------


def byte_in_ranges(rng, im):
    """An image offset in mapped data, biased to the edges of ranges."""
    rs = im["ranges"]
    a, b = rng.choice((rs[0], rs[-1], rng.choice(rs), rng.choice(rs)))
    s, e = a * im["bs"], min((b + 1) * im["bs"], im["size"])
    return rng.choice((s, e - 1, rng.randrange(s, e), rng.randrange(s, e)))


def cases_C03(rng, tier):
    plan = w.copy_plan(rng, maxsize=5 * MiB, versions=("2.0", "2.0", "2.0", "1.4", "1.3", "1.3"), empty_map=False,
                       huge_bs=rng.random() < 0.3)
    plan["check"] = "C03"
    if rng.random() < 0.2:
        w.api_variant(rng, plan)
        if plan.get("api"):
            plan["api"]["verify"] = True
    src, im, bm = plan["src"], plan["image"], plan["bmap"]
    (res,) = yield one(plan, why="undamaged")
    if res.reason != "exit":
        return
    for _ in range(5):
        p = clone(plan)
        src, bm = p["src"], p["bmap"]
        kind = rng.choice(("data", "data", "data", "packed", "transit", "bmap", "bmap", "bmap", "other", "shift", "proc"))
        if kind == "data":
            # what the source really holds differs from what the map was made from
            ops = []
            for _ in range(rng.choice((1, 1, 1, 2))):
                at = byte_in_ranges(rng, im)
                o = rng.choice(("flip", "flip", "flip", "zero", "dup", "drop"))
                ops.append({"op": o, "at": at, "mask": rng.randint(1, 255), "n": rng.choice((1, 512, 4096))})
            if rng.random() < 0.12:
                ops = [{"op": "cut", "at": at}]
            src["pre_damage"] = ops
        elif kind == "packed":
            src["damage"] = [{"op": rng.choice(("flip", "flip", "zero", "drop", "dup")), "at": rng.random(),
                              "mask": rng.randint(1, 255), "n": rng.choice((1, 64, 512))}]
        elif kind == "transit":
            if src["kind"] not in ("http", "https"):
                continue
            p["faults"] = [{"site": "net", "kind": "flip", "after": ("frac", rng.random()), "path": "@src",
                            "req": 0, "sticky": True, "mask": rng.randint(1, 255)}]
            if rng.random() < 0.3 and bm.get("kind") == "http":
                p["faults"][0]["path"] = "@bmap"
                p["bmap_in_transit"] = True
        elif kind == "proc":
            procs = [q for q in res.procs if q[2] > 0]
            if not procs:
                continue
            q = rng.choice(procs)
            p["faults"] = [{"site": "proc", "prog": q[0], "nth": q[1], "after": rng.randrange(q[2]),
                            "kind": rng.choice(("flip", "dup", "drop")), "mask": rng.randint(1, 255)}]
            if src["kind"] == "ssh" and bm.get("kind") == "ssh":
                continue
        elif kind == "bmap":
            o = rng.choice(("flip", "flip", "flip", "flip", "zero", "cut", "drop", "dup", "sub", "ver", "swap"))
            d = {"op": o, "at": rng.random(), "mask": rng.choice((1, 2, 4, 6, 8, 16, 32, rng.randint(1, 255))),
                 "n": rng.choice((1, 16, 512, 4096))}
            if o == "ver":
                cur = 'version="%s"' % bm["version"]
                new = {"2.0": ("0.0", "2.1", "2.8", "1.0", "6.0", "3.0"), "1.4": ("1.5", "1.0", "1.6", "0.4", "1.3", "1.2"),
                       "1.3": ("1.2", "1.1", "1.7", "0.3", "3.3", "1.4")}[bm["version"]]
                d = {"op": "sub", "at": 0, "old": cur, "new": 'version="%s"' % rng.choice(new)}
            elif o == "sub":
                d.update(rng.choice(({"old": "<ImageSize> ", "new": "<ImageSize>1"}, {"old": "chksum=", "new": "chksun="},
                                     {"old": "sha1=", "new": "sha2="}, {"old": "<Range ", "new": "<Rangf "},
                                     {"old": "<BmapFile", "new": "<BnapFile"}, {"old": "Checksum>", "new": "Checksun>"},
                                     {"old": "sha256", "new": "sha512"})))
            elif o == "swap":
                d["at"], d["to"], d["n"] = rng.randrange(2000), rng.randrange(2000), rng.choice((1, 8, 64))
            bm["damage"] = [d]
        elif kind == "other":
            bm["other"] = {"seed": rng.randrange(1 << 32)}
            p["image"]["style"] = "rand"
        else:
            # the data of one block repeated in place of another
            if len(im["ranges"]) < 2 or src["comp"] != "none":
                continue
            a, b = rng.sample(range(len(im["ranges"])), 2)
            n = min(im["bs"], 4096)
            src["damage"] = [{"op": "swap", "at": im["ranges"][a][0] * im["bs"], "to": im["ranges"][b][0] * im["bs"], "n": n}]
        if kind == "bmap" or p.get("bmap_in_transit"):
            # a bmap that is not damaged after all (the edit hit nothing) must not be judged
            p["knobs"] = {}
        yield one(p, why="damage:" + kind)


# -- failing sources ---------------------------------------------------------------------------


def cases_C04(rng, tier):
    nobmap = rng.random() < 0.35
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=5 * MiB)
    plan["check"] = "C04"
    if rng.random() < 0.25:
        w.api_variant(rng, plan)
    elif not nobmap and rng.random() < 0.35:
        plan["opts"].append("--no-verify")
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.rc != 0:
        return
    for _ in range(7):
        f = source_fault(rng, plan, res)
        if f is None:
            continue
        fl = list(f[1])
        if rng.random() < 0.15:
            g = source_fault(rng, plan, res)
            if g is not None and not g[0]:
                fl += g[1]
        yield one(with_fault(plan, f[0], fl), why="source fault")


# -- failing destinations ----------------------------------------------------------------------

DEST_TABLE = [
    ("write", "dest", err("EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPERM", "ENOMEM", sticky=True)),
    ("ftruncate", "dest", err("EIO", "ENOSPC", "EFBIG", "EINVAL", sticky=True)),
    ("fsync", "dest", err("EIO", "ENOSPC", "EDQUOT", sticky=True)),
    ("write", "dest", err("EIO", "ENOSPC", sticky=True)),
    ("fsync", "dest", err("EIO")),
    ("close", "dest", err("EIO", "ENOSPC")),
]


def cases_C05(rng, tier):
    nobmap = rng.random() < 0.35
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=9 * MiB) if nobmap or rng.random() < 0.93 else w.sparse_plan(rng)
    plan["check"] = "C05"
    if rng.random() < 0.25:
        w.api_variant(rng, plan)
        if plan.get("api"):
            plan["api"]["close"] = rng.random() < 0.7
            if plan["api"].get("buffering") == 0:
                # what is left of a partial write is the file object's business, and a raw one leaves it to its user
                plan["api"].pop("buffering")
    plan["benign"] = True
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.rc != 0:
        return
    plan = clone(plan)
    plan.pop("benign")
    written = sum(e - s for s, e in w_mapped(plan, nobmap))
    for _ in range(6):
        r = rng.random()
        p = clone(plan)
        if r < 0.14 and plan["dest"]["kind"] in ("new", "reg"):
            # a file system that fills up
            p["knobs"]["disk_free"] = rng.randrange(max(1, written))
            why = "disk full"
        elif r < 0.22 and plan["dest"]["kind"] in ("blk", "part"):
            p["dest"]["extra"] = -rng.choice((1, 512, 4096, rng.randint(1, max(1, plan["image"]["size"]))))
            why = "device too small"
        else:
            f = pick_op(rng, res.counts, DEST_TABLE)
            if f is None:
                continue
            p["faults"] = [f]
            if rng.random() < 0.1:
                g = pick_op(rng, res.counts, DEST_TABLE)
                if g:
                    p["faults"].append(g)
            why = "destination fault"
        yield one(p, why=why)


def cases_C23(rng, tier):
    nobmap = rng.random() < 0.35
    while True:
        plan = w.copy_plan(rng, nobmap=nobmap, maxsize=9 * MiB, kinds=("file",) * 6 + ("http", "ssh"), p_comp=0.2)
        w.api_variant(rng, plan)
        if plan.get("api"):
            break
    plan["check"] = "C23"
    a = plan["api"]
    if a.get("buffering") == 0:
        a.pop("buffering")
    a["again"] = [{"sync": rng.random() < 0.7, "reset": i > 0 and rng.random() < 0.7, "new": rng.random() < 0.25}
                  for i in range(rng.choice((2, 2, 3)))]
    plan["benign"] = plan["seekable"] = plan["src"]["kind"] == "file" and plan["src"]["comp"] == "none"
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.violations:
        return
    table = DEST_TABLE + [("read", "image", err("EIO") + MEM)]
    for _ in range(4):
        p = clone(plan)
        p.pop("benign")
        f = pick_op(rng, res.counts, table)
        if f is None:
            return
        p["faults"] = [f]
        if rng.random() < 0.3:
            g = pick_op(rng, res.counts, table + [("read", "image", [{"kind": "stall", "ns": SEC}])])
            if g:
                p["faults"].append(g)
        if rng.random() < 0.5:
            p["sched"] = w.sched(rng)
        yield one(p, why="failure in between")


def w_mapped(plan, nobmap):
    from . import world
    im = plan["image"]
    return [(0, im["size"])] if nobmap else world.clip(im["ranges"], im["bs"], im["size"])


# -- power loss --------------------------------------------------------------------------------


def cases_C06(rng, tier):
    nobmap = rng.random() < 0.3
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=9 * MiB,
                       kinds=("file",) * 6 + ("http", "http", "stdin", "pipe", "ssh"), p_comp=0.3)
    if not nobmap and rng.random() < 0.06:
        plan = w.sparse_plan(rng)
    plan["check"] = "C06"
    if rng.random() < 0.3:
        w.api_variant(rng, plan)
        if plan.get("api"):
            a = plan["api"]
            if not a["sync"]:
                a["then_sync"] = True
            if a.get("buffering") == 0:
                plan["knobs"].pop("short_w", None)
    if rng.random() < 0.5:
        plan["lines"] = True
    (res,) = yield one(plan, why="completes")
    if res.reason != "exit" or res.rc != 0 or "first_write_main" not in res.soft:
        return
    if plan["run"] == "api":
        # the first attempt creates the file, later ones find it
        redo_ok = True
    for _ in range(4):
        p = clone(plan)
        lo = max(1, res.soft["first_write_main"] - rng.choice((2, 15, 60)))
        hi = res.main_steps
        kind = rng.choice(("crash", "crash", "crash", "kill"))
        if p.get("lines") and kind == "crash" and rng.random() < 0.6 and res.main_lines:
            lo = max(1, res.soft["first_write_line"] - 10)
            f = {"site": "line", "at": rng.randint(min(lo, res.main_lines), res.main_lines), "kind": "crash"}
        else:
            f = {"site": "main", "at": rng.randint(min(lo, hi), hi), "kind": kind}
        p["faults"] = [f]
        p["carry_out"] = {"what": "dest", "mode": rng.choice(("none", "all", "subset", "subset", "prefix", "torn")),
                          "seed": rng.randrange(1 << 32)}
        q = clone(plan)
        q["must"] = True
        q["sched"]["seed"] = rng.randrange(1 << 32)
        if q["run"] == "api" and q["dest"]["kind"] != "reg" and q["api"]["dest_mode"] == "rb+":
            q["api"]["dest_mode"] = "wb+"
        yield {"phases": [p, q], "link": "carry", "why": "cut short (%s) and redone" % kind}


# -- only mapped blocks ------------------------------------------------------------------------

ANY_TABLE = SRC_TABLE + DEST_TABLE + [
    ("open", "*", err("EIO", "EMFILE", "EACCES")), ("read", "*", err("EIO") + MEM), ("write", "*", err("EIO", "ENOSPC")),
    ("lseek", "*", err("EIO")), ("fstat", "*", err("EIO")), ("stat", "*", err("EIO")),
    ("lseek", "dest", err("EIO", "EINVAL")), ("fstat", "dest", err("EIO")), ("lseek", "dest", err("EIO")),
    ("close", "*", err("EIO")),
]


def any_fault(rng, plan, res):
    r = rng.random()
    if r < 0.3:
        f = source_fault(rng, plan, res)
        return f
    if r < 0.5:
        f = pick_op(rng, res.counts, DEST_TABLE)
        return ({}, [f]) if f else None
    if r < 0.8:
        return {}, [{"site": "main", "at": rng.randint(1, max(1, res.main_steps)), "kind": "interrupt"}]
    f = pick_op(rng, res.counts, ANY_TABLE)
    return ({}, [f]) if f else None


def cases_C07(rng, tier):
    r = rng.random()
    if r < 0.15:
        # no map, no permission to do without
        plan = w.copy_plan(rng, maxsize=3 * MiB, dests=("blk", "part"))
        plan.pop("bmap")
        if rng.random() < 0.5:
            # ... but something that looks like one
            plan["files"] = {rng.choice(("/img/other.bmap", "/img/.bmap", "/work/map.bmap")): {"data": "<bmap/>"}}
        if plan["src"]["kind"] in ("http", "https") and plan["src"].get("redirect"):
            plan["src"].pop("redirect")
        plan["check"] = "C07"
        (res,) = yield one(plan, why="no map")
        for _ in range(2):
            f = any_fault(rng, plan, res)
            if f:
                yield one(with_fault(plan, *f), why="no map, fault")
        return
    nobmap = r < 0.4
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=5 * MiB, dests=("reg", "blk", "blk", "part"))
    if not nobmap and rng.random() < 0.06:
        plan = w.sparse_plan(rng, ("reg", "blk", "blk", "part"))
    plan["check"] = "C07"
    if plan["dest"]["kind"] in ("blk", "part") and plan["dest"]["extra"] == 0 and rng.random() < 0.7:
        plan["dest"]["extra"] = rng.choice((512, 4096, 65536, MiB))
    if plan["dest"]["kind"] in ("blk", "part") and rng.random() < 0.15:
        w.api_variant(rng, plan)
        if plan.get("api", {}).get("buffering") == 0:
            plan["knobs"].pop("short_w", None)
    if not nobmap and plan["run"] == "copy" and rng.random() < 0.3:
        if plan["image"]["ranges"] and not plan["image"].get("sparse"):
            d = rng.random()
            if d < 0.4:
                plan["bmap"]["damage"] = [{"op": rng.choice(("cut", "zero", "drop")), "at": rng.random(), "n": 64}]
                if plan["bmap"]["version"] in ("1.0", "1.1", "1.2"):
                    # without a checksum of its own a damaged map may still be a map
                    plan["bmap"]["damage"] = [{"op": "cut", "at": rng.random() * 0.9}]
            else:
                plan["src"]["pre_damage"] = [{"op": rng.choice(("flip", "zero", "dup", "drop")),
                                              "at": byte_in_ranges(rng, plan["image"]), "n": 512, "mask": 3}]
    (res,) = yield one(plan, why="no fault")
    for _ in range(4):
        f = any_fault(rng, plan, res)
        if f is None:
            continue
        p = with_fault(plan, *f)
        if rng.random() < 0.15:
            p["faults"].append({"site": "main", "at": rng.randint(1, max(1, res.main_steps)),
                                "kind": rng.choice(("crash", "interrupt"))})
        yield one(p, why="fault")


# -- exclusive use -----------------------------------------------------------------------------


def cases_C08(rng, tier):
    r = rng.random()
    nobmap = rng.random() < 0.3
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=7 * MiB, dests=("blk", "blk", "part"),
                       kinds=("file",) * 5 + ("http", "stdin", "pipe", "ssh"), p_comp=0.3)
    plan["check"] = "C08"
    if r < 0.15:
        # by a mount, or by something else: swap, RAID, LVM, another program, a mount in another name space
        plan["dest"]["held"] = rng.choice(("mount", "other"))
        yield one(plan, why="held")
        return
    if r < 0.4:
        known = not nobmap or plan["src"]["kind"] in ("file", "stdin") and plan["src"]["comp"] == "none"
        if not known:
            plan["src"] = {"kind": "file", "comp": "none", "name": "disk.img"}
        im = plan["image"]
        short = rng.choice((1, 512, 4096, im["bs"], im["size"] // 2, rng.randint(1, im["size"])))
        # capacity in whole sectors, strictly below the image size
        cap = max(0, (im["size"] - short) // 512 * 512)
        plan["dest"]["extra"] = cap - im["size"]
        plan["too_small"] = True
        if rng.random() < 0.3:
            w.api_variant(rng, plan)
            if plan.get("api"):
                plan["run"] = "copy"
                plan.pop("api")
        yield one(plan, why="does not fit")
        return
    (res,) = yield one(plan, why="alone")
    if res.reason != "exit" or res.rc != 0:
        return
    span = max(res.now, 1)
    for _ in range(4):
        p = clone(plan)
        n = rng.randint(1, 12)
        gaps = [rng.choice((0, 1000, rng.randint(0, span), rng.randint(0, max(1, span // 4)))) for _ in range(n)]
        p["mounter"] = {"seed": rng.randrange(1 << 32), "tries": n, "gaps": gaps,
                        "hold": rng.choice((None, 0, -1, 20000, MS))}
        if rng.random() < 0.3:
            p["knobs"]["stall"] = 0.05
        if rng.random() < 0.2:
            f = pick_op(rng, res.counts, DEST_TABLE)
            if f:
                p["faults"] = [f]
        yield one(p, why="with another user")


# -- termination -------------------------------------------------------------------------------


def cases_C09(rng, tier):
    nobmap = rng.random() < 0.35
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=rng.choice((2, 5, 12)) * MiB, p_comp=0.75)
    plan["check"] = "C09"
    if rng.random() < 0.15:
        w.api_variant(rng, plan)
        if plan.get("api", {}).get("buffering") == 0:
            plan["knobs"].pop("short_w", None)
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit":
        return
    limit = res.steps * 20 + 50000
    for _ in range(6):
        f = any_fault(rng, plan, res)
        if f is None:
            continue
        p = with_fault(plan, *f)
        r = rng.random()
        if r < 0.2:
            g = any_fault(rng, plan, res)
            if g and not g[0]:
                p["faults"] += g[1]
        elif r < 0.35:
            p["faults"].append({"site": "main", "at": rng.randint(1, max(1, res.main_steps)), "kind": "interrupt"})
        elif r < 0.45 and not p.get("damage"):
            p["src"]["damage"] = [{"op": rng.choice(("flip", "cut", "zero")), "at": rng.random(), "mask": 5}]
        p["sched"]["max_steps"] = limit
        if plan["src"]["kind"] in ("http", "https") and rng.random() < 0.15:
            p["faults"].append({"site": "net", "kind": "stall", "ns": rng.choice((SEC, 8 * SEC)),
                                "after": ("frac", rng.random()), "path": "@src"})
        yield one(p, why="fault")


# -- bounded memory ----------------------------------------------------------------------------


def cases_C10(rng, tier):
    nobmap = rng.random() < 0.3
    # use that grows with the image shows only if the image is large
    large = rng.random() < 0.08
    size = rng.choice((24, 28, 32, 40, 64)) * MiB
    bs = rng.choice((4096, 4096, 65536, 512, MiB))
    if large:
        size = rng.choice((192, 256, 320) if tier == "quick" else (192, 384, 640)) * MiB
        bs = rng.choice((4096, 65536))
    plan = {"run": "copy", "check": "C10"}
    n = size // bs
    plan["image"] = {"size": size - rng.choice((0, 0, 100)), "bs": bs, "ranges": [[0, n - 1]],
                     "seed": rng.randrange(1 << 32), "style": "rep"}
    shape = rng.random()
    if not nobmap and shape < 0.25:
        # two very long ranges
        m = rng.randint(1, n - 2)
        plan["image"]["ranges"] = [[0, m], [m + 1, n - 1]]
    elif not nobmap and shape < 0.6:
        # holes that are much larger than what may be kept in memory
        gap = rng.choice((17, 18, 20, size // MiB - 2)) * MiB // bs
        first = rng.choice((0, 0, 1, rng.randint(1, max(1, n - gap - 2))))
        plan["image"]["ranges"] = ([[0, first - 1]] if first else []) + [[min(n - 1, first + gap), n - 1]]
    elif not nobmap and shape < 0.75 and n >= 64:
        # many ranges
        st = max(2, n // rng.choice((30, 100, 300)))
        plan["image"]["ranges"] = [[i, min(n - 1, i + max(0, st - rng.randint(2, st)))] for i in range(0, n, st)]
    w.source(rng, plan, kinds=("file", "file", "http", "pipe", "ssh") if not large else ("file", "file", "pipe"),
             comps=("gz", "lz4", "zst", "none", "none") if not large else ("none",))
    plan["src"].pop("redirect", None)
    if not nobmap:
        w.bmap(rng, plan, explicit=1.0)
    w.dest(rng, plan, ("blk", "blk", "new") if not large else ("blk", "blk", "blk", "new"))
    plan["dest"].pop("link", None)
    w.opts(rng, plan, nobmap)
    plan["sched"] = w.sched(rng, preempt=False)
    # the writer hardly ever runs
    if rng.random() < 0.7 and not large:
        plan["sched"].update(strategy="bias", bias={"main": rng.choice((-0.98, -0.95)), "thread": 5, "proc": 5, "actor": 5})
    plan["knobs"] = {"bufsize": rng.choice((8192, 65536, 1 << 17)), "pipe_cap": 1 << 20, "sock_buf": 1 << 20}
    yield one(plan, why="large image, slow writer")


# -- tuning ------------------------------------------------------------------------------------


def attr_cfg(rng, name):
    want = oracle.WANTED[name]
    if name == "scheduler":
        base = rng.choice(({"value": "mq-deadline", "options": ["mq-deadline", "kyber", "none"]},
                           {"value": "bfq", "options": ["none", "bfq", "kyber"]},
                           {"value": "cfq", "options": ["noop", "deadline", "cfq"]},
                           {"value": "none", "options": ["none", "mq-deadline"]},
                           {"value": "none"}, {"value": "deadline"}))
    else:
        base = {"value": rng.choice(("100", "100", "50", "1", "0", "2", "11"))}
    base = dict(base)
    r = rng.random()
    if r < 0.08:
        return None
    if r < 0.14:
        base["read_errno"] = rng.choice((errno.EIO, errno.EACCES))
    elif r < 0.2:
        base["deny"] = rng.choice(("r", "w"))
    elif r < 0.3:
        base["fail_value"] = want
    elif r < 0.42:
        base["fail_writes"] = [2]
        base["fail_restore"] = True
    return base


def cases_C11(rng, tier):
    plan = w.copy_plan(rng, nobmap=rng.random() < 0.25, maxsize=4 * MiB, dests=("blk", "blk", "part"),
                       kinds=("file",) * 5 + ("http", "pipe"), p_comp=0.25)
    plan["check"] = "C11"
    plan["sysfs"] = {n: attr_cfg(rng, n) for n in ("scheduler", "max_ratio")}
    if rng.random() < 0.06:
        plan["sysfs"] = {"absent": True}
    if rng.random() < 0.2:
        w.api_variant(rng, plan)
        if plan.get("api", {}).get("buffering") == 0:
            plan["knobs"].pop("short_w", None)
    cfgs = [c for n, c in plan["sysfs"].items() if n != "absent" and c]
    restore_broken = any(c.get("fail_restore") and c["value"] != oracle.WANTED[n]
                         for n, c in plan["sysfs"].items() if n != "absent" and c)
    plan["lines"] = rng.random() < 0.5
    first = clone(plan)
    first["must"] = not restore_broken
    (res,) = yield one(first, why="no fault")
    if res.reason != "exit" or "first_write_main" not in res.soft:
        return
    lo, hi = res.soft["first_write_main"], res.soft["last_write_main"]
    for _ in range(5):
        r = rng.random()
        if r < 0.45:
            if plan["lines"] and rng.random() < 0.6:
                f = {"site": "line", "at": rng.randint(res.soft["first_write_line"] + 1, max(res.soft["last_write_line"],
                                                       res.soft["first_write_line"] + 1)), "kind": "interrupt"}
            else:
                f = {"site": "main", "at": rng.randint(lo, max(lo, hi)), "kind": "interrupt"}
            fl = [f]
            ch = {}
        elif r < 0.75:
            f = pick_op(rng, res.counts, DEST_TABLE[:5])
            fl, ch = [f], {}
        else:
            g = source_fault(rng, plan, res)
            if g is None:
                continue
            ch, fl = g
        yield one(with_fault(plan, ch, fl), why="fault while copying")
    # the settings refuse at one particular operation
    for _ in range(2):
        f = pick_op(rng, res.counts, [("read", "sysfs:*", err("EIO", "EACCES")), ("open", "sysfs:*", err("EACCES", "ENOENT")),
                                      ("write", "sysfs:*", err("EINVAL", "EIO", "EPERM"))])
        if f is None:
            continue
        # a file object that fails to flush tries again when it is closed
        f["sticky"] = True
        p = with_fault(plan, {}, [f])
        name = f["role"].split(":")[1]
        cfg = p["sysfs"].get(name)
        if cfg:
            cfg["fail_restore"] = True
        p["must"] = False
        yield one(p, why="a setting refuses")


# -- signatures --------------------------------------------------------------------------------

STATES = ("bad", "nokey", "expired", "keyexpired", "revoked", "untrusted", "marginal", "tofu", "crlmissing")


def cases_C12(rng, tier):
    plan = w.copy_plan(rng, maxsize=2 * MiB, kinds=("file",) * 5 + ("http", "http", "stdin", "ssh"), p_comp=0.3,
                       dests=("blk", "blk", "blk", "part", "new"), explicit=0.5)
    plan["check"] = "C12"
    plan["src"].pop("redirect", None)
    bm = plan["bmap"]
    how = rng.choice(("asc", "sig", "explicit", "explicit", "clear", "clear"))
    if how in ("asc", "sig") and bm.get("kind", "file") == "ssh":
        bm["kind"] = "file"
        bm["where"] = "explicit"
    good = rng.random() < 0.3
    n = rng.choice((1, 1, 1, 2, 3))
    states = ["good"] * n
    if not good:
        states[rng.randrange(n)] = rng.choice(STATES)
        if rng.random() < 0.2:
            states = [rng.choice(STATES + ("good",)) for _ in range(n)]
    sig = {"how": how, "states": states}
    valid = all(s == "good" for s in states)
    why = "states %s" % "/".join(states)
    plan["sig"] = sig
    r = rng.random()
    if r < 0.1:
        plan["opts"].append("--no-sig-verify")
        if how == "explicit":
            plan["sig"]["how"] = how = "asc" if bm.get("kind", "file") != "ssh" else "clear"
        valid, why = True, "verification skipped (states %s)" % "/".join(states)
    elif r < 0.14 and how == "clear":
        sig["also"] = True
        valid, why = False, "a detached signature for a clear-signed map"
    elif r < 0.2 and how != "clear":
        sig["damage"] = [{"op": rng.choice(("cut", "zero", "drop")), "at": rng.choice((0.05, 0.5, 0.9)), "n": 8}]
        valid, why = False, "damaged signature"
    elif r < 0.25 and how == "clear":
        bm["version"] = rng.choice(("1.0", "1.2", "2.0"))
        bm.pop("cs", None)
        if bm["version"] == "2.0":
            bm["cs"] = "sha256"
        sig["damage"] = [{"op": "sub", "at": 0, "old": "<BlockSize> ", "new": "<BlockSize>  "}]
        valid, why = False, "text altered after signing"
    elif r < 0.33 and how != "clear":
        sig["raw"] = rng.choice(("", "garbage", "-----BEGIN PGP SIGNATURE-----\n", "\x00\x01\x02"))
        valid, why = False, "malformed signature"
    elif r < 0.43 and how != "clear" and (how == "explicit" or bm.get("kind", "file") == "file"):
        sig["deny"] = "r"
        valid, why = False, "unreadable signature"
    elif r < 0.5 and how == "explicit":
        sig["absent"] = True
        valid, why = False, "missing signature"
    elif r < 0.6 and how == "explicit":
        sig["kind"] = "http"
        t = rng.choice(("ok", "status", "refuse", "dns"))
        if t == "status":
            sig["status"] = rng.choice((404, 403, 500))
        elif t == "refuse":
            sig["refuse"] = True
        elif t == "dns":
            sig["dns_fail"] = True
        if t != "ok":
            valid, why = False, "signature cannot be fetched (%s)" % t
    elif r < 0.65:
        plan["no_gpg"] = True
        valid, why = False, "no gpg module"
    elif r < 0.7:
        sig["key_gone"] = True
        valid = None if valid else False
    if rng.random() < 0.1 and how in ("asc", "sig"):
        sig["second"] = ["good"]
        if how == "sig":
            # the other one is looked at first
            valid = None if valid is not None else None
    plan["sig_why"] = why
    plan["sig_verdict"] = "valid" if valid else "invalid" if valid is False else "open"
    (res,) = yield one(plan, why=why)
    local = [("read", "sig", err("EIO")), ("open", "sig", err("EACCES", "EIO", "EMFILE", "EPERM")), ("gpg", "gpg", MEM)]
    more = local + [("write", "tmp", err("ENOSPC", "EIO")), ("open", "tmp", err("EMFILE", "ENOSPC", "EROFS")), ("read", "tmp", err("EIO")),
                    ("read", "bmap", err("EIO")), ("open", "bmap", err("EIO", "EMFILE"))]
    remote = how == "explicit" and sig.get("kind") == "http"
    if remote and bm.get("kind", "file") == "file":
        more += [("recv", "net", err("ECONNRESET", "ETIMEDOUT")), ("connect", "net", err("ECONNREFUSED", "EHOSTUNREACH"))]
    for _ in range(2):
        # trouble does not make a bad signature good; with a good one it is reported or overcome
        bad = plan["sig_verdict"] == "invalid"
        f = pick_op(rng, res.counts, more if bad or remote else local)
        if f is None or "--no-sig-verify" in plan["opts"] or valid is None:
            continue
        p = with_fault(plan, {}, [f])
        if not bad and not remote:
            p["sig_verdict"], p["sig_why"] = "invalid", "signature file cannot be read (%s %s)" % (f["op"], f.get("errno"))
        yield one(p, why="signature read fault")


# -- contradictory command lines ---------------------------------------------------------------


ALIASES = ("same", "same", "dots", "relative", "symlink", "hardlink")


def cases_C21(rng, tier):
    if rng.random() < 0.08:
        # the image as the output of create
        plan = layout_plan(rng, maxsize=MiB)
        plan.update(run="create", check="C21", opts=["-d"] if rng.random() < 0.1 else [])
        plan["create"] = {"output": True, "no_checksum": rng.random() < 0.3}
        plan["alias"] = {"of": "image", "via": rng.choice(ALIASES)}
        plan["args"] = {"clash": "output=image"}
        plan["args_why"] = "output=image"
        yield one(plan, why="output=image")
        return
    nobmap = rng.random() < 0.3
    plan = w.copy_plan(rng, nobmap=nobmap, maxsize=MiB, huge_bs=False, dests=("new", "reg", "reg", "blk", "blk", "part"),
                       kinds=("file",) * 5 + ("http", "ssh", "stdin"), p_comp=0.3)
    plan["check"] = "C21"
    plan["src"].pop("redirect", None)
    plan["opts"] = [o for o in plan["opts"] if o not in ("--quiet", "--debug")]
    if rng.random() < 0.2:
        plan["opts"].append("--no-verify")
    if not nobmap and plan["bmap"].get("kind", "file") == "file" and rng.random() < 0.3:
        plan["sig"] = {"how": rng.choice(("asc", "explicit")), "states": ["good"]}
    plan["args"] = {"seed": rng.randrange(1 << 32)}
    (res,) = yield one(plan, why="fine")
    for _ in range(4):
        p = clone(plan)
        a = p["args"]
        a["seed"] = rng.randrange(1 << 32)
        kinds = ["quiet+debug", "nobmap+bmap", "sig+nosig", "image=bmap", "sig+nobmap", "usage"]
        names = []
        if p["src"]["kind"] == "file":
            names.append("image")
        if not nobmap and p["bmap"].get("kind", "file") == "file":
            names.append("bmap")
        if p.get("sig", {}).get("how") == "explicit":
            names.append("sig")
        kind = rng.choice(kinds + ["dest=input", "dest=input"] if names else kinds)
        if kind == "dest=input":
            p["alias"] = {"of": rng.choice(names), "via": rng.choice(ALIASES)}
        a["clash"] = kind
        if rng.random() < 0.2:
            a["more"] = rng.choice(kinds[:3])
        if kind == "usage":
            a["how"] = rng.choice(("no dest", "no arguments", "no command", "unknown option", "unknown command", "third", "bmap without value"))
        p["args_why"] = kind
        yield one(p, why=kind)


# -- strange block maps ------------------------------------------------------------------------

# what the format allows without saying so in every example
ODD = {
    "comment": [r"(<bmap [^>]*>)", "\\1\n<!-- <Range> 7-9 </Range> <ImageSize> 5 </ImageSize> -->"],
    "element": [r"(\s*<BlockMap>)", "\n  <Creator tool='x'> <Range> 3 </Range> somebody </Creator>\\1"],
    "tight": [r"<ImageSize> (\d+) </ImageSize>", "<ImageSize>\\1</ImageSize>"],
    "wide": [r"<MappedBlocksCount> (\d+)    </", "<MappedBlocksCount>\n\t  \\1 \n</"],
    "tabs": [r"<BlockSize> (\d+) <", "<BlockSize>\t\\1\t<"],
    "declaration": [r"<\?xml version=\"1.0\" \?>\n", ""],
    "encoding": [r"<\?xml version=\"1.0\" \?>", "<?xml version='1.0' encoding='utf-8'?>"],
    "quotes": [r"<bmap version=\"([^\"]*)\">", "<bmap version='\\1' creator=\"\u00e9\">"],
    "attribute": [r"<Range( ?)", "<Range note='a-b'\\1"],
    "leading zeros": [r"<BlocksCount> (\d+) <", "<BlocksCount> 00\\1 <"],
    "trailer": [r"</bmap>\n", "</bmap>\n\n<!-- the end -->\n\n\n"],
}


def cases_C22(rng, tier):
    plan = w.copy_plan(rng, maxsize=3 * MiB, empty_map=False, huge_bs=False,
                       kinds=("file",) * 5 + ("http", "http", "stdin", "pipe", "ssh"), p_comp=0.45)
    plan["check"] = "C22"
    bm, im = plan["bmap"], plan["image"]
    n = (im["size"] + im["bs"] - 1) // im["bs"]
    if rng.random() < 0.3:
        edits = [ODD[x] for x in rng.sample(sorted(ODD), rng.randint(1, 4))]
        if bm["version"] == "2.0" and rng.random() < 0.3:
            # minor versions are compatible
            edits.append(["<bmap version=([\"'])2.0[\"']", "<bmap version=\"2.%d\"" % rng.choice((1, 3, 12))])
        if bm["version"] in ("1.4", "2.0") and rng.random() < 0.3:
            bm["cs"] = rng.choice(("sha384", "sha3_256", "blake2b", "sha224", "md5"))
        bm["craft"] = edits
        if rng.random() < 0.1:
            bm["bom"] = True
        plan["map"] = "odd"
        if rng.random() < 0.3:
            w.api_variant(rng, plan)
        yield one(plan, why="odd but fine")
        return
    mapped = sum(b - a + 1 for a, b in im["ranges"])
    last = im["ranges"][-1][1]
    bad = []

    def head(why, *edits):
        bad.append(("bad-head", why, [list(e) for e in edits], None))

    def body(why, *edits, end=None):
        bad.append(("bad", why, [list(e) for e in edits], end))

    def num(tag, v):
        return r"<%s> \d+ +</%s>" % (tag, tag), "<%s> %s </%s>" % (tag, v, tag)

    # the header
    head("blocks count", num("BlocksCount", n + rng.choice((1, -1, 5, 1000))))
    head("image size", num("ImageSize", im["size"] + im["bs"] * rng.choice((1, 2, 100))))
    head("image size too small for the blocks", num("ImageSize", (n - 1) * im["bs"]))
    if im["size"] > 1:
        head("block size", num("BlockSize", im["bs"] * 2 if n > 1 else max(1, (im["size"] - 1) // 2)))
    head("block size zero", num("BlockSize", 0))
    head("not a number", num(rng.choice(("ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount")),
                             rng.choice(("", "many", "12x", "1.5", "0x10", "1e3", "--"))))
    head("missing", (r"<%s> \d+ +</\w+>" % rng.choice(("ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount")), ""))
    head("unsupported version", (r"<bmap version=\"\d\.\d\"", "<bmap version=\"%s\"" % rng.choice(("3.0", "3.1", "7.2", "10.0", "20.0"))))
    head("malformed version", (r"<bmap version=\"\d\.\d\"", "<bmap " + rng.choice(("", "version=\"\"", "version=\"x\"", "version=\"x.y\""))))
    head("not closed", (r"</bmap>", ""))
    head("no block map element", (r"<BlockMap>.*</BlockMap>", ""))
    if bm["version"] in ("1.4", "2.0"):
        head("unknown checksum type", (r"<ChecksumType> \w+ </", "<ChecksumType> %s </" % rng.choice(("crc32", "none", "", "SHA-2", "shake_128"))))
        head("no checksum type", (r"<ChecksumType> \w+ </ChecksumType>", ""))
    if bm["version"] in ("1.3", "1.4", "2.0"):
        head("no checksum of its own", (r"<(BmapFile\w+)> 0+ </\w+>", ""))
    if plan["src"]["kind"] == "file" and plan["src"]["comp"] == "none":
        other = [x for x in range(max(1, (n - 1) * im["bs"] + 1), n * im["bs"] + 1) if x != im["size"]][:5000]
        if other:
            head("another size than the image has", num("ImageSize", rng.choice(other)))
    # the ranges
    k = rng.randrange(len(im["ranges"]))
    pat = r"(<Range[^>]*> %d%s </Range>)" % (im["ranges"][k][0], "[ -]*%d" % im["ranges"][k][1]
                                            if im["ranges"][k][0] != im["ranges"][k][1] else "(?: ?- ?%d)?" % im["ranges"][k][1])
    a, b = im["ranges"][k]

    def rtext(t):
        return (r"(<Range[^>]*> )%d(?: ?- ?%d)?( </Range>)" % (a, b), "\\1%s </Range>" % t)

    if b > a:
        body("reversed range", rtext("%d-%d" % (b, a)))
        body("shorter range", rtext("%d-%d" % (a, b - 1)))
    body("range not a number", rtext(rng.choice(("x", "", "-", "%d-" % a, "%d-x" % a, "1.5", "%d %d" % (a, b), "%d-%d-%d" % (a, b, b)))))
    body("negative range", rtext("-%d" % (a + 1)))
    body("missing range", (pat, ""))
    body("mapped count", num("MappedBlocksCount", max(0, mapped + rng.choice((1, -1, 7, -7, 1000))) if mapped > 7 else mapped + 1))
    body("repeated range", (pat, "\\1 \\1"))
    far = rng.choice((n, n, n + 1, n + 300, 1 << 40, 1 << 62))
    body("range beyond the end", (r"(</BlockMap>)", "<Range> %d-%d </Range>\\1" % (far, far + rng.choice((0, 0, 3)))),
         num("MappedBlocksCount", mapped + 1), end=n * im["bs"])
    body("range reaching beyond the end", rtext("%d-%d" % (a, n + rng.choice((0, 0, 5)))), end=n * im["bs"])
    if last > 0 and (plan["src"]["kind"] != "file" or plan["src"]["comp"] != "none"):
        # the image really has those blocks, only the map says it has not
        m = rng.choice((last, last, rng.randint(1, last)))
        body("range beyond the declared size", num("ImageSize", m * im["bs"] - rng.choice((0, im["bs"] - 1))),
             num("BlocksCount", m), end=m * im["bs"])
        if plan["dest"]["kind"] in ("blk", "part") and rng.random() < 0.5:
            bad[:] = bad[-1:]
    for kind, why, edits, end in rng.sample(bad, min(len(bad), 5)):
        p = clone(plan)
        p["bmap"]["craft"] = edits
        p["map"], p["map_why"] = kind, why
        if end is not None:
            p["map_end"] = end
        if rng.random() < 0.25:
            w.api_variant(rng, p)
            if p.get("api") and why == "another size than the image has":
                p["api"]["size"] = "image"
        if rng.random() < 0.2:
            p["opts"].append("--no-verify")
        p["sched"]["seed"] = rng.randrange(1 << 32)
        yield one(p, why=why)


# -- hole layouts ------------------------------------------------------------------------------


def layout(rng, im, fine=True, extents_gran=None):
    """What the kernel says about the holes of the image; returns (layout, data intervals, block size)."""
    size = im["size"]
    bsz = rng.choice((4096,) * 5 + (1024, 512, 2048, 8192, 65536))
    lay = {"bsz": bsz, "blksize": bsz}
    r = rng.random()
    if r < 0.1:
        # no FIGETBSZ: fall back to st_blksize
        lay["figetbsz_errno"] = rng.choice((errno.ENOTTY, errno.EPERM, errno.EINVAL, -1, -1))
    elif r < 0.2:
        lay["blksize"] = rng.choice((512, 4096, 65536))
    how = rng.choice(("fiemap", "fiemap", "seek", "seek"))
    n = (size + bsz - 1) // bsz
    ranges = w.gen_ranges(rng, n, rng.choice(("many", "small", "batch")), max(1, MiB // bsz))
    data = [[a * bsz, min((b + 1) * bsz, size)] for a, b in ranges]
    ext = []
    for a, b in ranges:
        # cut into adjacent extents at random
        pos = a
        while pos <= b:
            ln = b - pos + 1
            if rng.random() < 0.4:
                ln = rng.randint(1, ln)
            ext.append([pos * bsz, ln * bsz])
            pos += ln
    if ext and rng.random() < 0.15:
        # allocated beyond the end of the file
        last = ext[-1]
        if (last[0] + last[1]) >= size:
            last[1] += bsz * rng.randint(1, 3)
        else:
            ext.append([n * bsz, bsz * rng.randint(1, 5)])
    lay["extents"] = ext
    if rng.random() < 0.5:
        lay["fiemap_max"] = rng.choice((1, 2, 3, 7))
    if rng.random() < 0.4:
        # unknown location, delayed allocation, encoded, inline, merged, shared
        lay["fiemap_flags"] = [rng.choice((0, 0x2, 0x6, 0x8, 0x80, 0x308, 0x400, 0x1000, 0x2000)) for _ in range(7)]
    if how == "seek":
        lay["fiemap_errno"] = rng.choice((errno.EOPNOTSUPP, errno.ENOTTY))
        if fine and rng.random() < 0.45:
            # holes finer than (or not aligned to) the block size
            data = []
            pos = 0
            unit = rng.choice((512, 1024, 4096, 1))
            while pos < size and len(data) < 200:
                pos += rng.choice((0, 1, 2, 5, 40)) * unit if data or rng.random() < 0.6 else 0
                e = pos + rng.choice((1, 2, 3, 9, 60)) * unit
                if pos < size:
                    data.append([pos, min(e, size)])
                pos = e + unit
    # adjacent pieces are one piece for SEEK_DATA/SEEK_HOLE
    segs = []
    for s, e in data:
        if e <= s:
            continue
        if segs and s <= segs[-1][1]:
            segs[-1][1] = max(e, segs[-1][1])
        else:
            segs.append([s, e])
    lay["data_segs"] = segs
    return lay, segs, bsz, how


def far_layout(rng, contents):
    """The layout of a huge image; with `contents` its data have to be small enough to be read."""
    im = w.sparse_image(rng)
    bs, size = im["bs"], im["size"]
    n = (size + bs - 1) // bs
    ranges = im.pop("ranges")
    if not contents and rng.random() < 0.6:
        big = []
        pos = 0
        for _ in range(rng.randint(1, 6)):
            a = max(pos, w.far_offsets(rng, n, bs))
            b = min(n - 1, a + rng.choice((1 << rng.randint(8, 33), rng.randint(1, n))))
            if a > b:
                break
            big.append([a, b])
            pos = b + 2
        ranges = big or ranges
    im["ranges"] = []
    data = [[a * bs, min((b + 1) * bs, size)] for a, b in ranges]
    im["data"] = data
    lay = {"bsz": bs, "blksize": bs, "data_segs": data, "extents": [[a * bs, (b - a + 1) * bs] for a, b in ranges]}
    if rng.random() < 0.4:
        lay["fiemap_max"] = rng.choice((1, 2, 3, 7))
    how = rng.choice(("fiemap", "seek"))
    if how == "seek":
        lay["fiemap_errno"] = rng.choice((errno.EOPNOTSUPP, errno.ENOTTY))
    return im, lay, how


def far_layout_plan(rng, contents):
    im, lay, how = far_layout(rng, contents)
    return {"image": im, "src": {"kind": "file", "comp": "none", "name": "disk.img", "layout": lay},
            "expect": {"bs": im["bs"], "data": [list(x) for x in im["data"]]}, "how": how, "sched": w.sched(rng), "knobs": w.knobs(rng)}


def layout_plan(rng, maxsize=3 * MiB, junk=False):
    size = rng.choice((rng.randint(1, 20000), rng.randint(1, 300000), rng.randint(1, maxsize), rng.randint(1, 60) * 4096))
    im = {"size": size, "bs": 4096, "ranges": [], "seed": rng.randrange(1 << 32), "style": "rand"}
    lay, segs, bsz, how = layout(rng, im)
    # the image: data where the layout says so
    unit = 1
    plan = {"image": im, "src": {"kind": "file", "comp": "none", "name": rng.choice(("disk.img", "image", "a b.img")),
                                 "layout": lay}}
    im["data"] = segs
    bs = lay["blksize"] if lay.get("figetbsz_errno") else bsz
    if how == "fiemap" and lay["extents"] and bs != bsz:
        # extents are multiples of the file system's block size
        bs = lay["bsz"] = lay["blksize"] = bsz
    plan["expect"] = {"bs": bs, "data": segs}
    if rng.random() < 0.2:
        plan["src"]["relative"] = True
    plan["how"] = how
    plan["sched"] = w.sched(rng)
    plan["knobs"] = w.knobs(rng)
    return plan


CREATE_TABLE = [
    ("fiemap", "image", err("EIO", "EINVAL", "ENOMEM", "EBADR", sticky=True)),
    ("lseek3", "image", err("EIO", "ESTALE", sticky=True)), ("lseek4", "image", err("EIO", "ESTALE", sticky=True)),
    ("read", "image", err("EIO", "ESTALE") + MEM), ("fsync", "image", err("EIO")), ("fstat", "image", err("EIO")),
    ("lseek", "image", err("EIO")), ("open", "tmp", err("EACCES", "ENOSPC", "EROFS")),
    ("figetbsz", "image", err("EIO", "ENOTTY")), ("fork", "*", err("EAGAIN", "ENOMEM")),
    ("ftruncate", "tmp", err("EINVAL", "ENOSPC")), ("open", "image", err("EACCES", "EMFILE")),
]


def fresh_data(rng, plan, obj):
    """Data that are not on the disk yet when the holes are asked for; with `obj` not even written."""
    lay = plan["src"]["layout"]
    if plan["image"].get("sparse") or not lay.get("data_segs"):
        return
    if obj and rng.random() < 0.4:
        plan["src"]["late"] = clone(rng.sample(lay["data_segs"], min(len(lay["data_segs"]), rng.choice((1, 1, 2, 5)))))
    if plan["how"] == "fiemap" and rng.random() < 0.25:
        p = rng.choice((0.2, 1.0))
        lay["delayed"] = [[a, a + n] for a, n in lay["extents"] if rng.random() < p]


def create_api(rng, plan):
    """Now and then through the programming interface."""
    if rng.random() < 0.2:
        plan["create"]["output"] = True
        plan["create"]["api"] = {"image": rng.choice(("path", "obj")), "bmap": rng.choice(("path", "obj", "obj")), "close": rng.random() < 0.5,
                                 "cs": rng.choice((None, "sha1", "SHA256", "sha512", "md5", "blake2b", "sha3_384"))}


def cases_C13(rng, tier):
    nocs = rng.random() < 0.2
    plan = layout_plan(rng) if rng.random() < 0.93 else far_layout_plan(rng, not nocs)
    far = bool(plan["image"].get("sparse"))
    plan.update(run="create", check="C13", must=True)
    plan["create"] = {"output": rng.random() < 0.7, "no_checksum": nocs}
    create_api(rng, plan)
    fresh_data(rng, plan, plan["create"].get("api", {}).get("image") == "obj")
    plan["expect"]["checksums"] = not plan["create"]["no_checksum"]
    plan["opts"] = ["-d"] if rng.random() < 0.1 else []
    r = rng.random()
    if r < 0.12:
        cfg = rng.choice((None, "0\n", "1\n", "1\n", "x\n", "\n"))
        plan["df"] = {"mode": "ok", "fs": rng.choice(("zfs", "zfs", "ZFS"))}
        if cfg is not None:
            plan["zfs_param"] = cfg
        if cfg == "1\n" and rng.random() < 0.3:
            # the parameter cannot be read: nothing is known
            plan["zfs_deny"], cfg = "r", "?"
        if cfg != "1\n":
            plan["must_fail"] = "the image is on ZFS without reliable hole reporting"
            plan["must"] = False
    elif r < 0.16:
        plan["src"]["layout"]["seek_mode"] = rng.choice(("einval", "stub"))
        if plan["how"] == "seek":
            plan["must_fail"] = "the kernel offers no usable hole reporting"
            plan["must"] = False
    elif r < 0.2:
        plan["df"] = {"mode": rng.choice(("ok", "ok", "stall", "fail", "empty")), "ns": rng.choice((SEC, 3600 * SEC)),
                      "fs": rng.choice(("ext4", "btrfs", "xfs", "tmpfs", "fuse.zfs"))}
        plan["must"] = plan["df"]["mode"] in ("ok", "stall")
    elif r < 0.23 and not far:
        plan["image"].update(size=0, data=[])
        plan["expect"]["data"] = []
        plan["src"]["layout"].update(extents=[], data_segs=[], delayed=[])
        plan["src"].pop("late", None)
        plan["must_fail"] = "there is nothing in the image"
        plan["must"] = False
    (res,) = yield one(plan, why="create")
    if res.reason != "exit" or res.violations:
        return
    if res.rc == 0 and not plan.get("must_fail") and not far:
        q = {"run": "copy", "check": "C13", "stage": "copy", "image": clone(plan["image"]),
             "src": {"kind": "file", "comp": "none", "name": "disk.img"},
             "bmap": {"where": "explicit"}, "dest": {"kind": rng.choice(("new", "blk")), "extra": 4096}, "opts": [],
             "sched": w.sched(rng), "knobs": w.knobs(rng)}
        q["image"]["bs"] = plan["expect"]["bs"]
        q["image"]["ranges"] = [list(x) for x in oracle.intervals_to_blocks(
            [tuple(i) for i in plan["expect"]["data"]], plan["expect"]["bs"], plan["image"]["size"])]
        p = clone(plan)
        yield {"phases": [p, q], "link": "text", "why": "create, then copy with the result"}
    for _ in range(3):
        f = pick_op(rng, res.counts, CREATE_TABLE)
        if f is None:
            continue
        p = with_fault(plan, {}, [f])
        p["must"] = False
        if f["op"] in ("fiemap", "lseek3", "lseek4", "read") and f["role"] == "image" and not p.get("must_fail"):
            p["must_fail"] = "%s of the image failed with errno %s" % (f["op"], f.get("errno", "ENOMEM"))
        yield one(p, why="kernel error")


def cases_C14(rng, tier):
    plan = layout_plan(rng, maxsize=2 * MiB)
    if rng.random() < 0.5:
        # many ranges: a bmap of several pages
        size = rng.choice((300, 600, 1200)) * 512
        bsz = rng.choice((512, 1024))
        n = size // bsz
        step = rng.choice((2, 3))
        segs = [[b * bsz, (b + 1) * bsz] for b in range(rng.randrange(2), n, step)]
        plan["image"]["size"] = size
        plan["image"]["data"] = segs
        plan["expect"] = {"bs": bsz, "data": segs}
        plan["src"]["layout"] = {"bsz": bsz, "blksize": bsz, "extents": [[s, e - s] for s, e in segs], "data_segs": segs}
        plan["how"] = "fiemap"
    plan.update(run="create", check="C14")
    out = rng.random() < 0.75
    plan["create"] = {"output": out, "no_checksum": rng.random() < 0.3}
    if out:
        create_api(rng, plan)
    plan["expect"]["checksums"] = not plan["create"]["no_checksum"]
    plan["opts"] = []
    plan["bmap_out"] = "/work/map.bmap"
    if rng.random() < 0.3:
        # something is there already
        plan["files"] = {"/work/map.bmap": {"data": "old contents\n" * rng.randint(1, 900), "role": "bmapout"}}
    if rng.random() < 0.5:
        plan["lines"] = True
    w.streams(rng, plan, 0.2)
    if not out and "stdout" in plan.get("closed", ()):
        plan["closed"].remove("stdout")
    if not out and rng.random() < 0.4:
        plan["unbuffered"] = True
    first = clone(plan)
    first["must"] = True
    first["carry_out"] = {"what": "bmap"}
    (res,) = yield one(first, why="no fault")
    if res.reason != "exit" or res.rc != 0 or res.violations:
        return
    good = res.info["carry"]["text"].decode("latin-1") if out and res.info.get("carry", {}).get("exists") else None
    bs = plan["expect"]["bs"]
    q = {"run": "copy", "check": "C14", "stage": "copy", "image": clone(plan["image"]),
         "src": {"kind": "file", "comp": "none", "name": "disk.img"}, "bmap": {"where": "explicit"},
         "dest": {"kind": "new"}, "opts": ["--no-verify"] if rng.random() < 0.5 else [],
         "sched": {"seed": 1, "strategy": "default"}, "knobs": {}}
    q["image"]["bs"] = bs
    q["image"]["ranges"] = [list(x) for x in oracle.intervals_to_blocks([tuple(i) for i in plan["expect"]["data"]], bs,
                                                                        plan["image"]["size"])]
    q["good_text"] = good
    wn = res.counts.get(("write", "bmapout"), 0)
    for _ in range(5):
        p = clone(plan)
        r = rng.random()
        kind = None
        if r < 0.5:
            kind = rng.choice(("crash", "crash", "kill", "interrupt"))
            if p.get("lines") and kind in ("crash", "interrupt") and rng.random() < 0.7:
                f = {"site": "line", "at": rng.randint(max(1, res.main_lines // 2), max(1, res.main_lines)), "kind": kind}
            else:
                f = {"site": "main", "at": rng.randint(max(1, res.main_steps // 3), max(1, res.main_steps)), "kind": kind}
            p["faults"] = [f]
        elif r < 0.6 and wn:
            p["faults"] = [{"site": "op", "op": "write", "role": "bmapout", "nth": nth_of(rng, wn), "kind": "crash"}]
            kind = "crash"
        elif r < 0.7:
            p["knobs"]["disk_free"] = rng.choice((0, 4096, 8192, 16384))
        elif r < 0.8:
            # only a part is accepted, perhaps because the disk becomes full
            f = pick_op(rng, res.counts, [("write", "bmapout" if out else "stdout",
                                           [{"kind": "short", "n": n} for n in (1, 100, 1000, 3000)])])
            if f is None:
                continue
            p["faults"] = [f]
            if rng.random() < 0.5:
                p["faults"].append(dict(f, kind="errno", errno=errno.ENOSPC, nth=f["nth"] + 1, sticky=True))
            else:
                p["must"] = True
        else:
            f = pick_op(rng, res.counts, [
                ("write", "bmapout", err("EIO", "ENOSPC", "EDQUOT", sticky=True)), ("write", "stdout", err("EIO", "ENOSPC", "EPIPE", sticky=True)),
                ("write", "tmp", err("ENOSPC", "EIO")), ("read", "bmapout", err("EIO")), ("read", "tmp", err("EIO")),
                ("open", "tmp", err("ENOSPC")), ("lseek", "bmapout", err("EIO")), ("read", "image", err("EIO") + MEM),
                ("fiemap", "image", err("EIO")), ("close", "bmapout", err("EIO")), ("open", "bmapout", err("EACCES", "ENOSPC", "EROFS"))])
            if f is None:
                continue
            p["faults"] = [f]
        p["carry_out"] = {"what": "bmap", "mode": rng.choice(("none", "all", "subset", "prefix", "torn")),
                          "seed": rng.randrange(1 << 32), "lost": rng.random() < 0.1}
        if out:
            yield {"phases": [p, clone(q)], "link": "text", "why": "broken off, then used"}
        else:
            yield one(p, why="fault")


# -- block-map queries -------------------------------------------------------------------------


def cases_C15(rng, tier):
    plan = layout_plan(rng, maxsize=2 * MiB) if rng.random() < 0.88 else far_layout_plan(rng, False)
    plan.update(run="filemap", check="C15", must=True)
    how = plan["how"]
    cls = {"fiemap": rng.choice(("fiemap", "any", "any")), "seek": rng.choice(("seek", "any", "any"))}[how]
    asks = []
    for _ in range(rng.randint(2, 7)):
        asks.append({"kind": rng.choice(("ranges", "ranges", "inter", "block", "block")),
                     "at": rng.choice((0.0, rng.random(), rng.random(), 0.999)),
                     "count": rng.choice((1, 2, 3, 17, 100, 1000, 10 ** 20))})
        if asks[-1]["kind"] == "inter" and rng.random() < 0.7:
            asks[-1].update(at2=rng.choice((0.0, rng.random())), count2=rng.choice((1, 10, 100, 10 ** 20)))
    if rng.random() < 0.5:
        asks.insert(0, {"kind": "ranges", "at": 0.0, "count": 10 ** 20})
    plan["query"] = {"cls": cls, "by_path": rng.random() < 0.5, "asks": asks}
    if plan["src"].get("relative"):
        plan["query"]["by_path"] = rng.random() < 0.5
    fresh_data(rng, plan, not plan["query"]["by_path"])
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.rc != 0:
        return
    for _ in range(3):
        f = pick_op(rng, res.counts, CREATE_TABLE[:3] + [("fsync", "image", err("EIO"))])
        if f is None:
            continue
        p = with_fault(plan, {}, [f])
        p["must"] = False
        if f["op"] == "figetbsz":
            p["may_absorb"] = True
        yield one(p, why="kernel error")


# -- transparent reading -----------------------------------------------------------------------


def cases_C16(rng, tier):
    plan = {"run": "transread", "check": "C16"}
    plan["image"] = w.image(rng, maxsize=rng.choice((MiB, 4 * MiB)), allow_empty_map=False, huge_bs=False)
    plan["image"]["ranges"] = [[0, (plan["image"]["size"] + plan["image"]["bs"] - 1) // plan["image"]["bs"] - 1]]
    w.source(rng, plan, kinds=("file",) * 6 + ("http",) * 4 + ("pipe", "stdin", "ssh", "ssh", "https", "fileurl"), p_comp=0.7)
    plan["sched"] = w.sched(rng)
    plan["knobs"] = w.knobs(rng)
    src = plan["src"]
    size = plan["image"]["size"]
    plan["seekable"] = src["comp"] == "none" and src["kind"] in ("file", "stdin")
    ops = []
    pos = 0
    for _ in range(rng.randint(1, 14)):
        r = rng.random()
        if r < 0.6:
            n = rng.choice((1, 7, 512, 4096, 65536, MiB, rng.randint(1, max(1, size)), size, size + 10))
            ops.append(["read", n])
            pos = min(size, pos + n)
        elif r < 0.68:
            ops.append(["read", rng.choice((None, -1))])
            pos = size
        elif r < 0.72:
            ops.append(["read", 0])
        elif r < 0.9:
            if rng.random() < 0.5:
                to = rng.randint(pos, max(pos, size)) if rng.random() < 0.9 else size + rng.randint(0, 5)
                ops.append(["seek", to, 0])
            else:
                d = rng.choice((0, 1, 4096, rng.randint(0, max(0, size - pos))))
                ops.append(["seek", d, 1])
                to = pos + d
            pos = min(size, to) if not plan["seekable"] else to
        elif r < 0.96:
            to = rng.randint(0, pos)
            ops.append(["seek", to, 0])
            if plan["seekable"]:
                pos = to
        else:
            d = rng.choice((0, rng.randint(1, size + 5), -rng.randint(0, size), -rng.randint(0, size)))
            ops.append(["seek", d, 2])
            if plan["seekable"]:
                pos = size + d
    if rng.random() < 0.5:
        ops.append(["read", rng.choice((None, -1, size + 1))])
    plan["ops"] = ops
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.violations:
        return
    if src["comp"] == "none" and src["kind"] in ("pipe", "stdin", "file", "fileurl") or src.get("mode") == "close" and src["comp"] == "none":
        breakable = False
    else:
        breakable = True
    for _ in range(3):
        # read to the end, so that a break is bound to show
        p = clone(plan)
        step = rng.choice((1000, 65536, MiB))
        if rng.random() < 0.7:
            p["ops"] = [["read", step]] * (size // step + 2) if size // step < 400 else [["read", MiB]] * (size // MiB + 2)
        fake = dict(plan, run="copy", bmap={"x": 1}) if breakable else dict(plan, run="copy", opts=["--nobmap"])
        f = source_fault(rng, fake, res)
        if f is None or f[0].get("src", {}).get("cut"):
            continue
        if not breakable and any(x.get("kind") == "eof" for x in f[1]):
            continue
        if f[0] and (not breakable or src["comp"] == "none"):
            continue
        p = with_fault(p, *f)
        p["broken"] = True
        yield one(p, why="a source that breaks off")


# -- decoration --------------------------------------------------------------------------------


def cases_C17(rng, tier):
    plan = w.copy_plan(rng, nobmap=rng.random() < 0.3, maxsize=6 * MiB, kinds=("file",) * 6 + ("http", "pipe", "stdin"),
                       p_comp=0.35)
    plan["check"] = "C17"
    plan["tty"] = rng.choice((True, True, ["stderr", "stdout"], ["stderr"], ["stdout"], False))
    plan["opts"] = [o for o in plan["opts"] if o not in ("--quiet", "--debug")]
    if rng.random() < 0.3:
        plan["opts"].append(rng.choice(("--quiet", "--debug")))
    w.streams(rng, plan, 0.2)
    shown = plan["tty"] is True or isinstance(plan["tty"], list) and {"stderr", "stdout"} <= set(plan["tty"])
    shown = shown and not {"stderr", "stdout"} & set(plan.get("closed", ()))
    plan["full_progress"] = shown and not {"--quiet", "--debug"} & set(plan["opts"]) and (
        "--nobmap" not in plan["opts"] or plan["src"]["kind"] in ("file",) and plan["src"]["comp"] == "none")
    if rng.random() < 0.7:
        ps = {"mode": rng.choice(("fifo",) * 6 + ("reg", "missing")), "reader": rng.random() < 0.85}
        if rng.random() < 0.25:
            ps["start"] = rng.choice((1000, MS, 50 * MS))
        if rng.random() < 0.3:
            ps["slow"] = rng.choice((MS, 100 * MS, 10 * SEC))
        if rng.random() < 0.3:
            ps["die_after"] = rng.choice((0, 1, 3, 10))
        if rng.random() < 0.3:
            ps["cap"] = rng.choice((8, 13, 64, 4096))
        if rng.random() < 0.2:
            ps["remove_at"] = rng.choice((1, 5, 40, 150, 300))
        plan["psplash"] = ps
        ps["reliable"] = ps["mode"] == "fifo" and ps["reader"] and not set(ps) & {"start", "slow", "die_after", "cap", "remove_at"}
        ps["reliable"] = ps["reliable"] and (
            "--nobmap" not in plan["opts"] or plan["src"]["kind"] == "file" and plan["src"]["comp"] == "none")
    if rng.random() < 0.15 and not plan.get("psplash"):
        w.api_variant(rng, plan)
        if plan["run"] == "api":
            plan["api"]["progress"] = True
            plan["tty"] = ["stderr"]
            plan["full_progress"] = bool(plan.get("bmap")) or plan["api"]["size"] is not None
            if plan["api"]["size"] == "obj" and (plan["src"]["kind"] != "file" or plan["src"]["comp"] != "none"):
                plan["full_progress"] = False
            if plan["api"].get("buffering") == 0:
                plan["knobs"].pop("short_w", None)
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.violations:
        return
    for _ in range(4):
        p = clone(plan)
        fl = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            at = rng.randint(1, max(1, res.main_steps))
            if r < 0.45:
                by = rng.choice((-1, 1)) * rng.choice((MS, 300 * MS, SEC, 3600 * SEC, 10 ** 6 * SEC))
                fl.append({"site": "main", "at": at, "kind": "clock", "by": by})
            elif r < 0.65:
                fl.append({"site": "main", "at": at, "kind": "freeze-clock"})
            elif r < 0.8:
                f = pick_op(rng, res.counts, [("open", "psplash", err("ENXIO", "EACCES", "EMFILE", "ENOENT")),
                                              ("write", "psplash", err("EPIPE", "EAGAIN", "EIO")),
                                              ("close", "psplash", err("EIO")), ("fstat", "psplash", err("EIO")),
                                              ("stat", "psplash", err("ENOENT", "EACCES"))])
                if f:
                    fl.append(f)
                    p["psplash"]["reliable"] = False
            else:
                # a terminal that is busy or hung up, a log on a full disk
                f = pick_op(rng, res.counts, [("write", "stderr", err("EAGAIN", "EIO", "ENOSPC", "EPIPE", sticky=rng.random() < 0.5))])
                if f:
                    fl.append(f)
                    p["full_progress"] = False
        if rng.random() < 0.3 and not fl:
            fl = [{"site": "main", "at": 1, "kind": "freeze-clock"}]
        p["faults"] = fl
        if rng.random() < 0.25:
            p["faults"].append({"site": "main", "at": 1, "kind": "freeze-clock"})
        yield one(p, why="clock, psplash")


# -- reports ------------------------------------------------------------------------------------


def cases_C20(rng, tier):
    if rng.random() < 0.3:
        nocs = rng.random() < 0.5
        plan = layout_plan(rng) if rng.random() < 0.5 else far_layout_plan(rng, not nocs)
        plan.update(run="create", check="C20")
        plan["create"] = {"output": rng.random() < 0.7, "no_checksum": nocs}
        plan["opts"] = rng.choice(([], [], [], ["-d"], ["-q"]))
        plan["src"]["layout"].pop("seek_mode", None)
        if rng.random() < 0.15:
            # nothing but data
            size, bs = plan["image"]["size"], plan["expect"]["bs"]
            if size <= 16 * MiB:
                n = (size + bs - 1) // bs
                plan["image"]["data"] = plan["expect"]["data"] = [[0, size]]
                plan["src"]["layout"].update(extents=[[0, n * bs]], data_segs=[[0, size]])
        yield one(plan, why="create")
        return
    nobmap = rng.random() < 0.3
    plan = w.sparse_plan(rng) if rng.random() < 0.35 and not nobmap else w.copy_plan(
        rng, nobmap=nobmap, maxsize=6 * MiB, kinds=("file",) * 6 + ("pipe", "stdin", "ssh", "http"), p_comp=0.3)
    plan["check"] = "C20"
    plan.pop("closed", None)
    plan.pop("unbuffered", None)  # whose partial writes the interpreter itself loses
    plan["tty"] = rng.choice((True, False, False, ["stderr"]))
    plan["opts"] = [o for o in plan["opts"] if o not in ("--quiet", "--debug")] + rng.choice(([], [], [], ["--debug"], ["--quiet"]))
    (res,) = yield one(plan, why="no fault")
    if res.reason != "exit" or res.violations:
        return
    slow = [("write", "dest", STALL), ("fsync", "dest", STALL), ("write", "dest", STALL), ("fsync", "dest", STALL), ("ftruncate", "dest", STALL)]
    if plan["src"]["kind"] == "file":
        slow += [("read", "image", STALL), ("read", "out:*", STALL)]
    for _ in range(3):
        fl = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            f = pick_op(rng, res.counts, slow)
            if f:
                f["ns"] = rng.choice((rng.randint(1, 200 * MS), rng.randint(1, 60 * SEC), rng.randint(1, 3600 * SEC), rng.randint(1, 10 ** 5 * SEC),
                                      60 * SEC, 3600 * SEC, 7200 * SEC + 30 * SEC))
                fl.append(f)
        yield one(with_fault(plan, {}, fl), why="slow device")


# -- remote ------------------------------------------------------------------------------------


def cases_C18(rng, tier):
    kind = rng.choice(("http", "http", "http", "https", "ssh", "ssh"))
    plan = w.copy_plan(rng, nobmap=rng.random() < 0.2, maxsize=2 * MiB, kinds=(kind,), dests=("blk", "blk", "part", "new"),
                       p_comp=0.4, explicit=0.5)
    plan["check"] = "C18"
    src = plan["src"]
    bm = plan.get("bmap")
    why, ok = "plain", True
    if kind != "ssh":
        src.pop("redirect", None)
        r = rng.random()
        if r < 0.3:
            src["delays"] = [{"req": rng.choice((1, 1, 1, 2, 0)), "ns": rng.choice((2, 9, 11, 15, 59, 61, 130, 700)) * SEC}]
            why = "slow server"
            if rng.random() < 0.3 and bm and bm.get("kind") == "http":
                bm["delays"] = [{"req": 1, "ns": rng.choice((11, 40)) * SEC}]
        elif r < 0.36:
            src["connect_delays"] = [{"conn": rng.choice((1, 1, 2)), "ns": rng.choice((5, 12, 50)) * SEC}]
            why = "slow to connect"
        elif r < 0.75:
            src["auth"] = [rng.choice(("joe", "a.b")), rng.choice(("secret", "p-w:d", "x"))]
            if src["auth"][1] == "p-w:d":
                src["auth"][1] = "p-wd"
            odd = rng.random() < 0.3
            if odd:
                src["auth"] = [rng.choice(("joe@corp", "j o", "joe")), rng.choice(("p@ss", "a:b/c", "50%", "%41", "x?y#z", "\u00fc", "[s]"))]
            how = rng.choice(("url", "url", "netrc", "netrc", "netrc-default", "url-over-netrc", "none", "wrong-url", "wrong-netrc"))
            if odd and "netrc" in how:
                how = "url"
            host = "img.example"
            if how in ("url", "url-over-netrc"):
                src["url_auth"] = src["auth"]
            if how == "url-over-netrc":
                src["netrc"] = "machine %s login other password wrong\n" % host
            elif how == "netrc":
                src["netrc"] = "machine elsewhere login n password m\nmachine %s login %s password %s\n" % ((host,) + tuple(src["auth"]))
            elif how == "netrc-default":
                src["netrc"] = "machine elsewhere login n password m\ndefault login %s password %s\n" % tuple(src["auth"])
            elif how == "wrong-url":
                src["url_auth"] = ["joe", "wrong"]
                ok = False
            elif how == "wrong-netrc":
                src["netrc"] = "machine %s login joe password wrong\n" % host
                ok = False
            elif how == "none":
                ok = False
                if rng.random() < 0.5:
                    src["netrc"] = "machine elsewhere login joe password secret\n"
            why = "credentials: " + how
            if bm and bm.get("kind") == "http" and bm["where"] != "explicit":
                # the map is found with the image's credentials
                if rng.random() < 0.5 and ok:
                    bm["auth"] = src["auth"]
        elif r < 0.85:
            t = rng.choice(("missing", "malformed", "malformed", "empty", "other", "permissive", "denied", "binary"))
            if t == "denied":
                src["netrc_deny"] = True
            if t == "permissive":
                src["netrc_mode"] = 0o644
            src["netrc"] = {"permissive": "machine img.example login a password b\n", "malformed": rng.choice(("machine\n", "garbage here\n", "machine x login\n", "macdef\n", "\"\n")), "empty": "",
                            "denied": "machine elsewhere login a password b\n", "binary": "machine x login \udcff\udcfe password b\n",
                            "other": "machine elsewhere login a password b\n", "missing": None}[t]
            if src["netrc"] is None:
                src.pop("netrc")
            why = "netrc " + t
        else:
            t = rng.choice(("refuse", "dns", "status", "status", "garbage", "close"))
            if t == "refuse":
                src["refuse"] = True
            elif t == "dns":
                src["dns_fail"] = True
            elif t == "status":
                src["status"] = rng.choice((400, 403, 404, 410, 500, 502, 503))
            else:
                src["status"] = t
            ok, why = False, t
    else:
        cfg = plan["ssh"] = {}
        r = rng.random()
        if r > 0.5 and rng.random() < 0.5:
            t = rng.random()
            if t < 0.5:
                cfg["form"] = rng.choice(("relative", "colon"))
            else:
                cfg["port"] = rng.choice((2222, 10022))
        if rng.random() < 0.25:
            src["name"] = rng.choice(("my image", "it's", "a&b", "im$age", "im*ge (1)", "x;y", "back\\slash", 'say "x"', "a|b", "new  one", "`x`", "~x"))
        if r < 0.35:
            cfg["password"] = rng.choice(("secret", "p4ss", "x", "p@ss", "a:b/c", "50%", "%41", "it's $x"))
            user = rng.choice(("joe", "root", "joe@corp"))
            if rng.random() < 0.5:
                cfg["user"] = user
            t = rng.choice(("ok", "ok", "wrong", "none"))
            if t == "ok":
                src["url_auth"] = [user, cfg["password"]]
            elif t == "wrong":
                src["url_auth"] = [user, "wrong"]
                ok = False
            else:
                src["url_auth"] = [user] if rng.random() < 0.5 else None
                if src["url_auth"] is None:
                    src.pop("url_auth")
                ok = False
            why = "ssh password " + t
            if t == "ok" and rng.random() < 0.12:
                plan["missing_programs"] = plan.get("missing_programs", []) + ["sshpass"]
                ok, why = False, "no sshpass"
        elif r < 0.5:
            cfg["key_denied"] = True
            ok, why = False, "ssh key denied"
        elif r < 0.6:
            cfg["unreachable"] = [1]
            ok, why = False, "ssh host unreachable"
        elif r < 0.7:
            cfg["delay"] = {"1": rng.choice((5, 30, 120)) * SEC, "3": rng.choice((1, 60)) * SEC}
            why = "ssh slow"
        elif r < 0.8:
            cfg["unreadable"] = ["@src"]
            ok, why = False, "ssh file unreadable"
        elif r < 0.9:
            plan["missing_programs"] = plan.get("missing_programs", []) + ["ssh"]
            ok, why = False, "no ssh"
        else:
            src["url_auth"] = [rng.choice(("joe", "root"))]
            cfg["user"] = src["url_auth"][0]
            why = "ssh user"
    plan["verdict"] = "ok" if ok else "fail"
    if ok and rng.random() < 0.35:
        # a server that pauses in the middle of the data
        long = rng.choice((2, 9, 11, 15, 31, 65, 130, 700)) * SEC
        if kind != "ssh":
            plan.setdefault("faults", []).append(
                {"site": "net", "kind": "stall", "req": 0, "sticky": True, "ns": long,
                 "path": "@bmap" if bm and bm.get("kind") == "http" and rng.random() < 0.3 else "@src",
                 "after": ["frac", rng.choice((0.0, rng.random(), rng.random(), 0.999))]})
        else:
            plan.setdefault("faults", []).append({"site": "proc", "prog": "ssh", "nth": 3, "kind": "stall", "ns": long,
                                                  "after": rng.randrange(1, 200000)})
        why += ", pausing for %d s" % (long // SEC)
    plan["why"] = why
    yield one(plan, why=why)


# -- the standalone script ---------------------------------------------------------------------


def cases_C19(rng, tier):
    plan = {"run": "script", "check": "C19"}
    plan["image"] = w.image(rng, maxsize=4 * MiB, huge_bs=True)
    plan["src"] = {"kind": "file", "comp": "none", "name": rng.choice(("disk.img", "my.disk.raw", "a b.img"))}
    w.bmap(rng, plan, explicit=0.0)
    plan["bmap"].update(where="strip", strip=1, kind="file")
    if rng.random() < 0.15:
        plan["src"]["relative"] = True
    w.dest(rng, plan, ("new", "new", "reg", "blk"))
    plan["dest"].pop("link", None)
    plan["sched"] = w.sched(rng)
    plan["knobs"] = w.knobs(rng)
    first = clone(plan)
    first["must"] = True
    (res,) = yield one(first, why="no fault")
    if res.reason != "exit" or res.rc != 0:
        return
    for _ in range(4):
        p = clone(plan)
        r = rng.random()
        if r < 0.12 and plan["dest"]["kind"] != "blk":
            p["knobs"]["disk_free"] = rng.randrange(max(1, sum(e - s for s, e in w_mapped(plan, False))))
        else:
            f = pick_op(rng, res.counts, [
                ("write", "dest", err("EIO", "ENOSPC", sticky=True)), ("fsync", "dest", err("EIO", "ENOSPC")),
                ("read", "image", err("EIO", "ESTALE") + MEM), ("read", "bmap", err("EIO")), ("open", "*", err("EACCES", "EMFILE")),
                ("lseek", "dest", err("EIO")), ("lseek", "image", err("EIO")), ("close", "dest", err("EIO")),
                ("write", "dest", err("EIO"))])
            if f is None:
                continue
            p["faults"] = [f]
        yield one(p, why="fault")


# -- every failure is explained ----------------------------------------------------------------


def cases_C24(rng, tier):
    src = rng.choice((cases_C03, cases_C04, cases_C04, cases_C05, cases_C05, cases_C12, cases_C14, cases_C18, cases_C18, cases_C21, cases_C22,
                      cases_C22, cases_C08, cases_C11, cases_C23))
    gen = src(rng, tier)
    send = None
    while True:
        try:
            sc = gen.send(send)
        except StopIteration:
            return
        for p in sc["phases"]:
            p["check"] = "C24"
        send = yield sc


CASES = {k[6:]: v for k, v in list(globals().items()) if k.startswith("cases_C")}
