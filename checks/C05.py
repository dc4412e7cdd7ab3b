"""C05: distributed indexing equals serial indexing under every schedule."""
import os
import numpy as np
import h5py
from core import *
from patcheck import hush
import dist
import same, patfiles as pf, importlib.util
_s = importlib.util.spec_from_file_location("C04src", os.path.join(os.path.dirname(__file__), "C04.py"))
C04 = importlib.util.module_from_spec(_s); _s.loader.exec_module(C04)

RULE = ("one case = one distributed run (pattern source, range, worker count, chunk size, schedule of task durations and ties) whose result is compared pattern by pattern with serial indexing and whose "
        "workers' inputs are checked to be each requested pattern exactly once; non-trivial = distinct completion order of the tasks and configuration")
ASSUMPTIONS = ["a chunk takes less than 8 s; slower chunks are what the dispatcher treats as stuck (C06)",
               "ray is replaced by a single-process stand-in with the same API: the workers' code is real, their completion order is chosen by the harness",
               "requested ranges start inside the scan (or are counted from its end)"]
PARTS = ["schedules", "files1", "files2", "arrays"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["schedule:" + k for k in dist.KINDS] + ["source:" + f for f in pf.ALL] + ["array3", "array2", "dataset", "dataset2", "patterns_object", "from_end", "past_end", "to_end", "inner",
                "more_workers_than_chunks", "one_chunk", "default_chunk", "indexer_given", "indexer_returned", "patterns_seen_by_workers", "file_object", "known_file"]
THREADS = 2


def workers(ctx, n):
    rng = ctx.rng
    nc = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 0, -1]))
    cs = int(rng.choice([1, 2, 3, max(1, n // 2), n, n + 3, 0, -1]))
    if cs <= 0:
        ctx.count("default_chunk")
    k = 1 if cs <= 0 else -(-n // cs)
    if k == 1:
        ctx.count("one_chunk")
    if nc > k:
        ctx.count("more_workers_than_chunks")
    return nc, cs


def judge(ctx, st, A, r, o, what, info):
    again = lambda p: C04._fresh(st).index_pats(p[None])[:2]
    same.compare(ctx, what.split(":")[0], what, (A[0][:, o], A[1][o]), r[:2], st["sy"], info, st["P"][o], again)
    dist.exactly_once(ctx, st["P"], o, dict(info, what=what))
    ctx.check(not dist.RT.up, "left-running", "the cluster is left running", info)
    ctx.case([info, dist.order_key()], sample=dict(info, events=len(dist.RT.log), virtual_seconds=round(dist.RT.elapsed(), 2)))


def part_schedules(ctx):
    dist.setup()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(2, 8)):
        st = C04.setting(ctx, it, n=int(rng.integers(5, 12)))
        n = st["n"]
        with quiet(), ctx.must("indexing an array", st["info"]):
            A = C04.reference(st)
        for q in range(ctx.n(3, 10)):
            for kind in dist.KINDS:
                nc, cs = workers(ctx, n)
                a, b, o = C04.ranges(ctx, n, 1)[0]
                info = dict(st["info"], it=it, q=q, schedule=kind, ncpu=nc, chunksize=cs, start=a, count=b)
                P = st["P"].copy()
                with quiet():
                    r = dist.run(ctx, dist.schedule(rng, kind), lambda: ebsd_index.index_pats_distributed(P, patstart=a, npats=b, ncpu=nc, chunksize=cs, **st["kw"]),
                                 "distributed indexing of an array", info)
                    ctx.count("schedule:" + kind)
                    judge(ctx, st, A, r, o, "schedule: " + kind, info)
                    ctx.check(np.array_equal(P, st["P"]), "changed", "the patterns passed in were changed", info)


def source_files(ctx, fmts):
    dist.setup()
    from pyebsdindex import ebsd_index, ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(1, 6)):
        for fmt in fmts:
            st = C04.setting(ctx, it, fmt)
            s = dict(pats=st["P"], nr=st["nr"], nc=st["nc"], xs=.5, ys=.5, hex=0)
            info0 = dict(st["info"], fmt=fmt, it=it)
            path = pf.make(fmt, ctx.scratch, s, rng, name="f%d" % it)
            first = path[0] if isinstance(path, list) else path
            with quiet():
                with ctx.must("indexing an array", info0):
                    A = C04.reference(st)
                for q, (a, b, o) in enumerate(C04.ranges(ctx, st["n"], ctx.n(4, 8))):
                    nc, cs = workers(ctx, st["n"])
                    kind = dist.KINDS[int(rng.integers(len(dist.KINDS)))]
                    info = dict(info0, q=q, schedule=kind, ncpu=nc, chunksize=cs, start=a, count=b)
                    k = dict(patstart=a, npats=b, ncpu=nc, chunksize=cs)
                    e = q % 4
                    what = "distributed indexing of a %s file" % fmt

                    def call():
                        if e == 0:
                            return ebsd_index.index_pats_distributed(filename=path, return_indexer_obj=True, **k, **st["kw"])
                        if e == 1:
                            ctx.count("file_object")
                            return ebsd_index.index_pats_distributed(filename=ep.get_pattern_file_obj(path), **k, **st["kw"])
                        if e == 2:
                            ctx.count("indexer_given")
                            return ebsd_index.index_pats_distributed(filename=path, ebsd_indexer_obj=C04._fresh(st), **k)
                        ctx.count("known_file")
                        ix = ebsd_index.EBSDIndexer(filename=path, **st["kw"])
                        return ebsd_index.index_pats_distributed(ebsd_indexer_obj=ix, **k)
                    with quiet():
                        r = dist.run(ctx, dist.schedule(rng, kind), call, what, dict(info, entry=e))
                        ctx.count("source:" + fmt)
                        judge(ctx, st, A, r, o, "file: %s entry %d" % (fmt, e), info)
                        if e == 0:
                            ctx.count("indexer_returned")
                            with ctx.must("serial indexing with the returned indexer", info), hush():
                                r2 = r[2].index_pats(patstart=a, npats=b)[:2]
                            same.compare(ctx, "returned", "the returned indexer", (A[0][:, o], A[1][o]), r2, st["sy"], info, st["P"][o], lambda p: C04._fresh(st).index_pats(p[None])[:2])
            os.unlink(first)


def part_files1(ctx):
    source_files(ctx, pf.ALL[::2])


def part_files2(ctx):
    source_files(ctx, pf.ALL[1::2])


def part_arrays(ctx):
    """array kinds, one indexer through a history of distributed runs of different sources and sizes"""
    dist.setup()
    from pyebsdindex import ebsd_index, ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(2, 12)):
        base = C04.setting(ctx, it, n=int(rng.integers(4, 10)))
        vendor = base["kw"]["vendor"]
        ix = None
        path = pf.make("up2v1", ctx.scratch, dict(pats=np.clip(base["P"], 0, 65535).astype(np.uint16), nr=1, nc=base["n"], xs=1., ys=1., hex=0), rng, name="a%d" % it)
        h5 = h5py.File(os.path.join(ctx.scratch, "d%d.h5" % it), "w")
        D = h5.create_dataset("P", data=base["P"]); D2 = h5.create_dataset("Q", data=base["P"][1])
        U = dict(base, P=np.clip(base["P"], 0, 65535).astype(np.uint16).astype(np.float32))
        small = dict(base, P=base["P"][:, 2:-2, 1:-1].copy(), shape=(base["shape"][0] - 4, base["shape"][1] - 2))
        n = base["n"]
        ref = {}
        for q in range(ctx.n(8, 16)):
            src = ["array3", "dataset", "patterns_object", "array2", "other_size", "file", "dataset2", "array3"][int(rng.integers(8)) if q > 7 else q]
            st = {"file": U, "other_size": small}.get(src, base)
            a, b, o = C04.ranges(ctx, n, 1)[0]
            if src in ("array2", "dataset2"):
                a, b, o = 0, [-1, 1][q % 2], np.array([1])
            nc, cs = workers(ctx, n)
            kind = dist.KINDS[int(rng.integers(len(dist.KINDS)))]
            info = dict(st["info"], it=it, q=q, source=src, schedule=kind, ncpu=nc, chunksize=cs, start=a, count=b, indexer=ix is not None)
            key = id(st)
            with quiet():
                if key not in ref:
                    with ctx.must("indexing an array", info):
                        ref[key] = C04.reference(st)
                f = None
                if src == "patterns_object":
                    with ctx.must("reading patterns", info, also=(TypeError, ValueError)):
                        f = ep.get_pattern_file_obj(path)
                        pats = ep.EBSDPatterns(); pats.patterns = base["P"].astype(np.float32)
                X = dict(array3=base["P"], dataset=D, array2=base["P"][1], dataset2=D2, other_size=small["P"], file=None, patterns_object=None)[src]
                if src == "patterns_object":
                    X = pats

                def call():
                    k = dict(patstart=a, npats=b, ncpu=nc, chunksize=cs, return_indexer_obj=True)
                    if src == "file":
                        k["filename"] = path
                    if ix is not None:
                        return ebsd_index.index_pats_distributed(X, ebsd_indexer_obj=ix, **k)
                    return ebsd_index.index_pats_distributed(X, **k, **st["kw"])
                r = dist.run(ctx, dist.schedule(rng, kind), call, "distributed indexing of " + src, info)
                if not ctx.check(r is not None and len(r) == 3, "nothing", "%s: nothing returned" % src, info):
                    continue
                ctx.count(src)
                judge(ctx, st, ref[key], r, o, src + ": entry %d" % q, info)
                if q % 4 != 3:
                    ix = r[2]
        h5.close()
