"""C04: a requested range is indexed exactly, from any pattern source."""
import os
import numpy as np
import h5py
from core import *
import synth, same, patfiles as pf, importlib.util
from patcheck import hush
_s = importlib.util.spec_from_file_location("C02zoo", os.path.join(os.path.dirname(__file__), "C02.py"))
C02 = importlib.util.module_from_spec(_s); _s.loader.exec_module(C02)

RULE = ("one case = one call with a source (file format or array kind), an entry point and a requested range, compared pattern by pattern with indexing the selected patterns "
        "from an in-memory array by a fresh indexer; non-trivial = distinct source/entry/range/patterns")
ASSUMPTIONS = ["requested ranges start inside the scan (or are counted from its end)", "zero or a negative count means: to the end"]
PARTS = ["files1", "files2", "arrays", "switch"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["source:" + f for f in pf.ALL] + ["array3", "array2", "dataset", "dataset2", "patterns_object", "from_end", "past_end", "to_end", "one_pattern", "inner", "background", "no_size_given", "own_file", "method_array"]
THREADS = 2


def setting(ctx, it, fmt=None, n=None):
    rng = ctx.rng
    ks = [["FCC"], ["BCC", "FCC"], ["FCC"], [C02.OTHER[0], "BCC"]][it % 4]
    shape = [(60, 60), (60, 80), (72, 48), (48, 48)][int(rng.integers(4))]
    H, W = shape
    geom = (W * rng.uniform(.4, .6), H * rng.uniform(.4, .7), min(shape) * rng.uniform(.5, .9))
    ven = synth.VENDORS[int(rng.integers(5))]
    phs, pl = [], []
    for k in ks:
        p = synth.generic(k) if isinstance(k, str) else synth.Phase(*k)
        pl.append(k if isinstance(k, str) else p.indexer()); phs.append(p)
    nr, nc = int(rng.integers(1, 5)), int(rng.integers(2, 6))
    if n:
        nr, nc = 1, n
    P = C02.zoo(rng, shape, geom, phs, nr * nc)[0].astype(float)
    dt = np.dtype(rng.choice(pf.dtypes(fmt))) if fmt else np.dtype([np.uint8, np.uint16, np.float32][int(rng.integers(3))])
    P = P / max(P.max(), 1) * [250, 60000][dt != np.uint8] if dt.kind == "u" else P
    P = np.clip(P, 0, 65535).astype(dt)
    kw = dict(phaselist=pl, vendor=ven, PC=synth.vendor_pc(ven, shape, *geom), sampleTilt=70., camElev=float(rng.uniform(0, 10)), nRho=60, nTheta=90,
              rhoMaskFrac=.12, **[dict(tSigma=None, rSigma=None), dict(tSigma=1., rSigma=1.2)][it % 2])
    return dict(P=P, kw=kw, shape=shape, phs=phs, sy=same.symmetries(phs), nr=nr, nc=nc, n=nr * nc,
                info=dict(phases=str(ks), shape=shape, vendor=ven, rows=nr, cols=nc, dtype=str(dt)))


def ranges(ctx, n, m):
    """(patstart, npats, indices meant)"""
    rng = ctx.rng
    out = []
    for _ in range(m):
        k = int(rng.integers(7))
        s = int(rng.integers(0, n)); c = int(rng.integers(1, n - s + 1))
        a, b = s, c
        if k == 0:
            b = [-1, 0][int(rng.integers(2))]; c = n - s; ctx.count("to_end")
        elif k == 1:
            b = n - s + int(rng.integers(1, 50)); c = n - s; ctx.count("past_end")
        elif k == 2:
            a = s - n; ctx.count("from_end")
        elif k == 3:
            a = s - n; b = [-1, n + 3][int(rng.integers(2))]; c = n - s; ctx.count("from_end")
        elif k == 4:
            a, b, s, c = 0, -1, 0, n
        elif k == 5:
            b = c = 1; ctx.count("one_pattern")
        if s > 0 and c < n - s:
            ctx.count("inner")
        out.append((a, b, np.arange(s, s + c)))
    return out


def reference(st):
    from pyebsdindex import ebsd_index
    ix = ebsd_index.EBSDIndexer(patDim=st["shape"], **st["kw"])
    return ix.index_pats(st["P"].copy())[:2]


def judge(ctx, st, A, r, o, what, info, n_out=None):
    again = lambda p: _fresh(st).index_pats(p[None])[:2]
    same.compare(ctx, what.split(" ")[0], what, (A[0][:, o], A[1][o]), r, st["sy"], info, st["P"][o], again)
    if n_out is not None:
        ctx.check((int(n_out[0]), int(n_out[1])) == (int(o[0]), len(o)), "range", "%s: reports range %s, expected (%d, %d)" % (what, n_out, o[0], len(o)), info)
    ctx.case([info, st["P"][o[0]].tobytes()[:200].hex()], sample=info)


def _fresh(st):
    from pyebsdindex import ebsd_index
    return ebsd_index.EBSDIndexer(patDim=st["shape"], **st["kw"])


def files(ctx, fmts):
    import_repo()
    from pyebsdindex import ebsd_index, ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(2, 14)):
        for fmt in fmts:
            st = setting(ctx, it, fmt)
            s = dict(pats=st["P"], nr=st["nr"], nc=st["nc"], xs=.5, ys=.5, hex=0)
            info0 = dict(st["info"], fmt=fmt, it=it)
            path = pf.make(fmt, ctx.scratch, s, rng, name="f%d" % it)
            first = path[0] if isinstance(path, list) else path
            before = open(first, "rb").read()
            with quiet():
                with ctx.must("indexing an array", info0):
                    A = reference(st)
                ix = None
                for a, b, o in ranges(ctx, st["n"], ctx.n(6, 9)):
                    e = int(rng.integers(6))
                    info = dict(info0, start=a, count=b, entry=e)
                    with ctx.must("indexing a range of a %s file" % fmt, info, also=(TypeError, ValueError)), hush():
                        ctx.count("source:" + fmt)
                        cs = int(rng.integers(1, st["n"] + 2))
                        if e == 0:
                            r = ebsd_index.index_pats(filename=path, patstart=a, npats=b, chunksize=cs, **st["kw"]); N = None
                        elif e == 1:
                            f = ep.get_pattern_file_obj(path)
                            r = ebsd_index.index_pats(filename=f, patstart=a, npats=b, chunksize=cs, **st["kw"]); N = None
                        elif e == 2:
                            ix = ebsd_index.EBSDIndexer(filename=path, **st["kw"])
                            *r, N0, N1 = ix.index_pats(patstart=a, npats=b, chunksize=cs); N = (N0, N1)
                        elif e == 3:
                            ix = ebsd_index.EBSDIndexer(filename=ep.get_pattern_file_obj(path), **st["kw"])
                            *r, N0, N1 = ix.index_pats(patstart=a, npats=b, chunksize=cs); N = (N0, N1)
                        elif e == 4:     # an indexer that was made without a file
                            j = ix or _fresh(st)
                            r = ebsd_index.index_pats(filename=path, ebsd_indexer_obj=j, patstart=a, npats=b, chunksize=cs); N = None
                        else:            # an indexer that knows its file
                            if ix is None:
                                ix = _fresh(st); ix.update_file(path)
                            r = ebsd_index.index_pats(ebsd_indexer_obj=ix, patstart=a, npats=b, chunksize=cs); N = None
                    judge(ctx, st, A, tuple(r), o, "file: %s, entry %d, start %d, count %d" % (fmt, e, a, b), info, N)
                ctx.check(open(first, "rb").read() == before, "changed", "indexing changed the pattern file", info0)
            os.unlink(first)


def part_files1(ctx):
    files(ctx, pf.ALL[::2])


def part_files2(ctx):
    files(ctx, pf.ALL[1::2])


def part_arrays(ctx):
    import_repo()
    from pyebsdindex import ebsd_index, ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(12, 120)):
        st = setting(ctx, it)
        P, n = st["P"], st["n"]
        with quiet():
            with ctx.must("indexing an array", st["info"]):
                A = reference(st)
            h5 = h5py.File(os.path.join(ctx.scratch, "d.h5"), "w")
            ds = h5.create_dataset("p", data=P); ds2 = h5.create_dataset("q", data=P[0])
            with hush():
                o5 = pf.make("h5plain", ctx.scratch, dict(pats=P, nr=st["nr"], nc=st["nc"], xs=1., ys=1., hex=0), None, name="o") if P.dtype.kind == "u" else None
            for a, b, o in ranges(ctx, n, ctx.n(8, 12)):
                k = int(rng.integers(5))
                X = P.copy()
                if k == 0:
                    src, nm = X, "array3"
                elif k == 1:
                    src, nm = ds, "dataset"
                elif k == 2:
                    src = ep.EBSDPatterns()
                    src.patterns = X; src.patternH, src.patternW = st["shape"]; src.nPatterns = n
                    nm = "patterns_object"
                elif k == 3:
                    q = int(rng.integers(n)); src, nm, o = X[q], "array2", np.array([q]); a, b = [(0, -1), (0, 1), (-1, 1), (0, 5)][int(rng.integers(4))]
                else:
                    src, nm, o = ds2, "dataset2", np.array([0]); a, b = [(0, -1), (0, 1), (-1, 1), (0, 5)][int(rng.integers(4))]
                e = int(rng.integers(3))
                info = dict(st["info"], source=nm, start=a, count=b, entry=e, it=it)
                cs = int(rng.integers(1, n + 2))
                N = None
                with ctx.must("indexing a range of an array", info, also=(TypeError, ValueError)), hush():
                    ctx.count(nm)
                    if e == 0:
                        r = ebsd_index.index_pats(src, patstart=a, npats=b, chunksize=cs, **st["kw"])
                    elif e == 1 or nm in ("patterns_object", "dataset2"):
                        r = ebsd_index.index_pats(src, patstart=a, npats=b, chunksize=cs, ebsd_indexer_obj=_fresh(st), return_indexer_obj=True)[:2]
                    else:
                        *r, N0, N1 = _fresh(st).index_pats(src, patstart=a, npats=b, chunksize=cs); N = (int(N0), int(N1))
                        N = N if nm not in ("array2",) else (int(o[0]), N[1])
                judge(ctx, st, A, tuple(r), o, "array: %s, entry %d, start %d, count %d" % (nm, e, a, b), info, N)
                ctx.check(np.array_equal(X, P), "changed", "indexing changed the caller's patterns", info)
            ctx.check(np.array_equal(ds[()], P), "changed", "indexing changed the caller's data set", st["info"])
            h5.close()


def part_switch(ctx):
    """one indexer, sources of different pattern sizes and kinds one after the other; a background collected from the source"""
    import_repo()
    from pyebsdindex import ebsd_index, ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(5, 50)):
        sts = []
        for j in range(3):
            fmt = [None, "up1", "oh5", "ebsp4", "h5oina", "up2"][int(rng.integers(6))] if j else "up2"
            s = setting(ctx, it, fmt)
            s["fmt"] = fmt
            if j:      # same indexer settings for all
                s["kw"] = sts[0]["kw"]; s["phs"] = sts[0]["phs"]; s["sy"] = sts[0]["sy"]
            sts.append(s)
        with quiet():
            for j, s in enumerate(sts):
                with ctx.must("indexing an array", s["info"]):
                    s["A"] = reference(s)
                if s["fmt"]:
                    s["path"] = pf.make(s["fmt"], ctx.scratch, dict(pats=s["P"], nr=s["nr"], nc=s["nc"], xs=1., ys=1., hex=0), rng, name="w%d" % j)
            own = None
            bare = it % 2 == 1     # an indexer that was given no pattern size
            ix = ebsd_index.EBSDIndexer(**sts[0]["kw"]) if bare else _fresh(sts[0])
            ctx.count("no_size_given", bare)
            for q in range(ctx.n(10, 14)):
                how = int(rng.integers(4))
                s = sts[int(rng.integers(3))]
                if how == 3 and own is not None:
                    s = own
                a, b, o = ranges(ctx, s["n"], 1)[0]
                info = dict(s["info"], fmt=s["fmt"], start=a, count=b, step=q, it=it, how=how, bare=bare)
                with ctx.must("one indexer on several sources", info, also=(TypeError, ValueError)), hush():
                    if how == 3 and own is not None:      # the file it was given before, whatever came in between
                        r = ix.index_pats(patstart=a, npats=b)[:2]; ctx.count("own_file")
                    elif how == 2 or how == 3 and s["fmt"] is None:
                        r = ix.index_pats(s["P"].copy(), patstart=a, npats=b)[:2]; ctx.count("method_array")
                    elif how == 3:
                        own = s
                        ix.update_file(s["path"])
                        r = ix.index_pats(patstart=a, npats=b)[:2]
                    elif s["fmt"] is None or how == 0:
                        own = None
                        r = ebsd_index.index_pats(s["P"].copy(), ebsd_indexer_obj=ix, patstart=a, npats=b)
                    else:
                        own = s
                        r = ebsd_index.index_pats(filename=s["path"] if rng.random() < .5 else ep.get_pattern_file_obj(s["path"]), ebsd_indexer_obj=ix, patstart=a, npats=b)
                judge(ctx, s, s["A"], tuple(r), o, "switch: step %d, start %d, count %d" % (q, a, b), info)
            # background from the source: the same from a file as from the array it holds
            s = sts[0]
            P = s["P"]
            for a, b, o in ranges(ctx, s["n"], 2):
                info = dict(s["info"], background=True, start=a, count=b)
                with ctx.must("background from the source", info, also=(TypeError, ValueError)), hush():
                    *x, i0 = ebsd_index.index_pats(P.copy(), backgroundSub=True, patstart=a, npats=b, return_indexer_obj=True, **s["kw"])
                    *y, i1 = ebsd_index.index_pats(filename=s["path"], backgroundSub=True, patstart=a, npats=b, return_indexer_obj=True, **s["kw"])
                    ctx.count("background")
                # the background is a fitted surface: the fit may have several solutions that rounding decides between
                fits = []

                def fit(q):
                    f = _fresh(s)
                    with hush():
                        f.bandDetectPlan.collect_background(patsIn=P * (1 + (3e-7 * np.random.default_rng(q).normal(size=P.shape) if q else 0)))
                    return f
                fits = [np.asarray(fit(q).bandDetectPlan.backgroundsub, float) for q in range(5)]
                sc = np.ptp(fits[0]) + 1e-3
                spread = max(np.abs(q - fits[0]).max() for q in fits) / sc
                B = [np.asarray(i.bandDetectPlan.backgroundsub, float) for i in (i0, i1)]
                if spread > 1e-4 or np.ptp(P) == 0:
                    ctx.count("ill_conditioned"); continue
                if not ctx.check(np.abs(B[0] - B[1]).max() < 3e-3 * sc, "background", "background collected from a file differs by %g from that of the array it holds" % np.abs(B[0] - B[1]).max(), info):
                    continue
                k = [0]

                def bk(p):       # the same background up to rounding, another pattern
                    k[0] += 1
                    return fit(k[0] - 1).index_pats(p[None])[:2]
                same.compare(ctx, "background", "background from file or array", x, y, s["sy"], info, P[o], bk)
                ctx.case(["bg", info, it])
