"""C13: NLPAR output does not depend on chunking, threads or earlier use of the object; the input stays as it is."""
import os
import shutil
import numpy as np
import nlref
import nlcheck as nl
import patfiles as pf
from patcheck import hush
from core import import_repo, quiet

RULE = "one case = one NLPAR run compared with the run of the same scan in one chunk by a new object, and with a double precision model; input bytes compared before and after"
ASSUMPTIONS = ["every row of a scan holds a pixel at the largest value of the scan, or saturation protection is off: the saturation level is taken from the patterns of a chunk",
               "without background subtraction, which is fitted to each chunk"]
PARTS = ["chunks", "chunks2", "threads", "history", "files"]
MUST_OBSERVE = ["chunked", "one_row_chunks", "chunk_smaller_than_radius", "thread_counts", "second_file", "other_size", "same_name_refused", "default_name", "input_files"] + ["format:" + f for f in nl.FMTS]
WARM = ["nlavg", "nlsigma"]
THREADS = 8
WIDTH = 4


def same(ctx, got, ref, sig, what, info):
    if ctx.check(got.shape == ref.shape, "shape", "%s: %s patterns, expected %s" % (what, got.shape, ref.shape), info):
        d = np.abs(got.astype(int) - ref.astype(int))
        return ctx.check(d.max() <= 1 and (d > 0).mean() < .02, sig, "%s: %d of %d patterns differ (by up to %d), in rows %s" % (
            what, (d > 1).any((1, 2)).sum() or (d > 0).any((1, 2)).sum(), len(d), d.max(), np.unique(np.nonzero((d > 0).any((1, 2)))[0] // info["nc"])[:8]), info)
    return False


def model(ctx, got, s, o, lam, sr, sat, info, sg=None):
    m = nl.automask(*s["pats"].shape[1:])
    sg = nlref.sigma(s["pats"], s["nr"], s["nc"], m, sat) if sg is None else sg
    want, lo, hi = nlref.average(s["pats"], s["nr"], s["nc"], sg, lam, sr, 0, m, sat)
    bad = (np.abs(got - want) > nl.tolerance(lo, hi)).any((1, 2))
    ctx.check(not bad.any(), "average", "%d of %d patterns differ from the weighted average" % (bad.sum(), len(bad)), info)


def run_chunks(ctx, count):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(count):
        sat = bool(rng.random() < .6)
        s = nl.scan(rng, "up2" if rng.random() < .6 else "up1", nr=int(rng.integers(2, 16)), nc=int(rng.integers(1, 6)), level=sat)
        sr = int(rng.integers(1, 5))
        lam = float(rng.choice([.6, .9, 1.5]))
        info = nl.info_of(s, it=it, sr=sr, lam=lam, saturation=sat)
        r = nl.Run(ctx, s, rng, "c%d" % it)
        with quiet(), ctx.must("NLPAR", info, also=(TypeError, ValueError)):
            o = r.obj(NLPAR, lam=lam, searchradius=sr)
            ref = r.nlpar(o, saturation_protect=sat).copy()
            sref = np.array(o.sigma)
            model(ctx, ref, s, o, lam, sr, sat, info)
            for ch in sorted(set([1, int(rng.integers(1, s["nr"] + 1)), max(s["nr"] - 1, 1), s["nr"] + 3, sr])):
                d = dict(info, chunk=ch)
                o = r.obj(NLPAR, lam=lam, searchradius=sr)
                given = rng.random() < .3
                if given:
                    o.sigma = sref.copy()
                got = r.nlpar(o, chunksize=ch, saturation_protect=sat)
                same(ctx, got, ref, "chunks", "in chunks of %d rows" % ch, d)
                ctx.check(np.allclose(o.sigma, sref, rtol=1e-5), "chunk-sigma", "noise levels depend on the chunk size %d" % ch, d)
                ctx.count("chunked"); ctx.case([d, int(s["pats"].sum())], sample=d)
                ctx.count("one_row_chunks", ch == 1); ctx.count("chunk_smaller_than_radius", ch < sr)
        ctx.check(r.unchanged(), "input-changed", "NLPAR changed its input file", info)
        r.clean()


def part_chunks(ctx):
    run_chunks(ctx, ctx.n(40, 500))


def part_chunks2(ctx):
    run_chunks(ctx, ctx.n(40, 500))


def part_threads(ctx):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(ctx.n(12, 150)):
        s = nl.scan(rng, "up2", nr=int(rng.integers(3, 10)), nc=int(rng.integers(6, 20)))
        sr = int(rng.integers(1, 4))
        info = nl.info_of(s, it=it, sr=sr)
        off = float(rng.choice([0, .5]))
        r = nl.Run(ctx, s, rng, "t%d" % it)
        with quiet(), ctx.must("NLPAR", info, also=(TypeError, ValueError)):
            ref = None
            for k in [1, 2, 3, 5, 8, 8, 8]:
                nl.threads(k)
                o = r.obj(NLPAR, lam=.9, searchradius=sr, diff_offset=off)
                got = r.nlpar(o, chunksize=int(rng.integers(0, 5)))
                sg = np.array(o.sigma)
                if ref is None:
                    ref, sref = got.copy(), sg
                same(ctx, got, ref, "threads", "with %d threads" % k, info)
                ctx.check(np.allclose(sg, sref, rtol=1e-5), "thread-sigma", "noise levels depend on the number of threads (%d)" % k, info)
                ctx.count("thread_counts"); ctx.case([info, k, int(s["pats"].sum())], sample=dict(info, threads=k))
        r.clean()
    nl.threads(8)


def part_history(ctx):
    """one object used for several files, radii and lambdas"""
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(ctx.n(12, 150)):
        o, hist, prev = None, [], None
        for step in range(4):
            keep = prev is not None and rng.random() < .3
            if not keep:
                shape = (int(rng.integers(4, 12)), int(rng.integers(4, 12))) if prev is None or rng.random() < .5 else prev["pats"].shape[1:]
                s = nl.scan(rng, str(rng.choice(["up1", "up2", "oh5", "ebsp2"])), shape=shape)
                r = nl.Run(ctx, s, rng, "h%d_%d" % (it, step))
            sr, lam = int(rng.integers(1, 4)), float(rng.choice([.6, .9, 1.5]))
            hist.append(dict(nl.info_of(s), sr=sr, lam=lam, again=bool(keep)))
            info = dict(nl.info_of(s), it=it, history=hist)
            with quiet(), ctx.must("NLPAR", info, also=(TypeError, ValueError)):
                if o is None:
                    o = r.obj(NLPAR)
                chunk = int(rng.integers(0, 4))
                got = r.nlpar(o, filename=r.path, searchradius=sr, lam=lam, reset_sigma=bool(not keep or rng.random() < .5), chunksize=chunk).copy()
                f = r.obj(NLPAR, lam=lam, searchradius=sr)
                ref = r.nlpar(f)
                same(ctx, got, ref, "history", "by an object used before", info)
                ctx.count("second_file", step > 0)
                ctx.count("other_size", step > 0 and prev is not None and prev["pats"].shape != s["pats"].shape)
                ctx.case([info, int(s["pats"].sum())], sample=hist[-1])
            prev = s


def part_files(ctx):
    """every format: the output is a file of the same kind, the input is left alone"""
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(3, 30)):
        for fmt in nl.FMTS:
            s = nl.scan(rng, fmt)
            sr = int(rng.integers(1, 4))
            info = nl.info_of(s, it=it, sr=sr)
            r = nl.Run(ctx, s, rng, "f%d_%s" % (it, fmt))
            with quiet(), ctx.must("NLPAR of %s" % fmt, info, also=(TypeError, ValueError)):
                o = r.obj(NLPAR, lam=.9, searchradius=sr)
                if rng.random() < .5:
                    dst = os.path.join(ctx.scratch, "out%d" % it, "x" + pf.ext(fmt))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    got = r.nlpar(o, fileout=dst)
                    ctx.check(os.path.realpath(r.made[-1]) == os.path.realpath(dst), "out-name", "patterns written to %s, asked for %s" % (r.made[-1], dst), info)
                else:
                    got = r.nlpar(o)
                    ctx.check(os.path.dirname(os.path.realpath(r.made[-1])) == os.path.dirname(os.path.realpath(r.file)) and os.path.realpath(r.made[-1]) != os.path.realpath(r.file),
                              "default-name", "default output %s for %s" % (r.made[-1], r.file), info)
                    ctx.count("default_name")
                model(ctx, got, s, o, .9, sr, True, info)
                with hush():
                    q = ep.get_pattern_file_obj([r.made[-1], r.path[1]] if isinstance(r.path, list) else r.made[-1])
                    p = ep.get_pattern_file_obj(r.path)
                for k in ("patternW", "patternH", "nPatterns", "nCols", "nRows", "xStep", "yStep"):
                    ctx.check(getattr(q, k) == getattr(p, k), "out-head:" + k, "output has %s %s, input %s" % (k, getattr(q, k), getattr(p, k)), info)
                ctx.count("format:" + fmt); ctx.case([info, int(s["pats"].sum())], sample=info)
                ctx.check(r.unchanged(), "input-changed", "NLPAR changed its input file", info)
                ctx.count("input_files")
                # onto itself: refused, or at least harmless to the input
                for name in (r.file, os.path.join(os.path.dirname(r.file), ".", os.path.basename(r.file))):
                    try:
                        with hush():
                            r.obj(NLPAR, lam=.9, searchradius=sr).calcnlpar(fileout=name, verbose=0)
                    except (ValueError, shutil.SameFileError, OSError):
                        ctx.count("same_name_refused")
                    ctx.check(r.unchanged(), "input-overwritten", "NLPAR with its input as output changed the input", info)
            r.clean()
