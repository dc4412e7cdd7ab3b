"""Helpers shared by the pattern-file checks."""
import contextlib
import io
import warnings
import numpy as np
import patfiles as pf


@contextlib.contextmanager
def hush():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def dims(rng, ctx):
    k = rng.random()
    nr, nc = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    if k < .15:
        nr = 1; ctx.count("one_row")
    elif k < .3:
        nc = 1; ctx.count("one_column")
    elif k < .35:
        nr = nc = 1
    H, W = int(rng.integers(2, 24)), int(rng.integers(2, 24))
    if H > W:
        ctx.count("tall")
    if W > H:
        ctx.count("wide")
    return nr, nc, (H, W)


def verify(ctx, fmt, o, s, info, what):
    """an open pattern file object against the scan"""
    n, H, W = s["pats"].shape
    ctx.check((int(o.patternH), int(o.patternW)) == (H, W), "size:" + fmt, "%s: pattern size %s x %s, file holds %d x %d" % (what, o.patternH, o.patternW, H, W), info)
    ctx.check(int(o.nPatterns) == n, "count:" + fmt, "%s: %s patterns, file holds %d" % (what, o.nPatterns, n), info)
    if pf.has_scan(fmt):
        ctx.check((int(o.nRows), int(o.nCols)) == (s["nr"], s["nc"]), "scan:" + fmt, "%s: scan of %s rows, %s columns; file holds %d, %d" % (what, o.nRows, o.nCols, s["nr"], s["nc"]), info)
    else:
        ctx.check(int(o.nRows) * int(o.nCols) == n, "scan:" + fmt, "%s: %s rows x %s columns for %d patterns" % (what, o.nRows, o.nCols, n), info)
    if pf.has_steps(fmt):
        # a file that gives positions instead of steps says nothing about a direction with one point
        if s["nc"] > 1 or not fmt.startswith("ebsp"):
            ctx.check(abs(float(o.xStep) - s["xs"]) < 1e-5 * s["xs"], "step:" + fmt, "%s: x step %s, file says %s" % (what, o.xStep, s["xs"]), info)
        if s["nr"] > 1 or not fmt.startswith("ebsp"):
            ctx.check(abs(float(o.yStep) - s["ys"]) < 1e-5 * s["ys"], "step:" + fmt, "%s: y step %s, file says %s" % (what, o.yStep, s["ys"]), info)


def same(ctx, fmt, got, want, info, what, kind=None):
    kind = kind or want.dtype
    ok = ctx.check(got.shape == want.shape, "shape:" + fmt, "%s: %s patterns, expected %s" % (what, got.shape, want.shape), info)
    ok = ok and ctx.check(got.dtype == kind, "dtype:" + fmt, "%s: %s, stored as %s" % (what, got.dtype, kind), info)
    if ok:
        d = (got.astype(np.int64) != want.astype(np.int64))
        ctx.check(not d.any(), "pixels:" + fmt, "%s: %d of %d pixels differ, in patterns %s" % (what, d.sum(), d.size, np.nonzero(d.any((1, 2)))[0][:8]), info)


def new_file(ep, fmt, path, s):
    """a pattern file object describing a scan that is not on disk yet"""
    o = {"u": ep.UPFile, "e": ep.EBSPFile, "t": ep.TFPatFile}[fmt[0]](path)
    n, H, W = s["pats"].shape
    o.patternW, o.patternH, o.nCols, o.nRows, o.nPatterns = W, H, s["nc"], s["nr"], n
    o.xStep, o.yStep = s["xs"], s["ys"]
    o.filedatatype = s["pats"].dtype.type
    if fmt[0] == "u":
        o.version = 1 if fmt.endswith("v1") else 3
        o.hexflag = s["hex"]
    if fmt[0] == "e":
        o.version = int(fmt[4])
        o.hasxypos = not fmt.endswith("nopos")
    if fmt[0] == "t":
        o.version = 1
        o.bitdepth = 16
        o.hasbackground = fmt.endswith("back")
        if o.hasbackground:
            s["back"] = (np.arange(H * W).reshape(H, W) * 11 + 5) % 4000
            o.background = s["back"].astype(np.uint16)
        o.filePos = 25 + (2 * H * W if o.hasbackground else 0)
    return o
