"""C11: partial reads and writes touch exactly the requested patterns; copies; conversion to integers.

Oracle: files are made and parsed by vlib/patfiles.py; every byte of a written file is compared with a byte-level model."""
import contextlib
import hashlib
import io
import os
import warnings
import numpy as np
import patfiles as pf
from core import import_repo, quiet
from patcheck import hush, dims, new_file, same

RULE = "one case = one partial read (compared with the patterns of the file), partial write (every byte of the file compared with a model), copy or conversion to integers"
ASSUMPTIONS = ["a range is clipped at the end of the scan, a block at its right and bottom edges; a count of -1 means all the rest, 0 means 1",
               "the padding bytes between the header and the patterns belong to the file"]
MUST_OBSERVE = ["read_range", "read_block", "clipped", "write_range", "write_block", "hdf_write", "copy", "empty_copy", "scaled", "block_scaled", "overlap", "named_copy", "type_guessed"]
PARTS = ["reads", "writes", "copies", "scaling"]


def a_range(rng, n):
    k = rng.random()
    a = int(rng.integers(0, n))
    if k < .15:
        return a, -1, np.arange(a, n)
    if k < .25:
        return a, 0, np.arange(a, a + 1)
    if k < .45:
        c = int(n - a + rng.integers(1, 5))
        return a, c, np.arange(a, n)
    c = int(rng.integers(1, n - a + 1))
    return a, c, np.arange(a, a + c)


def a_block(rng, nr, nc):
    c0, r0 = int(rng.integers(0, nc)), int(rng.integers(0, nr))
    w = int(rng.choice([-1, rng.integers(1, nc - c0 + 1), rng.integers(1, nc - c0 + 3)]))
    h = int(rng.choice([-1, rng.integers(1, nr - r0 + 1), rng.integers(1, nr - r0 + 3)]))
    w1 = nc - c0 if w < 0 else min(w, nc - c0)
    h1 = nr - r0 if h < 0 else min(h, nr - r0)
    idx = ((r0 + np.arange(h1))[:, None] * nc + c0 + np.arange(w1)).ravel()
    return [[c0, r0], [w, h]], idx, (w > w1 or h > h1)


def scan_dims(o, s, fmt):
    """formats without a scan get one the documented way"""
    if not pf.has_scan(fmt):
        o.set_scan_rc((s["nr"], s["nc"]))


def part_reads(ctx):
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(5, 60)):
        for fmt in pf.ALL:
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape)
            kw = {}
            if fmt.startswith("ebsp") and fmt != "ebsp5":
                kw["order"] = rng.permutation(nr * nc)
            path = pf.make(fmt, ctx.scratch, s, rng, name="p%d_%s" % (it, fmt), **kw)
            info = dict(fmt=fmt, it=it, nr=nr, nc=nc, shape=shape, dtype=str(s["pats"].dtype))
            with quiet(), ctx.must("partial read of " + fmt, info, also=(TypeError, ValueError)):
                with hush():
                    o = ep.get_pattern_file_obj(path)
                    scan_dims(o, s, fmt)
                for _ in range(4):
                    a, c, idx = a_range(rng, nr * nc)
                    d = dict(info, range=[a, c])
                    fl = bool(rng.random() < .3)
                    arg = [a, c] if rng.random() < .7 else np.array([a, c], rng.choice([np.int32, np.uint64 if c >= 0 else np.int64]))
                    with hush():
                        g, xy = o.read_data(patStartCount=arg, returnArrayOnly=True, convertToFloat=fl)
                        ob = o.read_data(patStartCount=arg, convertToFloat=fl)
                    same(ctx, fmt, g, s["pats"][idx], d, "range %s" % [a, c], np.dtype(np.float32) if fl else None)
                    same(ctx, fmt, ob.patterns, s["pats"][idx], d, "range %s as an object" % [a, c], np.dtype(np.float32) if fl else None)
                    ctx.check(len(xy) == len(idx), "xy-count:" + fmt, "%d positions for %d patterns" % (len(xy), len(idx)), d)
                    if pf.has_steps(fmt) and not (fmt.startswith("ebsp") and (nr == 1 or nc == 1)):
                        ctx.check(np.allclose(xy, pf.xy(s)[idx], rtol=1e-4, atol=1e-4), "positions:" + fmt, "positions of the range are not those of its points", d)
                    ctx.count("read_range"); ctx.case([d, fl], sample=d)
                for _ in range(4):
                    blk, idx, clip = a_block(rng, nr, nc)
                    d = dict(info, block=blk)
                    fl = bool(rng.random() < .3)
                    with hush():
                        g, xy = o.read_data(patStartCount=blk, returnArrayOnly=True, convertToFloat=fl)
                        ob = o.read_data(patStartCount=blk)
                    same(ctx, fmt, g, s["pats"][idx], d, "block %s" % blk, np.dtype(np.float32) if fl else None)
                    same(ctx, fmt, ob.patterns, s["pats"][idx], d, "block %s as an object" % blk)
                    ctx.check(int(np.prod(ob.nPatterns)) == len(idx), "object-count:" + fmt, "block of %d patterns says %s" % (len(idx), ob.nPatterns), d)
                    if pf.has_steps(fmt) and not (fmt.startswith("ebsp") and (nr == 1 or nc == 1)):
                        ctx.check(np.allclose(xy, pf.xy(s)[idx], rtol=1e-4, atol=1e-4), "positions:" + fmt, "positions of the block are not those of its points", d)
                    ctx.count("read_block"); ctx.case([d, fl], sample=d)
                    if clip:
                        ctx.count("clipped")
            os.unlink(path[0] if isinstance(path, list) else path)


def outside(fmt, path, s):
    """what a write of patterns must leave alone: everything else in the file"""
    p = path[0] if isinstance(path, list) else path
    if fmt in pf.HDF:
        import h5py
        out = []
        mine = pf.dset_name(fmt, "1" if fmt.startswith("h5oina") else "Scan 1")
        with h5py.File(p, "r") as f:
            f.visititems(lambda k, v: out.append((k, v.dtype.str, v.shape, v[()].tobytes())) if hasattr(v, "dtype") and k.strip("/") != mine else None)
        return hashlib.sha256(repr(sorted(out)).encode()).hexdigest()
    b = bytearray(open(p, "rb").read())
    n, H, W = s["pats"].shape
    item = s["pats"][0].nbytes
    if fmt in pf.UP:
        off = int(np.frombuffer(bytes(b[12:16]), "<u4")[0])
        b[off:off + n * item] = b""
    elif fmt in pf.TF:
        off = 25 + (2 * H * W if fmt.endswith("back") else 0)
        for i in reversed(range(n)):
            a = off + i * (item + 8) + 8
            b[a:a + item] = b""
    else:
        o = 9 if int(fmt[4]) >= 4 else 8
        t = np.frombuffer(bytes(b[o:o + 8 * n]), "<u8").astype(int)
        ph = 24 if int(fmt[4]) >= 5 else 16
        for a in sorted(t, reverse=True):
            b[a + ph:a + ph + item] = b""
    return hashlib.sha256(bytes(b)).hexdigest()


def part_writes(ctx):
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(6, 60)):
        for fmt in pf.ALL:
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape)
            kw = {}
            if fmt.startswith("ebsp") and fmt != "ebsp5":
                kw["order"] = rng.permutation(nr * nc)
            path = pf.make(fmt, ctx.scratch, s, rng, name="w%d_%s" % (it, fmt), **kw)
            info = dict(fmt=fmt, it=it, nr=nr, nc=nc, shape=shape, dtype=str(s["pats"].dtype))
            want = s["pats"].copy()
            rest = outside(fmt, path, s)
            hi = np.iinfo(want.dtype).max
            hist = []
            with quiet(), ctx.must("partial write of " + fmt, info, also=(TypeError, ValueError, OverflowError)):
                with hush():
                    o = ep.get_pattern_file_obj(path)
                    scan_dims(o, s, fmt)
                for _ in range(5):
                    if rng.random() < .5:
                        a, c, idx = a_range(rng, nr * nc)
                        spec, kind = [a, c], "write_range"
                        if c > len(idx):
                            ctx.count("clipped")
                    else:
                        spec, idx, clip = a_block(rng, nr, nc)
                        kind = "write_block"
                    new = rng.integers(0, hi, (len(idx),) + shape, endpoint=True).astype(want.dtype)
                    as_obj = rng.random() < .3
                    hist.append(spec)
                    d = dict(info, history=hist, object=as_obj)
                    arg = new
                    if as_obj:
                        with hush():
                            arg = o.read_data(patStartCount=spec)
                        arg.patterns = new.copy()
                    keep = new.copy()
                    with hush():
                        # the patterns are within the range of the type, so that no method may change them with a scale of one
                        m = "scale" if rng.random() < .2 and new.max() > 0 else "clip"
                        o.write_data(newpatterns=arg, patStartCount=spec, flt2int=m, **(dict(scalevalue=1., maxScale=float(hi)) if m == "scale" else {}))
                    want[idx] = keep
                    ctx.check(np.array_equal(new, keep), "input-changed", "writing changed the caller's patterns", d)
                    r = pf.parse(fmt, path)["pats"]
                    if not ctx.check(r.shape == want.shape, "written-shape:" + fmt, "file holds %s patterns, had %s" % (r.shape, want.shape), d):
                        break
                    bad = np.nonzero((r != want).any((1, 2)))[0]
                    ctx.check(not len(bad), "written:" + fmt, "after writing %s: patterns %s wrong, of them %s were to be written" % (spec, bad[:8], np.intersect1d(bad, idx)[:8]), d)
                    if len(bad):
                        break
                    if not ctx.check(outside(fmt, path, s) == rest, "written-outside:" + fmt, "writing %s changed bytes outside of the patterns" % spec, d):
                        break
                    with hush():
                        g, _ = o.read_data(returnArrayOnly=True)
                    same(ctx, fmt, g, want, d, "read back through the same object")
                    ctx.count(kind); ctx.case([d, int(new.sum())], sample=d)
                    if len(hist) > 1:
                        ctx.count("overlap")
                    if fmt in pf.HDF:
                        ctx.count("hdf_write")
            os.unlink(path[0] if isinstance(path, list) else path)


def part_copies(ctx):
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(5, 60)):
        for fmt in pf.ALL:
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape, low=1)
            path = pf.make(fmt, ctx.scratch, s, rng, name="k%d_%s" % (it, fmt))
            p = path[0] if isinstance(path, list) else path
            before = open(p, "rb").read()
            dst = os.path.join(ctx.scratch, "kk%d_%s%s" % (it, fmt, pf.ext(fmt)))
            there = rng.random() < .3
            if there and fmt not in pf.HDF:
                open(dst, "wb").write(b"junk" * 1000)
            for empty in (False, True):
                info = dict(fmt=fmt, it=it, nr=nr, nc=nc, shape=shape, empty=empty, exists=bool(there))
                with quiet(), ctx.must("copying " + fmt, info, also=(TypeError, ValueError)):
                    with hush():
                        o = ep.get_pattern_file_obj(path)
                        o.copy_file(dst, **(dict(empty_data=True) if empty else {}))
                    if not ctx.check(os.path.exists(dst), "no-copy:" + fmt, "no file was made", info):
                        continue
                    ctx.count("empty_copy" if empty else "copy"); ctx.case(info, sample=info)
                    if empty:
                        r = pf.parse(fmt, dst)["pats"]
                        ctx.check(r.shape == s["pats"].shape and r.dtype == s["pats"].dtype, "empty-shape:" + fmt, "empty copy has %s patterns of %s, the file %s of %s" % (r.shape, r.dtype, s["pats"].shape, s["pats"].dtype), info)
                    else:
                        r = pf.parse(fmt, dst)["pats"]
                        ctx.check(np.array_equal(r, s["pats"]), "copy-differs:" + fmt, "the copy holds other patterns", info)
                    with hush():
                        q = ep.get_pattern_file_obj([dst, path[1]] if isinstance(path, list) else dst)
                    for k in ("patternW", "patternH", "nPatterns", "nCols", "nRows", "xStep", "yStep"):
                        ctx.check(getattr(q, k) == getattr(o, k), "copy-head:%s:%s" % (fmt, k), "copy has %s %s, original %s" % (k, getattr(q, k), getattr(o, k)), info)
                    # a copy is independent: writing to it leaves the original alone
                    new = rng.integers(0, np.iinfo(s["pats"].dtype).max, s["pats"].shape, endpoint=True).astype(s["pats"].dtype)
                    with hush():
                        q.write_data(newpatterns=new)
                        g, _ = q.read_data(returnArrayOnly=True)
                    same(ctx, fmt, g, new, info, "patterns written to the copy")
                    ctx.check(open(p, "rb").read() == before, "copy-touches:" + fmt, "copying or writing the copy changed the original", info)
            # the default name
            with quiet(), ctx.must("copying " + fmt + " under the default name", dict(fmt=fmt)):
                if fmt not in pf.HDF:
                    with hush():
                        ep.get_pattern_file_obj(path).copy_file(None)
                    ctx.check(os.path.exists(p + ".copy") and open(p + ".copy", "rb").read() == before, "default-copy:" + fmt, "copy under the default name missing or different", dict(fmt=fmt))
            if fmt in ("oh5", "h5bruker", "h5kikuchipy", "h5oina"):
                with quiet(), ctx.must("copying one scan of " + fmt + " into another file", info):
                    g = pf.dset_name(fmt, "1" if fmt == "h5oina" else "Scan 1").split("/")[0]
                    d2 = os.path.join(ctx.scratch, "kg%d_%s%s" % (it, fmt, pf.ext(fmt)))
                    with hush():
                        o = ep.get_pattern_file_obj(path)
                        o.copy_file([d2, g], **(dict(newh5path="New") if it % 2 else {}))
                    r = pf.parse(fmt, d2, group="New" if it % 2 else g)["pats"]
                    ctx.check(np.array_equal(r, s["pats"]), "named-copy:" + fmt, "the copied scan holds other patterns", info)
                    ctx.count("named_copy")
                    os.unlink(d2)
            for f in (p, dst, p + ".copy"):
                if os.path.exists(f):
                    os.unlink(f)


def part_scaling(ctx):
    """conversion of floating point patterns to the integers of the file"""
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(60, 800)):
        to = np.uint8 if rng.random() < .5 else np.uint16
        top = np.iinfo(to).max
        n, H, W = int(rng.integers(1, 7)), int(rng.integers(2, 9)), int(rng.integers(2, 9))
        lo, hi = sorted(rng.choice([-1e4, -300., -1., 0., .5, 1., 200., 255., 300., 6e4, 7e4, 1e6], 2, replace=False))
        P = rng.uniform(lo, hi, (n, H, W))
        P *= rng.uniform(.2, 1., (n, 1, 1))  # patterns of different brightness
        P = P.astype(rng.choice([np.float32, np.float64]))
        if P.max() <= 0:
            continue
        meth = ["clip", "scale", "fullscale"][it % 3]
        sv = float(rng.choice([.98, 1., .5]))
        mx = None if rng.random() < .5 else float(P.max() * rng.choice([1., 1.5, 3.]) - (min(P.min(), 0) if meth != "clip" else 0))
        info = dict(it=it, method=meth, type=np.dtype(to).name, scalevalue=sv, maxScale=mx, lo=float(P.min()), hi=float(P.max()), shape=P.shape)
        with quiet(), ctx.must("converting to integers", info, also=(TypeError, ValueError)):
            q = P.copy()
            with hush():
                o = ep.pat_flt2int(q, typeout=to, method=meth, scalevalue=sv, maxScale=mx)
                if it % 3 == 0 and not 254 < P.max() < 259:   # the type that holds the values, when none is asked for
                    g = ep.pat_flt2int(q)
                    t = np.uint8 if P.max() < 256 else np.uint16
                    ctx.check(g.dtype == t and g.shape == P.shape and np.abs(g - np.clip(P, 0, np.iinfo(t).max)).max() < .51, "scale-guess", "converted to %s without a given type, largest value %g" % (g.dtype, P.max()), info)
                    g = ep.pat_flt2int(q, typeout=np.float32, method=meth)
                    ctx.check(g.dtype == np.float32 and np.array_equal(g, P.astype(np.float32)), "scale-float", "conversion to floating point changed values", info)
                    ctx.count("type_guessed")
            ctx.check(np.array_equal(q, P), "scale-input", "conversion changed its input", info)
            if not ctx.check(o.shape == P.shape and o.dtype == to, "scale-type", "%s %s from %s" % (o.shape, o.dtype, P.shape), info):
                continue
            a, b = P.ravel().argsort(kind="stable"), None
            v = o.ravel()[a].astype(np.int64)
            ctx.check((np.diff(v) >= 0).all(), "scale-order", "%s: a brighter pixel became darker" % meth, info)
            if meth == "clip":
                want = np.clip(P, 0, min(top, mx) if mx is not None else top)
                ctx.check(np.abs(v - want.ravel()[a]).max() < .51, "clip-values", "clipped values differ", info)
            else:
                m = min(float(P.min()), 0.) if meth == "scale" else float(P.min())
                k = sv * top / (mx if mx is not None else P.max() - m)
                want = np.clip((P.astype(float) - m) * k, 0, top)
                ctx.check(np.abs(v - want.ravel()[a]).max() < .5 + 2e-6 * top + 1e-3, "scale-values", "%s: values differ from the linear map by %.3g" % (meth, np.abs(v - want.ravel()[a]).max()), info)
            ctx.count("scaled"); ctx.case([info, float(P.sum())], sample=info)
            # writing a block gives the same integers as converting the whole set
            nr, nc = int(rng.integers(1, 5)), int(rng.integers(1, 5))
            B = rng.uniform(lo, hi, (nr * nc, H, W)).astype(np.float32) * rng.uniform(.1, 1, (nr * nc, 1, 1)).astype(np.float32)
            if B.max() <= 0:
                continue
            path = os.path.join(ctx.scratch, "b%d.up%d" % (it, 1 if to == np.uint8 else 2))
            with hush():
                want = ep.pat_flt2int(B, typeout=to, method=meth, scalevalue=sv, maxScale=mx)
                f = new_file(ep, "up1", path, dict(pats=np.zeros((nr * nc, H, W), to), nr=nr, nc=nc, xs=1., ys=1., hex=0))
                f.write_data(newpatterns=B, patStartCount=[[0, 0], [nc, nr]], flt2int=meth, scalevalue=sv, maxScale=mx)
            r = pf.parse("up1", path)["pats"]
            ctx.check(np.array_equal(r, want), "block-scale", "%s: writing the scan as a block gives other integers than converting it whole (largest difference %d)" % (meth, np.abs(r.astype(int) - want.astype(int)).max()), dict(info, nr=nr, nc=nc))
            ctx.count("block_scaled")
            os.unlink(path)
