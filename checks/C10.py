"""C10: pattern files return exactly the patterns that were written.

Oracle: files are written and parsed by vlib/patfiles.py (from the layouts), the code under test only reads or only writes."""
import os
import h5py
import numpy as np
import patfiles as pf
from patcheck import hush, dims, verify, same, new_file
from core import import_repo, quiet

RULE = "a file read through the library, or written by it and parsed byte by byte, compared with the scan it was made from"
ASSUMPTIONS = ["file layouts as the library's readers and the vendors' descriptions give them; EBSP version 5 and the .ebsd step file from the reader alone"]
MUST_OBSERVE = ["read:" + f for f in pf.ALL] + ["written:up1", "written:up2", "written:up1v1", "written:ebsp1", "written:ebsp2", "written:ebsp4", "written:ebsp2nopos", "written:tfpat",
                                               "written:tfpatback", "converted", "one_row", "one_column", "tall", "wide", "other_group", "shuffled", "steps_file", "out_of_order", "not_a_map", "other_extension", "open_elsewhere", "released"]
HDF = ("oh5", "h5edax", "h5bruker", "h5kikuchipy", "h5oina")


def part_read(ctx):
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(6, 80)):
        for fmt in pf.ALL:
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape)
            s["hex"] = int(rng.random() < .2)
            kw, extra = {}, {}
            if fmt.startswith("ebsp") and rng.random() < .4 and nr * nc > 1:
                kw["order"] = np.r_[0, 1 + rng.permutation(nr * nc - 1)] if fmt == "ebsp5" else rng.permutation(nr * nc)
                ctx.count("shuffled")
            if fmt.startswith("tf") and rng.random() < .3:
                kw = dict(scan=False, xypx=rng.integers(0, 4000, (nr * nc, 2)))
            info = dict(fmt=fmt, it=it, nr=nr, nc=nc, shape=shape, dtype=str(s["pats"].dtype), order=kw.get("order"))
            path = pf.make(fmt, ctx.scratch, s, rng, name="r%d_%s" % (it, fmt), **kw)
            first = path[0] if isinstance(path, list) else path
            if fmt.startswith("tf") and rng.random() < .5:
                with open(first[:-4] + ".ebsd", "wb") as f:
                    f.write(b"\x11" * 30 + np.float64(s["xs"]).tobytes() + b"\x22" * 37)
                extra["step"] = s["xs"]; ctx.count("steps_file")
            before = open(first, "rb").read()
            held = None
            if fmt in HDF and rng.random() < .5:   # another reader has the file open
                held = h5py.File(first, "r"); ctx.count("open_elsewhere")
            with quiet(), ctx.must("reading " + fmt, info, also=(TypeError, ValueError, AttributeError)):
                with hush():
                    o = ep.get_pattern_file_obj(path)
                    a, xy = o.read_data(returnArrayOnly=True)
                    b = o.read_data()
                    c, _ = o.read_data(returnArrayOnly=True, convertToFloat=True)
                    again = ep.get_pattern_file_obj(path).read_data(returnArrayOnly=True)[0]
                ctx.count("read:" + fmt)
                ctx.case([info, int(s["pats"].sum())], sample=info)
                if "scan" in kw:  # points anywhere, not a map
                    ctx.count("not_a_map")
                    ctx.check(o.isscan == False and np.array_equal(o.xypx, kw["xypx"]), "xypx:" + fmt, "pattern locations of a file that is not a map differ", info)
                    ctx.check(int(o.nPatterns) == nr * nc, "count:" + fmt, "%s patterns, file holds %d" % (o.nPatterns, nr * nc), info)
                else:
                    verify(ctx, fmt, o, s, info, "header")
                same(ctx, fmt, a, s["pats"], info, "all patterns")
                same(ctx, fmt, b.patterns, s["pats"], info, "pattern object")
                same(ctx, fmt, c, s["pats"], info, "converted to float", np.dtype(np.float32))
                same(ctx, fmt, again, s["pats"], info, "second object")
                ctx.check((int(b.patternH), int(b.patternW)) == shape and int(np.prod(b.nPatterns)) == nr * nc, "object:" + fmt, "pattern object says %s patterns of %s x %s" % (b.nPatterns, b.patternH, b.patternW), info)
                if "step" in extra:
                    ctx.check(o.xStep == extra["step"] and o.yStep == extra["step"], "step:" + fmt, "step %s from the side file, which says %s" % (o.xStep, extra["step"]), info)
                if fmt == "tfpatback":
                    ctx.check(np.array_equal(o.get_backgroundpattern(), s["back"]), "background:" + fmt, "background pattern differs from the stored one", info)
                if s["hex"] and fmt in ("up1", "up2"):
                    ctx.check(int(o.hexflag) == 1, "hex:" + fmt, "hexagonal grid flag lost", info)
                if fmt.startswith("ebsp") and not fmt.endswith("nopos") or fmt.startswith("h5oina"):
                    ctx.check(np.allclose(xy, pf.xy(s), atol=1e-4), "positions:" + fmt, "point positions differ from the stored ones", info)
            ctx.check(open(first, "rb").read() == before, "file-changed:" + fmt, "reading changed the file", info)
            if held is not None:
                held.close()
            elif fmt in HDF:
                try:   # nothing is left open: the file can be written by its owner
                    h5py.File(first, "r+").close(); ctx.count("released")
                except OSError as e:
                    ctx.fail("left-open:" + fmt, "after reading the file is still held open: %s" % e, info)
            for f in (first, first[:-4] + ".ebsd"):
                if os.path.exists(f):
                    os.unlink(f)


def part_hdf(ctx):
    """several scans in one file: the named one is read, and the first one when none is named"""
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(4, 40)):
        for fmt in ("oh5", "h5edax", "h5bruker", "h5kikuchipy", "h5oina"):
            G = {}
            for g in range(int(rng.integers(2, 4))):
                nr, nc, shape = dims(rng, ctx)
                G["Area %d" % g if not fmt.startswith("h5oina") else str(g + 1)] = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape)
            path = os.path.join(ctx.scratch, "g%d_%s%s" % (it, fmt, pf.ext(fmt)))
            pf._hdf(fmt, path, G, rng)
            for g, s in G.items():
                info = dict(fmt=fmt, it=it, group=g, groups=len(G))
                with quiet(), ctx.must("reading a named scan of " + fmt, info):
                    with hush():
                        o = ep.get_pattern_file_obj([path, pf.dset_name(fmt, g)])
                        a, _ = o.read_data(returnArrayOnly=True)
                    verify(ctx, fmt, o, s, info, "named scan")
                    same(ctx, fmt, a, s["pats"], info, "named scan")
                    ctx.count("other_group"); ctx.case([info, int(s["pats"].sum())])
            with quiet(), ctx.must("reading the first scan of " + fmt, info):
                with hush():
                    o = ep.get_pattern_file_obj(path)
                    k = o.h5patdatpth.strip("/").split("/")[0]
                    a, _ = o.read_data(returnArrayOnly=True)
                    if ctx.check(k in G, "group:" + fmt, "reads scan %r" % k, info):
                        verify(ctx, fmt, o, G[k], info, "default scan")
                        same(ctx, fmt, a, G[k]["pats"], info, "default scan")
                    for i in range(len(G)):
                        o.set_data_path(pathindex=i)
                        o.read_header()
                        a, _ = o.read_data(returnArrayOnly=True)
                        k = o.h5patdatpth.strip("/").split("/")[0]
                        verify(ctx, fmt, o, G[k], info, "scan by number")
                        same(ctx, fmt, a, G[k]["pats"], info, "scan by number")
            os.unlink(path)


def part_write(ctx):
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(8, 100)):
        for fmt in ("up1", "up2", "up1v1", "up2v1", "ebsp1", "ebsp2", "ebsp4", "ebsp2nopos", "tfpat", "tfpatback"):
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt, nr=nr, nc=nc, shape=shape)
            s["hex"] = int(rng.random() < .2)
            n = nr * nc
            how = ["one call", "header first", "chunks", "out of order", "blank"][int(rng.integers(5))]
            info = dict(fmt=fmt, it=it, nr=nr, nc=nc, shape=shape, dtype=str(s["pats"].dtype), how=how)
            path = os.path.join(ctx.scratch, "w%d_%s%s" % (it, fmt, pf.ext(fmt)))
            want = s["pats"]
            with quiet(), ctx.must("writing " + fmt, info, also=(TypeError, ValueError, OverflowError)):
                with hush():
                    o = new_file(ep, fmt, path, s)
                    if how == "one call":
                        o.write_data(newpatterns=s["pats"])
                    elif how == "header first":
                        o.write_header(writeBlank=True)
                        o.write_data(newpatterns=s["pats"], patStartCount=[0, -1])
                    elif how == "blank":
                        o.write_header(writeBlank=True)
                        want = np.zeros_like(want)
                    else:
                        o.write_header(writeBlank=True)
                        cut = np.unique(np.r_[0, rng.integers(0, n + 1, 3), n])
                        k = list(zip(cut[:-1], cut[1:]))
                        if how == "out of order":
                            k = [k[i] for i in rng.permutation(len(k))]; ctx.count("out_of_order")
                        for a, b in k:
                            o.write_data(newpatterns=s["pats"][a:b], patStartCount=[int(a), int(b - a)])
                if not ctx.check(os.path.exists(path), "no-file:" + fmt, "nothing was written", info):
                    continue
                try:
                    r = pf.parse(fmt, path)
                except Exception as e:
                    ctx.fail("unreadable:" + fmt, "the file written can not be parsed: %s %s" % (type(e).__name__, e), info)
                    continue
                ctx.count("written:" + fmt); ctx.case([info, int(s["pats"].sum())], sample=info)
                same(ctx, fmt, r["pats"], want, info, "bytes of the file")
                for a, b in (("nc", s["nc"]), ("nr", s["nr"]), ("xs", s["xs"]), ("ys", s["ys"]), ("hex", s["hex"]), ("rest", 0)):
                    if a in r and not (a == "nr" and fmt.endswith("v1")):
                        ctx.check(r[a] == b, "head:%s:%s" % (fmt, a), "header field %s is %s, expected %s" % (a, r[a], b), info)
                if "xy" in r and not fmt.endswith("nopos"):
                    ctx.check(np.allclose(r["xy"], pf.xy(s), atol=1e-9), "written-positions:" + fmt, "point positions written are not those of the scan grid", info)
                if "loc" in r:
                    i = np.arange(n)
                    ctx.check(np.array_equal(r["loc"], np.stack([i % nc, i // nc], 1)), "written-positions:" + fmt, "point indices written are not those of the scan grid", info)
                if fmt == "tfpatback":
                    ctx.check(np.array_equal(r["back"], s["back"]), "background:" + fmt, "background pattern written differs", info)
                with hush():
                    q = ep.get_pattern_file_obj(path)
                    a, _ = q.read_data(returnArrayOnly=True)
                verify(ctx, fmt, q, s, info, "read back")
                same(ctx, fmt, a, want, info, "read back")
            if os.path.exists(path):
                os.unlink(path)


def part_convert(ctx):
    """from an array, or a pattern object read from any format, to a UP file"""
    import_repo()
    from pyebsdindex import ebsd_pattern as ep
    rng = ctx.rng
    for it in range(ctx.n(6, 60)):
        for fmt in [None] + pf.ALL:
            nr, nc, shape = dims(rng, ctx)
            s = pf.random_scan(rng, fmt or "up1", nr=nr, nc=nc, shape=shape, dtype=None if fmt else rng.choice([np.uint8, np.uint16]))
            wide = s["pats"].dtype == np.uint16
            to = "up2" if wide or rng.random() < .3 else "up1"
            block = fmt is not None and pf.has_scan(fmt) and rng.random() < .3
            info = dict(source=fmt or "array", it=it, nr=nr, nc=nc, shape=shape, dtype=str(s["pats"].dtype), to=to, block=block)
            other = rng.random() < .2  # an extension that does not tell the data type
            dst = os.path.join(ctx.scratch, "c%d_%s%s" % (it, fmt, ".dat" if other else pf.ext(to)))
            if other:
                to = "up2" if s["pats"].max() > 255 else "up1"
                ctx.count("other_extension")
            src = None
            with quiet(), ctx.must("converting %s to UP" % (fmt or "an array"), info, also=(TypeError, ValueError)):
                with hush():
                    p = s["pats"]
                    if fmt is not None:
                        path = pf.make(fmt, ctx.scratch, s, rng, name="cs%d_%s" % (it, fmt))
                        src = path[0] if isinstance(path, list) else path
                        p = ep.get_pattern_file_obj(path).read_data(**(dict(patStartCount=[[0, 0], [-1, -1]]) if block else {}))
                    u = ep.UPFile(dst)
                    u.file_from_pattern_obj(p)
                    if rng.random() < .5:
                        u.write_header(writeBlank=True)
                    u.write_data(newpatterns=p, patStartCount=[0, -1])
                    q = u if other else ep.get_pattern_file_obj(dst)
                    a, _ = q.read_data(returnArrayOnly=True)
                if other:
                    os.rename(dst, dst + "." + to); dst += "." + to
                r = pf.parse(to, dst)
                ctx.count("converted"); ctx.case([info, int(s["pats"].sum())], sample=info)
                ctx.check(r["nc"] * r["nr"] == len(s["pats"]), "converted-count", "the converted file declares %d x %d points for %d patterns" % (r["nr"], r["nc"], len(s["pats"])), info)
                same(ctx, "convert", r["pats"].astype(np.uint16), s["pats"].astype(np.uint16), info, "bytes of the converted file")
                same(ctx, "convert", a.astype(np.uint16), s["pats"].astype(np.uint16), info, "converted file read back")
            for f in (src, dst):
                if f and os.path.exists(f):
                    os.unlink(f)


PARTS = ["read", "hdf", "write", "convert"]
