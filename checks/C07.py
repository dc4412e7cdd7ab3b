"""C07: pattern-centre conventions."""
import numpy as np
from core import *
import rot, synth

RULE = ("one case = one detector geometry (shape, pattern centre, vendor) with band positions whose plane normals are compared with independent projective geometry, "
        "or one indexed synthetic pattern whose orientation is compared with the true one; non-trivial = distinct geometry and band set")
ASSUMPTIONS = ["camera conventions as published by the vendors: x right and y up from the lower left corner in pixels/fractions, z from sample to screen; Bruker/kikuchipy y measured from the top",
               "synthetic patterns have straight bands (no hyperbolic widening) and 2 % noise"]
PARTS = ["poles", "orient", "rect", "history"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["normals", "per_pattern_pc", "non_square", "orientations", "tilts"]
THREADS = 2


def geometry(rng, shape, wide=False):
    H, W = shape
    m = min(H, W)
    k = 1. if wide else .35
    return np.array([W * (.5 + k * rng.uniform(-.5, .5)), H * (.5 + k * rng.uniform(-.5, .5)), m * rng.uniform(.45, 1.1)])


def line_normal(x, y, th, rho, W, H, geom):
    """normal of the plane through the source and the image line (x-(W-1)/2) cos + (y-(H-1)/2) sin = rho (y down, pixel indices)"""
    u, v, L = geom
    pts = []
    for t in (-W, W):
        px = (W - 1) / 2 + rho * np.cos(th) - t * np.sin(th)
        py = (H - 1) / 2 + rho * np.sin(th) + t * np.cos(th)
        pts.append([px + .5 - u, H - (py + .5) - v, L])
    n = np.cross(pts[0], pts[1])
    return n / np.linalg.norm(n)


def part_poles(ctx):
    from pyebsdindex import band_detect
    rng = ctx.rng
    for it in range(ctx.n(60, 500)):
        H, W = int(rng.integers(24, 200)), int(rng.integers(24, 200))
        if rng.random() < .25:
            W = H
        shape = (H, W)
        if H != W:
            ctx.count("non_square")
        nT, nR = int(rng.choice([45, 90, 180, 200])), int(rng.choice([40, 90, 121]))
        with ctx.must("band detector set-up"):
            bd = band_detect.BandDetect(patDim=shape, nTheta=nT, nRho=nR, rhoMaskFrac=float(rng.choice([0., .1, .15])))
        rp = bd.radonPlan
        n, nb = int(rng.integers(1, 6)), int(rng.integers(1, 10))
        loc = np.stack([rng.uniform(0, nR - 1, (n, nb)), rng.uniform(0, nT - 1, (n, nb))], -1)
        if rng.random() < .3:
            loc = np.round(loc)
        bdat = np.zeros((n, nb), dtype=bd.dataType)
        bdat["aveloc"] = loc
        loc = bdat["aveloc"].astype(float)
        th = np.deg2rad(loc[..., 1] * 180 / nT)
        rmax = float(bd.rhoMax)
        rho = (loc[..., 0] + 1) * 2 * rmax / nR - rmax
        per = rng.random() < .5
        geoms = np.array([geometry(rng, shape, True) for _ in range(n if per else 1)])
        delta = float(rng.uniform(5, 60))
        want = np.array([[line_normal(0, 0, th[i, k], rho[i, k], W, H, geoms[i if per else 0]) for k in range(nb)] for i in range(n)])
        for ven in synth.VENDORS:
            pc = np.array([synth.vendor_pc(ven, shape, *g, **({"delta": delta} if ven == "EMSOFT" else {})) for g in geoms])
            pc = pc if per else pc[0]
            form = rng.integers(3)
            PC = pc if form == 0 else pc.astype(np.float32) if form == 1 else pc.tolist()
            keep = np.array(PC, copy=True)
            name = ven if rng.random() < .7 else ven.lower()
            b = bdat.copy()
            info = dict(shape=shape, vendor=ven, PC=np.asarray(PC).tolist(), nTheta=nT, nRho=nR, loc=loc.tolist())
            with quiet(), ctx.must("plane normals " + ven, info):
                got = np.asarray(rp.radon2pole(b, PC=PC, vendor=name))
                ctx.case(repr(info), sample=dict(shape=shape, vendor=ven))
                ctx.count("normals", n * nb)
                if not ctx.check(got.shape == (n, nb, 3), "normals-shape", "shape %s" % (got.shape,), info):
                    continue
                ctx.check(np.allclose(np.linalg.norm(got, axis=-1), 1, atol=1e-4), "normals-unit", "normals are not unit vectors", info)
                c = np.abs((got * want).sum(-1)).clip(0, 1)
                err = np.rad2deg(np.arccos(c))
                ctx.check((err < .1).all(), "normals-" + ("per-pattern-" if per else "") + ven, "plane normals off by up to %.3f deg" % err.max(), info)
                ctx.check(np.array_equal(np.asarray(PC), keep), "pc-modified", "the pattern centre array passed in was modified", info)
                ctx.check(np.array_equal(b["aveloc"], bdat["aveloc"]), "bands-modified", "band positions modified", info)
                # published band coordinates: lower-left origin
                ctx.check(np.allclose(np.cos(2 * b["theta"]), np.cos(2 * th), atol=1e-3) and np.allclose(np.abs(b["rho"]), np.abs(rho), atol=1e-2 * max(1, rmax / 50)),
                          "theta-rho", "theta/rho reported do not describe the detected line", info)
                if per:
                    ctx.count("per_pattern_pc")


def index(ctx, ix, pats, **k):
    with ctx.must("indexing"):
        d, b, s, n = ix.index_pats(pats, **k)
    return d


def orient(ctx, shapes, names, per_vendor):
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for shape in shapes:
        name = names[rng.integers(len(names))]
        ph = synth.generic(name)
        n = per_vendor
        geoms = np.array([geometry(rng, shape) for _ in range(n)]) if rng.random() < .5 else np.repeat(geometry(rng, shape)[None], n, 0)
        per = (geoms[0] != geoms[-1]).any()
        tilt, elev = float(rng.choice([70., 70., 60., 75.5])), float(rng.choice([0., 5.3, 10., -3.]))
        Qd = rot.randq(rng, n)  # detector -> crystal
        pats = synth.patterns(rng, ph, Qd, shape, geoms)
        res = {}
        for ven in synth.VENDORS:
            pc = np.array([synth.vendor_pc(ven, shape, *g) for g in geoms])
            PC = pc if per else pc[0]
            info = dict(shape=shape, vendor=ven, PC=np.asarray(PC).tolist(), phase=name, tilt=tilt, elev=elev)
            route = rng.integers(3)
            keep = PC.copy()
            with quiet():
                with ctx.must("indexing " + ven, info):
                    if route == 0:
                        ix = ebsd_index.EBSDIndexer(phaselist=[name], vendor=ven, PC=PC, patDim=shape, sampleTilt=tilt, camElev=elev)
                        d = ix.index_pats(pats)[0]
                    elif route == 1:  # calibration given with the call
                        ix = ebsd_index.EBSDIndexer(phaselist=[name], vendor=ven, patDim=shape, sampleTilt=tilt, camElev=elev)
                        d = ix.index_pats(pats, PC=PC)[0]
                    else:
                        d = ebsd_index.index_pats(pats, phaselist=[name], vendor=ven, PC=PC, sampleTilt=tilt, camElev=elev)[0]
                ctx.check(np.array_equal(PC, keep), "pc-modified", "pattern centre array modified by indexing", info)
                q = np.asarray(d["quat"][-1], float)
                res[ven] = q
                Qref = rot.qmul(Qd, np.broadcast_to(synth.ref2det(ven, tilt, elev), Qd.shape))
                mis = ph.misorientation(np.where(np.isfinite(q), q, 0) + 1e-30, Qref)
                for i in range(n):
                    ctx.case([shape, ven, i, float(Qd[i, 0]), geoms[i].tolist()], sample=dict(info, mis=float(mis[i])))
                ctx.count("orientations", n)
                ctx.count("tilts", 1)
                if shape[0] != shape[1]:
                    ctx.count("non_square")
                if per:
                    ctx.count("per_pattern_pc")
                bad = mis > 1.5
                # a pattern the voting gets wrong whatever the convention is C01's business
                ctx.check(bad.sum() <= max(1, .1 * n), "orientation-" + ven + ("-per-pattern" if per else ""),
                          "%d of %d orientations wrong (median error %.2f deg)" % (bad.sum(), n, np.median(mis)), dict(info, mis=mis.tolist()))
                ctx.check(np.median(mis) < .6, "orientation-median-" + ven, "median error %.2f deg" % np.median(mis), info)
                ctx.check(np.median(d["fit"][-1]) < 1.0, "fit-" + ven, "median fit %.2f deg" % np.median(d["fit"][-1]), info)
                # one at a time with its own pattern centre
                if per and route != 2:
                    for i in rng.permutation(n)[:3]:
                        d1 = index(ctx, ix, pats[i:i + 1], PC=PC[i])
                        m1 = ph.misorientation(d1["quat"][-1], q[i:i + 1])
                        ctx.check(m1[0] < .05, "perpattern-" + ven, "per-pattern PC array and a single PC give orientations %.3f deg apart" % m1[0], info)
        # the same physical geometry: identical orientations after the reference frame rotation
        if len(res) == 5:
            base = None
            for ven, q in res.items():
                qd = rot.qmul(q, rot.qconj(np.broadcast_to(synth.ref2det(ven, tilt, elev), q.shape)))
                if base is None:
                    base = qd
                    continue
                m = ph.misorientation(qd, base)
                ctx.check((m < .25).sum() >= n - max(1, .1 * n), "vendors-differ-" + ven, "orientations of the same patterns differ from EDAX's by up to %.2f deg" % m.max(),
                          dict(shape=shape, geom=geoms.tolist(), vendor=ven))


def part_orient(ctx):
    orient(ctx, [(60, 60), (96, 96), (120, 120)] * ctx.n(1, 5), ["FCC", "BCC", "FCC"], ctx.n(10, 30))


def part_rect(ctx):
    orient(ctx, [(72, 96), (110, 80), (60, 90)] * ctx.n(1, 5), ["FCC", "BCC", "HCP"], ctx.n(10, 30))


def part_history(ctx):
    """changing vendor / PC / tilt on a live indexer takes effect"""
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    ph = synth.generic("FCC")
    for it in range(ctx.n(3, 12)):
        shape = [(80, 80), (64, 90), (100, 70)][it % 3]
        geom = geometry(rng, shape)
        Qd = rot.randq(rng, 6)
        pats = synth.patterns(rng, ph, Qd, shape, geom)
        ix = ebsd_index.EBSDIndexer(phaselist=["FCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape, sampleTilt=70, camElev=5)
        for ven in list(rng.permutation(synth.VENDORS)) + ["EDAX"]:
            ven = str(ven)
            ix.vendor, ix.PC = ven, np.array(synth.vendor_pc(ven, shape, *geom))
            ix.sampleTilt, ix.camElev = float(rng.uniform(60, 80)), float(rng.uniform(-5, 12))
            with quiet():
                q = index(ctx, ix, pats)["quat"][-1]
                mis = ph.misorientation(np.where(np.isfinite(q), q, 0) + 1e-30, rot.qmul(Qd, np.broadcast_to(synth.ref2det(ven, ix.sampleTilt, ix.camElev), Qd.shape)))
                ctx.case([it, ven, float(ix.sampleTilt)])
                ctx.count("tilts")
                ctx.check(np.sort(mis)[-2] < 1.5, "relive-" + ven, "orientation wrong after changing vendor/PC/tilt of an indexer: %s" % np.round(mis, 2), dict(vendor=ven, shape=shape))
