"""C24: the OpenCL path gives the bands, orientations and NLPAR patterns of the CPU path, for every batch, device and fault."""
import numpy as np
from core import *
from patcheck import hush
import clcheck as cc
import dist
import nlcheck as nl, nlref, patfiles as pf, synth, same

RULE = ("one case = one run of the device path on the stand-in device, compared with the CPU path (bands, orientations), with itself for another batch/chunk/device, or with NLPAR evaluated in double precision from its definition; "
        "non-trivial = distinct input")
ASSUMPTIONS = ["the kernels run on the host, in IEEE single precision (C23)",
               "the two paths define peak intensity, width and the peak window at the rho edges differently: positions of the five strongest bands and orientations are compared, for simulated patterns",
               "NLPAR on the device mirrors neighbours at the scan edges and protects pixels above 99.61% of the largest value of a tile; patterns compared hold that value in every pattern; background subtraction is not offered by it"]
PARTS = ["bands", "index", "batches", "nlpar", "tiles", "sigma", "lam", "fallback", "cluster", "entry"]
WARM = ["clkernels", "clnlpar", "assign", "quest", "label", "vote"]
MUST_OBSERVE = ["same_bands", "same_orientations", "batch", "dtype", "device_choice", "nlpar", "nlpar_tiles", "nlpar_distributed", "sigma", "sigma_tiles", "lambda", "rescale", "cover", "fault:platforms", "fault:context", "fault:build",
                "fault:queue", "fault:buffer", "fault:kernel", "fault:copy", "fault:small_device", "silent_failure", "failing_tile", "cluster_gpu", "cluster_fault", "full_kernel", "float_patterns", "smaller_than_window", "reused", "entry:gpu", "entry:cpu", "entry:without_ray"]
THREADS = 1
SHAPES = [(60, 60), (60, 80), (83, 64), (48, 48), (72, 96)]


def devices(rng):
    """platforms with devices of several kinds, at least one of them"""
    mk = lambda: dict(unified=bool(rng.random() < .5), group=int(rng.choice([64, 256, 1024])))
    p = [[mk() for _ in range(int(rng.integers(0, 3)))] for _ in range(int(rng.integers(1, 4)))]
    if not any(p):
        p[int(rng.integers(len(p)))] = [mk()]
    return p


def simulated(ctx, it, n, noise=.01, dtype=np.uint8):
    rng = ctx.rng
    H, W = SHAPES[it % len(SHAPES)]
    k = ["FCC", "BCC", "HCP"][int(rng.integers(3))]
    ph = synth.generic(k)
    Q = rng.normal(size=(n, 4)); Q /= np.linalg.norm(Q, axis=1)[:, None]
    geom = np.array([W * rng.uniform(.4, .6), H * rng.uniform(.45, .7), min(H, W) * rng.uniform(.5, .7)])
    return ph, k, geom, synth.patterns(rng, ph, Q, (H, W), geom, noise=noise, dtype=dtype), dict(shape=(H, W), phase=k, n=n, it=it, geom=geom.tolist())


def nearest(a, b, nRho, nTheta):
    """for every band of a, its distance (bins) to the nearest of b; theta wraps around with a change of sign of rho"""
    x, y = a[:, :, None], b[:, None]
    d = np.abs(x - y).max(-1)
    for s in (1, -1):
        m = np.stack([nRho - 1 - y[..., 0], y[..., 1] + s * nTheta], -1)
        d = np.minimum(d, np.abs(x - m).max(-1))
    return d.min(-1)


def part_bands(ctx):
    cc.setup()
    from pyebsdindex import band_detect
    from pyebsdindex.opencl import band_detect_cl, openclparam
    rng = ctx.rng
    for it in range(ctx.n(10, 120)):
        dt = [np.uint8, np.uint16, np.float32][it % 3]
        ph, k, geom, P, info = simulated(ctx, it, 16, noise=float(rng.choice([0, .01, .03])), dtype=dt)
        if it % 4 == 3 and dt == np.float32:
            P = P - 110; ctx.count("float_patterns")
        kw = {}
        if rng.random() < .4:
            kw.update(nTheta=int(rng.choice([120, 150, 180])), nRho=int(rng.choice([80, 90, 100])))
        if rng.random() < .3:
            kw.update(rhoMaskFrac=float(rng.choice([.05, .1, .25])))
        info = dict(info, dtype=np.dtype(dt).name, **kw)
        cc.vm.reset(fill=0x7fc00000, order=int(rng.integers(2, 99)))
        with quiet(), ctx.must("band detection", info), hush(), np.errstate(all="ignore"):
            g = band_detect_cl.BandDetect(patDim=P.shape[1:], **kw)
            c = band_detect.BandDetect(patDim=P.shape[1:], **kw)
            if rng.random() < .3:
                g.backgroundsub = c.backgroundsub = np.float32(rng.uniform(0, 30) + np.linspace(0, 20, P[0].size).reshape(P[0].shape))
                info["background"] = True
            a, b = g.find_bands(P), c.find_bands(P)
            cc.launched(ctx, ["radonSum", "maxlabel"], "band detection", info); cc.sound(ctx, "band detection", info)
            v = b["valid"][:, :5] > 0
            d = nearest(b["aveloc"][:, :5], np.where(a["valid"][..., None] > 0, a["aveloc"], 1e6), g.nRho, g.nTheta)[v]
            ctx.check((d < 2).mean() > .96, "bands", lambda: "of the five strongest bands of the CPU path %.1f%% are not found on the device (distances of the worst %s)" % (100 * (d >= 2).mean(), np.sort(d)[-4:]), info)
            ctx.check(np.median(d) < .35, "bands-offset", "the bands of the device are %.2f bins from those of the CPU path" % np.median(d), info)
            ctx.check(abs(int(a["valid"].sum()) - int(b["valid"].sum())) <= .12 * b["valid"].size + 2, "bands-number", "%d bands on the device, %d on the CPU" % (a["valid"].sum(), b["valid"].sum()), info)
            # strongest first, on both
            ok = a["valid"] > 0
            for f in a["max"].dtype.names or [""]:
                m = a["max"]
                ctx.check((np.diff(np.where(ok, m, -1e9), axis=1) <= 1e-3 * np.abs(m[:, :1])).all(), "bands-order", "bands of the device are not sorted by intensity", info)
            ctx.count("same_bands", int(v.sum())); ctx.case(info, sample=info)
            # a brightness added to all pixels, or taken away, does not move bands
            off = float(rng.choice([-1, -1, -2.5, .7]) * P.mean())
            a2 = g.find_bands(P.astype(np.float32) + np.float32(off))
            d = nearest(a["aveloc"][:, :5], np.where(a2["valid"][..., None] > 0, a2["aveloc"], 1e6), g.nRho, g.nTheta)[ok[:, :5]]
            ctx.check((d < .05).mean() > .97, "brightness", lambda: "%.1f%% of the strongest bands move when %.4g is added to all pixels, by %s bins" % (100 * (d >= .05).mean(), off, np.sort(d)[-4:]), info)
            ctx.count("brightness", len(d))
            # the steps one by one, on arrays, and the full kernel
            p = openclparam.OpenClParam(); p.get_queue()
            F = P.astype(np.float32)
            r, _ = g.radon_fasterCL(F, padding=g.padding, background=g.backgroundsub, returnBuff=False, clparams=p)
            rc = c.radonPlan.radon_faster(F, padding=c.padding, background=c.backgroundsub)
            i, j = g.padding
            ctx.close(r[i:-i, j:-j, :len(P)], rc[i:-i, j:-j], "radon", "Radon transform of the device and of the CPU", atol=2e-3 * np.abs(rc[i:-i, j:-j]).max(), rtol=2e-4, data=info)
            s = g.rdn_convCL2(r.copy(), clparams=p, returnBuff=False)[0]
            f = g.rdn_convCL2(r.copy(), clparams=p, returnBuff=False, separableKernel=False)[0]
            ctx.close(f[i:-i, j:-j], s[i:-i, j:-j], "full-kernel", "convolution with the full and the separable kernel", atol=2e-3 * np.abs(s).max(), rtol=1e-3, data=info)
            m = g.rdn_local_maxCL(s.copy(), clparams=p, returnBuff=False)[0][0]
            L = g.band_labelCL(s, m, clparams=p)
            n = len(P)
            both = ok & (L[4][:n] > 0)
            d = np.abs(L[3][:n] - g.padding - a["aveloc"]).max(-1)[both]
            ctx.check((L[4][:n] > 0).sum() == ok.sum() and (d < .5).mean() > .9, "steps", "the steps of band detection on arrays and on buffers give other bands", info)
            ctx.count("full_kernel")


def part_index(ctx):
    cc.setup()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(8, 80)):
        ph, k, geom, P, info = simulated(ctx, it, 12, dtype=[np.uint8, np.uint16, np.float32, np.float64][it % 4])
        ven = synth.VENDORS[int(rng.integers(5))]
        info["vendor"] = ven
        cc.vm.reset(platforms=devices(rng), fill=0x7fc00000)
        with quiet(), ctx.must("indexing on the device", info), hush(), np.errstate(all="ignore"):
            ix = ebsd_index.EBSDIndexer(phaselist=[k], vendor=ven, PC=synth.vendor_pc(ven, P.shape[1:], *geom), patDim=P.shape[1:])
            g = ix.index_pats(P)[0][-1]
            cc.launched(ctx, ["radonSum", "maxlabel"], "indexing", info); cc.sound(ctx, "indexing", info)
            ix.bandDetectPlan.useCPU = True
            c = ix.index_pats(P)[0][-1]
            ok = c["nmatch"] >= 6
            if ok.sum() < 4:
                ctx.count("too_few_indexed"); continue
            mis = ph.misorientation(g["quat"], c["quat"])[ok]
            ctx.check((mis < .8).mean() > .9, "orientations", "misorientations of the device path to the CPU path: %s degrees" % np.round(np.sort(mis), 2), info)
            ctx.check(np.median(mis) < .3, "orientations-median", "median misorientation %.2f degrees" % np.median(mis), info)
            ctx.check(g["nmatch"][ok].mean() > c["nmatch"][ok].mean() - 1, "matches", "bands matched on the device %s, on the CPU %s" % (g["nmatch"][ok].mean(), c["nmatch"][ok].mean()), info)
            ctx.count("same_orientations", int(ok.sum())); ctx.case(info, sample=info)


def part_batches(ctx):
    """the bands of a pattern depend neither on the other patterns of the batch, nor on the chunks, device or integer type"""
    cc.setup()
    from pyebsdindex.opencl import band_detect_cl
    rng = ctx.rng
    for it in range(ctx.n(5, 60)):
        n = [3, 16, 17, 21, 33][it % 5]
        ph, k, geom, P, info = simulated(ctx, it, n)
        if rng.random() < .5:
            P[int(rng.integers(n))] = rng.integers(0, 2) * 200
            P[int(rng.integers(n))] = rng.integers(0, 255, P.shape[1:])
        with quiet(), ctx.must("band detection", info), hush(), np.errstate(all="ignore"):
            cc.vm.reset(platforms=devices(rng))
            b = band_detect_cl.BandDetect(patDim=P.shape[1:])
            A = b.find_bands(P)
            cc.launched(ctx, ["radonSum", "maxlabel"], "band detection", info)

            def judge(kind, B, A, i2):
                ctx.check(cc.same_bytes(A, B), kind, lambda: "bands depend on the %s: %s" % (kind, cc.differ(A, B)), i2)
                cc.launched(ctx, ["radonSum", "maxlabel"], "band detection", i2); cc.sound(ctx, "band detection", i2)
                ctx.count(kind); ctx.case(i2, sample=i2)
            for q in range(ctx.n(3, 8)):
                cc.vm.reset(platforms=devices(rng), fill=cc.FILLS[q % 4], order=q)
                gid = None if q % 2 else int(rng.integers(0, 5))
                cs = int(rng.choice([-1, 1, 2, 5, 16, 20, n, 528]))
                judge("device_choice" if q % 2 == 0 else "batch", b.find_bands(P, chunksize=cs, gpu_id=gid), A, dict(info, chunksize=cs, gpu_id=gid, q=q))
            for q in range(ctx.n(2, 8)):
                cc.vm.reset(fill=cc.FILLS[q % 4])
                o = rng.permutation(n)[:int(rng.integers(1, n + 1))]
                judge("batch", b.find_bands(P[o]), A[o], dict(info, patterns=o.tolist()))
            cc.vm.reset()
            judge("batch", b.find_bands(P[0]), A[:1], dict(info, patterns="one, as a 2D array"))
            for dt in (np.uint16, np.float32, np.float64, np.int16, np.int32, np.uint32)[it % 2 if ctx.tier == 'quick' else 0::2 if ctx.tier == 'quick' else 1]:
                cc.vm.reset(fill=cc.FILLS[2])
                judge("dtype", b.find_bands(P.astype(dt)), A, dict(info, dtype=np.dtype(dt).name))


# -- NLPAR -----------------------------------------------------------------
def scan(ctx, it, fmts=("up1", "up2", "ebsp4", "oh5")):
    rng = ctx.rng
    s = nl.scan(rng, fmt=str(rng.choice(fmts)), level=False, dup=rng.random() < .3)
    p = s["pats"]
    # the largest value in every pattern: it sets the saturation level of a tile
    for j in range(len(p)):
        p[j, int(rng.integers(p.shape[1])), int(rng.integers(p.shape[2]))] = s["top"]
    if s["fmt"] == "oh5" and rng.random() < .6:
        s["pats"] = p.astype([np.float32, np.float64, np.int32][int(rng.integers(3 if s["top"] == 255 else 2))])   # integers are written as 8 or 16 bit
        ctx.count("float_patterns")
    return s


def small(rng, s, nn=1):
    """a device on which the scan takes several tiles"""
    H, W = s["pats"].shape[1:]
    n = s["nr"] * s["nc"]
    a = int(max(4 * (H * W * n + 64), 4 * n * (2 * nn + 1) ** 2, 1024) * rng.uniform(1.05, 2.5))
    return dict(alloc=a, mem=int(a * rng.uniform(3, 20)))


def run_nlpar(ctx, count, which):
    cc.setup()
    from pyebsdindex.opencl import nlpar_cl, nlpar_clray
    rng = ctx.rng
    for it in range(count):
        s = scan(ctx, it)
        p = s["pats"]; nr, nc = s["nr"], s["nc"]; H, W = p.shape[1:]
        ray = which == "tiles" and it % 2 == 1
        sr = int(rng.choice([1, 1, 2, 3, 5, 10])) if which == "model" else int(rng.integers(1, 4))
        ctx.count("smaller_than_window", min(nr, nc) < 2 * sr + 1)
        lam, off, dth, sat = float(rng.uniform(.3, 3)), float(rng.choice([0, 0, .7])), float(rng.choice([0, .5])), bool(rng.random() < .7)
        dev = dict(unified=bool(rng.random() < .3) and not ray)
        if which == "tiles":
            dev.update(small(rng, s))
        plats = [[dev]]
        if rng.random() < .3:
            plats[0].append(dict(dev))
        mask = None
        if rng.random() < .3:
            mask = (rng.random((H, W)) < .6).astype(np.uint8); mask[H // 2, W // 2] = 1
        m = nl.automask(H, W) if mask is None else mask
        own = rng.random() < .4
        info = nl.info_of(s, it=it, sr=sr, lam=lam, offset=off, dthresh=dth, saturation=sat, device=dev, ray=ray, mask=mask is not None, own_sigma=own)
        cls = (nlpar_clray if ray else nlpar_cl).NLPAR
        r = nl.Run(ctx, s, rng, "n%d" % it)
        silent = which == "tiles" and not ray and rng.random() < .3
        fails = {}

        def fault(kind, name, n):
            # the device does nothing, without telling, for a few launches of a tile
            if kind == "kernel" and name == "calcnlpar" and silent:
                k = fails.setdefault("n", 0); fails["n"] += 1
                if k % 2 == 0 and k < 4:
                    ctx.count("silent_failure")
                    return "skip"
        what = "NLPAR of several tiles" if which == "tiles" else "NLPAR"
        with quiet(), ctx.must(what, info), np.errstate(all="ignore"):
            cc.vm.reset(platforms=plats, fill=cc.FILLS[it % 4], order=it % 3 and it, fault=fault)
            if ray:
                plan = {}
                bad = int(rng.integers(0, 3)) if rng.random() < .5 else 0

                def tasks(actor, method, n, idle, args):
                    d = dict(dur=float(rng.uniform(.01, .5)))
                    if plan.setdefault("bad", 0) < bad and rng.random() < .3:
                        plan["bad"] += 1
                        plan["arm"] = True
                    return d
                cc.RT.reset(tasks)
            try:
                kw = dict(searchradius=sr, lam=lam, dthresh=dth, saturation_protect=sat, diff_offset=off, automask=mask is None)
                o = r.obj(cls, mask=mask)
                sig = None
                if own:
                    kind = int(rng.integers(2))
                    sig = np.full((nr, nc), np.float32(rng.uniform(2, 20))) if kind else rng.uniform(2, 20, (nr, nc)).astype(np.float32)
                    o.sigma = float(sig[0, 0]) if kind else sig.copy()
                elif mask is None and rng.random() < .35:
                    # an object that has been used for another scan
                    s0 = nl.scan(rng, fmt="up2", shape=(H, W) if rng.random() < .3 else None, level=False)
                    r0 = nl.Run(ctx, s0, rng, "m%d" % it)
                    cc.vm.reset(platforms=[[dict(unified=False)]])
                    o = r0.obj(cls)
                    r0.nlpar(o, searchradius=1, lam=1.)
                    kw.update(filename=r.path, reset_sigma=True)
                    ctx.count("reused", s0["pats"].shape[1:] != (H, W)); info["reused"] = nl.info_of(s0)
                    r0.clean()
                    cc.vm.reset(platforms=plats, fill=cc.FILLS[it % 4], order=it % 3 and it, fault=fault)
                g = r.nlpar(o, **kw)
                kw.pop("filename", None); kw.pop("reset_sigma", None)
                ref = nlref.sigma(p.astype("f4"), nr, nc, m, sat) if sig is None else sig
                if sig is None:
                    ok = np.isclose(np.minimum(o.sigma, 1e9), np.minimum(ref, 1e9), rtol=1e-3, atol=1e-4)
                    ctx.check(ok.all(), "sigma", lambda: "noise levels used differ from their definition at %s: %s, expected %s" % (np.argwhere(~ok)[:3].tolist(), np.asarray(o.sigma)[~ok][:3], ref[~ok][:3]), info)
                want, lo, hi = nlref.average(p.astype("f4"), nr, nc, np.asarray(o.sigma if sig is None else sig, np.float64), lam, sr, dth, m, sat, off, frac=.9961, wins=nlref.mirror(nr, nc, sr))
                d = np.abs(g.astype(float) - want) - nl.tolerance(lo, hi)
                if p.dtype.kind == "f":
                    d = np.abs(g.astype(float) - want) - nl.tolerance(lo, hi) + .5 - 1e-3 * s["top"]
                ctx.check((d <= 0).all(), "average", lambda: "%d patterns written are not the weighted averages (largest excess %.3g, points %s)" % ((d > 0).any((1, 2)).sum(), d.max(), np.unravel_index(np.flatnonzero((d > 0).any((1, 2)))[:6], (nr, nc))), info)
                cc.launched(ctx, ["calcnlpar"], what, info)
                nt = cc.vm.launches.get("calcnlpar", 0)
                ctx.count("nlpar_tiles", nt > 1 + fails.get("n", 0)); ctx.count("nlpar_distributed", ray)
                if rng.random() < .25 and np.dtype(g.dtype).kind == "u":
                    o2 = r.obj(cls, mask=mask); o2.sigma = np.array(o.sigma)
                    g = r.nlpar(o2, **dict(kw, rescale=True))
                    want, lo, hi = nlref.average(p.astype("f4"), nr, nc, np.asarray(o.sigma, np.float64), lam, sr, dth, m, sat, off, frac=.9961, wins=nlref.mirror(nr, nc, sr))
                    mn, mx = want.min((1, 2), keepdims=True), want.max((1, 2), keepdims=True)
                    top = np.iinfo(g.dtype).max
                    k = (mx > mn + .02 * s["top"])[:, 0, 0]
                    t = .5 + 1e-3 + top / np.maximum(mx - mn, 1) * (nl.tolerance(lo, hi) - .5) * 3
                    e = np.abs(g - (want - mn) / np.maximum(mx - mn, 1) * top) - t
                    ctx.check((e <= 0)[k].all(), "rescale", "rescaled patterns are not the averages stretched to the full range (excess %.3g)" % e[k].max(initial=-1), info)
                    ctx.count("rescale")
                cc.sound(ctx, what, info)
                ctx.count("nlpar"); ctx.case([info, float(p.sum())], sample=info)
            finally:
                if ray:
                    cc.RT.shutdown()
            ctx.check(r.unchanged(), "changed", "the pattern file was changed", info)
        r.clean()


def part_nlpar(ctx):
    run_nlpar(ctx, ctx.n(80, 1200), "model")


def part_tiles(ctx):
    run_nlpar(ctx, ctx.n(80, 1200), "tiles")
    # tiles leave no point out, and overlap as asked
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    o = NLPAR.__new__(NLPAR)
    for it in range(ctx.n(3000, 60000)):
        nc, nr = int(rng.integers(1, 60)), int(rng.integers(1, 60))
        ov = int(rng.integers(0, 11)); dim = [int(rng.integers(2, 200)), int(rng.integers(2, 200))]
        t = int(8 * dim[0] * dim[1] * nc * nr / rng.uniform(.3, 40)) + 8
        info = dict(nc=nc, nr=nr, overlap=ov, dim=dim, target=t)
        with quiet(), ctx.must("tiles of a scan", info):
            a, b, C, R = o._calcchunks(dim, nc, nr, target_bytes=t, col_overlap=ov, row_overlap=ov)
        ok = len(C) == a and len(R) == b
        for X, n in ((C, nc), (R, nr)):
            X = np.asarray(X)
            c = X.copy(); c[1:, 0] += ov; c[:-1, 1] -= ov   # what a tile is responsible for
            ok = ok and X.min() >= 0 and X.max() <= n and c[0, 0] == 0 and c[-1, 1] == n and (c[1:, 0] == c[:-1, 1]).all() and (c[:, 1] > c[:, 0]).all() and (X[1:, 0] <= c[1:, 0] - ov).all()
        ctx.check(ok, "cover", lambda: "tiles of columns %s and rows %s" % (C.tolist(), R.tolist()), info)
        ctx.count("cover"); ctx.case(info, sample=info)


def part_sigma(ctx):
    """noise levels and neighbour distances, for every radius and tiling"""
    cc.setup()
    from pyebsdindex.opencl import nlpar_cl, nlpar_clray
    rng = ctx.rng
    for it in range(ctx.n(80, 1200)):
        s = scan(ctx, it)
        p = s["pats"]; nr, nc = s["nr"], s["nc"]; H, W = p.shape[1:]
        nn = int(rng.choice([1, 1, 2, 3])); sat = bool(rng.random() < .7); ray = it % 3 == 2; norm = bool(rng.random() < .4)
        dev = dict(unified=False)
        if it % 2:
            dev.update(small(rng, s, nn))
        info = nl.info_of(s, it=it, nn=nn, saturation=sat, ray=ray, normalized=norm, device=dev)
        r = nl.Run(ctx, s, rng, "s%d" % it)
        cls = (nlpar_clray if ray else nlpar_cl).NLPAR
        m = nl.automask(H, W)
        with quiet(), ctx.must("sigma", info), hush(), np.errstate(all="ignore"):
            cc.vm.reset(platforms=[[dev]], fill=cc.FILLS[it % 4], order=it)
            cc.RT.reset(lambda *a: dict(dur=float(rng.uniform(.01, .5))))
            try:
                sg, d, n = r.obj(cls).calcsigma(nn=nn, saturation_protect=sat, return_nndist=True, normalize_d=norm, verbose=0)
            finally:
                cc.RT.shutdown()
            cc.sound(ctx, "sigma", info); cc.launched(ctx, ["calcsigma"], "sigma", info)
            f = p.astype("f4")
            ref = nlref.sigma(f, nr, nc, m, sat, nn)
            ok = np.isclose(np.minimum(sg, 1e9), np.minimum(ref, 1e9), rtol=1e-3, atol=1e-4)
            ctx.check(ok.all(), "sigma", lambda: "noise levels differ from their definition at %s: %s, expected %s" % (np.argwhere(~ok)[:3].tolist(), sg[~ok][:3], ref[~ok][:3]), info)
            D, N = nlref.pairs(f, m, nlref.limit(f, sat, .9961))
            w = np.array(nlref.mirror(nr, nc, nn))
            i = np.arange(nr * nc)[:, None]
            got_d, got_n = d.reshape(nr * nc, -1), n.reshape(nr * nc, -1)
            ctx.close(got_n, N[i, w], "sigma-count", "pixels compared with each neighbour", atol=.5, rtol=1e-3, data=info)
            if norm:
                ss = (np.asarray(sg, float).ravel() ** 2); ss = ss[i] + ss[w]
                with np.errstate(all="ignore"):
                    want = (D[i, w] - N[i, w] * ss) / (ss * np.sqrt(2 * N[i, w]))
                k = (w != i) & (N[i, w] > 0) & (ss < 1e9) & (ss > 1e-3)
                t = 1e-3 * (1 + np.abs(want) + np.sqrt(N[i, w]))
            else:
                want = D[i, w]; k = w != i; t = 1e-3 * (1 + np.abs(want))
            e = np.where(k, np.abs(got_d - want) - t, -1)
            ctx.check(e.max() <= 0, "sigma-distance", lambda: "distances to neighbours differ: %s, expected %s" % (got_d[e > 0][:3], want[e > 0][:3]), info)
            ctx.count("sigma"); ctx.count("sigma_tiles", cc.vm.launches.get("calcsigma", 0) > 1); ctx.case([info, float(p.sum())], sample=info)
        r.clean()


def part_lam(ctx):
    cc.setup()
    from pyebsdindex.opencl import nlpar_cl, nlpar_clray
    rng = ctx.rng
    for it in range(ctx.n(30, 400)):
        s = nl.scan(rng, fmt=["up1", "up2"][it % 2], nr=int(rng.integers(3, 9)), nc=int(rng.integers(3, 9)), level=False, dup=False)
        p = s["pats"]; nr, nc = s["nr"], s["nc"]; H, W = p.shape[1:]
        for j in range(len(p)):
            p[j, int(rng.integers(H)), int(rng.integers(W))] = s["top"]
        targets = (.5, .34, .25) if rng.random() < .5 else tuple(np.round(rng.uniform(.2, .8, 2), 3))
        dth = float(rng.choice([0, .3])); ray = it % 3 == 2
        dev = dict(unified=False)
        if it % 2:
            dev.update(small(rng, s))
        info = nl.info_of(s, it=it, targets=targets, dthresh=dth, ray=ray, device=dev)
        r = nl.Run(ctx, s, rng, "l%d" % it)
        cls = (nlpar_clray if ray else nlpar_cl).NLPAR
        m = nl.automask(H, W)
        with quiet(), ctx.must("opt_lambda", info), hush(), np.errstate(all="ignore"):
            cc.vm.reset(platforms=[[dev]], fill=cc.FILLS[it % 4])
            cc.RT.reset(lambda *a: dict(dur=float(rng.uniform(.01, .5))))
            try:
                o = r.obj(cls)
                got = np.asarray(o.opt_lambda(target_weights=list(targets), dthresh=dth, verbose=0))
            finally:
                cc.RT.shutdown()
            cc.sound(ctx, "opt_lambda", info); cc.launched(ctx, ["calcsigma", "normd"], "opt_lambda", info)
            L = nlref.Lambda(p.astype("f4"), nr, nc, m, True, dth, wins=nlref.mirror(nr, nc, 1))
            for t, g in zip(targets, got):
                x, best = L.best(t)
                mine = L.metric(g, t)
                ctx.check(mine <= best + 3e-3 + .03 * best or abs(L.search(t) / g - 1) < .03, "lambda", "lambda %.4f for self-weight %.2f: mean distance %.4f, at %.4f it is %.4f" % (g, t, mine, x, best), info)
            ctx.check(abs(float(o.lam) - np.median(got)) < 1e-6, "lambda-kept", "lambda %s kept, optimised values %s" % (o.lam, got), info)
            ctx.count("lambda"); ctx.case([info, float(p.sum())], sample=info)
        r.clean()


# -- faults ----------------------------------------------------------------
class Broken(Exception):
    pass


def part_fallback(ctx):
    cc.setup()
    import pyopencl as cl
    from pyebsdindex import ebsd_index
    from pyebsdindex.opencl import band_detect_cl, nlpar_clray
    rng = ctx.rng
    err = [cl.RuntimeError, cl.MemoryError, cl.LogicError, cl.Error, MemoryError, OSError]
    for it in range(ctx.n(6, 60)):
        ph, k, geom, P, info = simulated(ctx, it, int(rng.choice([2, 5])), dtype=[np.uint8, np.float32][it % 2])
        with hush():
            b = band_detect_cl.BandDetect(patDim=P.shape[1:])
            want = b.find_bands(P, useCPU=True)
            ix = ebsd_index.EBSDIndexer(phaselist=[k], vendor="EDAX", PC=synth.vendor_pc("EDAX", P.shape[1:], *geom), patDim=P.shape[1:])
            ix.bandDetectPlan.useCPU = True
            A = ix.index_pats(P)[0][-1]
            ix.bandDetectPlan.useCPU = False
            cc.vm.reset(); b.find_bands(P, chunksize=2)
        ops = dict(cc.vm.ops)   # how many operations of each kind there are
        for kind in ("platforms", "context", "build", "queue", "buffer", "kernel", "copy", "small_device"):
            for q in range(ctx.n(2, 4)):
                at = int(rng.integers(1, ops.get(kind, 1) + 1)); e = err[int(rng.integers(len(err)))]
                hit = []

                def fault(what, name, n):
                    if what == kind and n >= at:
                        hit.append(name)
                        raise e("injected: %s %d" % (what, n))
                i2 = dict(info, fault=kind, at=at, error=e.__name__, q=q)
                P0 = P.copy()
                with quiet(), ctx.must("band detection on a failing device", i2), hush(), np.errstate(all="ignore"):
                    if kind == "small_device":
                        cc.vm.reset(platforms=[[dict(alloc=int(rng.integers(64, 4000)))]])
                        hit.append("")
                    else:
                        cc.vm.reset(fault=fault)
                    if q % 2:
                        g = ix.index_pats(P)[0][-1]
                        ok = all(cc.same_bytes(g[f], A[f]) for f in ("quat", "iq", "fit", "nmatch"))
                    else:
                        g = b.find_bands(P, chunksize=2)
                        ok = cc.same_bytes(g, want)
                    if not hit:
                        ctx.count("fault_not_reached"); continue
                    ctx.check(ok, "fallback", "results after a failure of the device are not those of the CPU path", i2)
                    ctx.check(cc.same_bytes(P, P0), "changed", "the patterns passed in were changed", i2)
                    ctx.count("fault:" + kind); ctx.case(i2, sample=i2)
                # a device that works again is used again
                cc.vm.reset()
                with quiet(), ctx.must("band detection after a failure", i2), hush():
                    b.find_bands(P)
                    cc.launched(ctx, ["radonSum", "maxlabel"], "after a failure", i2)
    # tiles that fail for a while are done again; those that always fail are reported
    for it in range(ctx.n(12, 120)):
        s = scan(ctx, it, fmts=("up1", "up2"))
        p = s["pats"]; nr, nc = s["nr"], s["nc"]
        dev = dict(unified=False, **small(rng, s))
        always = it % 4 == 3
        k = [0]

        def fault(what, name, n):
            if what == "kernel" and name == "calcnlpar":
                k[0] += 1
                if always or k[0] in bad:
                    ctx.count("failing_tile")
                    raise cl.RuntimeError("injected")
        bad = set(int(x) for x in rng.choice(6, 2, replace=False) + 1)
        r = nl.Run(ctx, s, rng, "t%d" % it)
        info = nl.info_of(s, it=it, device=dev, failing="always" if always else sorted(bad))
        with quiet(), ctx.must("distributed NLPAR on a failing device", info, also=(Broken,)), hush(), np.errstate(all="ignore"):
            cc.vm.reset(platforms=[[dev]], fault=fault)
            cc.RT.reset(lambda *a: dict(dur=float(rng.uniform(.01, .5))), time_limit=300.)
            try:
                o = r.obj(nlpar_clray.NLPAR)
                o.sigma = np.full((nr, nc), 8., np.float32)
                try:
                    g = r.nlpar(o, searchradius=1, lam=1.)
                except Exception as e:
                    if not always:
                        raise
                    ctx.check("injected" in str(e) or isinstance(e, RuntimeError), "tile-error", "a tile that always fails is reported as %r" % e, info)
                    g = None
                if always:
                    ctx.check(g is None, "tile-lost", "NLPAR returned although no tile was calculated", info)
                else:
                    want, lo, hi = nlref.average(p.astype("f4"), nr, nc, np.full((nr, nc), 8.), 1., 1, 0, nl.automask(*p.shape[1:]), True, 0., frac=.9961, wins=nlref.mirror(nr, nc, 1))
                    d = np.abs(g - want) - nl.tolerance(lo, hi)
                    ctx.check((d <= 0).all(), "average", "after failing tiles %d patterns are not the weighted averages" % (d > 0).any((1, 2)).sum(), info)
                ctx.case([info, int(p.sum())], sample=info)
            finally:
                cc.RT.shutdown()
        r.clean()


def part_cluster(ctx):
    """distributed indexing whose workers use the device"""
    cc.setup()
    from pyebsdindex import ebsd_index
    import pyopencl as cl
    rng = ctx.rng
    if not hasattr(ebsd_index, "index_pats_distributed"):
        raise RuntimeError("index_pats_distributed is not available")
    dist.RT = cc.RT
    for it in range(ctx.n(5, 60)):
        n = int(rng.integers(4, 12))
        ph, k, geom, P, info = simulated(ctx, it, n)
        pc = synth.vendor_pc("EDAX", P.shape[1:], *geom)
        kw = dict(phaselist=[k], vendor="EDAX", PC=pc)
        plats = devices(rng)
        cc.vm.reset(platforms=plats)
        with quiet(), ctx.must("indexing on the device", info), hush():
            A = ebsd_index.index_pats(P, **kw)
        for q in range(ctx.n(3, 8)):
            kind = dist.KINDS[int(rng.integers(len(dist.KINDS)))]
            nc_, cs = int(rng.choice([1, 2, 3, 5, 0, -1])), int(rng.choice([2, 3, 5, n, 0, -1]))
            bad = q % 3 == 2
            i2 = dict(info, schedule=kind, ncpu=nc_, chunksize=cs, q=q, faulty=bad, devices=plats)
            c = [0]; limit = int(rng.integers(2, 60))

            def fault(what, name, n_):
                if bad and what in ("kernel", "buffer", "context"):
                    c[0] += 1
                    if c[0] > limit and rng.random() < .5:
                        raise cl.RuntimeError("injected")
            cc.vm.reset(platforms=plats, fault=fault)
            with quiet():
                r = dist.run(ctx, dist.schedule(rng, kind), lambda: ebsd_index.index_pats_distributed(P, ncpu=nc_, chunksize=cs, **kw), "distributed indexing on the device", i2)
                if bad:
                    ok = (A[0][-1]["nmatch"] >= 6)
                    mis = ph.misorientation(r[0][-1]["quat"], A[0][-1]["quat"])[ok]
                    ctx.check(not ok.any() or (mis < 1.).mean() > .7, "cluster-fault", "with a failing device patterns got other orientations: %s" % np.round(np.sort(mis), 2), i2)
                    ctx.check(len(r[0][-1]) == n, "cluster-number", "%d results for %d patterns" % (len(r[0][-1]), n), i2)
                    ctx.count("cluster_fault")
                else:
                    cc.launched(ctx, ["radonSum", "maxlabel"], "distributed indexing", i2); cc.sound(ctx, "distributed indexing", i2)
                    same.compare(ctx, "cluster", "distributed indexing on the device", A[:2], r[:2], [ph.symm], i2, P, lambda p: ebsd_index.index_pats(p[None], **kw)[:2])
                    ctx.count("cluster_gpu")
                ctx.case([i2, dist.order_key()], sample=i2)


def part_entry(ctx):
    """what the package offers under its usual names, for every kind of installation: with a GPU the device does the work, without one the CPU, with the same results"""
    cc.setup()
    import importlib, sys
    import pyopencl as cl
    rng = ctx.rng
    CPU = dict(type=cl.device_type.CPU)
    states = [("no platform", [], 0), ("no device", [[]], 0), ("CPU only", [[CPU]], 0), ("platforms raise", [[{}]], 0), ("no pyopencl", None, 0), ("one GPU", [[{}]], 1), ("CPU, then GPU", [[CPU], [{}]], 1),
              ("GPU, then CPU", [[{}], [CPU]], 1), ("GPU, then nothing", [[{}], []], 1), ("both on one platform", [[CPU, {}]], 1), ("discrete and CPU", [[CPU], [dict(unified=False), {}]], 1)]
    mods = {k: v for k, v in sys.modules.items() if k == "pyopencl" or k.startswith("pyopencl.") or k == "ray" or k.startswith("ray.")}
    ph, k, geom, P, base = simulated(ctx, 0, 4)
    pc = synth.vendor_pc("EDAX", P.shape[1:], *geom)
    first = None
    for it in range(ctx.n(1, 4)):
        for name, plats, gpu in states:
            for ray in (True, False):
                if not ray and ctx.tier == "quick" and name not in ("CPU only", "one GPU", "no pyopencl"):
                    continue
                info = dict(base, installation=name, ray=ray, it=it)
                for m in [m for m in sys.modules if m == "pyebsdindex" or m.startswith("pyebsdindex.")]:
                    del sys.modules[m]
                sys.modules.update(mods)
                if plats is None:
                    sys.modules["pyopencl"] = None
                if not ray:
                    sys.modules["ray"] = None; ctx.count("entry:without_ray")

                def fault(what, n_, n):
                    if what == "platforms":
                        raise cl.LogicError("clGetPlatformIDs failed: PLATFORM_NOT_FOUND_KHR")
                cc.vm.reset(platforms=plats or [], fault=fault if name == "platforms raise" else None)
                s = nl.scan(rng, fmt="up1", nr=int(rng.integers(3, 7)), nc=int(rng.integers(3, 7)), dup=False)
                r = nl.Run(ctx, s, rng, "e")
                with quiet(), ctx.must("the package on an installation with " + name, info, also=(ImportError, AttributeError, NameError)), hush(), np.errstate(all="ignore"):
                    ebsd_index = importlib.import_module("pyebsdindex.ebsd_index"); nlpar = importlib.import_module("pyebsdindex.nlpar"); importlib.import_module("pyebsdindex.pcopt")
                    g = ebsd_index.index_pats(P, phaselist=[k], vendor="EDAX", PC=pc)[0][-1]
                    used = bool(cc.vm.launches.get("radonSum"))
                    ctx.check(used == bool(gpu), "entry-device", "bands were found on the %s" % ("device" if used else "CPU"), info)
                    cc.vm.reset(platforms=plats or [], fault=fault if name == "platforms raise" else None)
                    o = r.obj(nlpar.NLPAR)
                    out = r.nlpar(o, searchradius=1, lam=.9, saturation_protect=False)
                    used = bool(cc.vm.launches.get("calcnlpar"))
                    ctx.check(used == bool(gpu), "entry-device", "NLPAR ran on the %s" % ("device" if used else "CPU"), info)
                    ctx.check(hasattr(ebsd_index, "index_pats_distributed") == ray, "entry-distributed", "distributed indexing is %soffered" % ("" if not ray else "not "), info)
                    if first is None:
                        first = g
                        ctx.check((g["nmatch"] >= 5).all() and (g["fit"] < 2).all(), "entry-index", "patterns not indexed: fit %s, matches %s" % (g["fit"], g["nmatch"]), info)
                    else:
                        mis = ph.misorientation(g["quat"], first["quat"])
                        ctx.check((mis < .8).all(), "entry-index", "orientations differ by %s degrees from those without a device" % np.round(mis, 2), info)
                    m = nl.automask(*s["pats"].shape[1:])
                    sg = nlref.sigma(s["pats"], s["nr"], s["nc"], m, False)
                    want, lo, hi = nlref.average(s["pats"], s["nr"], s["nc"], sg, .9, 1, 0, m, False)
                    y, x = np.divmod(np.arange(s["nr"] * s["nc"]), s["nc"])
                    inner = (y > 0) & (y < s["nr"] - 1) & (x > 0) & (x < s["nc"] - 1)   # the edges are continued in another way on the device
                    e = (np.abs(out - want) - nl.tolerance(lo, hi))[inner]
                    ctx.check((e <= 0).all(), "entry-nlpar", "patterns written are not the weighted averages (excess %.3g)" % e.max(), info)
                    ctx.count("entry:gpu" if gpu else "entry:cpu"); ctx.case(info, sample=info)
                r.clean()
    sys.modules.update(mods)
