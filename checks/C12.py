"""C12: NLPAR averages every pattern with its neighbours, with the published weights."""
import numpy as np
import nlref
import nlcheck as nl
import patfiles as pf
from core import import_repo, quiet

RULE = "one case = one scan averaged by calcnlpar; every pixel of every output pattern compared with a double precision model of the averaging"
ASSUMPTIONS = ["the search window is (2r+1) x (2r+1) points, moved inside the scan at its edges, and all of a scan that is smaller",
               "pixels of more than 0.999 of the largest value are left out of the comparison when saturation protection is on",
               "diff_offset adds to the weight of the pattern itself"]
PARTS = ["model", "model2", "limits"]
MUST_OBSERVE = ["outputs", "narrow", "one_pattern", "user_sigma", "user_mask", "no_mask", "dthresh", "saturated", "uniform", "tiny_lambda", "rescale", "backsub", "u8", "u16", "averaged"]
WARM = ["nlavg", "nlsigma"]
THREADS = 4


def config(rng, ctx, s, first):
    sr = int(rng.choice([1, 1, 2, 3, 4]))
    H, W = s["pats"].shape[1:]
    c = dict(lam=float(np.round(rng.choice([.4, .7, .9, 1.2, 2.5]) * rng.uniform(.8, 1.2), 3)), sr=sr, dthresh=float(rng.choice([0, 0, 0, .5, 2.])),
             sat=bool(rng.random() < .7), offset=float(rng.choice([0, 0, 0, .4])))
    k = rng.random()
    if k < .5:
        c["mask"] = None; c["automask"] = True; m = nl.automask(H, W)
    elif k < .7:
        c["mask"] = None; c["automask"] = False; m = np.ones((H, W)); ctx.count("no_mask")
    else:
        m = (rng.random((H, W)) < .6).astype(np.uint8); m[H // 2, W // 2] = 1
        c["mask"] = m; c["automask"] = bool(rng.random() < .5); ctx.count("user_mask")
    if s["nr"] < 2 * sr + 1 or s["nc"] < 2 * sr + 1:
        ctx.count("narrow")
    if s["nr"] * s["nc"] == 1:
        ctx.count("one_pattern")
    if c["dthresh"]:
        ctx.count("dthresh")
    if c["sat"]:
        ctx.count("saturated")
    if rng.random() < .3:
        c["sigma"] = (rng.uniform(.01, .2, (s["nr"], s["nc"])) * s["top"]).astype(np.float32) if rng.random() < .6 else [np.float32(rng.uniform(.01, .2) * s["top"])]
        ctx.count("user_sigma")
    return c, m


def run_models(ctx, count):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(count):
        fmt = nl.FMTS[int(rng.integers(len(nl.FMTS)))] if rng.random() < .5 else ("up1" if rng.random() < .5 else "up2")
        s = nl.scan(rng, fmt, nr=1 if rng.random() < .1 else None, nc=1 if rng.random() < .1 else None)
        c, m = config(rng, ctx, s, it == 0)
        info = nl.info_of(s, it=it, **{k: v for k, v in c.items() if k not in ("mask", "sigma")}, mask=None if c["mask"] is None else int(c["mask"].sum()), sigma="sigma" in c)
        r = nl.Run(ctx, s, rng, "m%d" % it)
        with quiet(), ctx.must("NLPAR of a %s scan" % fmt, info, also=(TypeError, ValueError)):
            o = r.obj(NLPAR, lam=c["lam"], searchradius=c["sr"], dthresh=c["dthresh"], diff_offset=c["offset"], mask=c["mask"])
            if "sigma" in c:
                o.sigma = c["sigma"]
            got = r.nlpar(o, automask=c["automask"], saturation_protect=c["sat"])
            sg = np.broadcast_to(np.asarray(c["sigma"]), (s["nr"], s["nc"])) if "sigma" in c else nlref.sigma(s["pats"], s["nr"], s["nc"], m, c["sat"])
            want, lo, hi = nlref.average(s["pats"], s["nr"], s["nc"], sg, c["lam"], c["sr"], c["dthresh"], m, c["sat"], c["offset"])
            if not ctx.check(got.shape == s["pats"].shape and got.dtype == s["pats"].dtype, "shape", "output of %s %s for a scan of %s" % (got.shape, got.dtype, s["pats"].shape), info):
                continue
            e = np.abs(got - want) - nl.tolerance(lo, hi)
            bad = e > 0
            k = np.unravel_index(e.argmax(), e.shape)
            ctx.check(not bad.any(), "average", "%d of %d patterns differ from the weighted average; pattern %d: %s, expected %.4f" % (bad.any((1, 2)).sum(), len(got), k[0], got[k], want[k]), info)
            ctx.check((got >= lo - 1).all() and (got <= hi + 1).all(), "range", "pixels outside of the range of the search window", info)
            ctx.count("outputs", len(got)); ctx.count("u8" if got.dtype == np.uint8 else "u16")
            ctx.count("averaged", int((got != s["pats"]).any((1, 2)).sum()))
            ctx.case([info, int(s["pats"].sum())], sample=info)
        r.clean()


def part_model(ctx):
    run_models(ctx, ctx.n(70, 900))


def part_model2(ctx):
    run_models(ctx, ctx.n(70, 900))


def part_limits(ctx):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    res = []
    for it in range(ctx.n(20, 250)):
        fmt = "up1" if rng.random() < .5 else "up2"
        s = nl.scan(rng, fmt, dup=False)
        info = nl.info_of(s, it=it)
        sr = int(rng.integers(1, 4))
        kind = ["uniform", "tiny_lambda", "rescale", "backsub"][it % 4]
        info["kind"] = kind
        with quiet(), ctx.must("NLPAR of a scan", info, also=(TypeError, ValueError)):
            if kind == "uniform":
                s["pats"][:] = s["pats"][:1].copy()
            if kind == "backsub":  # room for the background to be taken off
                s = nl.scan(rng, "up2", nr=int(rng.integers(2, 6)), nc=int(rng.integers(2, 6)), shape=(int(rng.integers(8, 16)), int(rng.integers(8, 16))), level=False, dup=False)
                y, x = np.mgrid[0:s["pats"].shape[1], 0:s["pats"].shape[2]]
                h, w = s["pats"].shape[1:]
                b = 5000 * np.exp(-((x - w / 2) ** 2 / (.3 * w * w) + (y - h / 2) ** 2 / (.3 * h * h)))
                s["pats"] = (20000 + b[None] + rng.normal(size=s["pats"].shape) * 300).astype(np.uint16)
                s["top"] = 65535
            r = nl.Run(ctx, s, rng, "l%d" % it)
            o = r.obj(NLPAR, lam=1e-4 if kind == "tiny_lambda" else .9, searchradius=sr)
            kw = dict(saturation_protect=False) if kind == "backsub" else {}
            got = r.nlpar(o, **kw)
            if kind == "uniform":
                ctx.check(np.array_equal(got, s["pats"]), "uniform", "averaging identical patterns changed them, by up to %d" % np.abs(got.astype(int) - s["pats"]).max(), info)
            if kind == "tiny_lambda":
                m = nl.automask(*s["pats"].shape[1:])
                dn = nlref.distance(s["pats"], o.sigma, m, nlref.limit(s["pats"], True, .999))
                far = [all(dn[i, j] > 1e-3 for j in w if j != i) for i, w in enumerate(nlref.window(s["nr"], s["nc"], sr))]
                ctx.check(np.array_equal(got[far], s["pats"][far]), "tiny-lambda", "with lambda near zero patterns unlike their neighbours changed", info)
                ctx.count("kept", sum(far))
            if kind == "rescale":
                o = r.obj(NLPAR, lam=.9, searchradius=sr)
                g = r.nlpar(o, rescale=True)
                m = nl.automask(*s["pats"].shape[1:])
                want, lo, hi = nlref.average(s["pats"], s["nr"], s["nc"], o.sigma, .9, sr, 0, m)
                mn, mx = want.min((1, 2), keepdims=True), want.max((1, 2), keepdims=True)
                top = np.iinfo(g.dtype).max
                k = (mx > mn + .02 * s["top"])[:, 0, 0]
                w = (want - mn) / np.maximum(mx - mn, 1) * top
                t = .5 + 1e-3 + top / np.maximum(mx - mn, 1) * (nl.tolerance(lo, hi) - .5) * 3
                ctx.check((np.abs(g - w) <= t)[k].all(), "rescale", "rescaled patterns are not the averages stretched to the full range", info)
            if kind == "backsub":
                o = r.obj(NLPAR, lam=.9, searchradius=sr)
                g = r.nlpar(o, backsub=True, **kw)
                B = got.astype(int) - g
                ctx.check((np.ptp(B, axis=0) <= 2).all(), "backsub", "the background taken off is not the same for all patterns", info)
                ctx.check(abs(B.mean()) < 1.5, "backsub-mean", "the background taken off changes the mean intensity by %.2f" % B.mean(), info)
                bb = b - b.mean()
                c = (B.mean(0) * bb).sum() / max((bb * bb).sum(), 1e-9)
                ctx.check(abs(c - 1) < .5, "backsub-shape", "of a bell-shaped background %.0f%% was taken off" % (100 * c), info)
                e = np.sqrt(((B.mean(0) - B.mean() - bb) ** 2).mean()) / np.sqrt((bb ** 2).mean())
                res.append(e)
            ctx.count(kind); ctx.count("outputs", len(got)); ctx.case([info, int(s["pats"].sum())], sample=info)
            r.clean()
    ctx.check(np.median(res) < .2, "backsub-surface", "what was taken off differs from the bell-shaped background by %s of it" % np.round(np.sort(res)[-9:], 2), dict(residuals=res))
