"""C09: band detection reports the true band positions, ranked and flagged."""
import numpy as np
import scipy.ndimage as ndi
from core import *

RULE = ("one case = one pattern handed to a band detector; every band record is judged against a convolved Radon transform built by the monitor, or against the straight "
        "bands drawn into the pattern; non-trivial = distinct pattern content")
ASSUMPTIONS = ["drawn bands are 12 degrees or more apart, a few pixels wide and cross the central part of the pattern; Radon bins are no finer than 0.6 pixels; positions are judged to 1.6 Radon bins plus half a pixel"]
PARTS = ["lines", "records", "contrast", "background"]
WARM = ["label"]
MUST_OBSERVE = ["lines_found", "structure", "rank", "contrast", "fewer_than_asked", "edge_theta", "background", "mask"]
THREADS = 1


def detector(rng, shape, k, **kw):
    from pyebsdindex import band_detect
    cfg = dict(nTheta=180, nRho=90, rhoMaskFrac=.15, tSigma=1., rSigma=1.2, nBands=9)
    if k % 3 == 1:
        cfg.update(nTheta=int(rng.choice([90, 120, 360])), nRho=int(rng.choice([60, 90, 120, 180])), nBands=int(rng.integers(5, 15)))
    if k % 3 == 2:
        cfg.update(rhoMaskFrac=float(rng.choice([.05, .1, .3])), tSigma=float(rng.uniform(.8, 2)), rSigma=float(rng.uniform(1., 2)), nBands=int(rng.integers(1, 20)))
    cfg.update(kw)
    return cfg, band_detect.BandDetect(patDim=shape, **cfg)


def bins(bd, shape):
    return .5 * min(shape) * 2 / bd.nRho, 180. / bd.nTheta


def pos(bd, shape, loc):
    """(rho px, theta deg) of a fractional Radon position"""
    d, t = bins(bd, shape)
    return (loc[..., 0] + 1) * d - .5 * min(shape), loc[..., 1] * t


def separation(r1, t1, r2, t2):
    """rho and theta differences of two lines; (rho, theta) and (-rho, theta+180) are one line"""
    dt = (t1 - t2 + 90) % 180 - 90
    flip = np.round((t1 - t2 - dt) / 180) % 2
    return np.abs(r1 - np.where(flip == 1, -r2, r2)), np.abs(dt)


def draw(shape, lines, width, amp):
    y, x = np.mgrid[0:shape[0], 0:shape[1]].astype(float)
    y -= (shape[0] - 1) / 2; x -= (shape[1] - 1) / 2
    p = np.zeros(shape)
    for (r, t), a in zip(lines, amp):
        p += a * np.exp(-.5 * ((x * np.cos(np.deg2rad(t)) + y * np.sin(np.deg2rad(t)) - r) / width) ** 2)
    return p


def structure(ctx, bd, b, d):
    """what holds for every record whatever the pattern"""
    pad, mask = np.asarray(bd.padding), np.asarray(bd.rdnmask)
    v = b["valid"] == 1
    ctx.check(set(np.unique(b["valid"])) <= {0, 1}, "valid-flag", "valid flag neither 0 nor 1", d)
    ctx.check(b.shape[-1] == bd.nBands, "count", "%d band records, %d requested" % (b.shape[-1], bd.nBands), d)
    for row, vr in zip(b, v):
        k = int(vr.sum())
        ctx.check(vr[:k].all(), "valid-first", "valid bands are not the first ones", d)
        r = row[:k]
        if k < bd.nBands:
            ctx.count("fewer_than_asked")
        ctx.check((np.diff(r["max"]) <= 1e-6 * np.abs(r["max"][:-1])).all(), "order", "bands are not in order of decreasing intensity", d)
        loc = np.round(r["maxloc"]).astype(int)
        ok = (loc >= 0).all() and (loc < mask.shape).all() if k else True
        if ctx.check(ok, "loc-range", "band peak outside the Radon transform", d) and k:
            ctx.check(mask[loc[:, 0], loc[:, 1]].all(), "loc-mask", "band peak outside the Radon mask", d)
            ctx.check(len({tuple(x) for x in loc}) == k, "loc-distinct", "the same peak is reported twice", d)
            ctx.check((np.abs(r["aveloc"] - r["maxloc"]) <= 1.).all(), "aveloc", "refined position more than a bin from the peak", d)
            ctx.check(np.isfinite(r["max"]).all() and np.isfinite(r["aveloc"]).all() and np.isfinite(r["avemax"]).all(), "finite", "non-finite band record", d)
            ctx.check((r["avemax"] <= r["max"] * (1 + 1e-4) + .12).all(), "avemax", "mean of the peak's neighbourhood exceeds the peak", d)
        ctx.count("structure")


def convolved(bd, im):
    """reference Radon peak map of one pattern (interior only is compared)"""
    R = bd.radonPlan.radon_faster(np.ascontiguousarray(im, dtype=np.float32))[..., 0].astype(float)
    p = int(bd.padding[1])
    E = np.concatenate([R[::-1, -p:], R, R[::-1, :p]], 1)
    E = np.pad(E, ((int(bd.padding[0]),) * 2, (0, 0)), mode="edge")
    C = -ndi.gaussian_filter(E, [bd.rSigma, bd.tSigma], order=[2, 0])
    return C[int(bd.padding[0]):-int(bd.padding[0]), p:-p]


def compare(ctx, bd, im, row, d):
    C = convolved(bd, im)
    h = (np.asarray(bd.peakPad) // 2).astype(int)
    P = np.pad(C, ((h[0], h[0]), (0, 0)), mode="edge")
    P = np.concatenate([P[::-1, -h[1]:], P, P[::-1, :h[1]]], 1)
    win = ndi.maximum_filter(P, size=(2 * h[0] + 1, 2 * h[1] + 1))[h[0]:-h[0], h[1]:-h[1]]
    nT = C.shape[1]
    rng_ = np.ptp(C)
    tol = 1e-4 * rng_ + 1e-5 * np.abs(im).max()
    k = int((row["valid"] == 1).sum())
    loc = np.round(row["maxloc"][:k]).astype(int)
    inner = (loc[:, 1] >= h[1] + 1) & (loc[:, 1] < nT - h[1] - 1)
    got = C[loc[:, 0], loc[:, 1]]
    ctx.check((got[inner] >= win[loc[:, 0], loc[:, 1]][inner] - tol).all(), "peak", "a band is not a local maximum of the convolved Radon transform", d)
    # completeness: every clear local maximum inside the mask, away from the ends of the theta range, stronger than the last band, is reported
    strict = (C >= win - 1e-12) & np.asarray(bd.rdnmask)
    m = int(4 * bd.rSigma) + 2 + h[0]  # (and away from the lines that miss the pattern)
    strict[:m] = False; strict[-m:] = False
    strict[:, :h[1] + 1] = False; strict[:, nT - h[1] - 1:] = False
    idx = np.argwhere(strict)
    low = got.min() if k == bd.nBands and k else -np.inf
    for i, j in idx:
        nb = C[max(i - 1, 0):i + 2, j - 1:j + 2]
        if C[i, j] > low + tol and (np.sort(nb.ravel())[-2] < C[i, j] - tol):
            near = np.abs(loc - [i, j]).max(1) <= 0 if k else np.array([False])
            ctx.check(near.any(), "missed", "local maximum %.4g at %s is not reported (weakest band %.4g)" % (C[i, j], (i, j), low), d)
    # intensity is proportional to the peak height
    if k > 1:
        m = row["max"][:k].astype(float)
        a, b = np.argmax(got), np.argmin(got)
        if got[a] - got[b] > 50 * tol:
            s = (m[a] - m[b]) / (got[a] - got[b])
            ctx.check(np.abs((m - m[b]) - s * (got - got[b]))[inner].max(initial=0) < .02 * abs(m[a]), "height", "band intensities are not proportional to the peaks", d)
            ctx.count("rank")


def pattern(rng, shape, kind):
    if kind == "noise":
        return rng.uniform(0, 255, shape)
    if kind == "smooth":
        return ndi.gaussian_filter(rng.normal(size=shape), 2) * 1000 + 500
    if kind == "flat":
        return np.full(shape, rng.uniform(0, 200))
    if kind == "zero":
        return np.zeros(shape)
    if kind == "saturated":
        return np.clip(ndi.gaussian_filter(rng.normal(size=shape), 2) * 1e4, 0, 255)
    if kind == "pixel":
        a = np.zeros(shape); a[tuple(rng.integers(0, s) for s in shape)] = 255
        return a
    if kind == "gradient":
        y, x = np.mgrid[0:shape[0], 0:shape[1]]
        return x * rng.normal() + y * rng.normal() + 100.
    if kind == "lines":
        n = int(rng.integers(1, 12))
        return draw(shape, np.c_[rng.uniform(-.4, .4, n) * min(shape), rng.uniform(0, 180, n)], rng.uniform(.8, 3), rng.uniform(.3, 1, n)) * 100


KINDS = ["noise", "smooth", "flat", "zero", "saturated", "pixel", "gradient", "lines"]


def some_shape(rng):
    return [(60, 60), (120, 120), (48, 64), (64, 48), (40, 40), (96, 72)][int(rng.integers(6))] if rng.random() < .5 else tuple(int(x) for x in rng.integers(30, 130, 2))


def part_records(ctx):
    import_repo()
    rng = ctx.rng
    for k in range(ctx.n(24, 250)):
        with quiet():
            shape = some_shape(rng)
            kw = {}
            if rng.random() < .25:
                m = np.hypot(*(np.mgrid[0:shape[0], 0:shape[1]] - np.array(shape).reshape(2, 1, 1) / 2)) < .5 * min(shape)
                kw["patternmask"] = m.astype(int)
            if rng.random() < .2:
                kw["nBands"] = 60
            with ctx.must("band detector"):
                cfg, bd = detector(rng, shape, k, **kw)
            cfg.pop("patternmask", None)
            d = dict(shape=shape, mask=bool(kw.get("patternmask") is not None), **cfg)
            kinds = [KINDS[int(x)] for x in rng.integers(0, len(KINDS), 5)]
            ims = np.array([pattern(rng, shape, q) for q in kinds])
            ims = ims.astype(rng.choice(["f4", "f8"]))
            if rng.random() < .4:
                ims = np.clip(ims, 0, 255).astype(np.uint8)
            keep = ims.copy()
            with ctx.must("find_bands", d):
                b = bd.find_bands(ims)
            ctx.check(np.array_equal(ims, keep), "input-modified", "patterns were modified", d)
            if not ctx.check(b.shape == (len(ims), bd.nBands), "shape", "band data shape %s" % (b.shape,), d):
                continue
            structure(ctx, bd, b, d)
            if "patternmask" in kw:
                ctx.count("mask")
            for i, q in enumerate(kinds):
                ctx.case(ims[i].tobytes()[:4096] + json.dumps(d).encode(), sample=dict(d, kind=q))
                if q in ("noise", "smooth", "saturated", "lines"):
                    compare(ctx, bd, ims[i], b[i], dict(d, kind=q, image=i))
            with ctx.must("find_bands one by one", d):
                one = np.array([bd.find_bands(im[None])[0] for im in ims])
                ch = bd.find_bands(ims, chunksize=2)
                two = bd.find_bands(ims[0])
            for nm in ("valid", "maxloc", "aveloc", "max"):
                w = [q in ("noise", "smooth", "saturated", "lines", "pixel") for q in kinds]
                ctx.check(np.allclose(b[nm][w], one[nm][w], atol=1e-3, rtol=1e-3), "alone", "%s of a pattern depends on the other patterns" % nm, d)
                ctx.check(np.allclose(b[nm][w], ch[nm][w], atol=1e-3, rtol=1e-3), "chunk", "%s of a pattern depends on the chunk size" % nm, d)
            ctx.check(np.asarray(two).shape == (1, bd.nBands), "2d", "a single 2-D pattern gives shape %s" % (np.asarray(two).shape,), d)


def apart(bd):
    """bands closer in angle than this may share one peak window"""
    return max(12, (max(4 * bd.tSigma, 5) + 4) * 180. / bd.nTheta)


def some_lines(rng, shape, n, edge=False, frac=.15, sep=12):
    out = []
    lim = min(.55, 1 - 2 * frac - .06)
    for _ in range(2000):
        r, t = rng.uniform(-lim, lim) * min(shape) / 2, rng.uniform(0, 180)
        if edge and not out:
            t = rng.uniform(-1.5, 1.5) % 180
        if all(separation(r, t, a, b)[1] > sep for a, b in out):
            out.append((r, t))
        if len(out) == n:
            return out
    return out


def part_lines(ctx):
    import_repo()
    rng = ctx.rng
    for k in range(ctx.n(75, 900)):
        with quiet():
            shape = some_shape(rng)
            n = int(rng.integers(1, 7))
            with ctx.must("band detector"):
                cfg, bd = detector(rng, shape, k, nBands=n + int(rng.integers(3, 8)))
            dr, dt = bins(bd, shape)
            if min(shape) < 48 or dr < .6:  # Radon bins finer than the pixels alias
                continue
            d = dict(shape=shape, **cfg)
            L = [some_lines(rng, shape, n, edge=rng.random() < .4, frac=bd.rhoMaskFrac, sep=apart(bd)) for _ in range(4)]
            w = max(1.2, 1.1 * dr * bd.rSigma, 1.3)
            ims = np.array([draw(shape, l, w, rng.uniform(.8, 1., len(l))) * 100 + 30 for l in L])
            ims += rng.normal(size=ims.shape) * .5
            with ctx.must("find_bands", d):
                b = bd.find_bands(ims.astype(np.float32))
            structure(ctx, bd, b, d)
            for i, l in enumerate(L):
                ctx.case(ims[i].tobytes()[:4096], sample=dict(d, lines=l))
                v = b[i]["valid"] == 1
                r, t = pos(bd, shape, b[i]["aveloc"][v].astype(float))
                for j, (lr, lt) in enumerate(l):
                    a, c = separation(r, t, lr, lt)
                    tr, tt = 1.6 * dr + .5, 1.6 * dt + 60 / min(shape)
                    hit = (a <= tr) & (c <= tt)
                    if not hit.any():
                        q = int(np.argmin(a / tr + c / tt))
                        ctx.fail("line-missed", "band drawn at rho %.2f px theta %.2f deg; nearest reported rho %.2f theta %.2f" % (lr, lt, r[q], t[q]), dict(d, lines=l, which=j, width=w))
                    ctx.count("lines_found", int(hit.any()))
                    if min(lt, 180 - lt) < 2:
                        ctx.count("edge_theta")
                    if len(l) == 1:
                        ctx.check(hit[:1].all(), "line-first", "the only band drawn is not the strongest reported", dict(d, lines=l))


def part_contrast(ctx):
    """brightness, contrast and data type leave the positions and ranking alone"""
    import_repo()
    rng = ctx.rng
    for k in range(ctx.n(16, 150)):
        with quiet():
            shape = some_shape(rng)
            with ctx.must("band detector"):
                cfg, bd = detector(rng, shape, k)
            d = dict(shape=shape, **cfg)
            if bd.nRho * bd.rhoMaskFrac < 4 * bd.rSigma + 2:  # the convolution would see the outside of the pattern
                continue
            n = int(rng.integers(2, min(7, bd.nBands + 1) + 1)) if bd.nBands > 1 else 1
            n = min(n, bd.nBands)
            L = [some_lines(rng, shape, n, frac=bd.rhoMaskFrac, sep=apart(bd)) for _ in range(3)]
            base = np.array([draw(shape, l, 2., rng.uniform(.5, 1., len(l))) for l in L])
            dr, dt = bins(bd, shape)
            base = np.round((base / base.max() * .9 + rng.uniform(0, .05, base.shape)) * 200)
            ref = None
            for c, o, ty in ((1, 0, "f4"), (1, 0, "u1"), (100, 0, "u2"), (100, 5000, "u2"), (.01, 0, "f4"), (1e-4, 0, "f8"), (1, 40, "u1"), (1, 5000, "f4"), (1e4, 0, "f8"), (1, -300, "f4"), (200, 20, "i4")):
                im = (base * c + o).astype(ty)
                with ctx.must("find_bands %s" % ty, d):
                    b = bd.find_bands(im)
                structure(ctx, bd, b, d)
                if ref is None:
                    ref = b
                    continue
                dd = dict(d, contrast=c, brightness=o, type=ty)
                for i, l in enumerate(L):
                    ra, ta = pos(bd, shape, ref["aveloc"][i][ref["valid"][i] == 1].astype(float))
                    rb, tb = pos(bd, shape, b["aveloc"][i][b["valid"][i] == 1].astype(float))
                    for lr, lt in l:
                        e, f = separation(ra, ta, lr, lt)
                        hit = np.argmin(e / dr + f / dt)
                        if e[hit] > 1.6 * dr + .5 or f[hit] > 1.6 * dt + 60 / min(shape):
                            continue  # too weak among the others to be found at all
                        e, f = separation(rb, tb, ra[hit], ta[hit])
                        w = int(np.argmin(e / dr + f / dt))
                        ctx.check(e[w] < .1 * dr and f[w] < .1 * dt, "contrast-position", "band at rho %.2f theta %.2f moved by %.2f px, %.2f deg with contrast x%g brightness %+g" % (lr, lt, e[w], f[w], c, o), dd)
                        ctx.count("contrast_bands")
                ctx.case(im.tobytes()[:4096] + str(dd).encode(), sample=dd)
                ctx.count("contrast")


def part_background(ctx):
    """a background collected from the patterns (array or file, either sampling method) does not move the bands"""
    import_repo()
    from pyebsdindex import ebsd_pattern
    rng = ctx.rng
    for k in range(ctx.n(6, 40)):
        with quiet():
            shape = [(60, 60), (60, 80), (48, 64)][k % 3]
            n = 5
            with ctx.must("band detector"):
                cfg, bd = detector(rng, shape, 0, nBands=10)
            d = dict(shape=shape)
            L = [some_lines(rng, shape, n) for _ in range(24)]
            y, x = np.mgrid[0:shape[0], 0:shape[1]]
            glow = 120 * np.exp(-.5 * (((x - shape[1] * .5) / (.5 * shape[1])) ** 2 + ((y - shape[0] * .45) / (.5 * shape[0])) ** 2))
            ims = (np.array([draw(shape, l, 1.5, np.full(n, 25.)) for l in L]) + glow + rng.normal(size=(24,) + shape)).clip(0, 255).astype(np.uint8)
            path = os.path.join(ctx.scratch, "b%d.up1" % k)
            f = ebsd_pattern.UPFile(path)
            with ctx.must("writing patterns", d):
                o = ebsd_pattern.UPFile(path)
                o.version, o.patternW, o.patternH, o.nCols, o.nRows, o.nPatterns, o.xStep, o.yStep, o.filePos = 3, shape[1], shape[0], 6, 4, 24, 1., 1., 42
                o.bitdepth, o.hexflag, o.extraPatterns = 8, 0, 0
                o.write_header(writeBlank=True)
                o.write_data(newpatterns=ims, patStartCount=[0, -1])
                f.read_header()
            for kw in (dict(patsIn=ims), dict(patsIn=ims, nsample=10), dict(patsIn=ims, nsample=10, method="EVENSTRIDE"), dict(fileobj=f), dict(fileobj=f, nsample=10), dict(fileobj=f, nsample=10, method="evenStride")):
                what = "background from %s %s" % ("file" if "fileobj" in kw else "array", {a: b for a, b in kw.items() if a in ("nsample", "method")})
                with quiet(), ctx.must(what, d):
                    bd.collect_background(**kw)
                    bg = bd.backgroundsub
                    if not ctx.check(np.shape(bg) == shape and np.isfinite(bg).all(), "background-shape", "%s: shape %s" % (what, np.shape(bg)), d):
                        continue
                    b = bd.find_bands(ims)
                    structure(ctx, bd, b, d)
                    dr, dt = bins(bd, shape)
                    miss = 0
                    for i, l in enumerate(L):
                        v = b[i]["valid"] == 1
                        r, t = pos(bd, shape, b[i]["aveloc"][v].astype(float))
                        for lr, lt in l:
                            a, c = separation(r, t, lr, lt)
                            miss += not ((a <= 1.6 * dr + .7) & (c <= 1.6 * dt + 1.5)).any()
                    ctx.check(miss <= 2, "background-bands", "%s: %d of %d bands lost" % (what, miss, n * len(L)), d)
                    ctx.count("background")
                    ctx.case(what + str(k), sample=what)
            bd.backgroundsub = None
