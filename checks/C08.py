"""C08: the Radon transform is the mean along each line of the unmasked pattern."""
import numpy as np
from core import *

RULE = ("one case = one pattern transformed with one plan (pattern size, Radon grid, rho range, mask, index map, background, data type); every Radon bin is compared with "
        "the mean of the pattern along its line; non-trivial = distinct pattern content")
ASSUMPTIONS = ["a line is sampled at one pixel per column (or per row for steep lines), the nearest one; where the nearest pixel is a tie either neighbour is accepted"]
PARTS = ["values", "values2", "laws", "detector"]
MUST_OBSERVE = ["bins", "masked", "remapped", "ties", "missing", "non_square", "linear", "stack"]


class Ref:
    """line table computed in double precision, straight from the line equation"""

    def __init__(self, dim, nTheta, nRho, rhoMax, mask=None, maskindex=None):
        ny, nx = self.dim = dim
        th = np.arange(nTheta) * np.pi / nTheta
        d = 2. * rhoMax / nRho
        self.theta, self.rho = np.rad2deg(th), (np.arange(nRho) + 1) * d - rhoMax
        self.mask = np.ones(dim, bool) if mask is None else np.asarray(mask) > 0
        self.index = np.arange(ny * nx).reshape(dim) if maskindex is None else np.asarray(maskindex).reshape(dim)
        self.cols = []
        for t in th:
            c, s = np.cos(t), np.sin(t)
            if abs(s) >= np.sqrt(.5) - 1e-6:
                m = np.arange(nx)
                p = (self.rho[:, None] - (m - (nx - 1) / 2) * c) / s + (ny - 1) / 2
                self.cols.append((True, p))
            else:
                m = np.arange(ny)
                p = (self.rho[:, None] - (m - (ny - 1) / 2) * s) / c + (nx - 1) / 2
                self.cols.append((False, p))

    def pick(self, im, ok, q, isx):
        """values and validity of the pixels with rounded coordinate q"""
        ny, nx = self.dim
        m = np.arange(q.shape[1])[None]
        if isx:
            v = (q >= 0) & (q < ny)
            return np.where(v, im[q.clip(0, ny - 1), m], 0), v & ok[q.clip(0, ny - 1), m]
        v = (q >= 0) & (q < nx)
        return np.where(v, im[m, q.clip(0, nx - 1)], 0), v & ok[m, q.clip(0, nx - 1)]

    def transform(self, image, background=None):
        im = np.asarray(image, float)
        if background is not None:
            im = im - background
        ok = self.mask & (self.index >= 0)
        im = im.ravel()[self.index.clip(0).ravel()].reshape(self.dim)
        im = np.where(ok, im, 0)
        val = np.full((len(self.rho), len(self.theta)), np.nan)
        tol = np.zeros_like(val); cnt = np.zeros_like(val); amb = np.zeros_like(val)
        for j, (isx, p) in enumerate(self.cols):
            a, va = self.pick(im, ok, np.floor(p + .5 + 2e-3).astype(int), isx)
            b, vb = self.pick(im, ok, np.floor(p + .5 - 2e-3).astype(int), isx)
            tie = np.floor(p + .5 + 2e-3) != np.floor(p + .5 - 2e-3)
            n = va.sum(1)
            with np.errstate(all="ignore"):
                val[:, j] = (a * va).sum(1) / n
                # a tie may pick the neighbour, which may even be outside: bound the change of the mean
                lo = np.maximum(np.minimum(n, n - (tie & va & ~vb).sum(1)), 1)
                spread = np.where(va & vb, np.abs(a - b), np.where(va | vb, np.abs(np.where(va, a, b) - val[:, j:j + 1]), 0)) * tie
                tol[:, j] = np.nansum(spread, 1) / lo * 1.5
            cnt[:, j] = n
            amb[:, j] = tie.sum(1) * 1000 + ((tie & (va != vb)).sum(1))
        return val, tol, cnt, amb


def compare(ctx, R, ref, image, background, sig, d, scale):
    val, tol, cnt, amb = ref.transform(image, background)
    ties = amb > 0
    lost = (cnt - amb % 1000 <= 0) & (cnt > 0) | (cnt == 0) & (amb % 1000 > 0)  # may or may not be met at all
    lost |= ties & (np.abs(np.abs(ref.theta - 90) - 45) < 1e-3)[None]  # rows or columns may be stepped at exactly 45 degrees
    m = (cnt > 0) & ~lost
    err = np.where(m, np.abs(R - np.where(m, val, 0)), 0)
    bad = m & ~(err <= tol + 1e-4 * scale)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        ctx.fail(sig + "-value", "%d of %d bins wrong; bin (rho %.2f, theta %.2f): %.6g, mean along the line %.6g (%d pixels)" % (
            bad.sum(), m.sum(), ref.rho[i[0]], ref.theta[i[1]], R[i], val[i], cnt[i]), d)
    z = (cnt == 0) & ~lost
    ctx.check((R[z] == -1.).all(), sig + "-missing", "a line that misses the pattern does not hold the missing value", d)
    ctx.count("bins", int(m.sum())); ctx.count("ties", int((ties & m).sum())); ctx.count("missing", int(z.sum()))


def config(rng, k):
    from pyebsdindex import radon_fast
    shape = [(60, 60), (48, 64), (64, 48), (31, 57), (33, 33), (7, 90), (90, 5), (120, 120)][k % 8] if k < 16 else tuple(int(x) for x in rng.integers(4, 100, 2))
    nT, nR = [(180, 90), (90, 45), (60, 31), (36, 20), (45, 61), (181, 90), (4, 6)][int(rng.integers(7))]
    rmax = [None, .5 * min(shape), .5 * max(shape), float(rng.uniform(2, 80))][int(rng.integers(4))]
    mask = mi = None
    if rng.random() < .5:
        mask = [rng.random(shape) > .3, np.hypot(*(np.mgrid[0:shape[0], 0:shape[1]] - np.array(shape).reshape(2, 1, 1) / 2)) < min(shape) / 2,
                np.zeros(shape)][int(rng.choice(3, p=[.45, .5, .05]))].astype(int)
    if rng.random() < .25:
        mi = rng.permutation(shape[0] * shape[1]).reshape(shape)
        if rng.random() < .5:
            mi = np.where(rng.random(shape) < .2, -1, mi)
    d = dict(shape=shape, nTheta=nT, nRho=nR, rhoMax=rmax, mask=mask is not None, maskindex=mi is not None)
    kw = dict(imageDim=shape, nTheta=nT, nRho=nR)
    if rmax is not None:
        kw["rhoMax"] = rmax
    plan = radon_fast.Radon(mask=mask, maskindex=mi, **kw)
    ref = Ref(shape, nT, nR, rmax if rmax is not None else .5 * np.hypot(*shape), mask, mi)
    return d, plan, ref


def image(rng, shape, n, kind=None):
    kind = kind or ["float", "u1", "u2", "flat", "spike", "neg"][int(rng.integers(6))]
    s = (n,) + tuple(shape)
    if kind == "float":
        return rng.uniform(0, 1, s).astype(np.float32)
    if kind == "u1":
        return rng.integers(0, 256, s).astype(np.uint8)
    if kind == "u2":
        return rng.integers(0, 65536, s).astype(np.uint16)
    if kind == "flat":
        return np.full(s, rng.uniform(.1, 200), np.float32)
    if kind == "spike":
        a = np.zeros(s, np.float32); a.reshape(n, -1)[np.arange(n), rng.integers(0, shape[0] * shape[1], n)] = 1000.
        return a
    return rng.normal(0, 50, s)


def values(ctx, n):
    import_repo()
    for k in range(n):
        with quiet():
            with ctx.must("radon plan"):
                d, plan, ref = config(ctx.rng, k)
            ctx.check(np.allclose(plan.theta, ref.theta, atol=1e-3) and np.allclose(plan.rho, ref.rho, atol=1e-3), "axes", "theta/rho axes of the plan are off", d)
            shape = d["shape"]
            nim = int(ctx.rng.integers(1, 5))
            ims = image(ctx.rng, shape, nim)
            keep = ims.copy()
            bg = ctx.rng.uniform(0, 5, shape).astype(np.float32) if ctx.rng.random() < .3 else None
            pad = [(0, 0), (3, 5), (11, 11)][int(ctx.rng.integers(3))]
            scale = float(np.abs(ims).max()) + (5 if bg is not None else 0)
            with ctx.must("radon_faster", d):
                a = plan.radon_faster(ims, padding=np.array(pad), background=bg)
            with ctx.must("radon_fast", d):
                b = plan.radon_fast(ims, padding=np.array(pad), background=bg)
            ctx.check(np.array_equal(ims, keep), "input-modified", "the patterns were modified", d)
            want = (d["nRho"] + 2 * pad[0], d["nTheta"] + 2 * pad[1], nim)
            if not (ctx.check(a.shape == want, "shape", "radon_faster shape %s, expected %s" % (a.shape, want), d)
                    and ctx.check(b.shape == want, "shape-fast", "radon_fast shape %s, expected %s" % (b.shape, want), d)):
                continue
            inner = np.s_[pad[0]:want[0] - pad[0], pad[1]:want[1] - pad[1]]
            for q in range(nim):
                compare(ctx, a[inner][..., q], ref, ims[q], bg, "faster", d, scale)
                compare(ctx, b[inner][..., q], ref, ims[q], bg, "fast", d, scale)
                ctx.case(ims[q].tobytes()[:4096] + json.dumps(d).encode(), sample=dict(d, padding=pad, background=bg is not None))
            out = np.ones(want[:2], bool); out[inner] = False
            ctx.check((a[out] == -1).all(), "padding", "padding does not hold the missing value", d)
            if d["mask"]:
                ctx.count("masked")
            if d["maskindex"]:
                ctx.count("remapped")
            if shape[0] != shape[1]:
                ctx.count("non_square")


def part_values(ctx):
    values(ctx, ctx.n(60, 600))


def part_values2(ctx):
    values(ctx, ctx.n(60, 600))


def part_laws(ctx):
    """linearity, constants, masked pixels, stacks, sums"""
    import_repo()
    rng = ctx.rng
    for k in range(ctx.n(40, 400)):
        with quiet():
            with ctx.must("radon plan"):
                d, plan, ref = config(rng, k)
            shape = d["shape"]
            A, B = image(rng, shape, 1, "float")[0], image(rng, shape, 1, "neg")[0].astype(np.float32)
            f = lambda x, **kw: plan.radon_faster(np.ascontiguousarray(x), **kw)
            with ctx.must("radon laws", d):
                ra, rb = f(A)[..., 0], f(B)[..., 0]
                c1, c2 = rng.uniform(-3, 3, 2)
                rl = f((c1 * A + c2 * B).astype(np.float32))[..., 0]
                rc = f(np.full(shape, 7.5, np.float32))[..., 0]
                stack = f(np.array([A, B, A * 0, B]))
                rs, rn = f(A, normalization=False)[..., 0], f(np.ones(shape, np.float32), normalization=False)[..., 0]
            met = rn > 0
            sc = 1 + np.abs(B).max() * 3
            ctx.check(np.abs(rl - (c1 * ra + c2 * rb))[met].max(initial=0) < 1e-4 * sc, "linear", "transform is not linear", d)
            ctx.count("linear")
            ctx.check(np.abs(rc[met] - 7.5).max(initial=0) < 1e-3, "constant", "a constant pattern is not constant in Radon space", d)
            ctx.check(np.abs(rs - ra * rn)[met].max(initial=0) < 1e-4 * (1 + np.abs(rs).max()), "sum", "the plain line sum is not the mean times the line length", d)
            ctx.check((rc[~met] == -1).all(), "missing", "a line that misses the pattern does not hold the missing value", d)
            for q, w in enumerate((ra, rb, np.where(met, 0, -1), rb)):
                ctx.check(np.array_equal(stack[..., q], w), "stack", "pattern %d of a stack transformed differently from the pattern alone" % q, d)
            ctx.count("stack")
            if d["mask"] and not d["maskindex"]:
                C = A.copy()
                C[~ref.mask] = rng.choice([1e30, np.nan, -5])
                with ctx.must("radon of masked", d):
                    rm = f(C)[..., 0]
                ctx.check(np.array_equal(rm, ra), "mask-ignored", "masked pixels change the transform", d)
                ctx.count("masked")
            ctx.case(A.tobytes()[:2048] + json.dumps(d).encode(), sample=d)


def part_detector(ctx):
    """the plan the band detector builds: mask given to it, changing pattern sizes on one detector"""
    import_repo()
    from pyebsdindex import band_detect
    rng = ctx.rng
    for k in range(ctx.n(10, 80)):
        with quiet():
            bd = None
            shapes = [tuple(int(x) for x in rng.integers(20, 90, 2)) for _ in range(2)]
            nT, nR = int(rng.choice([180, 120, 60])), int(rng.choice([90, 45, 60]))
            frac = float(rng.choice([.1, .3, 0., -.1, 2]))
            for s, shape in enumerate(shapes):
                mask = None
                if s == 0 and rng.random() < .5:
                    mask = (rng.random(shape) > .2).astype(int)
                    shapes[1] = shape
                d = dict(shape=shape, nTheta=nT, nRho=nR, rhoMaskFrac=frac, mask=mask is not None, reused=s > 0)
                with ctx.must("band detector set-up", d):
                    if bd is None:
                        bd = band_detect.BandDetect(patDim=shape, nTheta=nT, nRho=nR, rhoMaskFrac=frac, **({} if mask is None else dict(patternmask=mask)))
                        first = mask
                    else:
                        bd.band_detect_setup(patDim=shape)
                rmax = .5 * min(shape) if 0 < frac < 1 else .5 * np.hypot(*shape)
                ref = Ref(shape, nT, nR, rmax, first)
                im = image(rng, shape, 2, "float")
                with ctx.must("band detector radon", d):
                    R = bd.radonPlan.radon_faster(im)
                for q in range(2):
                    compare(ctx, R[..., q], ref, im[q], None, "detector", d, 1.)
                    ctx.case(im[q].tobytes()[:2048] + json.dumps(d).encode(), sample=d)
                ctx.count("detector_plans")
    # a mask given to an indexer, whether or not the pattern size is known when it is made
    from pyebsdindex import ebsd_index
    for k in range(ctx.n(4, 30)):
        with quiet():
            shape = tuple(int(x) for x in rng.integers(20, 90, 2))
            mask = (rng.random(shape) > .3).astype(int)
            d = dict(shape=shape, indexer=True, size_known=bool(k % 2))
            with ctx.must("indexer with a pattern mask", d):
                ix = ebsd_index.EBSDIndexer(phaselist=[None], patternmask=mask, vendor="EDAX", **(dict(patDim=shape) if k % 2 else {}))
                if not k % 2:
                    ix.update_file(patDim=shape)
                im = image(rng, shape, 1, "float")
                R = ix.bandDetectPlan.radonPlan.radon_faster(im)
            ref = Ref(shape, 180, 90, .5 * min(shape), mask)
            compare(ctx, R[..., 0], ref, im[0], None, "detector", d, 1.)
            ctx.case(im[0].tobytes()[:2048] + json.dumps(d).encode(), sample=d)
            ctx.count("masked")
