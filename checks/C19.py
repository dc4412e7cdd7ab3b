"""C19: pattern-centre optimisation improves the fit and keeps its inputs."""
import numpy as np
from core import *
from patcheck import hush
import synth

RULE = ("one case = one optimisation (vendor, detector shape, phases, start offset, patterns, single/batch/particle swarm) on patterns of known geometry; non-trivial = distinct input")
ASSUMPTIONS = ["patterns are simulated bands on detectors of 60 to 120 pixels: the true centre is recovered to 1% of the smaller side for six or more noise-free patterns",
               "the start is within 3% of the true centre (10% for the particle swarm)", "fit cost = mean over patterns of fit + number of unmatched bands"]
PARTS = ["simplex", "simplex2", "batch", "swarm", "swarm2"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["vendor:" + v for v in synth.VENDORS] + ["tall", "wide", "square", "start:none", "start:list", "start:array", "start:tuple", "batch", "swarm", "swarm_batch", "swarm_batch:EMSOFT", "close", "snapshot", "two_phases", "one_pattern"]
THREADS = 1


def setting(ctx, it, n, noise=0.):
    rng = ctx.rng
    ks = [["FCC"], ["BCC"], ["HCP"], ["FCC", "BCC"]][int(rng.integers(4))]
    ctx.count("two_phases", len(ks) > 1)
    # two sides of different size order per vendor
    base = int(rng.integers(60, 91))
    shape = [(base, base), (base, base + int(rng.integers(15, 50))), (base + int(rng.integers(15, 50)), base)][it % 3]
    ctx.count(["square", "wide", "tall"][it % 3])
    H, W = shape
    geom = np.array([W * rng.uniform(.4, .6), H * rng.uniform(.45, .7), min(shape) * rng.uniform(.5, .8)])
    Q = rng.normal(size=(n, 4)); Q /= np.linalg.norm(Q, axis=1)[:, None]
    ph = synth.generic(ks[int(rng.integers(len(ks)))])
    return dict(ks=ks, shape=shape, geom=geom, P=synth.patterns(rng, ph, Q, shape, geom, noise=noise))


def start_of(ctx, ven, st, limit):
    off = ctx.rng.uniform(-limit, limit, 3) * min(st["shape"])
    return np.array(synth.vendor_pc(ven, st["shape"], *(st["geom"] + off))), off


def pixels(ven, shape, pc):
    """(u, v, L) in pixels of a vendor's pattern centre"""
    H, W = shape
    p = np.asarray(pc, float)
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    r = {"EDAX": lambda: (x * W, y * H, z * min(H, W)), "OXFORD": lambda: (x * W, y * W, z * W), "BRUKER": lambda: (x * W, (1 - y) * H, z * H), "KIKUCHIPY": lambda: (x * W, (1 - y) * H, z * H),
         "EMSOFT": lambda: (W / 2 - x, y + H / 2, z / p[..., 3])}[ven]()
    return np.stack(r, -1)


def cost(ix, P, pc):
    pc = np.asarray(pc, float)
    out = []
    for e in (0, 1e-6, -1e-6, 3e-6):
        d = ix.index_pats(P, PC=pc * (1 + e))[0][-1]
        bad = d["fit"] >= 90
        nb = ix.bandDetectPlan.nBands
        out.append(np.where(bad, 4. * (nb + 1), d["fit"] + nb - d["nmatch"]))
    return np.array(out)


def state(ix):
    b = ix.bandDetectPlan
    return dict(PC=np.array(ix.PC, float), vendor=ix.vendor, sampleTilt=ix.sampleTilt, camElev=ix.camElev, patDim=np.array(b.patDim), nBands=b.nBands, nRho=b.nRho, nTheta=b.nTheta, phases=len(ix.phaseLib))


def equal(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a)


class Case:
    """one optimisation with snapshots of everything passed in"""

    again = None

    def __init__(self, ctx, it, st, ven, start, kw, info):
        from pyebsdindex import ebsd_index
        self.ctx, self.st, self.ven, self.info = ctx, st, ven, info
        self.how = ["none", "list", "array", "tuple"][int(ctx.rng.integers(4))]
        self.start = start
        other = np.array(synth.vendor_pc(ven, st["shape"], *(st["geom"] * [1.05, .93, 1.08])))
        own = start if self.how == "none" else other
        pc = own.tolist() if ctx.rng.random() < .5 else own.copy()
        self.ix = ebsd_index.EBSDIndexer(phaselist=list(st["ks"]), vendor=ven, PC=pc, patDim=st["shape"], **kw)
        self.PC0 = {"none": None, "list": start.tolist(), "array": start.copy(), "tuple": tuple(start.tolist())}[self.how]
        self.P = st["P"].copy()
        self.before = state(self.ix)
        self.ref = self.ix.index_pats(self.P[:2])[0]
        self.pc_in = (pc, np.array(pc, float))

    def unchanged(self):
        c, i = self.ctx, self.info
        c.count("start:" + self.how)
        c.count("vendor:" + self.ven)
        if self.PC0 is not None:
            c.check(np.array_equal(np.asarray(self.PC0, float), self.start), "start-changed", "the starting pattern centre passed in became %s, was %s" % (self.PC0, self.start), i)
        c.check(np.array_equal(np.asarray(self.pc_in[0], float), self.pc_in[1]), "start-changed", "the pattern centre the indexer was made with became %s, was %s" % (self.pc_in[0], self.pc_in[1]), i)
        c.check(np.array_equal(self.P, self.st["P"]), "patterns-changed", "the patterns changed", i)
        a = state(self.ix)
        c.check(equal(self.before, a), "indexer-changed", "the indexer changed from %s to %s" % (self.before, a), i)
        r = self.ix.index_pats(self.P[:2])[0]
        c.check(np.array_equal(r["phase"], self.ref["phase"]) and np.allclose(r["quat"], self.ref["quat"], atol=1e-5) and np.allclose(r["fit"], self.ref["fit"], atol=1e-4),
                "indexer-changed", "the indexer indexes the same patterns otherwise after the optimisation", i)
        c.count("snapshot")

    def judge(self, r, shape, close=None, limit=None):
        """r: the result; close: largest error in fractions of the smaller side"""
        c, i = self.ctx, dict(self.info, start=self.start.tolist(), result=np.asarray(r).tolist())
        n = 4 if self.ven == "EMSOFT" else 3
        want = shape + (n,)
        if not c.check(np.shape(r) == want, "shape", "result has shape %s, expected %s" % (np.shape(r), want), i):
            return
        if self.ven == "EMSOFT":
            c.check(np.allclose(np.asarray(r)[..., 3], self.start[3]), "pixel-size", "pixel size %s, was %s" % (np.asarray(r)[..., 3], self.start[3]), i)
        m = min(self.st["shape"])
        with c.must("indexing with the optimised centre", i):
            if shape == ():
                f0, f1 = cost(self.ix, self.P, self.start).mean(1), cost(self.ix, self.P, r).mean(1)
                c.check(f1.min() <= f0.max() + 2e-3, "worse", "mean fit cost %.4f with the optimised centre, %.4f with the start" % (f1.min(), f0.max()), i)
            else:
                f0 = cost(self.ix, self.P, self.start)
                for k in range(shape[0]):
                    f1 = cost(self.ix, self.P[k:k + 1], r[k])
                    c.check(f1.min() <= f0[:, k].max() + 2e-3, "worse", "pattern %d: fit cost %.4f with the optimised centre, %.4f with the start" % (k, f1.min(), f0[:, k].max()), i)
        err = np.abs(pixels(self.ven, self.st["shape"], r) - self.st["geom"]).max(-1) / m
        if limit is not None:
            s = np.abs(pixels(self.ven, self.st["shape"], r) - pixels(self.ven, self.st["shape"], self.start))
            H, W = self.st["shape"]
            lim = limit * max(H, W) + 1e-3     # the limit is in the units of the vendor
            c.check((s <= lim).all(), "limit", "the result is further from the start than the search limit", i)
        if close is not None:
            c.count("close")
            e = np.median(err)
            c.count("error<%s" % next(x for x in (.002, .005, .01, .015, .03, 9) if e < x))
            if e > close:
                # the search may stop in a side minimum: it counts when two out of two other settings miss as well
                others = [self.again() for _ in range(2)] if self.again else []
                c.count("retried")
                c.check(others and min(others) <= close, "not-found", "the centre found is off by %.4f of the smaller side (%s px, true %s); other settings: %s" %
                        (e, pixels(self.ven, self.st["shape"], r).tolist(), self.st["geom"].tolist(), np.round(others, 4)), i)
        c.case(i, sample=i)

    def error(self, r):
        return float(np.median(np.abs(pixels(self.ven, self.st["shape"], r) - self.st["geom"]).max(-1)) / min(self.st["shape"]))


def again(ctx, it, n, ven, limit, kw, run):
    """the error of the same kind of optimisation for another setting"""
    def f():
        st = setting(ctx, it, n)
        start, off = start_of(ctx, ven, st, limit)
        c = Case(ctx, it, st, ven, start, kw, {})
        return c.error(run(c))
    return f


import os


def run_simplex(ctx, count):
    import_repo()
    from pyebsdindex import pcopt
    for it in range(count):
        n = [6, 8, 10][it % 3]
        st = setting(ctx, it, n, noise=[0., .01][it % 2])
        for ven in synth.VENDORS:
            start, off = start_of(ctx, ven, st, .03)
            kw = [dict(), dict(tSigma=None, rSigma=None), dict(nBands=10)][it % 3]
            info = dict(mode="simplex", vendor=ven, shape=st["shape"], phases=st["ks"], n=n, offset=np.round(off, 2).tolist(), it=it)
            with quiet(), ctx.must("optimize", info, also=(TypeError, ValueError)), hush():
                c = Case(ctx, it, st, ven, start, kw, info)
                c.again = again(ctx, it, n, ven, .03, kw, lambda c: pcopt.optimize(c.P, c.ix, PC0=c.PC0))
                r = pcopt.optimize(c.P, c.ix, PC0=c.PC0)
                c.unchanged()
                c.judge(r, (), close=.015)


def part_simplex(ctx):
    run_simplex(ctx, ctx.n(4, 40))


def part_simplex2(ctx):
    run_simplex(ctx, ctx.n(4, 40))


def part_batch(ctx):
    import_repo()
    from pyebsdindex import pcopt
    for it in range(ctx.n(3, 24)):
        n = [1, 4, 5][it % 3]
        st = setting(ctx, it + it // 3, n)
        for ven in synth.VENDORS:
            start, off = start_of(ctx, ven, st, .02)
            info = dict(mode="batch", vendor=ven, shape=st["shape"], phases=st["ks"], n=n, offset=np.round(off, 2).tolist(), it=it)
            with quiet(), ctx.must("optimize each pattern", info, also=(TypeError, ValueError)), hush():
                c = Case(ctx, it, st, ven, start, {}, info)
                c.again = again(ctx, it, n, ven, .02, {}, lambda c: pcopt.optimize(c.P, c.ix, PC0=c.PC0, batch=True))
                r = pcopt.optimize(c.P, c.ix, PC0=c.PC0, batch=True)
                c.unchanged()
                ctx.count("batch"); ctx.count("one_pattern", n == 1)
                c.judge(r, (n,), close=.03 if n > 1 else None)
                if n == 1:
                    with ctx.must("optimize a single 2-D pattern", info, also=(TypeError, ValueError)):
                        r2 = pcopt.optimize(c.P[0], c.ix, PC0=c.PC0)
                    c.judge(r2, ())


def run_swarm(ctx, count):
    import_repo()
    from pyebsdindex import pcopt
    rng = ctx.rng
    for it in range(count):
        st = setting(ctx, it + it // 3, 4)
        for ven in synth.VENDORS:
            start, off = start_of(ctx, ven, st, .06)
            batch = synth.VENDORS[(it + 4) % 5] == ven or bool(rng.random() < .1)
            lim = [.1, [.1, .1, .1], .15][int(rng.integers(3))]
            full = not batch
            info = dict(mode="swarm", vendor=ven, shape=st["shape"], phases=st["ks"], offset=np.round(off, 2).tolist(), it=it, batch=batch, limit=lim)
            np.random.seed(int(rng.integers(1 << 31)))
            with quiet(), ctx.must("optimize_pso", info, also=(TypeError, ValueError, ZeroDivisionError)), hush():
                c = Case(ctx, it, st, ven, start, {}, info)
                k = dict(search_limit=lim, nswarmparticles=25 if full else 6, niter=35 if full else int(rng.choice([1, 3, 6])), verbose=0)
                c.again = again(ctx, it, 4, ven, .06, {}, lambda c: pcopt.optimize_pso(c.P, c.ix, PC0=c.PC0, **k))
                if rng.random() < .5:
                    r, f = pcopt.optimize_pso(c.P, c.ix, PC0=c.PC0, batch=batch, return_cost=True, **k)
                    ctx.check(np.shape(f) == ((4,) if batch else ()), "shape", "costs of shape %s" % (np.shape(f),), info)
                else:
                    r = pcopt.optimize_pso(c.P, c.ix, PC0=c.PC0, batch=batch, **k)
                c.unchanged()
                ctx.count("swarm_batch" if batch else "swarm"); ctx.count("swarm_batch:" + ven, batch)
                c.judge(r, (4,) if batch else (), close=.03 if full else None, limit=.15)


def part_swarm(ctx):
    run_swarm(ctx, ctx.n(4, 30))


def part_swarm2(ctx):
    run_swarm(ctx, ctx.n(4, 30))
