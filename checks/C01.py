"""C01: bands of a known crystal -> orientation."""
import numpy as np
from core import *
import rot, synth, xtal

RULE = ("one case = one crystal phase + orientation + set of band normals handed to the band indexer; the returned orientation is compared with the true "
        "one over the crystal's independently generated rotation group and the solution re-scored against the bands; non-trivial = distinct "
        "phase/orientation/band set with at least eight genuine bands")
ASSUMPTIONS = ["the orientation is compared for at least eight genuine bands (for four to seven exact ones, how the solution explains them), noise up to 0.3 degrees per component pair, at most a third spurious bands",
               "where the reflectors have a higher symmetry than the crystal, a pseudo-symmetric answer that explains the bands equally well is accepted (counted as ambiguous)"]
PARTS = ["generic", "special", "low", "mid", "high", "few"]
WARM = ["assign", "quest", "vote"]
MUST_OBSERVE = ["exact", "noisy", "outliers", "low_symmetry", "special_orientations", "few_bands", "half_turns"]
THREADS = 1


def bands(rng, ph, Q, nb, noise, nout, maxz=None):
    """crystal orientation Q (v_crystal = R(Q) v_detector) -> shuffled band normals, genuine mask"""
    v = rot.qrot(rot.qconj(Q)[None], ph.normals)
    ok = np.arange(len(v)) if maxz is None else np.nonzero(np.abs(v[:, 2]) < maxz)[0]
    if len(ok) < nb:
        ok = np.arange(len(v))
    s = rng.permutation(ok)[:nb]
    v = v[s]
    if noise:
        v = v + np.deg2rad(noise) * rng.normal(size=v.shape).clip(-2.5, 2.5) / np.sqrt(2)
    if nout:
        o = rng.normal(size=(nout, 3))
        v = np.concatenate([v, o])
    v = v / np.linalg.norm(v, axis=1)[:, None]
    v *= rng.choice([-1, 1], len(v))[:, None]
    p = rng.permutation(len(v))
    g = np.r_[np.ones(nb, bool), np.zeros(nout, bool)]
    return v[p], g[p]


def deviation(ph, q, v):
    """angle (deg) from each band to the nearest reflector under orientation q"""
    c = np.abs(rot.qrot(np.asarray(q)[None], v) @ ph.normals.T).max(1)
    return np.rad2deg(np.arccos(np.clip(c, -1, 1)))


def drive(ctx, ph, bi, Q, nb, noise, nout, scen, dtype=np.float32, maxz=None):
    B, G = zip(*[bands(ctx.rng, ph, q, nb, noise, nout, maxz) for q in Q])
    B = np.array(B, dtype=dtype)
    keep = B.copy()
    inten = np.ones(B.shape[:2], np.float32) if ctx.rng.random() < .5 else ctx.rng.uniform(.5, 2, B.shape[:2]).astype(np.float32)
    info = dict(sg=ph.sg, lattice=ph.lat, families=ph.fams.tolist(), name=ph.name, nb=nb, noise=noise, spurious=nout)
    with ctx.must("band indexing", info):
        r = bi.bandindex(B, band_intensity=inten)
    ctx.check(np.array_equal(B, keep), "input-modified", "band normals were modified", info)
    q, fit, cm, pm, nm = [np.asarray(x) for x in r[:5]]
    if not ctx.check(q.shape == (len(Q), 4) and len(fit) == len(nm) == len(Q), "shape", "result shapes %s %s" % (q.shape, fit.shape), info):
        return
    mis = ph.misorientation(np.where(np.isfinite(q), q, 0) + 1e-30, Q)
    tol = .12 + 3.0 * noise
    # rarely a pattern is lost to another solution: an accidental one where there are spurious bands, else a twin that explains all bands but one or enough to stop the search
    miss = []
    def verdict(ok, sig, msg, d):
        if not ok and (nout or near):
            miss.append((sig, msg, d))
        else:
            ctx.check(ok, sig, msg, d)
        return ok
    for i in range(len(Q)):
        d = dict(info, orientation=Q[i].tolist(), bands=B[i].tolist(), got=dict(quat=q[i].tolist(), fit=float(fit[i]), nmatch=int(nm[i]), mis=float(mis[i])))
        ctx.case(B[i].tobytes(), sample=dict(sg=ph.sg, nb=nb, noise=noise, spurious=nout, mis=float(mis[i])))
        if not ctx.check(np.isfinite(q[i]).all() and abs(np.linalg.norm(q[i]) - 1) < 1e-4, "unit-" + scen, "orientation is not a unit quaternion", d):
            continue
        dev = deviation(ph, q[i], B[i])
        gdev = dev[G[i]]
        spur = int((dev[~G[i]] < bi.angTol + .3).sum())  # spurious bands that happen to fit: they pull the solution
        bad = mis[i] > tol + 1.5 * (spur > 0)
        if bad and gdev.max() <= bi.angTol + .05 and gdev.mean() <= .1 + 1.5 * noise:
            ctx.count("ambiguous"); bad = False
        k = min(nb - 1, bi.nband_earlyexit)  # the search stops once this many bands fit
        near = np.sort(gdev)[:k].max() < bi.angTol + .05 and np.sort(gdev)[:k].mean() <= .1 + 1.5 * noise
        verdict(not bad, "orientation-" + scen, "orientation off by %.2f deg (matched %d of %d bands)" % (mis[i], nm[i], nb), d)
        if bad:
            continue
        mcount = int((dev < bi.angTol - .1).sum())
        verdict(nm[i] >= min(int((gdev < bi.angTol - .4 - noise).sum()), bi.nband_earlyexit), "nmatch-low-" + scen, "%d bands matched, %d belong to the crystal" % (nm[i], nb), d)
        ctx.check(nm[i] <= int((dev < bi.angTol + .4 + 2 * noise + 2. * (nout > 0)).sum()), "nmatch-high-" + scen, "%d bands matched, only %d fit" % (nm[i], mcount), d)
        if nout == 0:
            ctx.check(fit[i] <= .06 + 2.2 * noise, "fit-" + scen, "fit %.3f deg with noise %.2f" % (fit[i], noise), d)
            if noise:
                ctx.check(fit[i] >= .1 * noise, "fit-zero-" + scen, "fit %.4f deg with noise %.2f" % (fit[i], noise), d)
            else:
                ctx.check(mis[i] < .12 or gdev.max() < .1, "exact-" + scen, "exact bands, orientation off by %.3f" % mis[i], d)
        # each match really is a reflector near its band
        lib = np.asarray(bi.completelib["polesCart"], float)
        m = np.asarray(pm[i])
        okm = (m >= 0) & (dev < bi.angTol - .3)
        if okm.any():
            c = (rot.qrot(q[i][None], B[i][okm].astype(float)) * lib[m[okm]]).sum(1)
            ang = np.rad2deg(np.arccos(np.clip(c, -1, 1)))
            ctx.check((ang < bi.angTol + .5).all(), "polematch-" + scen, "band assigned to a reflector %.2f deg away" % ang.max(), d)
        ctx.count("solved")
    ctx.count("lost", len(miss))
    if len(miss) > (max(3, .05 * len(Q)) if nout else max(1, .01 * len(Q))):
        sig, msg, d = miss[0]
        ctx.fail(sig, "%d of %d patterns (%d spurious bands) went wrong, the first: %s" % (len(miss), len(Q), nout, msg), d)
    ctx.count("exact" if noise == 0 else "noisy", len(Q))
    if nout:
        ctx.count("outliers", len(Q))


def part_generic(ctx):
    import_repo()
    for name in ("FCC", "BCC", "HCP"):
        ph = synth.generic(name)
        with ctx.must("phase " + name):
            bi = ph.indexer()
        for nb, noise, nout, maxz in ((8, 0, 0, .8), (9, .2, 0, .8), (12, .1, 0, None), (8, .15, 2, .8), (9, .3, 3, None), (10, 0, 0, .7), (14, .2, 0, None)):
            with quiet():
                drive(ctx, ph, bi, rot.randq(ctx.rng, ctx.n(60, 1500)), min(nb, len(ph.normals)), noise, nout, name, maxz=maxz)
        if ctx.thorough:
            with quiet():
                drive(ctx, ph, bi, rot.randq(ctx.rng, 20), 9, .1, 0, name + "-double", dtype=np.float64)
        # one pattern given without the leading dimension
        with quiet(), ctx.must("single pattern bands"):
            Q = rot.randq(ctx.rng, 1)
            v, _ = bands(ctx.rng, ph, Q[0], 9, 0, 0)
            r = bi.bandindex(v.astype(np.float32))
            ctx.check(ph.misorientation(np.atleast_2d(r[0]), Q)[0] < .2, "single-2d", "2-D band array indexed wrongly")


def part_special(ctx):
    """orientations on symmetry elements, half turns, aligned crystals"""
    import_repo()
    rng = ctx.rng
    for ph in (synth.generic("FCC"), synth.generic("BCC"), synth.generic("HCP"), synth.Phase(1, [2, 3, 4, 70, 100, 115], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1], [1, -1, 1], [2, 1, 0]]),
               synth.Phase(62, [1.0, 1.31, .84, 90, 90, 90], [[1, 1, 1], [1, 0, 1], [0, 2, 1], [2, 1, 0]])):
        with ctx.must("phase"):
            bi = ph.indexer()
        Q = [np.array([1., 0, 0, 0])]
        for ax in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 0, -1], [1, 1, 1]):
            a = np.array(ax) / np.linalg.norm(ax)
            for w in (180., 179.99, 179.5, 90., 120., 60., 45., 1e-3, 1.):
                h = np.deg2rad(w) / 2
                Q.append(np.r_[np.cos(h) if w != 180 else 0., a * np.sin(h)])
        for _ in range(20):
            a = rng.normal(size=3); a /= np.linalg.norm(a)
            Q.append(np.r_[0., a])
            Q.append(np.r_[np.cos(np.pi / 2 - 1e-7), a * np.sin(np.pi / 2 - 1e-7)])
        for s in ph.symm:
            Q.append(s)
        Q = np.array(Q)
        for nb, noise, nout in ((9, 0, 0), (9, .1, 0), (8, 0, 1)):
            nb = min(nb, len(ph.normals))
            with quiet():
                drive(ctx, ph, bi, Q, nb, noise, nout, "special-sg%d" % ph.sg)
                ctx.count("special_orientations", len(Q))
        # exact half turns about crystal directions, where the closed form of the refinement is singular
        for nb in (6, 9):
            nb = min(nb, len(ph.normals))
            a = rng.integers(-2, 3, (ctx.n(500, 2000), 3)).astype(float)
            a[::2] = np.eye(3)[rng.integers(3, size=len(a[::2]))]
            a[~a.any(1)] = [1, 1, 0]
            Q = np.c_[np.zeros(len(a)), a / np.linalg.norm(a, axis=1)[:, None]]
            B = np.array([bands(rng, ph, q, nb, 0, 0)[0] for q in Q], np.float32)
            info = dict(sg=ph.sg, lattice=ph.lat, families=ph.fams.tolist(), name=ph.name, nb=nb)
            with quiet(), ctx.must("half turns", info):
                r = bi.bandindex(B, band_intensity=np.ones(B.shape[:2], np.float32))
            fit, nm = np.asarray(r[1]), np.asarray(r[4])
            bad = np.nonzero(~(fit < .1) & (nm == nb))[0]
            ctx.check(not len(bad), "half-turn-fit", lambda: "%d exact bands of a crystal turned by 180 degrees: the fit of %d solutions matching all bands is %s" % (nb, len(bad), fit[bad][:4]), dict(info, orientation=Q[bad[:2]].tolist(), bands=B[bad[:2]].tolist()))
            ctx.check((nm == nb).mean() > .95, "half-turn-match", lambda: "%d of %d patterns have all bands matched" % ((nm == nb).sum(), len(nm)), info)
            ctx.count("half_turns", len(Q))
            ctx.cases(len(Q), B.reshape(len(Q), -1))


def laues(ctx, ls, n, cases):
    import_repo()
    for laue in ls * ctx.n(1, 6):
        for _ in range(60):
            ph = synth.random_phase(ctx.rng, laue, int(ctx.rng.integers(6, 11)) if laue < 4 else None)
            a = np.rad2deg(np.arccos(np.clip(np.abs(ph.normals @ ph.normals.T), 0, 1))) + 90 * np.eye(len(ph.normals))
            if 9 <= len(ph.normals) <= 40 and a.min() > 6:
                break
        else:
            ctx.count("no_phase"); continue
        with ctx.must("building a phase", dict(sg=ph.sg, lattice=ph.lat, families=ph.fams.tolist())):
            bi = ph.indexer()
        ctx.count("phases")
        for nb, noise, nout in cases:
            with quiet():
                drive(ctx, ph, bi, rot.randq(ctx.rng, ctx.n(n, 150)), min(nb, len(ph.normals)), noise, nout, "laue%d" % laue)
        if laue < 43:
            ctx.count("low_symmetry")


CASES = ((9, 0, 0), (9, .15, 0), (9, .2, 2))


def part_low(ctx):
    laues(ctx, [1, 2, 22, 1, 2, 22], 20, CASES)


def part_mid(ctx):
    laues(ctx, [4, 42, 3, 32], 25, CASES)


def part_high(ctx):
    laues(ctx, [6, 62, 23, 43], 25, CASES)


def part_few(ctx):
    """four to seven exact bands: the solution explains all of them exactly, though it may be another one than that they were made from"""
    import_repo()
    rng = ctx.rng
    for it in range(ctx.n(9, 60)):
        if it < 3:
            ph = synth.generic(("FCC", "BCC", "HCP")[it])
        else:
            laue = [1, 2, 22, 4, 42, 3, 32, 6, 62, 23, 43][int(rng.integers(11))]
            for _ in range(60):
                ph = synth.random_phase(rng, laue, int(rng.integers(6, 11)) if laue < 4 else None)
                a = np.rad2deg(np.arccos(np.clip(np.abs(ph.normals @ ph.normals.T), 0, 1))) + 90 * np.eye(len(ph.normals))
                if 9 <= len(ph.normals) <= 40 and a.min() > 6:
                    break
            else:
                continue
        info = dict(sg=ph.sg, lattice=ph.lat, families=ph.fams.tolist(), name=ph.name)
        with quiet(), ctx.must("building a phase", info):
            bi = ph.indexer()
        for nb in (4, 5, 6, 7):
            Q = rot.randq(rng, ctx.n(120, 400))
            B = np.array([bands(rng, ph, q, nb, 0, 0)[0] for q in Q], np.float32)
            with quiet(), ctx.must("few bands", info):
                r = bi.bandindex(B, band_intensity=np.ones(B.shape[:2], np.float32))
            q, fit, cm, pm, nm = [np.asarray(x) for x in r[:5]]
            all_ = nm == nb
            exact = all_ & (fit < .2)
            for i in np.nonzero(exact)[0]:
                # the reported solution really does
                dev = deviation(ph, q[i], B[i])
                ctx.check(dev.max() < .5, "few-claimed", "%d bands reported as matched with fit %.3f, the farthest is %.2f deg from a reflector" % (nb, fit[i], dev.max()), dict(info, bands=B[i].tolist()))
                ctx.case(B[i].tobytes())
            n = len(Q)
            ctx.check((all_ & ~exact).sum() <= .015 * n + 1, "few-worse", lambda: "%d exact bands: %d of %d solutions that match all of them fit worse than exactly (fit %s)" % (nb, (all_ & ~exact).sum(), n, np.sort(fit[all_])[-3:]), dict(info, bands=B[np.nonzero(all_ & ~exact)[0][:2]].tolist()))
            ctx.check((~all_).sum() <= (.1 if nb == 4 else .05) * n + 3, "few-unmatched", "%d exact bands: not all of them matched in %d of %d patterns" % (nb, (~all_).sum(), n), info)
            ctx.count("few_bands", int(exact.sum()))
