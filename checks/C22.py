"""C22: compiled CPU kernels never access memory outside their arrays (numba bounds-check sanitizer, hostile inputs)."""
import os
import numpy as np
from core import *
from patcheck import hush
import synth, patfiles as pf, nlcheck as nl

RULE = ("one case = one call of the public API with hostile patterns, bands, scan shapes or parameters, every numba kernel under it compiled with array bounds checks; a violation is an out-of-bounds index reported by "
        "a kernel or a crash of the process; inputs the code refuses with another error are counted as refused; non-trivial = distinct input")
ASSUMPTIONS = ["numba's bounds checks see every element access of the kernels; negative indices within the array length wrap around, as in Python, and are inside the array"]
ENV = dict(NUMBA_BOUNDSCHECK="1")
PARTS = ["index", "index2", "vote", "radon", "nlpar", "rot"]
PART_ENV = {p: ENV for p in PARTS}
WARM = ["assign", "quest", "label", "vote", "nlavg", "nlsigma", "nlopt"]
WARM_ENVS = [ENV]
MUST_OBSERVE = ["sanitizer_on", "done:index", "done:vote", "done:radon", "done:nlpar", "done:sigma", "done:opt_lambda", "done:rot", "phase_one_family", "blank", "nan", "tiny_detector", "one_band", "many_bands",
                "one_row_scan", "wide_search", "radon_mask", "all_invalid_bands"]
THREADS = 2


def oob(e):
    return type(e) is IndexError and str(e) == "index is out of bounds"


def sanitizer_on(ctx):
    import numba

    @numba.njit
    def f(a, i):
        return a[i]
    try:
        f(np.zeros(3), 7)
    except IndexError as e:
        assert oob(e), e
        ctx.count("sanitizer_on")
        return
    raise RuntimeError("numba bounds checks are off")


def drive(ctx, kind, info, f, sample=None):
    ctx.progress(kind)
    ok = False
    try:
        with hush(), np.errstate(all="ignore"):
            f()
        ok = True
        ctx.count("done:" + kind)
    except (StopPart, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        c = e
        while c is not None and not oob(c):
            c = c.__cause__ or c.__context__
        if c is not None:
            tb = [t for t in __import__("traceback").extract_tb(c.__traceback__) if t.filename.startswith(REPO)]
            where = "%s (line %s)" % (tb[-1].name, tb[-1].lineno) if tb else "?"
            ctx.fail("bounds:" + kind, "%s: a compiled kernel called from %s used an index outside its array" % (kind, where), info)
        else:
            ctx.count("refused:" + kind)
            if os.environ.get("VERIF_VERBOSE"):
                print("refused", kind, type(e).__name__, str(e)[:150], short(info, 200))
    ctx.progress("")
    ctx.case([kind, info], sample=info)
    return ok


def hostile(rng, ctx, n, H, W, dt):
    P = np.empty((n, H, W), np.float64)
    for i in range(n):
        k = int(rng.integers(12))
        y, x = np.mgrid[0:H, 0:W]
        base = 100 + 50 * np.sin(x * rng.uniform(0, 2) + y * rng.uniform(0, 2)) + rng.normal(0, 20, (H, W))
        if k == 0:
            base = np.zeros((H, W)); ctx.count("blank")
        elif k == 1:
            base = np.full((H, W), rng.choice([1., 255., -7., 1e-30]))
        elif k == 2:
            base[int(rng.integers(H)), int(rng.integers(W))] = np.nan; ctx.count("nan")
        elif k == 3:
            base[:] = np.nan
        elif k == 4:
            base[int(rng.integers(H)), int(rng.integers(W))] = rng.choice([np.inf, -np.inf, 1e38, -1e38])
        elif k == 5:
            base *= rng.choice([1e30, 1e-30, -1e20])
        elif k == 6:
            base = np.zeros((H, W)); base[int(rng.integers(H)), int(rng.integers(W))] = 1e4
        elif k == 7:
            base = np.zeros((H, W)); base[int(rng.integers(H))] = 255
        elif k == 8:
            base = np.where((x + y) % 2, 0., 255.)
        elif k == 9:
            base = rng.choice([0., 255.], (H, W))
        elif k == 10:
            for _ in range(9):
                a, b = rng.uniform(0, np.pi), rng.uniform(-.4, .4) * min(H, W)
                base += 150 * np.exp(-(((x - W / 2) * np.cos(a) + (y - H / 2) * np.sin(a) - b) / 1.5) ** 2)
        P[i] = base
    if np.dtype(dt).kind in "ui":
        P = np.clip(np.nan_to_num(P), 0, np.iinfo(dt).max)
    return P.astype(dt)


def phases(rng, ctx):
    out = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(5))
        if k < 2:
            out.append(["FCC", "BCC", "HCP"][int(rng.integers(3))])
        elif k == 2:
            ctx.count("phase_one_family")
            out.append(synth.random_phase(rng, nf=1).indexer())
        else:
            out.append(synth.random_phase(rng, nf=int(rng.integers(2, 7))).indexer())
    return out


def run_index(ctx, count):
    sanitizer_on(ctx)
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(count):
        H, W = [(int(rng.integers(2, 12)), int(rng.integers(2, 12))), (int(rng.integers(12, 70)), int(rng.integers(12, 70))), (int(rng.integers(4, 90)), int(rng.integers(4, 14)))][it % 3]
        if min(H, W) < 12:
            ctx.count("tiny_detector")
        nb = int(rng.choice([1, 2, 3, 4, 7, 9, 12, 18]))
        ctx.count("one_band", nb == 1); ctx.count("many_bands", nb > 9)
        kw = dict(nRho=int(rng.choice([12, 25, 45, 60, 90])), nTheta=int(rng.choice([12, 31, 60, 91, 180])), nBands=nb, rhoMaskFrac=float(rng.choice([0., .1, .15, .5, .9])),
                  tSigma=[None, .5, 1.5, 4.][int(rng.integers(4))], rSigma=[None, .5, 1.5, 4.][int(rng.integers(4))])
        ven = synth.VENDORS[int(rng.integers(5))]
        pc = synth.vendor_pc(ven, (H, W), W * rng.uniform(-.2, 1.2), H * rng.uniform(-.2, 1.2), min(H, W) * rng.uniform(.05, 3))
        P = hostile(rng, ctx, int(rng.integers(1, 7)), H, W, [np.float32, np.float32, np.uint8, np.uint16, np.float64][int(rng.integers(5))])
        info = dict(shape=(H, W), vendor=ven, it=it, patterns=len(P), dtype=str(P.dtype), **kw)
        cs = int(rng.integers(1, 8))

        def f():
            ix = ebsd_index.EBSDIndexer(phaselist=phases(rng, ctx), vendor=ven, PC=pc, patDim=(H, W), **kw)
            if rng.random() < .2:
                ix.bandDetectPlan.EDAXIQ = True
            if rng.random() < .3:
                ix.nband_earlyexit = int(rng.choice([0, 1, 2, 5, 30]))
            if rng.random() < .2:
                ix.bandDetectPlan.collect_background(patsIn=P, nsample=3)
            ix.index_pats(P, chunksize=cs)
            if rng.random() < .3:   # the same indexer for another size
                Q = hostile(rng, ctx, 2, H + int(rng.integers(0, 9)), max(2, W - int(rng.integers(0, 9))), np.float32)
                ix.index_pats(Q)
        drive(ctx, "index", info, f)


def part_index(ctx):
    run_index(ctx, ctx.n(45, 500))


def part_index2(ctx):
    run_index(ctx, ctx.n(45, 500))


def part_vote(ctx):
    """band sets given to the voting and assignment of a phase directly"""
    sanitizer_on(ctx)
    import_repo()
    rng = ctx.rng
    for it in range(ctx.n(22, 200)):
        nf = int(rng.choice([1, 1, 2, 3, 5, 7]))
        ctx.count("phase_one_family", nf == 1)
        ph = synth.random_phase(rng, nf=nf)
        info = dict(sg=ph.sg, families=ph.fams.tolist(), lattice=ph.lat, it=it)
        made = []
        if not drive(ctx, "phase", info, lambda: made.append(ph.indexer())):
            continue
        b = made[0]
        for q in range(ctx.n(14, 30)):
            nb = int(rng.choice([1, 2, 3, 4, 5, 9, 14, 20])); n = int(rng.integers(1, 6))
            N = rng.normal(size=(n, nb, 3))
            k = int(rng.integers(9))
            I = rng.uniform(.5, 2, (n, nb))
            if k == 0:
                N = ph.normals[rng.integers(0, len(ph.normals), (n, nb))]
            elif k == 1:
                N[:] = N[:, :1]
            elif k == 2:
                N[rng.random((n, nb)) < .3] = 0
            elif k == 3:
                N[rng.random((n, nb)) < .2] = np.nan
            elif k == 4:
                I[:] = 0; ctx.count("all_invalid_bands")
            elif k == 5:
                I[rng.random((n, nb)) < .6] = 0
            elif k == 6:
                I[rng.random((n, nb)) < .3] = [np.nan, -1., np.inf, 1e-30][int(rng.integers(4))]
            elif k == 7:      # true bands with noise
                R = np.linalg.qr(rng.normal(size=(3, 3)))[0]
                N = ph.normals[np.array([rng.permutation(len(ph.normals))[np.arange(nb) % len(ph.normals)] for _ in range(n)])] @ R + .003 * rng.normal(size=(n, nb, 3))
            elif k == 8:      # an axis and its repeats
                N = np.eye(3)[rng.integers(0, 3, (n, nb))] * rng.choice([-1, 1], (n, nb, 1))
            with np.errstate(all="ignore"):
                L = np.linalg.norm(N, axis=-1, keepdims=True)
                N = np.where(L > 0, N / np.where(L > 0, L, 1), N).astype(np.float32)
            b.nband_earlyexit = int(rng.choice([0, 1, 3, 8, 50]))
            b.angTol = float(rng.choice([.01, 1., 2., 3., 10., 90.]))
            drive(ctx, "vote", dict(info, q=q, kind=k, bands=nb, n=n, early=b.nband_earlyexit, tol=b.angTol), lambda: b.bandindex(N, band_intensity=I.astype(np.float32)))


def part_radon(ctx):
    sanitizer_on(ctx)
    import_repo()
    from pyebsdindex import radon_fast, band_detect
    rng = ctx.rng
    for it in range(ctx.n(120, 1500)):
        H, W = [int(rng.choice([1, 2, 3, 5, 8, 17, 40, 64])) for _ in range(2)]
        nr, nt = int(rng.choice([1, 2, 5, 20, 90])), int(rng.choice([1, 2, 7, 36, 180]))
        P = hostile(rng, ctx, int(rng.integers(1, 4)), H, W, np.float32)
        pad = np.array([int(rng.integers(0, 6)), int(rng.integers(0, 6))])
        rm = [None, 1., 10., 100.][int(rng.integers(4))]
        mask = rng.random((H, W)) < .6 if rng.random() < .4 else None
        ctx.count("radon_mask", mask is not None)
        art = bool(rng.random() < .3)
        two = bool(rng.random() < .2)
        info = dict(shape=(H, W), nRho=nr, nTheta=nt, n=len(P), pad=pad.tolist(), rhoMax=rm, mask=mask is not None, artifacts=art, it=it)

        def f():
            r = radon_fast.Radon(imageDim=(H, W), nTheta=nt, nRho=nr, rhoMax=rm, mask=mask)
            r.radon_plan_setup(imageDim=(H, W), nTheta=nt, nRho=nr, rhoMax=rm)
            X = P[0] if two else P
            r.radon_faster(X, padding=pad, fixArtifacts=art, normalization=bool(it % 2))
            if it % 4 == 0:   # another size with the same plan object
                r.radon_plan_setup(imageDim=(W + 1, H), nTheta=nt + 1, nRho=nr)
                r.radon_faster(np.ones((2, W + 1, H), np.float32), padding=pad)
            if it % 5 == 0:   # patterns of another size than the plan's
                r.radon_faster(np.ones((2, max(1, H - 1), W + 1), np.float32), padding=pad)
                r.radon_faster(np.ones((1, H + 2, W), np.float32), padding=pad)
        drive(ctx, "radon", info, f)
        if it % 2 == 0:
            def g():
                bd = band_detect.BandDetect(patDim=(H, W), nRho=nr, nTheta=nt, nBands=int(rng.integers(1, 15)), rhoMaskFrac=float(rng.choice([0, .1, .5])))
                bd.find_bands(P, chunksize=int(rng.integers(-1, 3)))
            drive(ctx, "bands", info, g)


def part_nlpar(ctx):
    sanitizer_on(ctx)
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(ctx.n(60, 600)):
        fmt = ["up1", "up2", "oh5", "ebsp4", "h5kikuchipy"][it % 5]
        nr, nc = [(1, int(rng.integers(1, 9))), (int(rng.integers(1, 9)), 1), (int(rng.integers(1, 9)), int(rng.integers(1, 9))), (2, int(rng.integers(1, 14)))][int(rng.integers(4))]
        ctx.count("one_row_scan", min(nr, nc) == 1)
        s = nl.scan(rng, fmt, nr=nr, nc=nc, shape=(int(rng.integers(1, 12)), int(rng.integers(1, 12))), level=False)
        if rng.random() < .3:
            s["pats"][rng.random(len(s["pats"])) < .5] = 0
        if s["pats"].dtype.kind == "f":
            s["pats"] = hostile(rng, ctx, nr * nc, *s["pats"].shape[1:], s["pats"].dtype)
        sr = int(rng.choice([0, 1, 2, 3, 5, 12]))
        ctx.count("wide_search", sr > min(nr, nc))
        ch = int(rng.choice([0, 1, 2, 3, 7]))
        H, W = s["pats"].shape[1:]
        mask = None if rng.random() < .5 else rng.random((H, W)) < rng.choice([0., .2, .9])
        info = nl.info_of(s, it=it, sr=sr, chunk=ch, mask=mask is not None)
        try:
            r = nl.Run(ctx, s, rng, "b%d" % it)
        except Exception as e:     # not a file of this format
            ctx.count("no_file")
            continue
        kw = dict(chunksize=ch, automask=mask is None, saturation_protect=bool(it % 2))
        new = lambda: r.obj(NLPAR, mask=None if mask is None else mask, searchradius=sr, lam=float(rng.choice([0., .5, 1e9])), dthresh=float(rng.choice([0., 1., -3.])))
        drive(ctx, "nlpar", info, lambda: r.nlpar(new(), backsub=bool(rng.random() < .2), rescale=bool(rng.random() < .3), reset_sigma=bool(it % 3), **kw))
        drive(ctx, "sigma", dict(info, nn=it % 5), lambda: new().calcsigma(nn=it % 5, **kw))
        if it % 2 == 0:
            drive(ctx, "opt_lambda", info, lambda: new().opt_lambda(verbose=0, **kw))
        r.clean()


def part_rot(ctx):
    sanitizer_on(ctx)
    import_repo()
    from pyebsdindex import rotlib, misorientation
    rng = ctx.rng
    dim = dict(eu=(3,), om=(3, 3), ax=(4,), ro=(4,), qu=(4,), ho=(3,), cu=(3,))
    names = [n for n in dir(rotlib) if len(n) == 5 and n[2] == "2" and n[:2] in dim and n[3:] in dim]
    if not ctx.thorough:
        names = [n for n in names if hasattr(rotlib, n + "L")]   # those with a kernel of their own
    for n in names:
        f = getattr(rotlib, n)
        sh = dim[n[:2]]
        for q in range(ctx.n(14, 40)):
            m = int(rng.choice([0, 1, 2, 5, 33]))
            x = rng.normal(size=(m,) + sh)
            k = q % 7
            if k == 1:
                x[:] = 0
            elif k == 2:
                x[:] = np.nan
            elif k == 3:
                x *= 1e30
            elif k == 4:
                x = np.round(x)
            elif k == 5:
                x[rng.random(x.shape) < .3] = np.inf
            if q % 5 == 0 and m:
                x = x[0]
            drive(ctx, "rot", dict(function=n, shape=x.shape, kind=k, q=q), lambda: f(x))
    for q in range(ctx.n(20, 100)):
        a, b = rng.normal(size=(int(rng.choice([1, 1, 4, 9])), 4)), rng.normal(size=(int(rng.choice([1, 4, 9])), 4))
        if q % 4 == 0:
            a[:] = np.nan
        info = dict(shapes=(a.shape, b.shape), q=q)
        for n in ("quatnorm", "quatconj", "quatave"):
            drive(ctx, "rot", dict(info, function=n), lambda: getattr(rotlib, n)(b))
        drive(ctx, "rot", dict(info, function="quat_multiply"), lambda: rotlib.quat_multiply(a, b))
        drive(ctx, "misorientation", info, lambda: misorientation.misorientcubic_quick(a.astype(np.float32), b.astype(np.float32)))
