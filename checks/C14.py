"""C14: noise levels and lambda optimisation of NLPAR."""
import numpy as np
import nlref
import nlcheck as nl
import patfiles as pf
from patcheck import hush
from core import import_repo, quiet

RULE = "one case = one noise level map, or one lambda optimisation, compared with a double precision model"
ASSUMPTIONS = ["pixels of more than 0.9961 of the largest value are left out when saturation protection is on; pairs of identical patterns are left out",
               "the optimum is the lambda of least mean distance between self-weight and target, of a search started at one; in chunks the mean over the chunks",
               "for scans in chunks: every row holds a pixel at the largest value of the scan, or saturation protection is off"]
PARTS = ["sigma", "lam", "lam2", "auto"]
MUST_OBSERVE = ["sigma_maps", "sigma_chunked", "identical", "user_mask", "one_pattern", "lambda", "lambda_chunked", "lambda_threshold", "hit", "auto", "chunks_tight", "kept_lambda", "u8", "u16", "larger_neighbourhood"]
WARM = ["nlsigma", "nlopt", "nlavg"]
THREADS = 4


def mask_for(rng, ctx, H, W):
    k = rng.random()
    if k < .6:
        return None, True, nl.automask(H, W)
    if k < .8:
        return None, False, np.ones((H, W))
    m = (rng.random((H, W)) < .6).astype(np.uint8); m[H // 2, W // 2] = 1
    ctx.count("user_mask")
    return m, bool(rng.random() < .5), m


def part_sigma(ctx):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(ctx.n(120, 1500)):
        fmt = str(rng.choice(["up1", "up2", "up2", "ebsp2", "oh5", "tfpat", "h5bruker"]))
        sat = bool(rng.random() < .6)
        s = nl.scan(rng, fmt, nr=1 if rng.random() < .1 else int(rng.integers(1, 12)), nc=1 if rng.random() < .1 else None, level=sat)
        if rng.random() < .1:
            s["pats"][:] = s["pats"][:1].copy()
        H, W = s["pats"].shape[1:]
        um, auto, m = mask_for(rng, ctx, H, W)
        nn = int(rng.choice([1, 1, 1, 2]))
        ch = int(rng.choice([0, 0, 1, 2, 3, max(s["nr"] - 1, 1), s["nr"], s["nr"] + 2]))
        info = nl.info_of(s, it=it, nn=nn, chunk=ch, saturation=sat, automask=auto, mask=um is not None)
        r = nl.Run(ctx, s, rng, "s%d" % it)
        with quiet(), ctx.must("calcsigma", info, also=(TypeError, ValueError)):
            o = r.obj(NLPAR, mask=um)
            with hush():
                got = np.asarray(o.calcsigma(chunksize=ch, nn=nn, saturation_protect=sat, automask=auto))
            want = nlref.sigma(s["pats"], s["nr"], s["nc"], m, sat, nn)
            if ctx.check(got.shape == want.shape, "sigma-shape", "noise levels %s for a scan of %s" % (got.shape, want.shape), info):
                big = want > 1e11
                e = np.abs(got - want) / want
                ctx.check((e[~big] < 2e-4).all() and (got[big] > 1e11).all(), "sigma", lambda: "noise levels differ at %s: %s, expected %s" % (
                    np.argwhere(((e >= 2e-4) & ~big) | (big & (got <= 1e11)))[:4].tolist(), got[((e >= 2e-4) & ~big) | (big & (got <= 1e11))][:4], want[((e >= 2e-4) & ~big) | (big & (got <= 1e11))][:4]), info)
                ctx.count("identical", big.any())
            ctx.count("sigma_maps"); ctx.count("sigma_chunked", 0 < ch < s["nr"]); ctx.count("one_pattern", want.size == 1); ctx.count("larger_neighbourhood", nn > 1)
            ctx.count("u8" if s["pats"].dtype == np.uint8 else "u16")
            ctx.case([info, int(s["pats"].sum())], sample=info)
            if nn == 1:
                o = r.obj(NLPAR, mask=um, lam=.9, searchradius=1)
                r.nlpar(o, chunksize=ch, saturation_protect=sat, automask=auto)
                ctx.check(np.asarray(o.sigma).shape == want.shape and np.allclose(np.minimum(o.sigma, 1e11), np.minimum(want, 1e11), rtol=2e-4), "sigma-kept", "noise levels kept by calcnlpar differ", info)
        ctx.check(r.unchanged(), "input-changed", "the input file changed", info)
        r.clean()


def check_lambda(ctx, got, targets, s, m, sat, dth, ch, info):
    nr, nc = s["nr"], s["nc"]
    if not ctx.check(np.shape(got) == (len(targets),) and np.isfinite(got).all(), "lambda-shape", "lambda values %s for %d targets" % (got, len(targets)), info):
        return
    starts = range(0, nr, ch) if ch else [0]
    L = []
    for a in starts:
        b = min(a + ch + 1, nr) if ch else nr
        p = s["pats"][a * nc:b * nc]
        L.append(nlref.Lambda(p, b - a, nc, m, sat, dth))
    for t, g in zip(targets, got):
        if len(L) == 1:
            x, best = L[0].best(t)
            mine = L[0].metric(g, t)
            # a search, which stops at 1e-4, and may stop in a local minimum
            near = [L[0].metric(np.clip(g * k, .001, 10), t) for k in (.8, .9, .95, 1.05, 1.1, 1.25)]
            local = mine <= min(near) + 2e-3 and (best > .1 or mine <= best + .02)
            ctx.check(mine <= best + 2e-3 + .02 * best or local or abs(L[0].search(t) / g - 1) < .03, "lambda", "lambda %.4f for self-weight %.2f: mean distance %.4f, at %.4f it is %.4f" % (g, t, mine, x, best), info)
            if best < .1 and .01 < x < 9:
                w = L[0].self_weight(g).mean()
                ctx.check(abs(w - t) < best + .01, "lambda-weight", "mean self-weight %.3f with the optimised lambda, target %.3f" % (w, t), info)
                ctx.count("hit")
        else:
            x = [q.best(t) for q in L]
            lo, hi = [], []
            for q, (a, b) in zip(L, x):  # all lambdas about as good as the best
                gr = np.geomspace(.001, 10, 400)
                ok = gr[[q.metric(v, t) <= b + 5e-3 + .06 * b for v in gr]]
                lo.append(ok.min() * .97 if len(ok) else a * .95); hi.append(ok.max() * 1.03 if len(ok) else a * 1.05)
            # mixed scans: the search may stop anywhere the distance is flat
            tight = info["single"] and all(v[1] < .1 for v in x) and .2 < t < .6
            a, b = (np.mean(lo), np.mean(hi)) if tight else (0, max(hi) * 1.25)
            ctx.count("chunks_tight", tight)
            ctx.check(a <= g <= b or abs(np.mean([q.search(t) for q in L]) / g - 1) < .1, "lambda-chunks", "lambda %.4f for self-weight %.2f; the mean of the optima of the chunks is %.4f (%.4f to %.4f)" % (g, t, np.mean([v[0] for v in x]), np.mean(lo), np.mean(hi)), info)


def run_lambda(ctx, count):
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(count):
        sat = bool(rng.random() < .6)
        s = nl.scan(rng, "up2" if rng.random() < .6 else "up1", nr=int(rng.integers(3, 10)), nc=int(rng.integers(3, 10)), level=sat, dup=rng.random() < .3)
        single = rng.random() < .6
        if single:  # a single crystal, with the same noise everywhere
            H, W = s["pats"].shape[1:]
            b = .5 + .2 * np.sin(np.arange(W) * .7)[None] * np.cos(np.arange(H) * .5)[:, None]
            s["pats"] = np.round((b + rng.uniform(.02, .08) * rng.normal(size=s["pats"].shape)).clip(0, .95) * s["top"]).astype(s["pats"].dtype)
            s["pats"][np.arange(s["nr"]) * s["nc"], 0, 0] = s["top"]
        H, W = s["pats"].shape[1:]
        um, auto, m = mask_for(rng, ctx, H, W)
        dth = float(rng.choice([0, 0, .3, 1.]))
        ch = int(rng.choice([0, 0, 0, 2, 4]))
        targets = (.5, .34, .25) if rng.random() < .6 else tuple(np.round(rng.uniform(.15, .9, int(rng.integers(1, 4))), 3))
        upd = bool(rng.random() < .7)
        info = nl.info_of(s, it=it, chunk=ch, saturation=sat, dthresh=dth, targets=targets, automask=auto, mask=um is not None, update=upd, single=single)
        r = nl.Run(ctx, s, rng, "o%d" % it)
        with quiet(), ctx.must("opt_lambda", info, also=(TypeError, ValueError)):
            o = r.obj(NLPAR, mask=um, lam=.777)
            kw = {} if targets == (.5, .34, .25) else dict(target_weights=targets)
            with hush():
                got = np.asarray(o.opt_lambda(chunksize=ch, saturation_protect=sat, automask=auto, dthresh=dth, autoupdate=upd, verbose=0, **kw))
            if ch >= s["nr"]:
                ch = 0
            check_lambda(ctx, got, targets, s, m, sat, dth, ch, info)
            if upd:
                ctx.check(abs(float(o.lam) - np.median(got)) < 1e-6, "lambda-kept", "lambda %s kept, optimised values %s" % (o.lam, got), info)
            else:
                ctx.check(o.lam == .777, "lambda-kept", "lambda changed to %s although no update was asked for" % o.lam, info)
                ctx.count("kept_lambda")
            want = nlref.sigma(s["pats"], s["nr"], s["nc"], m, sat)
            ctx.check(np.shape(o.sigma) == want.shape and np.allclose(np.minimum(o.sigma, 1e11), np.minimum(want, 1e11), rtol=2e-4), "sigma-kept", "noise levels kept by opt_lambda differ", info)
            ctx.count("lambda"); ctx.count("lambda_chunked", ch > 0); ctx.count("lambda_threshold", dth > 0)
            ctx.case([info, int(s["pats"].sum())], sample=info)
        ctx.check(r.unchanged(), "input-changed", "the input file changed", info)
        r.clean()


def part_lam(ctx):
    run_lambda(ctx, ctx.n(40, 500))


def part_lam2(ctx):
    run_lambda(ctx, ctx.n(40, 500))


def part_auto(ctx):
    """auto_nlpar: the optimised lambda of the chosen target, then the averaging with it"""
    import_repo()
    from pyebsdindex.nlpar_cpu import NLPAR
    rng = ctx.rng
    for it in range(ctx.n(20, 200)):
        s = nl.scan(rng, "up2" if rng.random() < .6 else "up1", nr=int(rng.integers(3, 9)), nc=int(rng.integers(3, 9)), dup=False)
        k = int(rng.integers(0, 3))
        sr = int(rng.integers(1, 4))
        info = nl.info_of(s, it=it, lindex=k, sr=sr, single=False)
        r = nl.Run(ctx, s, rng, "a%d" % it)
        with quiet(), ctx.must("auto_nlpar", info, also=(TypeError, ValueError)):
            with hush():
                lam = np.asarray(r.obj(NLPAR).opt_lambda(verbose=0))
                o = r.obj(NLPAR)
                out = o.auto_nlpar(lindex=k, searchradius=sr, verbose=0)
            r.made.append(out)
            m = nl.automask(*s["pats"].shape[1:])
            check_lambda(ctx, lam, (.5, .34, .25), s, m, True, 0, 0, info)
            ctx.check(abs(float(o.lam) - lam[k]) < 1e-6, "auto-lambda", "auto_nlpar used lambda %s, optimised values %s, asked for number %d" % (o.lam, lam, k), info)
            got = pf.parse(s["fmt"], out)["pats"]
            want, lo, hi = nlref.average(s["pats"], s["nr"], s["nc"], nlref.sigma(s["pats"], s["nr"], s["nc"], m), lam[k], sr, 0, m)
            ctx.check((np.abs(got - want) <= nl.tolerance(lo, hi)).all(), "auto-average", "patterns of auto_nlpar are not the averages with the optimised lambda", info)
            ctx.count("auto"); ctx.case([info, int(s["pats"].sum())], sample=info)
        r.clean()
