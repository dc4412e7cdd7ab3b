"""C23: OpenCL kernels stay inside their buffers, do not race, and their results do not depend on unset memory or on the order of work-items."""
import numpy as np
from core import *
from patcheck import hush
import clcheck as cc
import nlcheck as nl
import synth

RULE = ("one case = one run of the device path (band detection, Radon transform, convolution, local maximum, labelling, sigma, NLPAR) whose kernels ran instrumented on the stand-in device; the same call is repeated with other contents of unset "
        "memory and other orders of work-items and has to give the same bytes; non-trivial = distinct input")
ASSUMPTIONS = ["the kernels are compiled by clang for the host with every memory access, and arithmetic, instrumented: no device compiler or driver runs",
               "the stand-in runs one work-item after the other in a chosen order: a race is two work-items of a launch touching a byte, one of them writing; kernels use no local memory or barriers",
               "device arithmetic is IEEE single precision"]
PARTS = ["bands", "bands2", "nlpar", "nlpar2", "distributed", "direct"]
WARM = ["clkernels", "clnlpar"]
MUST_OBSERVE = ["kernel:" + k for k in ("loadubyte8", "loaduint16", "loadfloat32", "backSub", "backDiv", "radonSum", "radonFixArt", "radonPadTheta", "radonPadRho2", "convolution3d2d", "imageMinAve", "imageSubMinNormWClip",
                                        "morphDilateKernelBF", "im1EQim2", "maxmask", "maxlabel", "nlloadpat8bit", "nlloadpat16bit", "nlloadpat32flt", "calcsigma", "normd", "calcnlpar")] + \
               ["fill:%d" % i for i in range(4)] + ["order:forward", "order:backward", "order:random", "odd_batch", "not_multiple_of_16", "smaller_than_window", "largest_window", "tiles", "distributed", "unset_memory_read"]
THREADS = 1


def variants(rng, k):
    """k pairs (fill, order): every filling, and forward, backward and random orders"""
    f = rng.permutation(4)
    o = [0, 1, int(rng.integers(2, 1 << 20)), int(rng.integers(2, 1 << 20))]
    o = [o[i] for i in rng.permutation(4)]
    return [(int(f[i % 4]), o[i % 4]) for i in range(k)]


def repeat(ctx, k, device, call, what, info, kernels):
    """call() on devices with other fillings and orders: sound, and the same bytes. Returns the first result"""
    ref = None
    for q, (f, o) in enumerate(variants(ctx.rng, k)):
        cc.vm.reset(platforms=[[dict(device)]], fill=cc.FILLS[f], order=o)
        ctx.count("fill:%d" % f); ctx.count("order:" + ("forward" if o == 0 else "backward" if o == 1 else "random"))
        i2 = dict(info, fill=f, order=o)
        with ctx.must(what, i2), hush(), np.errstate(all="ignore"):
            r = call()
        ctx.count("unset_memory_read", cc.vm.stats()["uninitialised"])
        cc.sound(ctx, what, i2)
        cc.launched(ctx, kernels, what, i2)
        if ref is None:
            ref = (r, f, o)
        else:
            for n, (a, b) in enumerate(zip(ref[0], r)):
                if not cc.same_bytes(a, b):
                    ctx.fail("depends:" + what, "%s: result %d depends on unset memory or on the order of work-items (filling %d, order %d against %d, %d): %s"
                             % (what, n, ref[1], ref[2], f, o, cc.differ(a, b)), i2)
                    return ref[0]
    ctx.case([info, what])
    return ref[0]


def plan(ctx, it):
    """a band detection plan of a random geometry, and patterns"""
    from pyebsdindex.opencl import band_detect_cl
    rng = ctx.rng
    H, W = int(rng.integers(16, 60)), int(rng.integers(16, 60))
    if it % 3 == 0:
        W = H
    n = int(rng.choice([1, 1, 2, 15, 16, 17, 33]))
    ctx.count("odd_batch", n % 16 != 0)
    ctx.count("not_multiple_of_16", (H * W) % 16 != 0)
    kw = dict(nBands=int(rng.choice([3, 6, 9, 14])))
    if rng.random() < .6:
        kw["nTheta"] = int(rng.choice([30, 45, 60, 90, 101]))
        kw["nRho"] = int(rng.choice([18, 30, 45, 51]))
    if rng.random() < .5:
        kw["tSigma"], kw["rSigma"] = float(rng.choice([.5, 1, 2, 4])), float(rng.choice([.5, 1.2, 3]))
    if rng.random() < .5:
        kw["rhoMaskFrac"] = float(rng.choice([0, .05, .15, .4]))
    dt = np.dtype([np.uint8, np.uint16, np.float32, np.float64, np.int16, np.int32][it % 6])
    kind = ["noise", "bands", "flat", "zero", "spots", "saturated"][int(rng.integers(6))]
    if kind == "bands":
        ph = synth.generic("FCC")
        Q = rng.normal(size=(n, 4)); Q /= np.linalg.norm(Q, axis=1)[:, None]
        P = synth.patterns(rng, ph, Q, (H, W), (W * .5, H * .6, min(H, W) * .6))
    elif kind == "noise":
        P = rng.uniform(0, 250, (n, H, W))
    elif kind == "spots":
        P = np.zeros((n, H, W)); P[rng.random(P.shape) < .01] = 200
    else:
        P = np.full((n, H, W), {"flat": 77., "zero": 0., "saturated": 255.}[kind])
    if dt.kind == "f" and rng.random() < .3:
        P = P - 120
    P = P.clip(0, None if dt.kind == "f" else 255).astype(dt) if not (dt.kind == "f") else P.astype(dt)
    with hush():
        b = band_detect_cl.BandDetect(patDim=(H, W), **kw)
    back = rng.random() < .3
    if back:
        b.backgroundsub = rng.uniform(0, 100, (H, W)).astype(np.float32)
    cs = int(rng.choice([528, -1, 1, 7, 16, 20]))
    return b, P, cs, dict(shape=(H, W), n=n, dtype=str(dt), kind=kind, chunksize=cs, background=back, it=it, **kw)


BAND_KERNELS = ["radonSum", "radonPadTheta", "radonPadRho2", "convolution3d2d", "imageMinAve", "imageSubMinNormWClip", "morphDilateKernelBF", "im1EQim2", "maxmask", "maxlabel"]


def bands(ctx):
    cc.setup()
    for it in range(ctx.n(24, 300)):
        with quiet():
            with hush():
                b, P, cs, info = plan(ctx, it)
            P0 = P.copy()
            repeat(ctx, 3, {}, lambda: [b.find_bands(P, chunksize=cs)], "band detection", info, BAND_KERNELS)
            ctx.check(cc.same_bytes(P, P0), "changed", "the patterns passed in were changed", info)


part_bands = part_bands2 = bands


def part_direct(ctx):
    """the steps of band detection called one by one, on arrays and on device buffers; the Radon transform of radon_fast_cl"""
    cc.setup()
    from pyebsdindex.opencl import radon_fast_cl, openclparam
    rng = ctx.rng
    for it in range(ctx.n(18, 300)):
        with quiet():
            b, P, cs, info = plan(ctx, it)
            F = P.astype(np.float32)
            H, W = P.shape[1:]
            method = ["DIVIDE", "SUBTRACT"][it % 2]
            pad = np.array([int(rng.integers(0, 6)), int(rng.integers(1, 6))])
            fix = bool(rng.random() < .5)
            i2 = dict(info, method=method, padding=pad.tolist(), fixArtifacts=fix)

            def radon():
                with hush():
                    r = radon_fast_cl.Radon(imageDim=(H, W), nTheta=b.nTheta, nRho=b.nRho)
                return [r.radon_fasterCL(F, padding=pad, fixArtifacts=fix, background=b.backgroundsub, background_method=method, returnBuff=False)[0]]
            repeat(ctx, 3, {}, radon, "Radon transform", i2, ["radonSum"])

            def steps():
                p = openclparam.OpenClParam(); p.get_queue()
                r, _ = b.radon_fasterCL(P if P.dtype in (np.uint8, np.uint16, np.float32) else F, padding=b.padding, fixArtifacts=fix, background=b.backgroundsub, returnBuff=False, clparams=p)
                c, ave, _ = b.rdn_convCL2(r, clparams=p, returnBuff=False, separableKernel=True)
                m, _ = b.rdn_local_maxCL(c, clparams=p, returnBuff=False)
                n = P.shape[0]
                return [r, c[..., :n], ave[:n], m[0][..., :n]]
            r, c, ave, m = repeat(ctx, 2, {}, steps, "steps of band detection", i2, BAND_KERNELS[:-1])

            def full():
                p = openclparam.OpenClParam(); p.get_queue()
                q, _ = b.radon_fasterCL(F, padding=b.padding, background=b.backgroundsub, returnBuff=True, clparams=p)
                return [x[..., :P.shape[0]] if i == 0 else x[:P.shape[0]] for i, x in enumerate(b.rdn_convCL2(q, clparams=p, returnBuff=False, separableKernel=False)[:2])]
            if it % 3 == 0:
                repeat(ctx, 2, {}, full, "convolution with a full kernel", i2, ["convolution3d2d"])
            repeat(ctx, 2, {}, lambda: list(b.band_labelCL(c.copy(), m.copy())), "labelling of arrays", i2, ["maxlabel"])


def device(ctx, s, sr):
    """half of the devices hold a few tiles of the scan only"""
    rng = ctx.rng
    H, W = s["pats"].shape[1:]
    dev = dict(unified=bool(rng.random() < .3))
    if rng.random() < .5:
        n = s["nr"] * s["nc"]
        # the smallest tile may be the whole scan
        a = int(max(4 * (H * W * n + 64), 4 * n * 225, 4096) * rng.uniform(1, 3))
        dev.update(alloc=a, mem=a * 20)
    return dev


FMT = ["up1", "up2", "ebsp4", "oh5", "up1", "up2"]


def setting(ctx, it):
    rng = ctx.rng
    s = nl.scan(rng, fmt=FMT[it % len(FMT)], level=bool(rng.random() < .5))
    if rng.random() < .2:
        s["pats"][:] = 0
    if s["fmt"] == "oh5" and rng.random() < .7:
        s["pats"] = s["pats"].astype([np.float32, np.float64, np.int32, np.int16][int(rng.integers(4))])
    # radii that are too large are reduced to the largest possible
    sr = int(rng.choice([1, 2, 3, 4, 7])) if it % 8 else int(rng.choice([10, 14]))
    ctx.count("smaller_than_window", min(s["nr"], s["nc"]) < 2 * sr + 1)
    ctx.count("not_multiple_of_16", (s["pats"][0].size % 16) != 0)
    a = dict(searchradius=sr, lam=float(rng.uniform(.3, 3)), dthresh=float(rng.choice([0, .5])), saturation_protect=bool(rng.random() < .6), diff_offset=float(rng.choice([0, .7])), rescale=bool(rng.random() < .2))
    return s, a, nl.info_of(s, it=it, args=a)


def nlpar(ctx, clray=False):
    cc.setup()
    from pyebsdindex.opencl import nlpar_cl, nlpar_clray
    cls = (nlpar_clray if clray else nlpar_cl).NLPAR
    rng = ctx.rng
    what = "distributed NLPAR" if clray else "NLPAR"
    for it in range(ctx.n(120, 1500)):
        s, a, info = setting(ctx, it)
        dev = device(ctx, s, a["searchradius"])
        if clray:
            dev["unified"] = False
        r = nl.Run(ctx, s, rng, "s%d" % it)
        nn = int(rng.choice([1, 1, 2, 3])) if it % 8 != 4 else int(rng.choice([7, 9]))
        ctx.count("largest_window", nn > 6 or a["searchradius"] > 9)
        norm = bool(rng.random() < .5)
        info = dict(info, device=dev, nn=nn, normalized=norm)
        mask = (rng.random(s["pats"].shape[1:]) < .7).astype(np.uint8) if rng.random() < .3 else None

        def call():
            cc.RT.reset()
            try:
                o = r.obj(cls, mask=mask)
                am = dict(automask=mask is None)
                sig = o.calcsigma(nn=nn, saturation_protect=a["saturation_protect"], return_nndist=True, normalize_d=norm, verbose=0, **am)
                o2 = r.obj(cls, mask=mask)
                o2.sigma = np.array(sig[0])
                return list(sig) + [r.nlpar(o2, **a, **am)]
            finally:
                cc.RT.shutdown()
        with quiet():
            repeat(ctx, 3, dev, call, what, info, ["calcsigma", "calcnlpar"] + ["normd"] * norm)
            ctx.count("tiles", cc.vm.launches.get("calcnlpar", 0) > 1)
            ctx.count("distributed", clray)
            ctx.check(r.unchanged(), "changed", "the pattern file was changed", info)
        r.clean()


part_nlpar = part_nlpar2 = nlpar


def part_distributed(ctx):
    nlpar(ctx, clray=True)
