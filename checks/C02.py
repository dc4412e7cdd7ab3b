"""C02: every index record is consistent with its bands."""
import numpy as np
from core import *
import rot, synth, xtal

RULE = ("one case = one indexed pattern (crystalline, noisy, blank, saturated, too few bands) whose record, in every phase layer and in the summary layer, is recomputed "
        "from the band records returned with it; non-trivial = distinct pattern and phase list")
ASSUMPTIONS = ["the fit is the mean angular deviation of the (up to six) bands used in the refinement, so it lies between the means of the closest and of the farthest bands matched"]
PARTS = ["single", "multi", "few", "poles"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["solved", "unsolved", "multi_phase", "unmatched_bands", "invalid_bands", "poles"]
THREADS = 2


def zoo(rng, shape, geom, phases, n):
    """patterns of every kind; returns patterns and what they are"""
    P, K = [], []
    H, W = shape
    y, x = np.mgrid[0:H, 0:W].astype(float)
    for i in range(n):
        k = rng.integers(10)
        if k < 5:
            ph = phases[rng.integers(len(phases))]
            p = synth.patterns(rng, ph, rot.randq(rng, 1), shape, geom, noise=float(rng.choice([0, .02, .2])))[0]
            K.append("crystal")
        elif k == 5:
            p = 100 + 20 * rng.normal(size=shape); K.append("noise")
        elif k == 6:
            p = np.full(shape, float(rng.choice([0, 1, 255, 65535]))); K.append("blank")
        elif k == 7:
            p = np.full(shape, 20.)
            for _ in range(rng.integers(1, 5)):
                a, r = rng.uniform(0, np.pi), rng.uniform(-.3, .3) * min(shape)
                p += 100 * np.exp(-((x - W / 2) * np.cos(a) + (y - H / 2) * np.sin(a) - r) ** 2 / 8)
            K.append("lines")
        elif k == 8:
            p = np.clip(synth.patterns(rng, phases[0], rot.randq(rng, 1), shape, geom)[0] * 3, 0, 255); K.append("saturated")
        else:
            p = 10 + x + 2 * y if rng.random() < .5 else np.where((x // 8 + y // 8) % 2, 200., 20.); K.append("artificial")
        P.append(p)
    P = np.array(P)
    t = rng.integers(3)
    return (P.astype(np.float32) if t == 0 else np.clip(P, 0, 255).astype(np.uint8) if t == 1 else np.clip(P * 10, 0, 65535).astype(np.uint16)), K


def score(r):
    return (3.0 - r["fit"].astype(float)) * r["nmatch"]


def verify(ctx, ix, libs, d, b, info, kinds=None):
    """libs: list of (BandIndexer) per phase layer"""
    n, nb = b.shape
    nph = len(libs)
    ctx.check(d.shape == (nph + 1, n), "layers", "record array %s for %d phases and %d patterns" % (d.shape, nph, n), info)
    norm = np.asarray(ix.bandDetectPlan.radonPlan.radon2pole(b.copy(), PC=ix.PC, vendor=ix.vendor), float)
    ref = np.broadcast_to(synth.ref2det(ix.vendor, ix.sampleTilt, ix.camElev), (1, 4))
    valid = b["valid"] > 0
    pq = (b["max"] * valid).mean(1)
    for i in range(n):
        nv = int(valid[i].sum())
        if nv < nb:
            ctx.count("invalid_bands")
        ctx.case([info, i, b["aveloc"][i].tolist()], sample=dict(info, kind=kinds[i] if kinds else None, nmatch=d["nmatch"][:, i].tolist(), fit=d["fit"][:, i].tolist()))
        for j in range(nph + 1):
            r = d[j, i]
            dd = dict(info, pattern=i, kind=kinds[i] if kinds else None, layer=j, record={k: np.asarray(r[k]).tolist() for k in ("quat", "phase", "fit", "nmatch", "cm", "pq")},
                      valid=nv, match=b["band_match_index"][i].tolist())
            ctx.check(abs(r["pq"] - pq[i]) <= 1e-3 * abs(pq[i]) + 1e-5, "pq", "pattern quality %g, mean band height %g" % (r["pq"], pq[i]), dd)
            p = int(r["phase"])
            if not ctx.check(p == -1 or (p == j if j < nph else 0 <= p < nph), "phase-id", "layer %d of %d says phase %d" % (j, nph, p), dd):
                continue
            if p == -1:
                ctx.count("unsolved")
                ctx.check(r["nmatch"] == 0 and r["fit"] > 90, "unsolved-fields", "unsolved record has %d matches, fit %.2f" % (r["nmatch"], r["fit"]), dd)
                continue
            ctx.count("solved")
            q = np.asarray(r["quat"], float)
            if not ctx.check(np.isfinite(q).all() and abs(np.linalg.norm(q) - 1) < 1e-4, "unit", "orientation of a solved record is not a unit quaternion", dd):
                continue
            if not ctx.check(3 <= r["nmatch"] <= nv, "nmatch-range", "%d bands matched of %d detected" % (r["nmatch"], nv), dd):
                continue
            lib = np.asarray(libs[p].completelib["polesCart"], float)
            tol = libs[p].angTol
            qd = rot.qmul(q[None], rot.qconj(ref))
            c = rot.qrot(qd, norm[i]) @ lib.T
            dev = np.rad2deg(np.arccos(np.clip(c.max(1), -1, 1)))
            m = np.asarray(b["band_match_index"][i, :, p])
            got = m >= 0
            if (~got).any():
                ctx.count("unmatched_bands")
            if not ctx.check(got.sum() == r["nmatch"], "match-count", "%d bands carry a reflector, nmatch is %d" % (got.sum(), r["nmatch"]), dd):
                continue
            ctx.check(not (got & ~valid[i]).any(), "match-invalid", "a band that was not detected is matched", dd)
            ctx.check((m[got] < len(lib)).all(), "match-index", "reflector index out of range", dd)
            own = np.rad2deg(np.arccos(np.clip(c[np.arange(nb), np.clip(m, 0, len(lib) - 1)], -1, 1)))[got]
            # the assignment precedes the refinement, so allow the tolerance twice over
            ctx.check(own.max() < 2 * tol + .1, "match-far", "a band is assigned to a reflector %.2f deg away" % own.max(), dd)
            ctx.check(np.median(own) < tol, "match-median", "median deviation of the matched bands %.2f deg" % np.median(own), dd)
            k = min(6, len(own))
            s = np.cos(np.deg2rad(np.sort(own)))
            lo, hi = [np.rad2deg(np.arccos(np.clip(x, -1, 1))) for x in (s[:k].mean(), s[-k:].mean())]
            ctx.check(lo - .03 <= r["fit"] <= hi + .03, "fit", "fit %.4f, the matched bands deviate by %.4f to %.4f on average" % (r["fit"], lo, hi), dd)
            ctx.check(0 <= r["cm"] <= 1.0001, "cm", "confidence %.3f" % r["cm"], dd)
            # bands left out really are out of reach, unless the search ended or refinement moved them
            left = int((dev[valid[i] & ~got] < tol - 2.).sum())
            ctx.check(left == 0, "match-missed", "%d unmatched bands lie within %.1f deg of a reflector" % (left, tol - 2.), dd)
        # summary = best layer
        S = d[nph, i]
        L = d[:nph, i]
        sol = L["phase"] >= 0
        sc = score(L)
        if sol.any() and (L["fit"][sol] < 3).any():
            ok = ctx.check(S["phase"] >= 0, "summary-unsolved", "summary says unsolved although phase %s was solved" % np.nonzero(sol)[0], dd)
            if ok:
                j = int(S["phase"])
                ctx.check(all(np.array_equal(S[k], L[j][k]) for k in ("quat", "fit", "nmatch", "cm")), "summary-copy", "summary layer is not a copy of its phase's layer", dd)
                ctx.check(sc[j] >= sc[sol].max() - 1e-4, "summary-best", "summary takes phase %d (score %.3f), phase %d has %.3f" % (j, sc[j], int(np.argmax(np.where(sol, sc, -1e9))), sc[sol].max()), dd)
        elif not sol.any():
            ctx.check(S["phase"] == -1, "summary-solved", "summary says solved, no phase was", dd)


def phaselist(ctx, rng, ks):
    """mix of shorthand names and phase objects; returns list to pass, libs, synthetic phases"""
    from pyebsdindex import tripletvote
    out, ph = [], []
    for k in ks:
        if isinstance(k, str):
            p = synth.generic(k)
            out.append(k if rng.random() < .6 else p.indexer())
        else:
            p = synth.Phase(*k)
            out.append(p.indexer())
        ph.append(p)
    return out, ph


OTHER = [(141, [1., 1., 2.51, 90, 90, 90], [[1, 0, 1], [0, 0, 4], [2, 0, 0], [1, 0, 5], [2, 1, 1]]),
         (62, [1., 1.31, .84, 90, 90, 90], [[1, 1, 1], [1, 0, 1], [0, 2, 1], [2, 1, 0], [1, 2, 0]])]


def drive(ctx, lists, reps, n, nbands=(9,), shapes=((60, 60), (70, 90), (88, 64))):
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(reps):
        for ks in lists:
            shape = shapes[rng.integers(len(shapes))]
            H, W = shape
            geom = (W * rng.uniform(.4, .6), H * rng.uniform(.4, .7), min(shape) * rng.uniform(.5, .9))
            ven = synth.VENDORS[rng.integers(5)]
            nB = int(nbands[rng.integers(len(nbands))])
            info = dict(phases=str(ks), shape=shape, vendor=ven, nBands=nB, it=it)
            pl, phs = phaselist(ctx, rng, ks)
            P, kinds = zoo(rng, shape, geom, phs, n)
            with quiet():
                with ctx.must("indexing", info):
                    ix = ebsd_index.EBSDIndexer(phaselist=pl, vendor=ven, PC=synth.vendor_pc(ven, shape, *geom), patDim=shape, sampleTilt=70., camElev=float(rng.uniform(0, 10)), nBands=nB)
                    if rng.random() < .5:
                        ix.nband_earlyexit = int(rng.choice([4, 6, nB, nB + 1]))
                    d, b = ix.index_pats(P)[:2]
                verify(ctx, ix, ix.phaseLib, d, b, info, kinds)
                if len(ks) > 1:
                    ctx.count("multi_phase", n)


def part_single(ctx):
    import_repo()
    drive(ctx, [["FCC"], ["BCC"], ["HCP"], [OTHER[0]]], ctx.n(2, 20), 25)


def part_multi(ctx):
    import_repo()
    drive(ctx, [["FCC", "BCC"], ["BCC", "FCC"], ["FCC", "HCP", "BCC"], [OTHER[0], "FCC"], ["BCC", OTHER[1]], ["FCC", "FCC"]], ctx.n(2, 15), 20)


def part_few(ctx):
    """more bands asked for than there are: tiny patterns, few lines, many requested bands"""
    import_repo()
    drive(ctx, [["FCC"], ["FCC", "BCC"], ["HCP"]], ctx.n(3, 25), 15, nbands=(5, 20, 30), shapes=((24, 24), (32, 28), (40, 60)))
    # bands handed over directly, some flagged as not detected
    rng = ctx.rng
    for k in ("FCC", "BCC"):
        ph = synth.generic(k)
        bi = ph.indexer()
        for it in range(ctx.n(150, 1500)):
            nv, ni = int(rng.integers(0, 9)), int(rng.integers(0, 12))
            if nv + ni < 3:
                continue
            Q = rot.randq(rng, 1)
            v = rot.qrot(rot.qconj(Q), ph.normals[rng.permutation(len(ph.normals))[:nv]])
            w = np.repeat(rot.qrot(rot.qconj(Q), ph.normals[rng.integers(len(ph.normals))][None]) if rng.random() < .7 else rng.normal(size=(1, 3)), ni, 0)
            B = np.concatenate([v, w]); B /= np.linalg.norm(B, axis=1)[:, None]
            I = np.r_[rng.uniform(.5, 2, nv), np.zeros(ni)]
            if rng.random() < .5:
                o = rng.permutation(len(B)); B, I = B[o], I[o]
            info = dict(bands=B.tolist(), intensity=I.tolist(), phase=k)
            with quiet(), ctx.must("band indexing with undetected bands", info):
                q, fit, cm, pm, nm = [np.asarray(x) for x in bi.bandindex(B[None].astype(np.float32), band_intensity=I[None].astype(np.float32))[:5]]
                ctx.case(B.tobytes())
                ctx.count("invalid_bands")
                ctx.check(nm[0] <= nv, "nmatch-undetected", "%d bands matched of %d detected" % (nm[0], nv), info)
                if nm[0] >= 3:
                    dev = np.rad2deg(np.arccos(np.clip(np.abs(rot.qrot(q[:1].astype(float), B) @ ph.normals.T).max(1), 0, 1)))
                    k3 = np.sort(dev[I > 0])[:min(3, nv)]
                    ctx.check(k3.max() < 2 * bi.angTol, "solution-undetected", "the orientation reported does not put three detected bands on reflectors (%.1f deg)" % k3.max(), info)


def part_poles(ctx):
    """getmatchedpole: Miller indices of the reflector each band was matched to"""
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(6, 40)):
        ks = [["FCC"], ["BCC", "FCC"], ["HCP"], ["FCC", "BCC"], ["HCP", "BCC"], [OTHER[0]]][it % 6]
        shape = (72, 72); geom = (36, 42, 46.)
        pl, phs = phaselist(ctx, rng, ks)
        P, kinds = zoo(rng, shape, geom, phs, 14)
        ven = synth.VENDORS[rng.integers(5)]
        with quiet():
            with ctx.must("indexing"):
                ix = ebsd_index.EBSDIndexer(phaselist=pl, vendor=ven, PC=synth.vendor_pc(ven, shape, *geom), patDim=shape, nBands=int(rng.choice([8, 9, 12])))
                ix.nband_earlyexit = 100
                d, b = ix.index_pats(P)[:2]
            norm = np.asarray(ix.bandDetectPlan.radonPlan.radon2pole(b.copy(), PC=ix.PC, vendor=ix.vendor), float)
            ref = np.broadcast_to(synth.ref2det(ven, ix.sampleTilt, ix.camElev), (1, 4))
            for phn in [-1] + list(range(len(ks))):
                with ctx.must("getmatchedpole", dict(phases=str(ks), phasenumber=phn)):
                    h = np.asarray(ix.getmatchedpole(d, b, phasenumber=phn))
                    u = np.asarray(ix.getmatchedpole(d, b, phasenumber=phn, float_out=True))
                for i in range(len(P)):
                    r = d[phn, i] if phn >= 0 else d[-1, i]
                    p = int(r["phase"])
                    nz = (h[i] != 0).any(1)
                    dd = dict(phases=str(ks), phasenumber=phn, pattern=i, phase=p, poles=h[i].tolist(), nmatch=int(r["nmatch"]))
                    ctx.case([it, phn, i, b["aveloc"][i].tolist()], sample=dd)
                    ctx.count("poles")
                    if not ctx.check(nz.sum() == r["nmatch"], "pole-count", "%d bands have a pole, %d are matched" % (nz.sum(), r["nmatch"]), dd):
                        continue
                    ctx.check((np.abs(u[i]).sum(1) > 0).tolist() == nz.tolist() and np.allclose(np.linalg.norm(u[i][nz], axis=1), 1, atol=1e-4), "pole-float", "float poles are not unit vectors for exactly the matched bands", dd)
                    if not nz.any():
                        continue
                    c = h[i][nz] @ phs[p].R
                    c /= np.linalg.norm(c, axis=1)[:, None]
                    w = rot.qrot(rot.qmul(np.asarray(r["quat"], float)[None], rot.qconj(ref)), norm[i][nz])
                    a = np.rad2deg(np.arccos(np.clip(np.abs((c * w).sum(1)), 0, 1)))
                    ctx.check(a.max() < 2 * ix.phaseLib[p].angTol, "pole-direction", "Miller indices of a matched pole are %.1f deg from its band" % a.max(), dd)
