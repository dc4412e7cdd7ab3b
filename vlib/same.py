"""Are two indexing results of the same patterns the same, up to floating point noise?"""
import numpy as np
import rot


NOISE = [(e, a) for a in (3e-6, 1e-5, 4e-5) for e in (0, 1e-6, -3e-6, 1e-5, -3e-5)]


def band_sets(b):
    """valid bands of one pattern, sorted by position (theta may wrap, so compare as a set)"""
    v = b["valid"] > 0
    o = np.lexsort((b["aveloc"][v][:, 0].round(2), b["aveloc"][v][:, 1].round(2)))
    return b["aveloc"][v][o].astype(float), b["max"][v][o].astype(float)


def differ(d0, b0, d1, b1, symm, tight=False):
    """what differs between two results of one pattern (records (layers,), bands (nBands,)); None if nothing.
    symm: rotations of each phase layer"""
    p0, m0 = band_sets(b0)
    p1, m1 = band_sets(b1)
    scale = max(np.abs(m0).max(initial=0), 1e-6)
    if len(p0) != len(p1):
        return "bands detected: %d / %d" % (len(p0), len(p1))
    if len(p0):
        c = np.abs(p0[:, None] - p1[None]).max(2) + np.abs(m0[:, None] - m1[None]) / scale
        if max(c.min(0).max(), c.min(1).max()) > 5e-3:
            return "band positions or heights differ by %.3g" % max(c.min(0).max(), c.min(1).max())
    for k in ("pq", "iq"):
        if (np.abs(d0[k] - d1[k]) > 2e-3 * np.abs(d0[k]) + 1e-4).any():
            return "%s %s / %s" % (k, d0[k], d1[k])
    for j in range(len(d0)):
        x, y = d0[j], d1[j]
        if x["phase"] != y["phase"] or x["nmatch"] != y["nmatch"]:
            return "layer %d: phase %d/%d, matches %d/%d" % (j, x["phase"], y["phase"], x["nmatch"], y["nmatch"])
        if x["phase"] < 0:
            continue
        if abs(x["fit"] - y["fit"]) > 3e-3:
            return "layer %d: fit %.4f / %.4f" % (j, x["fit"], y["fit"])
        if abs(x["cm"] - y["cm"]) > 3e-3:
            return "layer %d: cm %.4f / %.4f" % (j, x["cm"], y["cm"])
        qa, qb = np.asarray(x["quat"], float)[None], np.asarray(y["quat"], float)[None]
        if not np.array_equal(qa, qb):
            a = min(np.rad2deg(rot.q_angle(qa, rot.qmul(s[None], qb))[0]) for s in symm[int(x["phase"])])
            if not a < 2e-2:
                return "layer %d: orientations %.3f deg apart" % (j, a)
    return None


def compare(ctx, sig, what, A, B, symm, info, patterns=None, again=None):
    """A, B = (data (layers, n), bands (n, nBands)) of the same patterns. A pattern for which they differ counts only
    if its result is well conditioned: `again(pattern)` -> (data, bands) indexes one pattern, and is called with the
    pattern perturbed by floating point noise."""
    d0, b0 = A
    d1, b1 = B
    if not ctx.check(d0.shape == d1.shape and b0.shape == b1.shape, sig + "-shape", "%s: result arrays %s %s, expected %s %s" % (what, d1.shape, b1.shape, d0.shape, b0.shape), info):
        return False
    ok = True
    for i in range(b0.shape[0]):
        w = differ(d0[:, i], b0[i], d1[:, i], b1[i], symm)
        if w is None:
            continue
        if again is not None and patterns is not None:
            p = np.asarray(patterns[i]).astype(np.float32)
            r = np.random.default_rng(7)
            sc = float(np.abs(p).max()) + 1e-6
            res = [again(p)] + [again((p * np.float32(1 + e) + sc * a * r.normal(size=p.shape)).astype(np.float32)) for e, a in NOISE]
            if any(differ(res[0][0][:, 0], res[0][1][0], x[0][:, 0], x[1][0], symm) for x in res[1:]):
                ctx.count("ill_conditioned")
                continue
        ok = False
        ctx.fail(sig, "%s: pattern %d: %s" % (what, i, w), dict(info, pattern=i))
        break
    return ok


def symmetries(phases):
    return [p.symm for p in phases]
