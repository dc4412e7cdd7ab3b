"""C17: symmetry operators, Laue groups, cubic misorientation."""
import numpy as np
from core import *
import rot

RULE = ("one case = one space group / Laue group / direct group call / orientation / misorientation pair / index set; operators "
        "compared with the rotation group generated independently from the standard generators, misorientations with the "
        "brute-force minimum over the 24 cubic rotations")
ASSUMPTIONS = ["float32 operators: tolerance 1e-5", "trigonal two-folds along the a axes, monoclinic unique axis b, hexagonal x along a"]
PARTS = ["groups", "misori8", "misori4"]
MUST_OBSERVE = ["space_groups", "misorientations", "equivalents"]
THREADS = 1
from C17ref import *


def laue_of(sg):
    for top, l in ((2, 1), (15, 2), (74, 22), (88, 4), (142, 42), (148, 3), (167, 32), (176, 6), (194, 62), (206, 23), (230, 43)):
        if sg <= top:
            return l


def same_group(ops, l):
    ops = np.atleast_2d(np.asarray(ops, float)); ref = GROUPS[l]
    if ops.shape != ref.shape:
        return "%d operators, expected %d" % (len(ops), len(ref))
    if np.abs(np.linalg.norm(ops, axis=1) - 1).max() > 1e-5:
        return "operators not unit"
    d = np.abs(ops @ ref.T)
    m = d > 1 - 1e-6
    ang = np.min([[rot.q_angle(a, b) for b in ref] for a in ops], axis=1)
    if ang.max() > 1e-3:
        return "operator %s is not in the group" % ops[int(np.argmax(ang))].tolist()
    if len(set(np.argmax(d, 1))) != len(ref):
        return "operators repeated"
    return None


def part_groups(ctx):
    import_repo()
    from pyebsdindex import crystal_sym as cs
    rng = ctx.rng
    for sg in range(1, 231):
        with quiet(), ctx.must("space group"):
            l = cs.spacegroup2lauenumber(sg)
            ctx.check(l == laue_of(sg), "laue", "space group %d -> Laue number %s, expected %s" % (sg, l, laue_of(sg)))
            e = same_group(cs.spacegroupnum2symops(sg), laue_of(sg))
            ctx.check(e is None, "symops", "space group %d: %s" % (sg, e))
            ctx.case("sg%d" % sg); ctx.count("space_groups")
    fn = {43: (cs.cubicsym_q, False), 23: (cs.cubicsym_q, True), 62: (cs.hexsym_q, False), 6: (cs.hexsym_q, True),
          32: (cs.trigonal_q, False), 3: (cs.trigonal_q, True), 42: (cs.tetragonal_q, False), 4: (cs.tetragonal_q, True),
          22: (cs.orthorhombic_q, False), 2: (cs.monoclinic_q, False), 1: (cs.triclinic_q, False)}
    for l in GROUPS:
        with quiet(), ctx.must("laue group"):
            e = same_group(cs.laueid2symops(l), l)
            ctx.check(e is None, "symops", "Laue %d: %s" % (l, e))
            f, low = fn[l]
            e = same_group(f(low=low), l)
            ctx.check(e is None, "symops", "%s(low=%s): %s" % (f.__name__, low, e))
            if l in (22, 2, 1):
                e = same_group(f(low=True), l)
                ctx.check(e is None, "symops", "%s(low=True): %s" % (f.__name__, e))
            ctx.case("laue%d" % l); ctx.count("laue_groups")
            if ctx.thorough or True:
                for _ in range(ctx.n(20, 500)):
                    g = rot.randq(rng, 1)[0]
                    dt = [np.float64, np.float32][int(rng.integers(2))]
                    gi = g.astype(dt); gc = gi.copy()
                    eq = np.atleast_2d(np.asarray(f(gi, low=low) if rng.random() < .5 else f(quatin=gi, low=low), float))
                    ctx.check(np.array_equal(gi, gc), "equiv-mutates", "symmetry call changed its input")
                    ok = eq.shape == GROUPS[l].shape
                    if ok:
                        rel = rot.qmul(eq, np.broadcast_to(rot.qconj(g), eq.shape))   # eq = S g  ->  eq g* = S
                        e = same_group(rel, l)
                        ok = e is None
                    ctx.check(ok, "equivalents", "symmetry equivalents of %s under Laue %d are not {S g}: %s" % (g.tolist(), l, eq.tolist()))
                    ctx.count("equivalents"); ctx.case(np.r_[l, g].tobytes(), sample={"laue": l, "q": g.tolist()})
    for _ in range(ctx.n(200, 2000)):
        p = rng.integers(-6, 7, size=(int(rng.integers(1, 8)), 3))
        with quiet(), ctx.must("hexagonal indices"):
            p4 = np.asarray(cs.hex3poles2hex4poles(p))
            want = np.c_[p[:, 0], p[:, 1], -(p[:, 0] + p[:, 1]), p[:, 2]]
            ctx.check(p4.shape == want.shape and np.array_equal(p4, want), "hex4", "3->4 index of %s: %s" % (p.tolist(), p4.tolist()))
            p3 = np.asarray(cs.hex4poles2hex3poles(want))
            ctx.check(np.array_equal(p3, p), "hex3", "4->3 index of %s: %s" % (want.tolist(), p3.tolist()))
            ctx.count("hex_indices"); ctx.case(b"hex" + p.tobytes())


def part_misori(ctx, dt):
    import_repo()
    with quiet(), ctx.must("import of the misorientation module", also=(ImportError,)):
        from pyebsdindex import misorientation as mo
        rng = ctx.rng
        G = GROUPS[43]
        tol = 1e-5 if dt == np.float64 else 2e-3
        for rep in range(ctx.n(6, 60)):
            n = ctx.n(300, 2000)
            a = rot.randq(rng, n)
            if rep % 3 == 1:    # near symmetry-equivalent pairs
                s = G[rng.integers(0, 24, n)]
                b = rot.qmul(s, a)
                b = rot.qmul(rot.qnorm(np.c_[np.ones(n), rng.normal(size=(n, 3)) * .05]), b)
            elif rep % 3 == 2:  # special misorientations
                s = np.array([q([1, 1, 1], 60), q([1, 1, 0], 38.94), q([1, 0, 0], 45), q([1, 1, 1], 38.21), [1, 0, 0, 0]])[rng.integers(0, 5, n)]
                b = rot.qmul(rot.qconj(s), a)
                b = rot.qmul(G[rng.integers(0, 24, n)], b)
            else:
                b = rot.randq(rng, n)
            a = a * np.where(rng.random((n, 1)) < .5, -1, 1)
            mode = ("NN", "1N", "N1")[rep % 3 if rep >= 3 else 0]
            if mode == "1N":
                a = a[:1]
            if mode == "N1":
                b = b[:1]
            ai, bi = a.astype(dt), b.astype(dt)
            ac, bc = ai.copy(), bi.copy()
            with quiet(), ctx.must("misorientation"):
                o = np.atleast_2d(np.asarray(mo.misorientcubic_quick(ai, bi), float))
                ctx.check(np.array_equal(ai, ac) and np.array_equal(bi, bc), "misori-mutates", "inputs changed")
                d = rot.qmul(np.broadcast_to(ai.astype(float), (n, 4)), rot.qconj(np.broadcast_to(bi.astype(float), (n, 4))))
                best = np.abs(np.einsum('sj,nj->ns', rot.qconj(G), d))      # |scalar part of s d|
                w0 = best.max(1)
                ctx.count("misorientations", n)
                ctx.cases(n, np.c_[np.broadcast_to(a, (n, 4)), np.broadcast_to(b, (n, 4))])
                if not ctx.check(o.shape == (n, 4), "misori-shape", "shape %s" % (o.shape,)):
                    continue
                # true angle from the vector part of the minimising equivalent (stable near 0)
                k = best.argmax(1)
                m = rot.qmul(G[k], d)
                m = rot.qnorm(m * np.where(m[:, :1] < 0, -1, 1))
                v = -np.sort(-np.abs(m[:, 1:]), axis=1)
                ww = 2 * np.arctan2(np.linalg.norm(o[:, 1:], axis=1), o[:, 0])
                wt = 2 * np.arctan2(np.linalg.norm(m[:, 1:], axis=1), m[:, 0])
                bad = np.abs(ww - wt) > tol
                ctx.check(not bad.any(), "misori-angle", lambda: "cubic misorientation angle wrong for %d of %d pairs, e.g. %.6f vs %.6f deg" % (
                    bad.sum(), n, np.degrees(ww[bad][0]), np.degrees(wt[bad][0])))
                ctx.check(np.abs(np.linalg.norm(o, axis=1) - 1).max() < 1e-3, "misori-unit", "misorientation quaternion not unit")
                ctx.check((ww < np.deg2rad(62.8) + tol).all(), "misori-range", "cubic disorientation above 62.8 deg")
                # axis: unique unless another operator ties for the minimum
                srt = -np.sort(-best, axis=1)
                uniq = (srt[:, 0] - srt[:, 1] > 1e-3) & (wt > .02)
                if uniq.any():
                    e = np.abs(o[uniq, 1:] - v[uniq]).max()
                    ctx.check(e < tol * 10, "misori-axis", "misorientation axis differs by %g" % e)
                    ctx.count("axes", uniq.sum())


def part_misori8(ctx): part_misori(ctx, np.float64)
def part_misori4(ctx): part_misori(ctx, np.float32)
