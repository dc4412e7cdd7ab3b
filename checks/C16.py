"""C16: quaternion product, conjugate, vector rotation, averaging, uniform random orientations."""
import numpy as np
from core import *
import rot

RULE = ("one case = one quaternion operation on one operand tuple (product, conjugate, normalisation, vector rotation, "
        "average, random draw), judged against an independent numpy quaternion algebra; operands: random unit and "
        "non-unit quaternions of either sign, identity, half turns; batch shapes N-N, 1-N, N-1, 1-1; float64/float32; "
        "both handedness conventions")
ASSUMPTIONS = ["floating-point operands (integer arrays are outside the property)"]
PARTS = ["mul8", "mul4", "vec8", "vec4", "rand"]
MUST_OBSERVE = ["products", "rotations", "averages", "random_draws"]
THREADS = 1


def quats(ctx, n, unit=True):
    q = np.concatenate([rot.special_quats(ctx.rng), rot.randq(ctx.rng, n)])
    q *= np.where(ctx.rng.random(len(q)) < .5, -1, 1)[:, None]
    if not unit:
        q = q * ctx.rng.uniform(.2, 4, len(q))[:, None]
    return q[ctx.rng.permutation(len(q))]


def part_mul(ctx, dt):
    import_repo()
    from pyebsdindex import rotlib as L
    tol = 1e-10 if dt == np.float64 else 2e-5
    rng = ctx.rng
    for rep in range(ctx.n(3, 60)):
        n = ctx.n(500, 3000)
        a = quats(ctx, n, rep % 2 == 0).astype(dt)
        b = quats(ctx, n, rep % 2 == 0).astype(dt)
        for sign in (1, -1):
            def ref(x, y):
                x = np.broadcast_to(x, np.broadcast_shapes(x.shape, y.shape)); y = np.broadcast_to(y, x.shape)
                return rot.qmul(x, y) if sign > 0 else rot.qmul(y, x)
            for shape in ("NN", "1N", "N1", "11", "1N2", "N12"):
                x, y = {"NN": (a, b), "1N": (a[0], b), "N1": (a, b[0]), "11": (a[0], b[0]),
                        "1N2": (a[:1], b), "N12": (a, b[:1])}[shape]
                xc, yc = x.copy(), y.copy()
                with quiet(), ctx.must("quat_multiply " + shape):
                    o = L.quat_multiply(x, y, p=sign) if sign < 0 else L.quat_multiply(x, y)
                    ctx.check(np.array_equal(x, xc) and np.array_equal(y, yc), "mul-mutates", "product changed its operands")
                    ctx.close(o, ref(x, y), "mul:%s:p%d" % (shape, sign), "quat_multiply %s p=%d" % (shape, sign), atol=tol * 20, rtol=tol)
                    ctx.count("products", max(len(np.atleast_2d(x)), len(np.atleast_2d(y))))
            ctx.cases(len(a), np.c_[a, b, np.full(len(a), sign)].astype(float))
            for i in rng.integers(0, len(a), 5):
                with quiet(), ctx.must("quat_multiply1"):
                    ctx.close(L.quat_multiply1(a[i], b[i], p=sign), ref(a[i], b[i]), "mul1", "quat_multiply1", atol=tol * 20, rtol=tol)
        with quiet(), ctx.must("quatconj"):
            c = L.quatconj(a)
            ctx.close(c, rot.qconj(a), "conj", "quatconj", atol=tol)
            ctx.close(L.quatconj(a[3]), rot.qconj(a[3]), "conj", "quatconj single", atol=tol)
            u = L.quatnorm(a)
            r = rot.qnorm(a); r = r * np.where(a[:, :1] >= 0, 1, -1)
            ctx.close(u, r, "norm", "quatnorm", atol=tol * 10)
            e = L.quat_multiply(u, L.quatconj(u))
            ctx.close(e, np.tile([1., 0, 0, 0], (len(a), 1)), "inverse", "q * conj(q) of unit quaternions", atol=tol * 20)
            ctx.count("products", len(a))
        for _ in range(ctx.n(20, 100)):
            m = int(rng.integers(1, 40))
            c0 = rot.randq(rng, 1)[0]
            if rng.random() < .5:  # near no rotation or a half turn about an axis: the sense hangs on one component
                c0 = rot.qnorm(np.eye(4)[rng.integers(4)] + .02 * rng.normal(size=4))
            d = rot.qnorm(np.c_[np.ones(m), rng.normal(size=(m, 3)) * .02])
            cl = rot.qmul(np.broadcast_to(c0, (m, 4)), d)
            sg = np.where(rng.random(m) < .5, -1., 1.)[:, None]
            cl = (cl * sg).astype(dt)
            with quiet(), ctx.must("quatave"):
                o = np.asarray(L.quatave(cl), float)
                want = rot.qnorm((cl.astype(float) * sg).sum(0))
                ok = o.shape == (4,) and rot.q_angle(o, want) < (1e-6 if dt == np.float64 else 2e-3) and abs(np.linalg.norm(o) - 1) < 1e-5 and o[0] >= -1e-6
                ctx.check(ok, "average", lambda: "average of %d clustered quaternions %s expected %s" % (m, o.tolist(), want.tolist()), {"q": cl})
                ctx.count("averages"); ctx.case(cl.tobytes(), sample={"cluster": m, "mean": o.tolist()})


def part_vec(ctx, dt):
    import_repo()
    from pyebsdindex import rotlib as L
    tol = 1e-10 if dt == np.float64 else 3e-5
    rng = ctx.rng
    for rep in range(ctx.n(3, 60)):
        q = quats(ctx, ctx.n(500, 3000)).astype(dt)
        q2 = quats(ctx, ctx.n(500, 3000)).astype(dt)
        v = (rng.normal(size=(len(q), 3)) * rng.uniform(.1, 10, (len(q), 1))).astype(dt)
        v[:3] = np.eye(3); v[3] = 0
        for sign in (1, -1):
            def ref(x, y):
                x = np.broadcast_to(x, (max(len(np.atleast_2d(x)), len(np.atleast_2d(y))), 4)); y = np.broadcast_to(y, x.shape[:1] + (3,))
                return np.squeeze(rot.qrot(x if sign > 0 else rot.qconj(x), y))
            for shape in ("NN", "1N", "N1", "11"):
                x, y = {"NN": (q, v), "1N": (q[0], v), "N1": (q, v[4]), "11": (q[0], v[5])}[shape]
                xc, yc = x.copy(), y.copy()
                with quiet(), ctx.must("quat_vector " + shape):
                    o = L.quat_vector(x, y, p=sign) if sign < 0 else L.quat_vector(x, y)
                    ctx.check(np.array_equal(x, xc) and np.array_equal(y, yc), "vec-mutates", "rotation changed its operands")
                    ctx.close(o, ref(x, y), "vec:%s:p%d" % (shape, sign), "quat_vector %s p=%d" % (shape, sign), atol=tol * 30, rtol=tol)
                    ctx.count("rotations", max(len(np.atleast_2d(x)), len(np.atleast_2d(y))))
            ctx.cases(len(q), np.c_[q, v, np.full(len(q), sign)].astype(float))
            for i in rng.integers(0, len(q), 5):
                with quiet(), ctx.must("quat_vector1"):
                    ctx.close(L.quat_vector1(q[i], v[i], p=sign), ref(q[i], v[i]), "vec1", "quat_vector1", atol=tol * 30, rtol=tol)
        with quiet(), ctx.must("composition"):
            # rotating by a product is rotating twice; the orientation matrix does the same
            lhs = L.quat_vector(L.quat_multiply(q, q2), v)
            rhs = L.quat_vector(q, L.quat_vector(q2, v))
            ctx.close(lhs, rhs, "composition", "(q1 q2) v vs q1 (q2 v)", atol=tol * 100, rtol=tol * 10)
            om = L.qu2om(q)
            ctx.close(np.einsum('nij,nj->ni', om, v), L.quat_vector(q, v), "matrix", "orientation matrix vs quaternion rotation of a vector",
                      atol=tol * 100, rtol=tol * 10)


def part_rand(ctx):
    import_repo()
    from pyebsdindex import rotlib as L
    np.random.seed(ctx.seed * 7 + 3)
    n = ctx.n(20000, 400000)
    with quiet(), ctx.must("randomquat"):
        one = np.asarray(L.randomquat(1))
        ctx.check(one.shape == (4,) or one.shape == (1, 4), "rand-shape", "randomquat(1) has shape %s" % (one.shape,))
        q = np.asarray(L.randomquat(n), float)
        ctx.count("random_draws", n)
        ctx.cases(n, q)
        if ctx.check(q.shape == (n, 4), "rand-shape", "randomquat(n) shape %s" % (q.shape,)):
            ctx.check(np.abs(np.linalg.norm(q, axis=1) - 1).max() < 1e-6 and (q[:, 0] >= -1e-9).all(), "rand-unit", "random quaternions not unit/positive")
            w = np.sort(2 * np.arccos(np.clip(q[:, 0], -1, 1)))
            ks = np.abs((w - np.sin(w)) / np.pi - (np.arange(n) + .5) / n).max()
            ctx.check(ks < 2.5 / np.sqrt(n), "rand-uniform", "rotation angles of random orientations not uniformly distributed: KS %.4f" % ks)
            ax = q[:, 1:] / np.linalg.norm(q[:, 1:], axis=1)[:, None]
            for k in range(3):
                z = np.sort(ax[:, k])
                ks = np.abs((z + 1) / 2 - (np.arange(n) + .5) / n).max()
                ctx.check(ks < 2.5 / np.sqrt(n), "rand-uniform", "axis component %d of random orientations not uniform: KS %.4f" % (k, ks))
            # any fixed rotation of a uniform sample is uniform again
            r = rot.qmul(np.broadcast_to(rot.randq(ctx.rng, 1)[0], (n, 4)), q)
            w = np.sort(2 * np.arctan2(np.linalg.norm(r[:, 1:], axis=1), np.abs(r[:, 0])))
            ks = np.abs((w - np.sin(w)) / np.pi - (np.arange(n) + .5) / n).max()
            ctx.check(ks < 2.5 / np.sqrt(n), "rand-uniform", "rotated random orientations not uniform: KS %.4f" % ks)


def part_mul8(ctx): part_mul(ctx, np.float64)
def part_mul4(ctx): part_mul(ctx, np.float32)
def part_vec8(ctx): part_vec(ctx, np.float64)
def part_vec4(ctx): part_vec(ctx, np.float32)
