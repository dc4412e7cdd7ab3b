"""C15: every conversion between rotation representations preserves the rotation."""
import numpy as np
from core import *
import rot

RULE = ("one case = one rotation converted by one conversion function (42 pairs of the 7 representations, "
        "float64 and float32, single value and batch); judged by rotating frames with an independent numpy "
        "definition of source and target representation; non-trivial = distinct (function, input value)")
ASSUMPTIONS = ["tolerance 2e-5 rad (float64, 1e-3 rad where the library's own series for homochoric inversion or "
               "snapping thresholds apply), 4e-3 rad (float32)"]
REPS = ['eu', 'om', 'ax', 'ro', 'qu', 'ho', 'cu']
PARTS = ["f8_eu_om", "f8_ax_ro", "f8_qu", "f8_ho_cu", "f4_eu_om", "f4_ax_ro", "f4_qu", "f4_ho_cu", "plain"]
MUST_OBSERVE = ["conversions"]
THREADS = 1


def inputs(ctx, rep, dt, either_sign=True):
    rng = ctx.rng
    n = ctx.n(400, 20000)
    q = np.concatenate([rot.special_quats(rng), rot.randq(rng, n)])
    if rep == 'cu':
        c = rng.uniform(-.5, .5, size=(n, 3)) * rot.A_CU
        h = rot.A_CU / 2
        sp = [[0, 0, 0]]
        for i in range(3):
            for s in (1, -1):
                for r in (1, .5, 1e-2):
                    v = np.zeros(3); v[i] = s * r * h; sp.append(v)           # pyramid axes
                    for j in range(3):
                        if j != i:
                            for s2 in (1, -1):
                                w = v.copy(); w[j] = s2 * r * h; sp.append(w)  # edges
                                w = w.copy(); w[j] *= .5; sp.append(w)
        for s in np.ndindex(2, 2, 2):
            sp.append((np.array(s) * 2 - 1) * h)
            sp.append((np.array(s) * 2 - 1) * h * .4)
        return np.concatenate([np.array(sp, float), c]).astype(dt)
    x = rot.ref_from_qu(q, rep)
    if rep == 'eu':
        # Phi = 0, pi, negative and beyond one turn
        e = np.array([[a, b, c] for a in (0, .4, PI2 / 2, 4.) for b in (0, rot.PI, rot.PI / 2, .3) for c in (0, 1.1, 5.)])
        sh = rng.uniform(-2 * PI2, 2 * PI2, size=(40, 3)); sh[:, 1] = rng.uniform(0, rot.PI, 40)
        x = np.concatenate([x, e, sh])
    if rep == 'ax' and either_sign:
        # axes of any length, negative angles, angles beyond half a turn
        m = 60
        u = rng.normal(size=(m, 3)); u /= np.linalg.norm(u, axis=1)[:, None]
        w = rng.uniform(-1, 1, m) * 1.98 * rot.PI
        x = np.concatenate([x, np.c_[u * rng.uniform(.2, 5, m)[:, None], w], np.c_[u, w]])
    if rep == 'qu' and either_sign:
        x = x * np.where(rng.random(len(x)) < .5, -1, 1)[:, None]   # either sign of the quaternion
    return x.astype(dt)


PI2 = 2 * rot.PI


def canonical(ctx, rep, out, name, eps):
    o = np.asarray(out, float)
    ok = np.isfinite(o) if rep != 'ro' else ~np.isnan(o)
    if not ctx.check(ok.all(), "range:" + name, "%s returned non-finite components" % name):
        return
    if rep == 'qu':
        ctx.check((np.abs(np.linalg.norm(o, axis=1) - 1) < eps).all(), "range:" + name, "%s: quaternion not unit" % name)
        ctx.check((o[:, 0] >= -eps).all(), "range:" + name, "%s: negative scalar part" % name)
    elif rep == 'ax':
        ctx.check((np.abs(np.linalg.norm(o[:, :3], axis=1) - 1) < eps).all(), "range:" + name, "%s: axis not unit" % name)
        ctx.check(((o[:, 3] >= -eps) & (o[:, 3] <= rot.PI + eps)).all(), "range:" + name, "%s: angle outside [0,pi]" % name)
    elif rep == 'ro':
        ctx.check((np.abs(np.linalg.norm(o[:, :3], axis=1) - 1) < eps).all(), "range:" + name, "%s: axis not unit" % name)
        ctx.check((o[:, 3] >= -eps).all(), "range:" + name, "%s: negative tangent" % name)
    elif rep == 'eu':
        ctx.check(((o >= -eps) & (o <= np.array([PI2, rot.PI, PI2]) + eps)).all(), "range:" + name, "%s: Euler angle out of range" % name)
    elif rep == 'om':
        ctx.check((np.abs(np.einsum('nij,nkj->nik', o, o) - np.eye(3)) < 4 * eps).all(), "range:" + name, "%s: matrix not orthonormal" % name)
        ctx.check((np.linalg.det(o) > 0).all(), "range:" + name, "%s: improper matrix" % name)
    elif rep == 'ho':
        ctx.check((np.linalg.norm(o, axis=1) <= (0.75 * rot.PI) ** (1 / 3.) + eps).all(), "range:" + name, "%s: outside the homochoric ball" % name)
    elif rep == 'cu':
        ctx.check((np.abs(o) <= rot.A_CU / 2 + eps).all(), "range:" + name, "%s: outside the cubochoric cube" % name)


VEC = ('ax', 'ro', 'qu', 'ho', 'cu')


def run(ctx, lib, srcs, dt, libname, sign=1):
    f4 = dt == np.float32

    def mat(rep, x):
        """orientation matrix a value stands for, under the handedness convention in use"""
        m = rot.MAT[rep](x)
        return np.swapaxes(m, -1, -2) if (sign < 0 and rep in VEC) else m

    for s in srcs:
        x = inputs(ctx, s, dt, libname == '')   # the plain module documents q0 >= 0
        Rs = mat(s, x)
        for t in REPS:
            if t == s:
                continue
            fn = s + '2' + t
            f0 = getattr(lib, fn)
            name = libname + fn + ('(f4)' if f4 else '') + ('(p=-1)' if sign < 0 else '')
            f = (lambda v, f0=f0: f0(v, p=-1)) if sign < 0 else f0
            xc = x.copy()
            with quiet(), ctx.must("convert " + name):
                out = f(x)
                ctx.check(np.array_equal(x, xc, equal_nan=True), "mutates:" + name, "%s changed its input array" % name)
                want = (len(x), 3, 3) if t == 'om' else (len(x), rot.SIZE[t])
                if not ctx.check(np.shape(out) == want, "shape:" + name, "%s: shape %s for %d inputs" % (name, np.shape(out), len(x))):
                    continue
                ctx.check(np.asarray(out).dtype == dt, "dtype:" + name, "%s: dtype %s from %s" % (name, out.dtype, dt)) if libname == '' else None
                if not np.all(np.isfinite(out) if t != 'ro' else ~np.isnan(out)):
                    i = int(np.argmax(~np.isfinite(np.asarray(out, float).reshape(len(x), -1)).all(1)))
                    ctx.fail("value:" + name, "%s: non-finite result for %s -> %s" % (name, x[i].tolist(), np.asarray(out)[i].tolist()))
                    continue
                ang = rot.mat_angle(Rs, mat(t, out))
                tol = np.full(len(x), 4e-3 if f4 else 2e-5)
                if not f4 and ('ho' in (s, t) or 'cu' in (s, t)):
                    tol[:] = 1e-3     # series inversion of w - sin w; snapping near pi
                bad = ang > tol
                ctx.count("conversions", len(x))
                ctx.cases(len(x), np.c_[x.reshape(len(x), -1).astype(float), np.full(len(x), float(hash_s(name)))],
                          sample={"f": name, "in": x[-1].tolist(), "out": np.asarray(out)[-1].tolist(), "err_rad": float(ang[-1])})
                if bad.any():
                    i = int(np.argmax(ang))
                    ctx.fail("value:" + name, "%s changed the rotation of %d of %d inputs; worst %.3g rad for %s -> %s" % (
                        name, bad.sum(), len(x), ang[i], x[i].tolist(), np.asarray(out)[i].tolist()))
                canonical(ctx, t, out, name, 2e-3 if f4 else 1e-6)
                # single value and a Fortran-ordered / strided batch give the same answer
                if libname == '':
                    for i in list(ctx.rng.integers(0, len(x), 6)) + [0, 1]:
                        one = np.asarray(f(x[i]))
                        ok = one.shape == want[1:] and np.allclose(one, np.asarray(out)[i], atol=1e-4 if f4 else 1e-9, equal_nan=True)
                        ctx.check(ok, "single:" + name, lambda: "%s of one value %s -> %s, in a batch %s" % (
                            name, x[i].tolist(), one.tolist(), np.asarray(out)[i].tolist()))
                        ctx.count("single_vs_batch")
                    big = np.zeros((2 * len(x),) + x.shape[1:], dt); big[::2] = x
                    o2 = np.asarray(f(big[::2]))
                    ctx.check(np.allclose(o2, out, atol=1e-4 if f4 else 1e-9), "strided:" + name, "%s differs on a strided view" % name)
                    o3 = np.asarray(f(np.asfortranarray(x)))
                    ctx.check(np.allclose(o3, out, atol=1e-4 if f4 else 1e-9), "strided:" + name, "%s differs on Fortran order" % name)


def hash_s(s):
    import zlib
    return zlib.crc32(s.encode())


def make(srcs, dt):
    def part(ctx):
        import_repo()
        from pyebsdindex import rotlib
        run(ctx, rotlib, srcs, dt, '')
        if dt == np.float64:
            run(ctx, rotlib, srcs, dt, '', sign=-1)
    return part


part_f8_eu_om = make(['eu', 'om'], np.float64)
part_f8_ax_ro = make(['ax', 'ro'], np.float64)
part_f8_qu = make(['qu'], np.float64)
part_f8_ho_cu = make(['ho', 'cu'], np.float64)
part_f4_eu_om = make(['eu', 'om'], np.float32)
part_f4_ax_ro = make(['ax', 'ro'], np.float32)
part_f4_qu = make(['qu'], np.float32)
part_f4_ho_cu = make(['ho', 'cu'], np.float32)


def part_plain(ctx):
    import_repo()
    from pyebsdindex import rotations
    run(ctx, rotations, REPS, np.float64, 'rotations.')
