"""Independent reference definitions of the rotation representations (plain numpy,
written from the definitions, float64)."""
import numpy as np

PI = np.pi


def qmul(a, b):
    a = np.asarray(a, float); b = np.asarray(b, float)
    w = a[..., 0:1] * b[..., 0:1] - np.sum(a[..., 1:] * b[..., 1:], -1, keepdims=True)
    v = a[..., 0:1] * b[..., 1:] + b[..., 0:1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:])
    return np.concatenate([w, v], -1)


def qconj(a):
    return np.asarray(a, float) * np.array([1., -1, -1, -1])


def qrot(q, v):
    """Active rotation of v by unit quaternion q: q v q*."""
    q = np.asarray(q, float); v = np.asarray(v, float)
    p = np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], -1)
    return qmul(qmul(q, p), qconj(q))[..., 1:]


def qnorm(q):
    q = np.asarray(q, float)
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


def randq(rng, n):
    return qnorm(rng.normal(size=(n, 4)))


def mat_qu(q):
    q = qnorm(q)
    e = np.eye(3)
    return np.stack([qrot(q, np.broadcast_to(e[i], q.shape[:-1] + (3,))) for i in range(3)], -1)


def axang(n, w):
    n = np.asarray(n, float)
    n = n / np.linalg.norm(n, axis=-1, keepdims=True)
    w = np.asarray(w, float)[..., None]
    return mat_qu(np.concatenate([np.cos(w / 2), n * np.sin(w / 2)], -1))


def mat_ax(ax):
    return axang(np.asarray(ax)[..., :3], np.asarray(ax)[..., 3])


def mat_ro(ro):
    ro = np.asarray(ro, float)
    w = 2 * np.arctan2(ro[..., 3], 1.0)
    w = np.where(np.isinf(ro[..., 3]), PI, w)
    n = np.where(np.linalg.norm(ro[..., :3], axis=-1, keepdims=True) > 0, ro[..., :3], [0, 0, 1.])
    return axang(n, w)


def rx(a, axis):
    a = np.asarray(a, float)
    n = np.zeros(a.shape + (3,)); n[..., axis] = 1
    return axang(n, a)


def mat_eu(eu):
    """Bunge passive: g = Z(phi2) X(Phi) Z(phi1), each the transpose of the active rotation."""
    eu = np.asarray(eu, float)
    act = np.einsum('...ij,...jk,...kl->...il', rx(eu[..., 0], 2), rx(eu[..., 1], 0), rx(eu[..., 2], 2))
    return np.swapaxes(act, -1, -2)


def omega_from_ho(h):
    """solve 3/4 (w - sin w) = h^3 by bisection+newton"""
    t = np.asarray(h, float) ** 3
    lo = np.zeros_like(t); hi = np.full_like(t, PI)
    for _ in range(80):
        m = 0.5 * (lo + hi)
        f = 0.75 * (m - np.sin(m)) < t
        lo = np.where(f, m, lo); hi = np.where(f, hi, m)
    return 0.5 * (lo + hi)


def mat_ho(ho):
    ho = np.asarray(ho, float)
    h = np.linalg.norm(ho, axis=-1)
    w = omega_from_ho(np.minimum(h, (0.75 * PI) ** (1 / 3)))
    n = np.where(h[..., None] > 0, ho, [0, 0, 1.])
    return axang(n, w)


A_CU = PI ** (2. / 3)          # edge of the cubochoric cube


def cu_to_ho(cu):
    """Rosca/Morawiec/De Graef equal volume map cube -> ball (scalar code)."""
    cu = np.asarray(cu, float).reshape(-1, 3)
    out = np.zeros_like(cu)
    r1 = (3 * PI / 4) ** (1 / 3.)
    beta = PI ** (5 / 6.) / 6 ** (1 / 6.) / 2
    sc = PI ** (1 / 6.) / 6 ** (1 / 6.)
    for k, c in enumerate(cu):
        ax = int(np.argmax(np.abs(c)))
        if abs(c[ax]) == 0:
            continue
        perm = [(ax + 1) % 3, (ax + 2) % 3, ax]
        x, y, z = c[perm] * sc
        if abs(x) < 1e-14 and abs(y) < 1e-14:
            r = np.array([0, 0, np.sqrt(6 / PI) * z])
        else:
            sw = abs(y) > abs(x)
            a, b = (y, x) if sw else (x, y)
            q = PI / 12 * b / a
            cc, ss = np.cos(q), np.sin(q)
            f = r1 * 2 ** 0.25 / beta * a / np.sqrt(np.sqrt(2) - cc)
            t1, t2 = (np.sqrt(2) * cc - 1) * f, np.sqrt(2) * ss * f
            if sw:
                t1, t2 = t2, t1
            c2 = t1 * t1 + t2 * t2
            g = np.sqrt(max(0., 1 - PI * c2 / (24 * z * z)))
            r = np.array([t1 * g, t2 * g, np.sqrt(6 / PI) * z - c2 * np.sqrt(PI / 24) / z])
        o = np.zeros(3)
        o[perm] = r
        out[k] = o
    return out


def mat_cu(cu):
    return mat_ho(cu_to_ho(cu)).reshape(np.asarray(cu).shape[:-1] + (3, 3))


MAT = dict(qu=mat_qu, ax=mat_ax, ro=mat_ro, eu=mat_eu, ho=mat_ho, cu=mat_cu, om=lambda m: np.asarray(m, float))
SIZE = dict(qu=4, ax=4, ro=4, eu=3, ho=3, cu=3, om=9)


def mat_angle(a, b):
    """misorientation angle between rotation matrices, accurate for small and large angles"""
    d = np.linalg.norm((a - b).reshape(a.shape[:-2] + (9,)), axis=-1)   # 2 sqrt2 sin(w/2)
    return 2 * np.arcsin(np.clip(d / (2 * np.sqrt(2)), 0, 1))


def q_angle(a, b):
    d = qmul(qconj(a), b)
    return 2 * np.arctan2(np.linalg.norm(d[..., 1:], axis=-1), np.abs(d[..., 0]))


def ref_from_qu(q, rep):
    """Reference value of a representation for unit quaternions q (n,4), q0>=0."""
    q = qnorm(q)
    q = q * np.where(q[:, :1] < 0, -1, 1)
    s = np.linalg.norm(q[:, 1:], axis=1)
    w = 2 * np.arctan2(s, q[:, 0])
    n = np.where(s[:, None] > 0, q[:, 1:] / np.where(s == 0, 1, s)[:, None], [0, 0, 1.])
    if rep == 'qu':
        return q
    if rep == 'om':
        return mat_qu(q)
    if rep == 'ax':
        return np.concatenate([n, w[:, None]], 1)
    if rep == 'ro':
        t = np.where(q[:, 0] < 1e-13, np.inf, np.tan(np.minimum(w, PI - 1e-14) / 2))
        return np.concatenate([n, t[:, None]], 1)
    if rep == 'ho':
        return n * np.cbrt(0.75 * (w - np.sin(w)))[:, None]
    if rep == 'eu':
        g = np.swapaxes(mat_qu(q), 1, 2)  # active
        Phi = np.arccos(np.clip(g[:, 2, 2], -1, 1))
        sP = np.hypot(g[:, 2, 0], g[:, 2, 1])
        Phi = np.arctan2(sP, g[:, 2, 2])
        om = mat_qu(q)
        p1 = np.arctan2(om[:, 2, 0], -om[:, 2, 1])
        p2 = np.arctan2(om[:, 0, 2], om[:, 1, 2])
        deg = sP < 1e-9
        p1 = np.where(deg, np.arctan2(om[:, 0, 1], om[:, 0, 0]) , p1)
        p2 = np.where(deg, 0, p2)
        return np.stack([p1 % (2 * PI), Phi, p2 % (2 * PI)], 1)
    raise KeyError(rep)


def special_quats(rng):
    """identity, exact and near 180 degree turns about special and random axes, tiny
    rotations, 90/120 degree turns."""
    out = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
    r2, r3 = np.sqrt(.5), np.sqrt(1 / 3.)
    for a in ([0, r2, r2], [0, r2, -r2], [r2, 0, r2], [r2, 0, -r2], [r2, r2, 0], [r2, -r2, 0], [r3, r3, r3],
              [r3, -r3, r3], [-r3, r3, r3], [r3, r3, -r3]):
        out.append([0] + a)
    for i in range(3):
        for s in (1, -1):
            for w in (1e-3, 1e-2, .3, PI / 2, 2 * PI / 3, PI - 1e-2, PI - 1e-3):
                v = np.zeros(4); v[0] = np.cos(w / 2); v[1 + i] = s * np.sin(w / 2)
                out.append(v)
    for w in (1e-3, 1e-2, PI / 2, 2 * PI / 3, PI - 1e-3, PI):
        n = rng.normal(size=3); n /= np.linalg.norm(n)
        out.append(np.r_[np.cos(w / 2), n * np.sin(w / 2)])
        out.append(np.r_[np.cos(w / 2), np.array([r3, r3, r3]) * np.sin(w / 2)])
        out.append(np.r_[np.cos(w / 2), np.array([r2, -r2, 0]) * np.sin(w / 2)])
    return np.array(out, float)
