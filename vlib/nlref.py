"""NLPAR in double precision, from its definition: noise levels, neighbour weights, averages and lambda metric."""
import numpy as np


def window(nr, nc, sr, mode="shift"):
    """indices of the search window of every point; moved inside the scan at its edges, or clipped to it"""
    out = []
    for y in range(nr):
        for x in range(nc):
            def span(c, n):
                if mode == "clip":
                    return range(max(c - sr, 0), min(c + sr, n - 1) + 1)
                a = max(min(c - sr, n - 1 - 2 * sr), 0)
                return range(a, min(a + 2 * sr + 1, n))
            out.append([yy * nc + xx for yy in span(y, nr) for xx in span(x, nc)])
    return out


def mirror(nr, nc, sr):
    """windows with points outside of the scan replaced by their mirror image (with repetition)"""
    f = lambda i, n: min(max(abs(i) if abs(i) < n else 2 * n - abs(i) - 2, 0), n - 1)
    return [[f(y + dy, nr) * nc + f(x + dx, nc) for dy in range(-sr, sr + 1) for dx in range(-sr, sr + 1)] for y in range(nr) for x in range(nc)]


def pairs(data, mask, limit):
    """sum of squared differences, and number of pixels compared, of every pair of patterns"""
    m = np.asarray(mask).ravel() > 0
    p = data.reshape(len(data), -1).astype(np.float64)[:, m]
    ok = (p < limit).astype(np.float64)
    q = p * ok
    n = ok @ ok.T
    s = (q * q) @ ok.T
    d = s + s.T - 2 * q @ q.T
    # exact for identical patterns
    d[np.abs(d) < 1e-13 * (s + s.T) + 1e-9] = 0
    np.fill_diagonal(d, 0)
    return d, n


def limit(data, saturation, frac):
    mx = np.float32(data.max())
    return float(mx) * frac if saturation else float(mx) + 1.0


def sigma(data, nr, nc, mask, saturation=True, nn=1):
    d, n = pairs(data, mask, limit(data, saturation, 0.9961))
    out = np.empty(nr * nc)
    for i, w in enumerate(window(nr, nc, nn, "clip")):
        w = [k for k in w if k != i and d[i, k] >= 1e-3]
        out[i] = np.sqrt(min([d[i, k] / (2 * (n[i, k] + 1e-12)) for k in w] + [1e24]))
    return out.reshape(nr, nc)


def distance(data, sig, mask, lim):
    d, n = pairs(data, mask, lim)
    s2 = np.asarray(sig, np.float64).ravel() ** 2
    ss = s2[:, None] + s2[None]
    norm = ss * np.sqrt(2 * n)
    with np.errstate(all="ignore"):
        dn = np.where(norm > 1e-8, (d - n * ss) / norm, 1e6 * n)
    np.fill_diagonal(dn, -1e6)
    return dn


def average(data, nr, nc, sig, lam, sr, dthresh, mask, saturation=True, offset=0.0, frac=.999, wins=None):
    dn = distance(data, sig, mask, limit(data, saturation, frac))
    p = data.reshape(len(data), -1).astype(np.float64)
    W = wins or window(nr, nc, sr)
    out = np.empty_like(p)
    lo, hi = np.empty_like(p), np.empty_like(p)
    for i, w in enumerate(W):
        w = np.array(w)
        k = np.exp(-np.maximum(dn[i, w] - dthresh, 0) / lam ** 2) + (w == i) * offset
        out[i] = (k / k.sum()) @ p[w]
        lo[i], hi[i] = p[w].min(0), p[w].max(0)
    return out.reshape(data.shape), lo.reshape(data.shape), hi.reshape(data.shape)


class Lambda:
    """self-weights of the points of a scan as a function of lambda (3 x 3 neighbourhood)"""
    def __init__(self, data, nr, nc, mask, saturation=True, dthresh=0.0, wins=None):
        lim = limit(data, saturation, 0.9961)
        sg = sigma(data, nr, nc, mask, saturation)
        dn = distance(data, sg, mask, lim)
        W = wins or window(nr, nc, 1, "clip")
        self.d = np.full((nr * nc, 9), np.inf)
        for i, w in enumerate(W):
            self.d[i, :len(w)] = np.maximum(dn[i, w] - dthresh, 0)

    def self_weight(self, lam):
        return 1 / np.exp(-self.d / lam ** 2).sum(1)

    def metric(self, lam, target):
        return np.abs(target - self.self_weight(lam)).mean()

    def best(self, target):
        g = np.geomspace(.001, 10, 500)
        m = [self.metric(x, target) for x in g]
        k = int(np.argmin(m))
        f = np.linspace(g[max(k - 1, 0)], g[min(k + 1, len(g) - 1)], 60)
        mf = [self.metric(x, target) for x in f]
        return f[int(np.argmin(mf))], min(mf)

    def search(self, target):
        """a simplex search from one"""
        import scipy.optimize
        return float(scipy.optimize.minimize(lambda x: self.metric(x[0], target), [1.0], method="Nelder-Mead", bounds=[[.001, 10]], options=dict(fatol=1e-4)).x[0])
