"""Scans for the NLPAR checks, and running the code under test on them."""
import os
import numpy as np
import numba
import patfiles as pf
import nlref
from patcheck import hush
from core import quiet

FMTS = ["up1", "up2", "ebsp2", "ebsp4", "tfpat", "oh5", "h5bruker", "h5kikuchipy", "h5oina", "up1v1", "up2v1", "ebsp2nopos", "h5plain"]


def scan(rng, fmt="up1", nr=None, nc=None, shape=None, level=True, dup=True):
    """a map of a few grains: smooth base patterns, noise of another strength in every pattern. With level, every row holds
    a pixel at the same largest value, so that the saturation level does not depend on how the scan is cut"""
    nr = nr or int(rng.integers(1, 9)); nc = nc or int(rng.integers(1, 9))
    H, W = shape or (int(rng.integers(4, 14)), int(rng.integers(4, 14)))
    dt = np.dtype(rng.choice(pf.dtypes(fmt)))
    top = 255 if dt == np.uint8 else int(rng.choice([65535, 4095, 1000]))
    y, x = np.mgrid[0:H, 0:W]
    ng = int(rng.integers(1, 4))
    base = [(.35 + .15 * np.sin(x * rng.uniform(.2, 1.2) + rng.uniform(0, 6)) + .15 * np.cos(y * rng.uniform(.2, 1.2) + rng.uniform(0, 6))) for _ in range(ng)]
    seeds = rng.uniform(0, 1, (ng, 2)) * [nr, nc]
    r, c = np.divmod(np.arange(nr * nc), nc)
    g = np.argmin((r[:, None] - seeds[:, 0]) ** 2 + (c[:, None] - seeds[:, 1]) ** 2, 1)
    amp = rng.uniform(.02, .12) * rng.uniform(.5, 1.5, nr * nc)
    p = np.array([base[k] for k in g]) + amp[:, None, None] * rng.normal(size=(nr * nc, H, W))
    p = np.clip(np.round(p * top), 0, int(.95 * top)).astype(dt)
    if dup and rng.random() < .3 and nr * nc > 2:
        k = int(rng.integers(0, nr * nc - 1)); p[k + 1] = p[k]
    if dup and rng.random() < .15:
        p[int(rng.integers(nr * nc))] = int(rng.integers(0, 20))
    if level:
        for j in range(nr):
            for _ in range(int(rng.integers(1, 4))):
                p[j * nc + int(rng.integers(nc)), int(rng.integers(H)), int(rng.integers(W))] = top
    return dict(pats=p, nr=nr, nc=nc, xs=1.5, ys=1.5, hex=0, fmt=fmt, top=top)


def info_of(s, **kw):
    return dict(fmt=s["fmt"], nr=s["nr"], nc=s["nc"], shape=s["pats"].shape[1:], dtype=str(s["pats"].dtype), top=s["top"], **kw)


def automask(h, w):
    """the documented default: a disc of 98% of the smaller side about the pattern centre"""
    r = min(h, w) * .98 * .5
    y = (np.arange(h) - int(h / 2))[:, None]
    x = (np.arange(w) - int(w / 2))[None]
    m = np.zeros((h, w), bool)
    for i in range(h):
        for j in range(w):
            dy, dx = (i - int(h / 2)) % h, (j - int(w / 2)) % w
            m[i, j] = np.hypot(min(dy, h - dy), min(dx, w - dx)) < r
    return m


class Run:
    def __init__(self, ctx, s, rng, name):
        self.ctx, self.s, self.name = ctx, s, name
        self.path = pf.make(s["fmt"], ctx.scratch, s, rng, name=name)
        self.file = self.path[0] if isinstance(self.path, list) else self.path
        self.bytes = open(self.file, "rb").read()
        self.made = []

    def obj(self, cls, mask=None, **kw):
        if not pf.has_scan(self.s["fmt"]):
            kw = dict(kw, nrows=self.s["nr"], ncols=self.s["nc"])
        with hush():
            n = cls(self.path, **kw)
        if mask is not None:
            n.mask = mask
        return n

    def nlpar(self, o, **kw):
        """runs calcnlpar; returns the patterns of the file it wrote"""
        with hush():
            out = o.calcnlpar(**dict(dict(verbose=0), **kw))
        self.made.append(str(out))
        kw = {}
        return pf.parse(self.s["fmt"], str(out), **kw)["pats"]

    def unchanged(self):
        return open(self.file, "rb").read() == self.bytes

    def clean(self):
        for f in self.made + [self.file]:
            if os.path.exists(f):
                os.unlink(f)


def tolerance(lo, hi):
    """rounding to integers, and single precision in the weights and sums"""
    return .5 + 1e-4 + 3e-4 * (hi - lo) + 2e-6 * hi


def threads(k):
    numba.set_num_threads(max(1, min(k, numba.config.NUMBA_NUM_THREADS)))
