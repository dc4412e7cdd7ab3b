"""Synthetic crystals and Kikuchi patterns, independent of the code under test."""
import numpy as np
import rot
import xtal
import C17ref as sy

# generic phases: (space group, lattice, families used by the shorthand library)
GENERIC = {
    "FCC": (225, [1, 1, 1, 90., 90., 90.], [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]),
    "BCC": (229, [1, 1, 1, 90., 90., 90.], [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]),
    "HCP": (194, [1, 1, 1.63, 90., 90., 120.], [[1, 0, 0], [0, 0, 2], [1, 0, 1], [1, 0, 2], [1, 1, 0], [1, 0, 3], [1, 1, 2], [2, 0, 1]]),
}


def laue_of(sg):
    for k, (a, b) in xtal.SG.items():
        if a <= sg <= b:
            return k


class Phase:
    """name, space group, lattice, families -> unit normals (one per plane) and family index"""

    def __init__(self, sg, lat, fams, name=None):
        self.sg, self.lat, self.fams, self.name = sg, list(lat), np.asarray(fams), name
        self.laue = laue_of(sg)
        self.R, _ = xtal.recip(xtal.vectors(self.lat))
        n, f, h = [], [], []
        for i, fam in enumerate(self.fams):
            o = xtal.orbit(fam, self.laue, self.R)
            keep = []
            for r in o:
                if not any((r == -k).all() or (r == k).all() for k in keep):
                    keep.append(r)
            keep = np.array(keep)
            c = keep @ self.R
            n.append(c / np.linalg.norm(c, axis=1)[:, None]); f += [i] * len(keep); h.append(keep)
        self.normals = np.concatenate(n); self.fam = np.array(f); self.hkl = np.concatenate(h)
        self.symm = sy.GROUPS[self.laue]

    def indexer(self):
        from pyebsdindex import tripletvote
        if self.name:
            return tripletvote.addphase(libtype=self.name)
        return tripletvote.addphase(phasename="x", spacegroup=self.sg, latticeparameter=self.lat, polefamilies=self.fams)

    def misorientation(self, qa, qb):
        """smallest angle (deg) between orientations, both reference->crystal passive-style
        rotations (v_crystal = R(q) v_ref), over the crystal's rotation group"""
        qa, qb = np.atleast_2d(qa), np.atleast_2d(qb)
        out = np.full(len(qa), 360.)
        for s in self.symm:
            e = rot.qmul(np.broadcast_to(s, qb.shape), qb)
            out = np.minimum(out, np.rad2deg(rot.q_angle(qa, e)))
        return out


def generic(name):
    sg, lat, f = GENERIC[name]
    return Phase(sg, lat, f, name)


def random_phase(rng, laue=None, nf=None):
    laue = list(xtal.SG)[rng.integers(11)] if laue is None else laue
    a, b = xtal.SG[laue]
    sg = int(rng.integers(a, b + 1))
    lat = xtal.lattice(rng, laue)
    # moderate axial ratios: a phase anyone would index
    R, _ = xtal.recip(xtal.vectors(lat))
    nf = nf or int(rng.integers(3, 6))
    return Phase(sg, lat, xtal.choose(rng, laue, nf, R, hmax=2))


# ---------------------------------------------------------------- patterns
VENDORS = ["EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT"]


def vendor_pc(vendor, shape, u, v, L, delta=20.):
    """pattern centre in a vendor's convention; u right of the left edge, v above the bottom edge, L distance, all in pixels"""
    H, W = shape
    return {"EDAX": lambda: [u / W, v / H, L / min(W, H)], "OXFORD": lambda: [u / W, v / W, L / W],
            "BRUKER": lambda: [u / W, 1 - v / H, L / H], "KIKUCHIPY": lambda: [u / W, 1 - v / H, L / H],
            "EMSOFT": lambda: [W / 2 - u, v - H / 2, L * delta, delta]}[vendor]()


def directions(shape, u, v, L):
    """unit vector from the source to the centre of every pixel (x right, y up, z to the screen)"""
    H, W = shape
    j, i = np.mgrid[0:H, 0:W]
    d = np.stack([i + .5 - u, H - (j + .5) - v, np.full(shape, float(L))], -1)
    return d / np.linalg.norm(d, axis=-1)[..., None]


def rx(a):
    return np.array([np.cos(np.deg2rad(a) / 2), np.sin(np.deg2rad(a) / 2), 0, 0])


def rz(a):
    return np.array([np.cos(np.deg2rad(a) / 2), 0, 0, np.sin(np.deg2rad(a) / 2)])


def ref2det(vendor, tilt, elev):
    """rotation taking the vendor's reference frame to the detector frame (quaternion, v_det = R(q) v_ref)"""
    q = rx(-(90. - tilt + elev))
    return rot.qmul(q, rz(-90.)) if vendor in ("EDAX", "EMSOFT", "KIKUCHIPY") else q


def kikuchi(ph, qdet, shape, geom, width=1.2, amp=None):
    """pattern (0..1) of a crystal with v_crystal = R(qdet) v_det: a bright straight band per reflector"""
    d = directions(shape, *geom)
    n = rot.qrot(rot.qconj(qdet)[None], ph.normals)
    a = np.arcsin(np.clip(np.abs(d.reshape(-1, 3) @ n.T), 0, 1))
    w = np.ones(len(n)) if amp is None else np.asarray(amp)[ph.fam]
    p = (w * np.exp(-.5 * (a / np.deg2rad(width)) ** 2)).sum(1)
    return (p / max(p.max(), 1e-9)).reshape(shape)


AMPS = {"FCC": [.8, 1., .5, .35], "BCC": [1., .7, .5, .3], "HCP": [.8, 1., 1., .5, .6, .5, .4, .3]}


def patterns(rng, ph, Q, shape, geom, noise=.02, dtype=np.float32, width=1.2):
    """geom: (u, v, L) or one row per pattern"""
    g = np.atleast_2d(geom)
    out = np.array([kikuchi(ph, q, shape, g[i % len(g)], width, AMPS.get(ph.name)) for i, q in enumerate(Q)])
    out = 20 + 200 * out + 200 * noise * rng.normal(size=out.shape)
    if np.dtype(dtype).kind in "ui":
        out = np.clip(np.round(out * (250 if np.dtype(dtype).itemsize > 1 else 1)), 0, np.iinfo(dtype).max)
    return out.astype(dtype)
