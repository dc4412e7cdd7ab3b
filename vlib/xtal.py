"""Independent lattice / reflector model (numpy only)."""
import numpy as np
import rot
import C17ref as sy

SG = {1: (1, 2), 2: (3, 15), 22: (16, 74), 4: (75, 88), 42: (89, 142), 3: (143, 148), 32: (149, 167), 6: (168, 176), 62: (177, 194),
      23: (195, 206), 43: (207, 230)}


def lattice(rng, laue):
    a, b, c = np.exp(rng.uniform(np.log(.25), np.log(15), 3))
    b, c = a * np.exp(rng.uniform(-.7, .7)), a * np.exp(rng.uniform(-.7, .7))
    if laue == 1:
        while True:
            al, be, ga = rng.uniform(65, 120, 3)
            ca, cb, cg = np.cos(np.deg2rad([al, be, ga]))
            if 1 - ca * ca - cb * cb - cg * cg + 2 * ca * cb * cg > .2:
                return [a, b, c, al, be, ga]
    if laue == 2:
        return [a, b, c, 90., rng.uniform(75, 120), 90.]
    if laue == 22:
        return [a, b, c, 90., 90., 90.]
    if laue in (4, 42):
        return [a, a, c, 90., 90., 90.]
    if laue in (3, 32, 6, 62):
        return [a, a, c, 90., 90., 120.]
    return [a, a, a, 90., 90., 90.]


def vectors(lp):
    """rows: real-space lattice vectors with a along x, b in the xy plane"""
    a, b, c, al, be, ga = lp
    al, be, ga = np.deg2rad([al, be, ga])
    A = np.array([a, 0, 0])
    B = b * np.array([np.cos(ga), np.sin(ga), 0])
    cx = np.cos(be); cy = (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    C = c * np.array([cx, cy, np.sqrt(1 - cx * cx - cy * cy)])
    return np.array([A, B, C])


def recip(V):
    vol = np.dot(V[0], np.cross(V[1], V[2]))
    return np.array([np.cross(V[1], V[2]), np.cross(V[2], V[0]), np.cross(V[0], V[1])]) / vol, vol


def orbit(hkl, laue, R):
    """symmetry-equivalent reflectors under the proper rotations, as index rows"""
    c = np.asarray(hkl, float) @ R
    o = rot.qrot(sy.GROUPS[laue], np.broadcast_to(c, (len(sy.GROUPS[laue]), 3)))
    h = o @ np.linalg.inv(R)
    hi = np.rint(h)
    assert np.abs(h - hi).max() < 1e-4, (h, laue)
    return np.unique(hi.astype(int), axis=0)


def choose(rng, laue, nf, R, hmax=3):
    fams, seen, tries = [], [], 0
    while len(fams) < nf:
        tries += 1
        if tries % 200 == 0:          # no further direction within hmax
            hmax += 1
        h = rng.integers(-hmax, hmax + 1, 3)
        if rng.random() < .5:
            h = np.abs(h)
        if not h.any():
            continue
        o = orbit(h, laue, R)
        u = o / np.linalg.norm(o, axis=1)[:, None]
        if any((np.abs(u @ s.T) > .9999).any() for s in seen):
            continue
        seen.append(u); fams.append(h)
    return np.array(fams)
