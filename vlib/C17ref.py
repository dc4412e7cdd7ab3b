"""Rotation groups of the Laue classes generated from standard generators."""
import numpy as np
import rot



def q(axis, deg):
    a = np.array(axis, float); a /= np.linalg.norm(a)
    w = np.deg2rad(deg) / 2
    return np.r_[np.cos(w), a * np.sin(w)]


def generate(gens):
    g = [np.array([1., 0, 0, 0])]
    while True:
        new = []
        for a in g:
            for b in gens:
                c = rot.qmul(a, b)
                if not any(abs(abs(np.dot(c, d)) - 1) < 1e-9 for d in g + new):
                    new.append(c)
        if not new:
            return np.array(g)
        g += new


X, Y, Z = [1, 0, 0], [0, 1, 0], [0, 0, 1]
GROUPS = {1: generate([]), 2: generate([q(Y, 180)]), 22: generate([q(X, 180), q(Y, 180)]),
          4: generate([q(Z, 90)]), 42: generate([q(Z, 90), q(X, 180)]),
          3: generate([q(Z, 120)]), 32: generate([q(Z, 120), q(X, 180)]),
          6: generate([q(Z, 60)]), 62: generate([q(Z, 60), q(X, 180)]),
          23: generate([q([1, 1, 1], 120), q(Z, 180)]), 43: generate([q([1, 1, 1], 120), q(Z, 90)])}
ORDER = {1: 1, 2: 2, 22: 4, 4: 4, 42: 8, 3: 3, 32: 6, 6: 6, 62: 12, 23: 12, 43: 24}
assert all(len(GROUPS[k]) == ORDER[k] for k in ORDER)


