"""C18: crystal geometry matrices and the reflector library."""
import itertools
import numpy as np
from core import *
import rot
import C17ref as sy
from xtal import SG, lattice, vectors, recip, orbit, choose

RULE = ("one case = one crystal (lattice parameters + space group + reflector list); matrices compared with lattice vectors built "
        "independently, the library compared with the orbit of each reflector under the independently generated rotation group and "
        "with every angle pair and triplet those normals form; non-trivial = distinct lattice/group/reflector choice")
ASSUMPTIONS = ["lattice parameters 0.2-20 length units, hexagonal axes for trigonal groups, unique axis b for monoclinic",
               "angles above 1 degree, recorded to 0.01 degree"]
PARTS = ["geom", "lib1", "lib2", "lib3"]
MUST_OBSERVE = ["crystals", "orbits", "pair_angles", "triplets"]
THREADS = 1
def part_geom(ctx):
    import_repo()
    from pyebsdindex import crystallometry
    for i in range(ctx.n(600, 20000)):
        laue = list(SG)[i % 11]
        lp = lattice(ctx.rng, laue)
        V = vectors(lp); R, vol = recip(V)
        with quiet(), ctx.must("crystal matrices"):
            X = crystallometry.Crystal('x', *lp)
            G = V @ V.T; g = R @ R.T
            d = {"lattice": lp}
            t = lambda ref: 3e-6 + 1e-9 * np.abs(ref).max()
            ctx.close(X.metricTensor, G, "metric", "metric tensor", atol=t(G), data=d)
            ctx.close(X.reciprocalMetricTensor, g, "rmetric", "reciprocal metric tensor", atol=t(g), data=d)
            ctx.close(X.directStructureMatrix, V.T, "dsm", "direct structure matrix", atol=t(V), data=d)
            ctx.close(X.reciprocalStructureMatrix, R.T, "rsm", "reciprocal structure matrix", atol=t(R), data=d)
            ctx.close(X.invDirectStructureMatrix, np.linalg.inv(V.T), "idsm", "inverse direct structure matrix", atol=t(R), data=d)
            ctx.close(X.invReciprocalStructureMatrix, np.linalg.inv(R.T), "irsm", "inverse reciprocal structure matrix", atol=t(V), data=d)
            ctx.check(abs(X.volume / vol - 1) < 1e-6, "volume", "cell volume %g expected %g" % (X.volume, vol), d)
            ctx.count("crystals"); ctx.case(np.array(lp).tobytes(), sample=d)
    for _ in range(ctx.n(300, 3000)):
        u = ctx.rng.integers(-4, 5, 3); t = int(ctx.rng.integers(-3, 4))
        uvtw = np.array([u[0], u[1], -(u[0] + u[1]), u[2]])
        if not uvtw.any():
            continue
        with quiet(), ctx.must("four-index direction"):
            o = np.asarray(crystallometry.uvtw2uvw(uvtw), float)
            w = np.array([uvtw[0] - uvtw[2], uvtw[1] - uvtw[2], uvtw[3]], float)
            w /= np.gcd.reduce(np.abs(w.astype(int)))
            ctx.check(np.allclose(o, w), "uvtw", "[%s] -> %s expected %s" % (uvtw, o, w))
            ctx.case(b"u" + uvtw.tobytes()); ctx.count("directions")


def judge(ctx, ph, lp, laue, fams, d):
    R, _ = recip(vectors(lp))
    lib = ph.completelib
    poles = np.asarray(lib['poles']); cart = np.asarray(lib['polesCart']); fid = np.asarray(lib['familyid'])
    ok = len(poles) == len(cart) == len(fid)
    ctx.check(ok, "lib-shape", "library arrays disagree in length", d)
    if not ok:
        return
    # a diffracting plane has no sense: both ends of each normal belong to the library
    orb = [np.unique(np.concatenate([o, -o]), axis=0) for o in (orbit(h, laue, R) for h in fams)]
    for i, o in enumerate(orb):
        got = np.rint(poles[fid == i]).astype(int)
        same = got.shape == o.shape and np.array_equal(np.unique(got, axis=0), o)
        ctx.check(same, "orbit", "family %s: library lists %s, symmetry gives %s" % (fams[i].tolist(), got.tolist(), o.tolist()), d)
        ctx.count("orbits")
        if not same:
            return
        f0 = int(lib['famIndex'][i]); nn = int(lib['nFamily'][i])
        ctx.check((fid[f0:f0 + nn] == i).all() and nn == len(o), "fam-index", "family %d index range wrong" % i, d)
    c = poles @ R
    c /= np.linalg.norm(c, axis=1)[:, None]
    ctx.close(cart, c, "cartesian", "cartesian unit normals of the library", atol=2e-4, data=d)
    ang = np.degrees(np.arccos(np.clip(c @ c.T, -1, 1)))
    T = np.asarray(lib['angTable'], float)
    ctx.check(T.shape == ang.shape and np.abs(np.cos(np.deg2rad(T)) - np.cos(np.deg2rad(ang))).max() < 1e-4, "ang-table",
              "angle table disagrees with the lattice", d)
    # --- pairs
    ac = np.minimum(ang, 180 - ang)
    pa = np.asarray(ph.angpairs['angles'], float); pf = np.asarray(ph.angpairs['familyid']); pp = np.asarray(ph.angpairs['polepairs'])
    nf = len(fams)
    for i in range(nf):
        for j in range(i, nf):
            true = ac[np.ix_(fid == i, fid == j)].ravel()
            mine = pa[(pf[:, 0] == i) & (pf[:, 1] == j)]
            need = true[true > 1.02]
            if len(need):
                miss = need[np.abs(need[:, None] - mine[None, :]).min(1) > .02] if len(mine) else need
                ctx.check(len(miss) == 0, "pair-missing", "angle %s between families %d,%d is not in the pair list" % (miss[:3], i, j), d)
            if len(mine):
                extra = mine[np.abs(mine[:, None] - true[None, :]).min(1) > .02]
                ctx.check(len(extra) == 0, "pair-extra", "listed angle %s between families %d,%d does not occur" % (extra[:3], i, j), d)
                ctx.check(len(np.unique(mine)) == len(mine), "pair-dup", "repeated pair angles", d)
            ctx.count("pair_angles", len(mine))
    a = pp[:, 0] @ R; b = pp[:, 1] @ R
    r = np.degrees(np.arccos(np.clip(np.abs((a * b).sum(1)) / np.linalg.norm(a, axis=1) / np.linalg.norm(b, axis=1), 0, 1)))
    ctx.check(np.abs(r - pa).max() < .03, "pair-poles", "a listed reflector pair does not make the listed angle", d)
    # --- triplets: every one that occurs is listed (some labelling consistent with the angles)
    ta = np.rint(np.asarray(ph.angtriplets['angles']) * 100).astype(int); ti = np.asarray(ph.angtriplets['familyid'])
    ctx.check((np.diff(ta, axis=1) >= 0).all(), "trip-order", "triplet angles not ascending", d)
    listed = {}
    for x, y in zip(ta.tolist(), ti.tolist()):
        listed.setdefault(tuple(y), set()).add(tuple(x))
    arr = {k: np.array(sorted(v)) for k, v in listed.items()}
    cache = {}
    n = len(c)
    reps = [int(np.nonzero(fid == i)[0][0]) for i in range(nf)]
    nbad = 0
    for i in reps:
        js = np.nonzero(ac[i] > 1.05)[0]
        for j, k in itertools.combinations(js.tolist(), 2):
            if ac[j, k] <= 1.05:
                continue
            key = (round(ac[i, j], 2), round(ac[i, k], 2), round(ac[j, k], 2), fid[i], fid[j], fid[k])
            if key in cache:
                continue
            cache[key] = 1
            found = False
            for p in itertools.permutations((i, j, k)):
                t = np.array([ac[p[0], p[1]], ac[p[0], p[2]], ac[p[1], p[2]]]) * 100
                if t[0] <= t[1] + 2 and t[1] <= t[2] + 2:
                    L = arr.get((int(fid[p[0]]), int(fid[p[1]]), int(fid[p[2]])))
                    if L is not None and (np.abs(L - t).max(1) <= 2).any():
                        found = True
                        break
            if not found:
                nbad += 1
                if nbad < 3:
                    ctx.fail("trip-missing", "reflectors %s %s %s form angles %s which no listed triplet covers" % (
                        poles[i].tolist(), poles[j].tolist(), poles[k].tolist(), [ac[i, j], ac[i, k], ac[j, k]]), d)
    ctx.count("triplets", len(cache))
    # and each listed triplet is made of angles its families really form
    for y, L in arr.items():
        for s, (u, v) in enumerate(((0, 1), (0, 2), (1, 2))):
            true = ac[np.ix_(fid == y[u], fid == y[v])].ravel() * 100
            bad = np.abs(np.unique(L[:, s])[:, None] - true[None, :]).min(1) > 2
            ctx.check(not bad.any(), "trip-extra", "listed triplet of families %s uses an angle these families do not form" % (y,), d)


def lib(ctx, laues):
    import_repo()
    from pyebsdindex import tripletvote as tv
    rng = ctx.rng
    for rep in range(ctx.n(3, 25)):
        for laue in laues:
            lp = lattice(rng, laue)
            sg = int(rng.integers(SG[laue][0], SG[laue][1] + 1))
            R, _ = recip(vectors(lp))
            nf = int(rng.integers(1, 4 if laue in (43, 62, 42) and not ctx.thorough else 5))
            if laue == 1:
                nf = int(rng.integers(4, 9))
            fams = choose(rng, laue, nf, R)
            o = np.concatenate([orbit(h, laue, R) for h in fams]) @ R
            o /= np.linalg.norm(o, axis=1)[:, None]
            axes = []
            for v in o:
                if all(abs(v @ w) < .9995 for w in axes):
                    axes.append(v)
            if len(axes) < 3:      # no three distinct normals: nothing to index with
                continue
            hexa = laue in (62, 6)
            give = np.c_[fams[:, 0], fams[:, 1], -(fams[:, 0] + fams[:, 1]), fams[:, 2]] if hexa and rng.random() < .6 else fams
            # unusable (all zero) and antiparallel repeats are dropped
            extra = give
            mode = int(rng.integers(3))
            if mode == 1:
                extra = np.r_[give, -give[:1]]
            elif mode == 2:
                extra = np.r_[give[:1] * 0, give]
            d = dict(lattice=lp, spacegroup=sg, poles=extra.tolist())
            lpc, pc = np.array(lp), np.array(extra)
            with quiet(), ctx.must("build reflector library", d):
                ph = tv.addphase(phasename='p%d' % rep, spacegroup=sg, latticeparameter=lpc if rng.random() < .5 else lp, polefamilies=pc if rng.random() < .5 else extra.tolist())
                ctx.check(np.array_equal(lpc, np.array(lp)) and np.array_equal(pc, extra), "mutates", "phase set-up changed its inputs", d)
                ctx.check(ph.phasename == 'p%d' % rep and ph.spacegroup == sg and ph.lauecode == laue, "meta", "name/space group/Laue of phase", d)
                out = np.asarray(ph.polefamilies)
                want = np.c_[fams[:, 0], fams[:, 1], -(fams[:, 0] + fams[:, 1]), fams[:, 2]] if hexa else fams
                ctx.check(out.shape == want.shape and np.array_equal(out, want) and ph.npolefamilies == len(fams), "families",
                          "phase lists families %s, expected %s" % (out.tolist(), want.tolist()), d)
                judge(ctx, ph, lp, laue, fams, d)
                ctx.count("crystals"); ctx.case(json.dumps(d), sample=d)


def part_lib1(ctx):
    lib(ctx, [1, 2, 22, 4])
    import_repo()
    from pyebsdindex import tripletvote as tv
    # shorthand phases
    cub = [1., 1., 1., 90., 90., 90.]
    for name, sg, laue, lp, fams in (
            ('FCC', 225, 43, cub, [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]), ('BCC', 229, 43, cub, [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]),
            ('HCP', 194, 62, [1., 1., 1.63, 90., 90., 120.], [[1, 0, 0], [0, 0, 2], [1, 0, 1], [1, 0, 2], [1, 1, 0], [1, 0, 3], [1, 1, 2], [2, 0, 1]])):
        if name == 'HCP' and not ctx.thorough:
            continue
        with quiet(), ctx.must("shorthand phase " + name):
            ph = tv.addphase(libtype=name if ctx.rng.random() < .5 else name.lower())
            ctx.check(ph.spacegroup == sg and ph.phasename == name, "shorthand", "%s: space group %s name %s" % (name, ph.spacegroup, ph.phasename))
            ctx.check(np.allclose(ph.latticeparameter, lp), "shorthand", "%s: lattice %s" % (name, ph.latticeparameter))
            judge(ctx, ph, lp, laue, np.array(fams), {"shorthand": name})
            ctx.case("short" + name); ctx.count("crystals")
    with quiet(), ctx.must("phase without a space group"):
        ph = tv.addphase(latticeparameter=[4., 4., 4., 90, 90, 90])
        ctx.check(ph.spacegroup == 225, "shorthand", "a phase given only a lattice defaults to space group %s" % ph.spacegroup)
        judge(ctx, ph, [4., 4., 4., 90, 90, 90], 43, np.array([[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]), {"default": 1})


def part_lib2(ctx): lib(ctx, [42, 3, 32, 23])
def part_lib3(ctx): lib(ctx, [6, 62, 43])
