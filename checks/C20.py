"""C20: OH5 and ANG export against an independent parse of the files."""
import os
import numpy as np
import h5py
from core import *
import rot, xtal, patfiles

RULE = ("one case = one exported indexing result (phase list, scan geometry, records incl. unindexed points); the file is parsed independently of the "
        "library and every point and every phase definition is compared with what was passed in; non-trivial = distinct result/geometry")
ASSUMPTIONS = ["ANG numbers compared to the precision the format prints (5 decimals for angles/positions, 1 for pattern quality, 3 for the rest)",
               "pattern-centre header values compared for one EDAX-convention pattern centre", "families per phase below 128"]
PARTS = ["oh5", "ang"]
MUST_OBSERVE = ["exports", "points", "unindexed", "phases", "one_point"]
THREADS = 1
WIDTH = 2


def phases(rng, tv, n):
    out = []
    for i in range(n):
        laue = [43, 62, 43, 42, 4, 22, 32, 3, 6, 23, 2, 1][int(rng.integers(12))]
        lp = xtal.lattice(rng, laue)
        R, _ = xtal.recip(xtal.vectors(lp))
        sg = int(rng.integers(xtal.SG[laue][0], xtal.SG[laue][1] + 1))
        while True:
            f = xtal.choose(rng, laue, int(rng.integers(1, 4)) + 3 * (laue == 1), R, hmax=3)
            o = np.concatenate([xtal.orbit(h, laue, R) for h in f]) @ R
            o /= np.linalg.norm(o, axis=1)[:, None]
            if np.linalg.eigvalsh(o.T @ o)[0] > .1:
                break
        nm = ["Ni", "alpha iron", "γ-Fe", "Ti (beta)", "x" * 60][int(rng.integers(5))] + str(i)
        out.append((dict(name=nm, sg=sg, laue=laue, lp=lp, fams=f),
                    tv.addphase(phasename=nm, spacegroup=sg, latticeparameter=lp, polefamilies=f)))
    return out


def result(rng, nph, n):
    """a structured result as index_pats returns it"""
    dt = np.dtype([('quat', np.float64, 4), ('iq', np.float32), ('pq', np.float32), ('cm', np.float32), ('phase', np.int32),
                   ('fit', np.float32), ('nmatch', np.int32), ('matchattempts', np.int32, 4), ('totvotes', np.int32)])
    d = np.zeros((nph + 1, n), dt)
    for k in range(nph + 1):
        q = rot.randq(rng, n)
        sp = rot.special_quats(rng)
        w = rng.random(n) < .2
        q[w] = sp[rng.integers(0, len(sp), int(w.sum()))]
        d[k]['quat'] = q
        for c, hi in (('iq', 300), ('pq', 20000), ('cm', 1), ('fit', 3)):
            d[k][c] = rng.random(n) * hi
        d[k]['phase'] = k if k < nph else rng.integers(0, nph, n)
        d[k]['nmatch'] = rng.integers(3, 12, n)
        un = rng.random(n) < [.0, .2, 1.][int(rng.choice(3, p=[.3, .6, .1]))]
        d[k]['phase'][un] = -1; d[k]['fit'][un] = 180; d[k]['cm'][un] = 0; d[k]['nmatch'][un] = 0; d[k]['quat'][un] = [1, 0, 0, 0]
    return d


def scenario(ctx, tv, ei):
    """random indexer, result, geometry arguments and what they mean"""
    rng = ctx.rng
    nph = int(rng.integers(1, 5))
    ph = phases(rng, tv, nph)
    nr, nc = [(1, 1), (1, int(rng.integers(2, 9))), (int(rng.integers(2, 9)), 1)][int(rng.integers(3))] if rng.random() < .3 else \
        (int(rng.integers(2, 12)), int(rng.integers(2, 12)))
    n = nr * nc
    kw, args = {}, {}
    xs, ys = float(np.round(rng.uniform(.01, 5), 3)), float(np.round(rng.uniform(.01, 5), 3))
    src = int(rng.integers(4))          # where the geometry comes from
    if src == 0:                        # a pattern file
        s = patfiles.random_scan(rng, "up1", nr=nr, nc=nc)
        s["xs"], s["ys"] = xs, ys
        kw["filename"] = patfiles.make("up1", ctx.scratch, s, None, name="s")
    else:
        args.update(xstep=xs, ystep=ys)
        kw["patDim"] = np.array([12, 12])
        if src == 1:
            args.update(ncols=nc, nrows=nr)
        elif src == 2:
            args.update(ncols=nc)
            if rng.random() < .3 and nc > 1 and nr > 1:   # last row incomplete
                n -= int(rng.integers(1, nc))
                nr = -(-n // nc)
        else:
            nr, nc = n, 1               # nothing known: one column
    pc = np.round(rng.uniform(.2, .8, 3), 5)
    tilt, elev = round(float(rng.uniform(50, 80)), 2), round(float(rng.uniform(-5, 15)), 2)
    x = ei.EBSDIndexer(phaselist=[p[1] for p in ph], vendor='EDAX', PC=pc, sampleTilt=tilt, camElev=elev, nTheta=45, nRho=30, **kw)
    grid = ["SqrGrid", "HexGrid"][int(rng.integers(2))]
    args["gridtype"] = grid
    return dict(x=x, ph=[p[0] for p in ph], data=result(rng, nph, n), n=n, nr=nr, nc=nc, xs=xs, ys=ys, args=args, grid=grid, pc=pc, tilt=tilt, elev=elev,
                desc=dict(points=n, rows=nr, cols=nc, phases=[p[0]["sg"] for p in ph], source=src, args=dict(args)))


def three(p):
    return np.asarray(p["fams"])        # h k l, whatever the library keeps


def common(ctx, s, got):
    """got: dict of columns"""
    d, n = s["data"][-1], s["n"]
    desc = s["desc"]
    lens = {k: len(v) for k, v in got.items()}
    if not ctx.check(all(v == n for v in lens.values()), "length", "%d points exported as %s" % (n, lens), desc):
        return
    un = d['phase'] < 0
    ctx.count("points", n); ctx.count("unindexed", un.sum())
    R = rot.mat_eu(np.stack([got["phi1"], got["phi"], got["phi2"]], -1))
    Q = rot.mat_qu(d['quat'])
    ang = rot.mat_angle(R, Q)
    ctx.check((ang[~un] < 4e-5).all(), "orientation", "exported orientation differs from the record by up to %g rad" % ang[~un].max(initial=0), desc)
    i = np.arange(n)
    ctx.close(got["x"], (i % s["nc"]) * s["xs"], "x", "x position", atol=2e-5, rtol=1e-6, data=desc)
    ctx.close(got["y"], (i // s["nc"]) * s["ys"], "y", "y position", atol=2e-5, rtol=1e-6, data=desc)


def part_oh5(ctx):
    import_repo()
    from pyebsdindex import tripletvote as tv, ebsd_index as ei, ebsdfile
    rng = ctx.rng
    for it in range(ctx.n(90, 1500)):
        with quiet(), ctx.must("indexer"):
            s = scenario(ctx, tv, ei)
            desc = s["desc"]
        name = "Scan 1" if rng.random() < .5 else "My scan %d" % it
        ver = '8.6' if rng.random() < .7 else '9.1'
        path = os.path.join(ctx.scratch, "o.oh5")
        keep = s["data"].copy()
        a = dict(s["args"], datasetname=name, version=ver)
        with quiet(), ctx.must("OH5 export", desc):
            ebsdfile.writeoh5(path, s["x"], s["data"], **a)
            ctx.count("exports"); ctx.count("one_point", s["n"] == 1)
            ctx.check(keep.tobytes() == s["data"].tobytes(), "mutates", "the exported result was changed", desc)
            judge_oh5(ctx, s, path, name, ver)
            ctx.case(json.dumps(desc, default=jsonable), sample=desc)


def txt(v):
    v = v[0] if getattr(v, "shape", ()) else v
    return v.decode("utf-8") if isinstance(v, bytes) else str(v)


def judge_oh5(ctx, s, path, name, ver):
    d, desc = s["data"][-1], s["desc"]
    un = d['phase'] < 0
    with h5py.File(path, "r") as f:
        ctx.check(txt(f["Manufacturer"][()]).strip() == "EDAX" and (ver != '8.6' or "8.6" in txt(f["Version"][()])), "oh5-file", "file header", desc)
        D, H = f[name + "/EBSD/Data"], f[name + "/EBSD/Header"]
        g = {k: np.asarray(D[v][()], float) for k, v in dict(phi1="Phi1", phi="Phi", phi2="Phi2", iq="IQ", pq="Pattern Quality", fit="Fit", phase="Phase",
                                                             ci="CI", x="X Position", y="Y Position").items()}
        common(ctx, s, g)
        if len(g["iq"]) != s["n"]:
            return
        for k, c in (("iq", "iq"), ("pq", "pq"), ("fit", "fit")):
            ctx.close(g[k][~un], d[c][~un], "value-" + k, k, atol=0, rtol=1e-6, data=desc)
        ctx.close(g["iq"][un], d["iq"][un], "value-iq", "iq of unindexed points", atol=0, rtol=1e-6, data=desc)
        ctx.close(g["ci"][~un], d["cm"][~un], "value-ci", "confidence", atol=0, rtol=1e-6, data=desc)
        ctx.check((g["ci"][un] == -1).all(), "flag", "unindexed points not flagged by CI -1", desc)
        ids = sorted(int(k) for k in H["Phase"].keys())
        ctx.check(len(ids) == len(s["ph"]), "phase-count", "%d phases, file lists %s" % (len(s["ph"]), ids), desc)
        # the phase number of a point names the header phase it was indexed as
        ctx.check(all(int(g["phase"][i]) == ids[int(d['phase'][i])] for i in np.nonzero(~un)[0]), "value-phase", "phase numbers", desc)
        if ids and ids[0] > 0:
            ctx.check((g["phase"][un] == 0).all(), "value-phase", "unindexed points carry the number of a phase", desc)
        for k, p in zip(ids, s["ph"]):
            G = H["Phase/%d" % k]
            ctx.count("phases")
            one = lambda n: np.asarray(G[n][()]).ravel()[0]
            ctx.check(txt(G["MaterialName"][()]) == p["name"], "phase-name", "phase name %r exported as %r" % (p["name"], txt(G["MaterialName"][()])), desc)
            ctx.check(one("LGsymID") == p["laue"] and one("SpaceGroupNumber") == p["sg"], "phase-symmetry", "symmetry of phase %d" % k, desc)
            lp = [one("Lattice Constant " + c) for c in ("a", "b", "c", "alpha", "beta", "gamma")]
            ctx.close(lp, np.array(p["lp"]) * [10, 10, 10, 1, 1, 1], "lattice", "lattice constants", atol=0, rtol=1e-5, data=desc)
            fam = G["hkl Families"][()]
            ctx.check(one("NumberFamilies") == len(p["fams"]) == len(fam) and
                      np.array_equal(np.stack([np.ravel(fam[c]) for c in "HKL"], -1), three(p)), "families",
                      "reflectors %s exported as %s" % (p["fams"].tolist(), fam.tolist()), desc)
        one = lambda n: float(np.asarray(H[n][()]).ravel()[0])
        ctx.check((int(one("nColumns")), int(one("nRows"))) == (s["nc"], s["nr"]), "dims", "scan of %d x %d exported as %g x %g" % (
            s["nr"], s["nc"], one("nRows"), one("nColumns")), desc)
        ctx.close([one("Step X"), one("Step Y")], [s["xs"], s["ys"]], "step", "step size", rtol=1e-6, atol=0, data=desc)
        ctx.close([one("Pattern Center Calibration/%s-star" % c) for c in "xyz"], s["pc"], "pc", "pattern centre", atol=1e-6, data=desc)
        ctx.close([one("Sample Tilt"), one("Camera Elevation Angle")], [s["tilt"], s["elev"]], "tilt", "tilts", atol=1e-4, data=desc)
        ctx.check(txt(H["Grid Type"][()]) == s["grid"], "grid", "grid type", desc)


def part_ang(ctx):
    import_repo()
    from pyebsdindex import tripletvote as tv, ebsd_index as ei, ebsdfile
    for it in range(ctx.n(90, 1500)):
        with quiet(), ctx.must("indexer"):
            s = scenario(ctx, tv, ei)
            desc = s["desc"]
        path = os.path.join(ctx.scratch, "o.ang")
        keep = s["data"].copy()
        with quiet(), ctx.must("ANG export", desc):
            ebsdfile.writeang(path, s["x"], s["data"], **s["args"])
            ctx.count("exports"); ctx.count("one_point", s["n"] == 1)
            ctx.check(keep.tobytes() == s["data"].tobytes(), "mutates", "the exported result was changed", desc)
            judge_ang(ctx, s, path)
            ctx.case(json.dumps(desc, default=jsonable), sample=desc)


def judge_ang(ctx, s, path):
    d, desc = s["data"][-1], s["desc"]
    un = d['phase'] < 0
    head, rows = [], []
    for l in open(path, encoding="utf-8", newline="\n"):
        (head if l.startswith("#") else rows).append(l.rstrip("\r\n"))
    kv, ph = {}, []
    for l in head:
        t = l[1:].strip()
        if t.startswith("Phase "):
            ph.append(dict(id=int(t.split()[1]), hkl=[]))
        elif t.startswith("hklFamilies"):
            ph[-1]["hkl"].append([int(v) for v in t.split()[1:4]])
        elif t.startswith("MaterialName"):
            ph[-1]["name"] = t[len("MaterialName"):].strip()
        elif t.startswith(("Symmetry", "LatticeConstants", "NumberFamilies")):
            ph[-1][t.split()[0]] = [float(v) for v in t.split()[1:]]
        elif t:
            kv[t.split()[0]] = t[len(t.split()[0]):].strip()
    ctx.check(len(rows) == s["n"], "length", "%d points exported as %d rows" % (s["n"], len(rows)), desc)
    ctx.check(all(len(r.split()) == 10 for r in rows), "columns", "rows with %s columns" % {len(r.split()) for r in rows}, desc)
    if len(rows) != s["n"] or any(len(r.split()) != 10 for r in rows):
        return
    v = np.array([[float(c) for c in r.split()] for r in rows])
    g = dict(zip(["phi1", "phi", "phi2", "x", "y", "pq", "ci", "phase", "sem", "fit"], v.T))
    common(ctx, s, g)
    ctx.close(g["pq"], d["pq"], "value-pq", "pattern quality", atol=.06, rtol=1e-6, data=desc)
    ctx.close(g["ci"][~un], d["cm"][~un], "value-ci", "confidence", atol=6e-4, data=desc)
    ctx.close(g["fit"][~un], d["fit"][~un], "value-fit", "fit", atol=6e-4, data=desc)
    ctx.check((g["ci"][un] == -1).all(), "flag", "unindexed points not flagged by CI -1", desc)
    byid = {p["id"]: p for p in ph}
    ctx.check(sorted(byid) == list(range(1, len(s["ph"]) + 1)), "phase-count", "%d phases, file lists %s" % (len(s["ph"]), sorted(byid)), desc)
    add = 0 if len(s["ph"]) == 1 else 1          # the format numbers a lone phase 0
    ctx.check(np.array_equal(g["phase"][~un], d['phase'][~un] + add), "value-phase", "phase numbers", desc)
    ctx.check((g["phase"][un] == 0).all(), "value-phase", "phase of unindexed points", desc)
    for k, p in enumerate(s["ph"]):
        q = byid.get(k + 1)
        if q is None:
            continue
        ctx.count("phases")
        ctx.check(q.get("name") == p["name"], "phase-name", "phase name %r exported as %r" % (p["name"], q.get("name")), desc)
        ctx.check(q.get("Symmetry") == [p["laue"]], "phase-symmetry", "symmetry %s of phase %d" % (q.get("Symmetry"), k), desc)
        ctx.close(q.get("LatticeConstants", []), np.array(p["lp"]) * [10, 10, 10, 1, 1, 1], "lattice", "lattice constants", atol=6e-4, data=desc)
        ctx.check(q.get("NumberFamilies") == [len(p["fams"])] and q["hkl"] == three(p).tolist(), "families",
                  "reflectors %s exported as %s" % (p["fams"].tolist(), q["hkl"]), desc)
    num = lambda k: float(kv[k])
    ctx.check((num("NCOLS_ODD:"), num("NCOLS_EVEN:"), num("NROWS:")) == (s["nc"], s["nc"], s["nr"]), "dims", "scan of %d x %d exported as %s x %s" % (
        s["nr"], s["nc"], kv["NROWS:"], kv["NCOLS_ODD:"]), desc)
    ctx.close([num("XSTEP:"), num("YSTEP:")], [s["xs"], s["ys"]], "step", "step size", rtol=1e-5, atol=0, data=desc)
    ctx.close([num(c + "-star") for c in "xyz"], s["pc"], "pc", "pattern centre", atol=1e-6, data=desc)
    ctx.close([num("SampleTiltAngle"), num("CameraElevationAngle")], [s["tilt"], s["elev"]], "tilt", "tilts", atol=1e-4, data=desc)
    ctx.check(kv["GRID:"] == s["grid"], "grid", "grid type", desc)
