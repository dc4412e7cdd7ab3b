P = "pyebsdindex/"
HEAD = "import sys, numpy as np\n"
IDX = """
import io, contextlib
import rot, synth
from pyebsdindex import ebsd_index

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
"""
DIST = """
import fakeray
RT = fakeray.install()
""" + IDX + """
r = np.random.default_rng(7)
shape = (40, 40); geom = (20., 22., 25.)
P = synth.patterns(r, synth.generic("FCC"), rot.randq(r, 40), shape, geom)

def indexer():
    return quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape, nRho=40, nTheta=60, nBands=8)

def bad(got, want):
    if got.shape != want.shape:
        return -1
    m = got["phase"] != want["phase"]
    m |= np.abs((got["quat"] * want["quat"]).sum(-1)) < .9999
    return int(m.sum())
"""
SYN = ["rot.py", "xtal.py", "C17ref.py", "synth.py"]
NL = """
import os, tempfile, io, contextlib
from pyebsdindex import nlpar_cpu, ebsd_pattern
T = tempfile.mkdtemp()

def scan(P, nr, nc, name="in.up1", bits=8):
    f = ebsd_pattern.UPFile(os.path.join(T, name))
    f.file_from_pattern_obj(P, bitdepth=bits)
    f.set_scan_rc((nr, nc))
    f.write_data(newpatterns=P, writeHead=True, flt2int="clip")
    return f.filepath

def nlpar(path, out="out.up1", chunk=0, **k):
    o = nlpar_cpu.NLPAR(str(path))
    with contextlib.redirect_stdout(io.StringIO()):
        o.calcnlpar(chunksize=chunk, fileout=os.path.join(T, out), verbose=0, **k)
        f = ebsd_pattern.get_pattern_file_obj(os.path.join(T, out))
        return f.read_data(returnArrayOnly=True, convertToFloat=True)[0], o
"""
CL = """
import os
here = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("VERIF_CL_DIR", os.environ.get("HOME", "/tmp"))
sys.path.insert(0, os.path.join(here, "fakecl"))
import fakeray
RT = fakeray.install()
from pyopencl import vm
"""

SEEDS = [
 dict(id="quest-pads-unmatched", property="C02", needs="a pattern of which fewer than six, but at least three, of the bands were matched",
  breaks="unmatched bands get a weight in the orientation refinement, so orientation and fit are not those of the reported assignment",
  edits=[(P + "tripletvote.py", "srt6 = srt[0:min(nfit, whGood.size)]", "srt6 = srt[0:nfit]")],
  demo=HEAD + IDX + """
r = np.random.default_rng(1)
ph = synth.generic("FCC")
from pyebsdindex import rotlib
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", patDim=(60, 60), nBands=8)
tv = ix.phaseLib[0]
lib = np.asarray(tv.completelib["polesCart"], float)
worst = 0.
for k in range(60):
    q = rot.randq(r, 1)[0]
    pick = lib[r.permutation(len(lib))]
    use = []
    for v in pick:
        if all(abs(v @ u) < .99 for u in use):
            use.append(v)
        if len(use) == 4:
            break
    n = rotlib.quat_vector(rotlib.quatconj(q), np.array(use))
    w = r.normal(size=(4, 3))
    n = np.concatenate([n, w / np.linalg.norm(w, axis=1)[:, None]])
    out = quiet(tv.bandindex, n[None].astype(np.float32), band_intensity=np.ones((1, 8), np.float32))
    aq, fit, cm, pm, nm = out[:5]
    if nm[0] < 3 or nm[0] > 5:
        continue
    m = pm[0] >= 0
    back = rotlib.quat_vector(np.asarray(aq[0], float), n[m])
    a = np.rad2deg(np.arccos(np.clip((back * lib[pm[0][m]]).sum(1), -1, 1)))
    worst = max(worst, float(a.max()))
print("largest angle of a matched band", worst, "tolerance", tv.angTol)
sys.exit(bool(worst > 2 * tv.angTol))
""", uses=SYN),
 dict(id="weights-first-pattern", property="C03", needs="several patterns indexed together whose bands have different relative strengths",
  breaks="the weights of the bands in the refinement are those of the first pattern of the call",
  edits=[(P + "tripletvote.py", "weights[p, s] = band_intensity[p, s]", "weights[p, s] = band_intensity[0, s]")],
  demo=HEAD + IDX + """
r = np.random.default_rng(3)
shape = (70, 70); geom = (35., 40., 45.)
P = synth.patterns(r, synth.generic("FCC"), rot.randq(r, 8), shape, geom, noise=.05)
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape)
a = quiet(ix.index_pats, P)[0][-1]
b = np.concatenate([quiet(ix.index_pats, p[None])[0][-1] for p in P])
e = np.abs(np.abs((a["quat"] * b["quat"]).sum(-1)) - 1).max(); f = np.abs(a["fit"] - b["fit"]).max()
print(e, f)
sys.exit(bool(f > 1e-3))
""", uses=SYN),
 dict(id="tie-keeps-worse-fit", property="C01", needs="two candidate solutions that match the same number of bands, of which the better fitting one comes second",
  breaks="among solutions that match as many bands the worst fitting one is kept",
  edits=[(P + "tripletvote.py", "              if fitout[p] > fit:\n", "              if fitout[p] < fit:\n")],
  demo=HEAD + IDX + """
r = np.random.default_rng(5)
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", patDim=(60, 60), nBands=9)
ix.nband_earlyexit = 20
tv = ix.phaseLib[0]; tv.nband_earlyexit = 20
from pyebsdindex import rotlib
lib = np.asarray(tv.completelib["polesCart"], float)
hi = [v for i, v in enumerate(lib) if all(abs(v @ u) < .999 for u in lib[:i])]
fits = []
for k in range(400):
    q = rot.randq(r, 1)[0]
    use = np.array(hi)[r.permutation(len(hi))[:4]]
    n = rotlib.quat_vector(rotlib.quatconj(q), use)
    aq, fit, cm, pm, nm = quiet(tv.bandindex, n[None].astype(np.float32), band_intensity=np.ones((1, 4), np.float32))[:5]
    if nm[0] == 4:
        fits.append(float(fit[0]))
print("exact bands: all matched", len(fits), "worst fit", np.max(fits), "not exact", int((np.array(fits) > .2).sum()))
sys.exit(bool((np.array(fits) > .2).sum() > 0))
""", uses=SYN),
 dict(id="range-bandnorm-offset", property="C05", needs="distributed indexing of a range that does not start with the first pattern",
  breaks="index workers are given the band normals of other patterns, or none",
  edits=[(P + "_ebsd_index_parallel.py", "bandnorm = bandnormsout[cjob.pstart - patstart: cjob.pend - patstart, :, :]", "bandnorm = bandnormsout[cjob.pstart: cjob.pend, :, :]")],
  demo=HEAD + DIST + """
want = quiet(indexer().index_pats, P, patstart=6, npats=20)[0]
RT.reset(lambda *a: dict(dur=.05, tie=0), time_limit=200.)
try:
    got = quiet(ebsd_index.index_pats_distributed, P, patstart=6, npats=20, chunksize=4, ncpu=3, ebsd_indexer_obj=indexer())[0]
    n = bad(got, want)
except BaseException as e:
    n = repr(e)[:100]
print("wrong", n)
sys.exit(n != 0)
""", uses=SYN + ["fakeray.py"]),
 dict(id="idle-worker-keeps-chunk", property="C06", needs="an index worker that dies while it is waiting for work, after having finished a chunk",
  breaks="its last chunk is counted twice, so that the run ends before another chunk has been indexed",
  edits=[(P + "_ebsd_index_parallel.py", """                            cputask[jid] = cpuworkers[jid].indexpoles.remote(None, None, None)
                            ctaskindex[jid] = None

                    else:
                        raise""", """                            cputask[jid] = cpuworkers[jid].indexpoles.remote(None, None, None)

                    else:
                        raise""")],
  demo=HEAD + DIST + """
want = quiet(indexer().index_pats, P)[0]
worst = 0
for n0 in range(6):
    worked, st = set(), {"idle": 0, "x": 0}
    def plan(actor, method, n, idle, args):
        d = dict(dur=.05 if method == "indexpoles" else 1.0 + .37 * (n % 3), tie=0)
        if method == "indexpoles":
            if not idle:
                worked.add(actor.index)
            elif actor.index in worked and not st["x"]:
                st["idle"] += 1
                if st["idle"] > n0:
                    st["x"] = 1
                    d["fault"] = "die"
        return d
    RT.reset(plan, time_limit=300.)
    try:
        got = quiet(ebsd_index.index_pats_distributed, P, chunksize=4, ncpu=2, ebsd_indexer_obj=indexer())[0]
        k = bad(got, want)
    except BaseException as e:
        k = repr(e)[:100]
    print(n0, "wrong", k, st)
    worst = worst or (k != 0)
sys.exit(bool(worst))
""", uses=SYN + ["fakeray.py"]),
 dict(id="up2-range-seek", property="C04", needs="a range of a 16-bit pattern file that does not start with the first pattern", breaks="other patterns are indexed than the requested ones",
  edits=[(P + "ebsd_pattern.py", "    f.seek(np.int64(np.int64(nPerPat) * np.int64(patStart) * typebyte),1)\n", "    f.seek(np.int64(np.int64(nPerPat) * np.int64(patStart)),1)\n")],
  demo=HEAD + NL + """
r = np.random.default_rng(0)
P = r.integers(0, 60000, (12, 6, 6)).astype(np.uint16)
p = scan(P, 4, 3, "in.up2", 16)
Q = ebsd_pattern.get_pattern_file_obj(str(p)).read_data(returnArrayOnly=True, patStartCount=[5, 4])[0]
print((P[5:9] != Q).sum())
sys.exit(bool((P[5:9] != Q).any()))
"""),
 dict(id="oh5-second-scan", property="C10", needs="an .oh5 file with several scans, of which another than the first is asked for", breaks="the patterns of the first scan are returned",
  edits=[(P + "ebsd_pattern.py", """    if self.version  >= 'OIM Analysis 8.6.00':
      ngrp = self.get_data_paths()
      if ngrp <= 0:
        f.close()
        return -2 # no data groups with patterns found.
      if self.h5patdatpth is None: # default to the first datagroup
        self.set_data_path(pathindex=0)
""", """    if self.version  >= 'OIM Analysis 8.6.00':
      ngrp = self.get_data_paths()
      if ngrp <= 0:
        f.close()
        return -2 # no data groups with patterns found.
      self.set_data_path(pathindex=0)
""")],
  demo=HEAD + """
import os, tempfile, h5py
from pyebsdindex import ebsd_pattern
T = tempfile.mkdtemp()
r = np.random.default_rng(0)
p = os.path.join(T, "a.oh5")
D = {}
with h5py.File(p, "w") as f:
    f["Version"] = np.array([b"OIM Analysis 8.6.103 x64"]); f["Manufacturer"] = np.array([b"EDAX"])
    for s in ("Scan 1", "Scan 2"):
        D[s] = r.integers(0, 256, (6, 5, 7)).astype(np.uint8)
        g = f.create_group(s + "/EBSD/Data"); g["Pattern"] = D[s]
        h = f.create_group(s + "/EBSD/Header")
        h["nColumns"] = np.array([3]); h["nRows"] = np.array([2]); h["Grid Type"] = np.array([b"SqrGrid"])
        h["Step X"] = np.array([1.0]); h["Step Y"] = np.array([1.0])
bad = 0
for s in D:
    o = ebsd_pattern.get_pattern_file_obj([p, s + "/EBSD/Data/Pattern"])
    bad += int((o.read_data(returnArrayOnly=True)[0] != D[s]).sum())
print(bad)
sys.exit(bad != 0)
"""),
 dict(id="up-long-header", property="C10", needs="a .up file whose header is longer than the usual 42 (or 16) bytes",
  breaks="patterns are read from a fixed place instead of the one the header gives",
  edits=[(P + "ebsd_pattern.py", """    f.seek(self.filePos)
    nPerPat = self.patternW * self.patternH
    typeread = self.filedatatype
    typebyte = self.filedatatype(0).nbytes


    f.seek(np.int64(np.int64(nPerPat)""", """    f.seek(16 if self.version < 3 else 42)
    nPerPat = self.patternW * self.patternH
    typeread = self.filedatatype
    typebyte = self.filedatatype(0).nbytes


    f.seek(np.int64(np.int64(nPerPat)""")],
  demo=HEAD + """
import os, tempfile, struct
from pyebsdindex import ebsd_pattern
T = tempfile.mkdtemp()
r = np.random.default_rng(0)
P = r.integers(0, 256, (6, 5, 7)).astype(np.uint8)
p = os.path.join(T, "a.up1")
with open(p, "wb") as f:
    f.write(struct.pack("<IIII", 3, 7, 5, 60) + struct.pack("<BIIB", 0, 3, 2, 0) + struct.pack("<dd", 1., 1.))
    f.write(b"\\0" * (60 - f.tell()))
    f.write(P.tobytes())
o = ebsd_pattern.get_pattern_file_obj(p)
Q = o.read_data(returnArrayOnly=True)[0]
print((P != Q).sum())
sys.exit(bool((P != Q).any()))
"""),
 dict(id="ebsp-stored-order", property="C10", needs="an .ebsp file whose patterns are not stored in scan order (the first pattern of the scan is not the first in the file)",
  breaks="the pattern count is taken from the place of the first pattern of the scan, so that there are too many",
  edits=[(P + "ebsd_pattern.py", "            loc1 = min([loc1, loc_i])\n", "")],
  demo=HEAD + """
import os, tempfile, struct
from pyebsdindex import ebsd_pattern
T = tempfile.mkdtemp()
r = np.random.default_rng(0)
h, w, n = 5, 7, 6
P = r.integers(0, 256, (n, h, w)).astype(np.uint8)
rec = 16 + h * w + 18
order = [3, 0, 5, 1, 2, 4]
p = os.path.join(T, "a.ebsp")
with open(p, "wb") as f:
    f.write(struct.pack("<q", -2))
    off = [8 + 8 * n + order.index(i) * rec for i in range(n)]
    f.write(np.array(off, np.uint64).tobytes())
    for i in order:
        f.write(struct.pack("<IIII", 0, h, w, h * w) + P[i].tobytes())
        f.write(b"\\1" + struct.pack("<d", (i % 3) * .5) + b"\\1" + struct.pack("<d", (i // 3) * .5))
try:
    o = ebsd_pattern.get_pattern_file_obj(p)
    Q = o.read_data(returnArrayOnly=True)[0]
    b = Q.shape != P.shape or bool((P != Q).any())
except Exception as e:
    print(repr(e)); b = True
print(b)
sys.exit(b)
"""),
 dict(id="scale-negative-given-max", property="C11", needs="integer conversion by the 'scale' method of patterns with negative values, with the scale given by the caller",
  breaks="negative values wrap around to bright ones",
  edits=[(P + "ebsd_pattern.py", "    if minp < minval:\n", "    if (minp < minval) and (maxScale is None):\n")],
  demo=HEAD + """
from pyebsdindex import ebsd_pattern
p = np.linspace(-50, 100, 16).reshape(1, 4, 4).astype(np.float32)
q = ebsd_pattern.pat_flt2int(p, typeout=np.uint8, method="scale", maxScale=200.).astype(int).ravel()
print(q)
sys.exit(bool((np.diff(q) < 0).any()))
"""),
 dict(id="tfpat-row-number", property="C11", needs="writing patterns to a .pat file of a scan that is not square, beyond its first row",
  breaks="the stored row of each written pattern is wrong",
  edits=[(P + "ebsd_pattern.py", "    loc[:,1] = loc[:,1] // self.nCols\n", "    loc[:,1] = loc[:,1] // self.nRows\n")],
  demo=HEAD + """
import os, tempfile
from pyebsdindex import ebsd_pattern
T = tempfile.mkdtemp()
r = np.random.default_rng(0)
nr, nc, h, w = 2, 5, 6, 6
P = r.integers(0, 200, (nr * nc, h, w)).astype(np.uint16)
p = os.path.join(T, "a.pat")
rec = np.zeros(nr * nc, np.dtype([("loc", "<u4", 2), ("pat", "<u2", (h, w))]))
rec["loc"][:, 0] = np.arange(nr * nc) % nc; rec["loc"][:, 1] = np.arange(nr * nc) // nc; rec["pat"] = P
with open(p, "wb") as f:
    f.write(np.array([1, nc, nr, w, h], np.uint32).tobytes() + np.array([-1], np.int16).tobytes() + np.array([16], np.uint8).tobytes() + np.array([0], np.int16).tobytes() + rec.tobytes())
before = open(p, "rb").read()
o = ebsd_pattern.TFPatFile(p); o.read_header()
o.write_data(newpatterns=P[4:7], patStartCount=[4, 3])
after = open(p, "rb").read()
print(len(before), len(after), before == after)
sys.exit(before != after)
"""),
 dict(id="saturated-either", property="C12", needs="a pixel saturated in one of two neighbouring patterns only", breaks="the pixel is compared although one of its values is saturated",
  edits=[(P + "nlpar_cpu.py", """                  if (d1 < mxval) and (d0 < mxval):
                    n2 += np.float32(1.0)""", """                  if (d1 < mxval) or (d0 < mxval):
                    n2 += np.float32(1.0)""")],
  demo=HEAD + NL + """
r = np.random.default_rng(0)
P = r.normal(100, 4, (25, 10, 10)).clip(0, 254)
P[12, 4:7, 3:8] = 255
p = scan(np.around(P).astype(np.uint8), 5, 5)
sig = np.full((5, 5), 4., np.float32)
o = nlpar_cpu.NLPAR(str(p))
o.sigma = sig
with contextlib.redirect_stdout(io.StringIO()):
    o.calcnlpar(lam=1., searchradius=1, dthresh=0., fileout=os.path.join(T, "o.up1"), verbose=0)
out = ebsd_pattern.get_pattern_file_obj(os.path.join(T, "o.up1")).read_data(returnArrayOnly=True)[0].astype(float)
# not counting those pixels, the pattern is like its neighbours, and is averaged with them
v = out[12, 4:7, 3:8].mean()
print(v)
sys.exit(bool(v > 200))
"""),
 dict(id="chunk-halo-short", property="C13", needs="a scan streamed in more than one chunk", breaks="the first row of a chunk does not see the first row of its search window",
  edits=[(P + "nlpar_cpu.py", "      rowstartread = np.int64(max(0, j-sr))\n", "      rowstartread = np.int64(max(0, j-sr+1))\n")],
  demo=HEAD + NL + """
r = np.random.default_rng(0)
P = (100 + 10 * r.normal(size=(12 * 4, 8, 8))).clip(0, 255).astype(np.uint8)
p = scan(P, 12, 4)
a = nlpar(p, "a.up1", chunk=12, lam=1.5, searchradius=2, dthresh=0., saturation_protect=False)[0]
b = nlpar(p, "b.up1", chunk=4, lam=1.5, searchradius=2, dthresh=0., saturation_protect=False)[0]
print(np.abs(a - b).max())
sys.exit(bool(np.abs(a - b).max() > 1))
"""),
 dict(id="sigma-halo-short", property="C14", needs="noise levels from neighbours two away, in more than one chunk", breaks="the last row of a chunk does not see all rows of its neighbourhood",
  edits=[(P + "nlpar_cpu.py", "rowend = min(j + chunksize+nn,nrows)\n      if", "rowend = min(j + chunksize+1,nrows)\n      if")],
  demo=HEAD + NL + """
r = np.random.default_rng(0)
base = r.normal(100, 20, (6, 8, 8))
P = np.zeros((12, 3, 8, 8))
for i in range(12):
    for j in range(3):
        P[i, j] = base[(i % 2) * 3 + j] + 2 * r.normal(size=(8, 8))
p = scan(P.reshape(-1, 8, 8).clip(0, 255).astype(np.uint8), 12, 3)
o = nlpar_cpu.NLPAR(str(p)); a = o.calcsigma(chunksize=12, nn=2, saturation_protect=False)
o = nlpar_cpu.NLPAR(str(p)); b = o.calcsigma(chunksize=2, nn=2, saturation_protect=False)
print(np.abs(a - b).max())
sys.exit(bool(np.abs(a - b).max() > .1))
"""),
 dict(id="pso-last-improvement", property="C19", needs="a swarm optimisation in which a later particle improves on the best one by little", breaks="the best centre is not updated with its cost, so that the returned centre is not the one of the returned cost",
  edits=[(P + "pcopt.py", """        if self.pbest[wh_minpbest] < self.gbest:
            self.gbest = self.pbest[wh_minpbest]
            self.gbest_loc = self.pbest_loc[wh_minpbest, :]""", """        if self.pbest[wh_minpbest] < self.gbest:
            self.gbest = self.pbest[wh_minpbest]
            self.gbest_loc = self.pos[wh_minpbest, :]""")],
  demo=HEAD + """
from pyebsdindex import pcopt
def cost(x):
    return float(((np.asarray(x) - np.array([.31, .52, .43])) ** 2).sum())
w = 0.
for s in range(5):
    np.random.seed(s)
    o = pcopt.PSOOpt(dimensions=3, n_particles=8, c1=3.5, c2=3.5, w=.8, hyperparammethod="auto")
    c, x = o.optimize(cost, start=np.array([.5, .5, .5]), bounds=(np.zeros(3) + .3, np.zeros(3) + .7), niter=7, verbose=0)
    w = max(w, abs(cost(x) - c))
print(w)
sys.exit(bool(w > 1e-9))
"""),
 dict(id="emsoft-tall-swarm", property="C19", needs="swarm optimisation in the EMsoft convention on a detector that is not square", breaks="the returned centre is shifted by the difference of the sides of the detector",
  edits=[(P + "pcopt.py", """            newout = np.zeros(4)
            PCoutRet[0] -= 0.5
            PCoutRet[:3] *= patdimnorm
            PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[0]""", """            newout = np.zeros(4)
            PCoutRet[0] -= 0.5
            PCoutRet[:3] *= patdimnorm
            PCoutRet[1] -= 0.5 * indexer.bandDetectPlan.patDim[1]""")],
  demo=HEAD + IDX + """
from pyebsdindex import pcopt
r = np.random.default_rng(4)
shape = (70, 100); geom = (50., 36., 50.)
P = synth.patterns(r, synth.generic("FCC"), rot.randq(r, 4), shape, geom)
pc = synth.vendor_pc("EMSOFT", shape, *geom)
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EMSOFT", PC=pc, patDim=shape)
np.random.seed(0)
got = quiet(pcopt.optimize_pso, P, ix, PC0=np.array(pc, float), search_limit=.02, nswarmparticles=8, niter=6, verbose=0)
d = np.abs(np.asarray(got)[:2] - np.asarray(pc)[:2])
print(got, pc, d)
sys.exit(bool(d.max() > 4))
""", uses=SYN),
 dict(id="oh5-phase-of-unindexed", property="C20", needs="OH5 export of a result with unindexed points", breaks="unindexed points get the phase of the first phase",
  edits=[(P + "ebsdfile.py", "      phaseid = (phaseid).clip(0)\n", "      phaseid = (phaseid).clip(phaseIDadd)\n")],
  demo=HEAD + IDX + """
import os, tempfile, h5py
from pyebsdindex import ebsdfile
T = tempfile.mkdtemp()
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC", "BCC"], vendor="EDAX", patDim=(40, 40))
d = np.zeros((3, 6), ix.dataTemplate); d["quat"][..., 0] = 1
d["phase"][-1] = [0, 1, -1, 0, -1, 1]
ebsdfile.writeoh5(os.path.join(T, "a.oh5"), ix, d, ncols=3, nrows=2)
with h5py.File(os.path.join(T, "a.oh5")) as f:
    ph = f["Scan 1/EBSD/Data/Phase"][()]
print(ph)
sys.exit(bool((ph != d["phase"][-1] + 1).any()))
""", uses=SYN),
 dict(id="ang-hexagonal-poles", property="C20", needs="ANG export of a trigonal or hexagonal phase whose reflectors are given by four indices", breaks="the third index written is the redundant one",
  edits=[(P + "ebsdfile.py", "          poles = poles[:,[0,1,3]]\n", "          poles = poles[:,[0,1,2]]\n")],
  demo=HEAD + IDX + """
import os, tempfile
from pyebsdindex import ebsdfile
T = tempfile.mkdtemp()
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["HCP"], vendor="EDAX", patDim=(40, 40))
d = np.zeros((2, 2), ix.dataTemplate); d["quat"][..., 0] = 1
ebsdfile.writeang(os.path.join(T, "a.ang"), ix, d, ncols=2, nrows=1)
got = [[int(x) for x in l.split()[2:5]] for l in open(os.path.join(T, "a.ang")) if "hklFamilies" in l]
pf = np.array(ix.phaseLib[0].polefamilies).astype(int)
want = (pf[:, [0, 1, 3]] if pf.shape[1] == 4 else pf).tolist()
print(got, want)
sys.exit(got != want)
""", uses=SYN),
 dict(id="ipf-unindexed-by-phase-fit", property="C21", needs="an unindexed point in a map of several phases in which the first phase matched it but the summary did not", breaks="unindexed points are not black when the layer of the first phase has a fit",
  edits=[(P + "EBSDImage/IPFcolor.py", "  ipfout[ebsddata[-1]['fit'] > 179,:] = 0\n", "  ipfout[ebsddata[0]['fit'] > 179,:] = 0\n")],
  demo=HEAD + IDX + """
from pyebsdindex.EBSDImage import IPFcolor
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC", "BCC"], vendor="EDAX", patDim=(40, 40))
r = np.random.default_rng(0)
d = np.zeros((3, 6), ix.dataTemplate); d["quat"] = rot.randq(r, 18).reshape(3, 6, 4)
d["phase"] = np.array([0, 1, 0]).reshape(3, 1); d["phase"][2] = [0, 1, -1, 0, 1, -1]
d["fit"] = .5
d["fit"][0, [1, 4]] = 180; d["phase"][0, [1, 4]] = -1
d["fit"][2, [2, 5]] = 180; d["fit"][:2, [2, 5]] = 180; d["phase"][:2, [2, 5]] = -1
im = IPFcolor.makeipf(d, ix, xsize=3, ysize=2).reshape(-1, 3)
black = (im == 0).all(1)
print(black)
sys.exit(bool((black != (d["phase"][2] < 0)).any()))
""", uses=SYN),
 dict(id="sigma-row-past-end", property="C22", needs="noise levels of the last rows of a chunk whose neighbourhood ends exactly at the last row read", breaks="patterns past the end of the array are read",
  edits=[(P + "nlpar_cpu.py", "nn_r_end = (j + nn if (j + nn) < nrows else nrows-1)+1", "nn_r_end = (j + nn if (j + nn) <= nrows else nrows-1)+1")],
  env="NUMBA_BOUNDSCHECK=1",
  demo=HEAD + NL + """
r = np.random.default_rng(0)
p = scan(r.integers(0, 256, (12, 6, 6)).astype(np.uint8), 4, 3)
o = nlpar_cpu.NLPAR(str(p))
try:
    o.calcsigma(chunksize=4, nn=1); b = False
except IndexError as e:
    print(repr(e)); b = True
sys.exit(b)
"""),
]
