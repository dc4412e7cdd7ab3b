P = "pyebsdindex/"
HEAD = "import sys, numpy as np\n"
IDX = """
import io, contextlib
import rot, synth
from pyebsdindex import ebsd_index

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
"""
SYN = ["rot.py", "xtal.py", "C17ref.py", "synth.py"]

SEEDS = [
 dict(id="small-tilt-euler", property="C15", needs="an orientation whose c axis is tilted by less than about 0.25 degrees, but not exactly aligned",
  breaks="matrix -> Euler conversion rounds slightly tilted orientations to no tilt at all",
  edits=[(P + "rotlib.py", "    if (1.0 - np.abs(om[i, 2, 2])) > eps:\n      eu[i,1] = np.arccos(om[i,2,2])", "    if (1.0 - np.abs(om[i, 2, 2])) > 1.0e-5:\n      eu[i,1] = np.arccos(om[i,2,2])"),
         (P + "rotlib.py", "      if ((np.abs(om[i,2,2] - 1.0)) < eps):\n        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])", "      if ((np.abs(om[i,2,2] - 1.0)) < 1.0e-5):\n        eu[i,0] = np.arctan2(om[i,0,1],om[i,0,0])")],
  demo=HEAD + """
from pyebsdindex import rotlib
om = rotlib.eu2om(np.array([[1.0, 0.003, 2.0], [.3, .5, .7]]))
back = rotlib.eu2om(rotlib.om2eu(om))
e = np.abs(om - back).max()
print("error", e)
sys.exit(bool(e > 1e-4))
"""),
 dict(id="quatave-z-sense", property="C16", needs="a cluster of quaternions in which q and -q are mixed, near a half turn about z", breaks="the sign that brings a quaternion to the same side as the others ignores the z component, so members cancel",
  edits=[(P + "rotlib.py", """    sign = q0[0]*qu[i+1,0]
    for j in range(3):""", """    sign = q0[0]*qu[i+1,0]
    for j in range(2):""")],
  demo=HEAD + """
import rot
from pyebsdindex import rotlib
r = np.random.default_rng(0)
c = rot.qnorm(np.array([.02, .01, -.01, .99]))
q = rot.qnorm(c + .02 * r.normal(size=(40, 4)))
w = q.copy(); w[1::2] *= -1
a, b = rotlib.quatave(q), rotlib.quatave(w)
e = min(np.abs(a - b).max(), np.abs(a + b).max())
f = float(np.rad2deg(rot.q_angle(b[None].astype(float), rot.qnorm(q.sum(0))[None])[0]))
print(e, f)
sys.exit(bool(f > .1))
""", uses=["rot.py"]),
 dict(id="laue-group-boundary", property="C17", needs="a phase of space group 149 (P312), the first one of its point group",
  breaks="the phase gets the Laue group of the point group before it, so symmetry operators are missing",
  edits=[(P + "crystal_sym.py", "143, 147, 149, 156,", "143, 147, 150, 156,")],
  demo=HEAD + """
from pyebsdindex import crystal_sym
sys.exit([crystal_sym.spacegroup2lauenumber(s) for s in (148, 149, 150)] != [3, 32, 32])
"""),
 dict(id="triclinic-inverse-matrix", property="C18", needs="a triclinic lattice (alpha and beta differ from each other and from 90 degrees)",
  breaks="the inverse direct structure matrix is no longer the inverse of the direct structure matrix",
  edits=[(P + "crystallometry.py", "b*c * (cg*ca-cb)/(self.volume * sg)", "b*c * (cg*cb-ca)/(self.volume * sg)")],
  demo=HEAD + """
from pyebsdindex import crystallometry
c = crystallometry.Crystal("x", 3., 4., 5., 80., 95., 110.)
e = np.abs(np.asarray(c.invDirectStructureMatrix) @ np.asarray(c.directStructureMatrix) - np.eye(3)).max()
print(e)
sys.exit(bool(e > 1e-6))
"""),
 dict(id="third-phase-choice", property="C02", needs="three phases, of which the second is the worst and the first beats the third",
  breaks="the summary layer takes a phase that is not the best",
  edits=[(P + "_ebsd_index_single.py", '> ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])', '> ((3.0 - indxData[j - 1, :]["fit"]) * indxData[j - 1, :]["nmatch"])')],
  demo=HEAD + IDX + """
r = np.random.default_rng(1)
shape = (80, 80); geom = (40., 45., 50.)
hcp = synth.generic("HCP"); bcc = synth.generic("BCC"); fcc = synth.generic("FCC")
Q = rot.randq(r, 30)
P = np.concatenate([synth.patterns(r, p, Q[i * 10:i * 10 + 10], shape, geom) for i, p in enumerate([fcc, bcc, hcp])])
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC", "HCP", "BCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape)
ix.nband_earlyexit = 10
d, b = quiet(ix.index_pats, P)[:2]
sc = np.where(d["phase"][:3] >= 0, (3 - d["fit"][:3]) * d["nmatch"][:3], -1e9)
pick = d["phase"][3]
ok = pick >= 0
got = sc[np.clip(pick, 0, 2), np.arange(30)]
bad = ok & (got < sc.max(0) - 1e-3)
print("not best:", bad.sum())
sys.exit(bool(bad.any()))
""", uses=SYN),
 dict(id="match-index-rows", property="C02", needs="several phases of which an earlier one already settled some of the patterns (early exit), so that a later phase works on a subset",
  breaks="the band assignments of the later phase land on other patterns",
  edits=[(P + "_ebsd_index_single.py", "bandmatchindex[whgood2, ..., j] = bandmatch[whgood, ...]", "bandmatchindex[whgood, ..., j] = bandmatch[whgood, ...]")],
  demo=HEAD + IDX + """
r = np.random.default_rng(2)
shape = (80, 80); geom = (40., 45., 50.)
P = []
for i in range(16):
    P.append(synth.patterns(r, synth.generic("FCC" if i % 2 == 0 else "HCP"), rot.randq(r, 1), shape, geom)[0])
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC", "HCP"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape)
ix.nband_earlyexit = 5
d, b = quiet(ix.index_pats, np.array(P))[:2]
n = (b["band_match_index"][:, :, :2] >= 0).sum(1).T
bad = (n != np.where(d["phase"][:2] >= 0, d["nmatch"][:2], 0))
print(bad.sum(1))
sys.exit(bool(bad.any()))
""", uses=SYN),
 dict(id="chunk-mean", property="C03", needs="patterns of different contrast indexed in one chunk", breaks="band heights and pattern quality of one pattern depend on the patterns indexed along with it",
  edits=[(P + "band_detect.py", "averdnpat = np.float32(np.mean(rdnConv[:,:,q]))", "averdnpat = np.float32(np.mean(rdnConv))")],
  demo=HEAD + IDX + """
r = np.random.default_rng(3)
shape = (70, 70); geom = (35., 40., 45.)
P = synth.patterns(r, synth.generic("FCC"), rot.randq(r, 4), shape, geom, noise=.05)
P[1:] *= np.array([.3, 2., 4.]).reshape(3, 1, 1)
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape)
a = quiet(ix.index_pats, P)[0]["pq"][-1]
b = np.array([quiet(ix.index_pats, p[None])[0]["pq"][-1][0] for p in P])
print(a, b)
sys.exit(bool((np.abs(a - b) > 1e-3 * b).any()))
""", uses=SYN),
 dict(id="edax-tall-detector", property="C07", needs="EDAX convention on a detector taller than wide", breaks="the detector distance is scaled by the height instead of the smaller side",
  edits=[(P + "radon_fast.py", "-np.min(dimf[0:2])", "-dimf[0]")],
  demo=HEAD + IDX + """
r = np.random.default_rng(4)
shape = (96, 70); geom = (36., 50., 50.)
ph = synth.generic("FCC")
Q = rot.randq(r, 6)
qr = synth.ref2det("EDAX", 70., 0.)
P = synth.patterns(r, ph, Q, shape, geom)
ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor="EDAX", PC=synth.vendor_pc("EDAX", shape, *geom), patDim=shape, sampleTilt=70., camElev=0.)
d = quiet(ix.index_pats, P)[0][-1]
m = ph.misorientation(d["quat"], rot.qmul(Q, qr[None]))
print(m.round(2), d["fit"])
sys.exit(bool(np.median(m) > 1.0))
""", uses=SYN),
 dict(id="oxford-camera-elevation", property="C07", needs="Oxford or Bruker convention with a camera elevation other than zero", breaks="the elevation is applied with the wrong sign, rotating every orientation",
  edits=[(P + "_ebsd_index_single.py", '''        elif ven in ["OXFORD", "BRUKER"]:
            tiltang = -1.0 * (90.0 - self.sampleTilt + self.camElev) / RADEG''', '''        elif ven in ["OXFORD", "BRUKER"]:
            tiltang = -1.0 * (90.0 - self.sampleTilt - self.camElev) / RADEG''')],
  demo=HEAD + IDX + """
r = np.random.default_rng(5)
shape = (80, 80); geom = (40., 45., 50.)
ph = synth.generic("FCC")
Q = rot.randq(r, 6)
P = synth.patterns(r, ph, Q, shape, geom)
out = []
for ven in ("EDAX", "BRUKER"):
    ix = quiet(ebsd_index.EBSDIndexer, phaselist=["FCC"], vendor=ven, PC=synth.vendor_pc(ven, shape, *geom), patDim=shape, sampleTilt=70., camElev=8.)
    d = quiet(ix.index_pats, P)[0][-1]
    out.append(rot.qmul(d["quat"].astype(float), rot.qconj(synth.ref2det(ven, 70., 8.))[None]))
m = ph.misorientation(*out)
print(m.round(2))
sys.exit(bool(np.median(m) > 1.0))
""", uses=SYN),
 dict(id="radon-tall-pattern", property="C08", needs="patterns taller than wide, and lines steep enough to leave them sideways", breaks="lines run on into the next pixel row",
  edits=[(P + "radon_fast.py", "indx_x = np.where(indx_x >= self.imDim[1], outofbounds, indx_x)", "indx_x = np.where(indx_x >= self.imDim.max(), outofbounds, indx_x)")],
  demo=HEAD + """
from pyebsdindex import radon_fast
H, W = 80, 50
p = np.zeros((1, H, W), np.float32); p[:, :, 0] = 1.0
rp = radon_fast.Radon(image=p[0], nTheta=90, nRho=45)
out = np.asarray(rp.radon_faster(p)).reshape(45, -1)[:, :90]
x = (W - 1) / 2.0
th, rho = np.asarray(rp.theta), np.asarray(rp.rho)
# lines that stay clear of the left edge of the pattern see nothing
ys = np.arange(H) - (H - 1) / 2.0
worst = 0.0
for i in range(90):
    t = np.deg2rad(th[i]) if th.max() > 4 else th[i]
    for j in range(45):
        if abs(np.cos(t)) > .3:
            xs = (rho[j] - ys * np.sin(t)) / np.cos(t)
            if (xs > -x + 3).all() and out[j, i] > 0:
                worst = max(worst, out[j, i])
print("worst", worst)
sys.exit(bool(worst > 1e-6))
"""),
 dict(id="theta-wrap-flip", property="C09", needs="a band whose line is nearly parallel to an edge, theta close to 180 degrees", breaks="the border continued past theta = 180 is not mirrored, so bands there are shifted or missed",
  edits=[(P + "band_detect.py", "radon[:,-self.padding[1]:,:] = np.flip(radon[:,self.padding[1]:2 * self.padding[1],:],axis=0)", "radon[:,-self.padding[1]:,:] = radon[:,self.padding[1]:2 * self.padding[1],:]")],
  demo=HEAD + """
from pyebsdindex import band_detect
H = W = 80
y, x = np.mgrid[0:H, 0:W]
bd = band_detect.BandDetect(patDim=(H, W), nBands=4)
bad = 0
for a in np.deg2rad([179.0, 179.5]):
    for rho in (-22., -12., 12., 22.):
        d = (x - (W - 1) / 2) * np.cos(a) + (y - (H - 1) / 2) * np.sin(a) - rho
        b = bd.find_bands((100 + 100 * np.exp(-.5 * (d / 2.) ** 2)).astype(np.float32)[None])[0]
        b = b[b["valid"] > 0]
        if not len(b):
            bad += 1; continue
        lr, lt = b["aveloc"][0].astype(float)
        t = np.deg2rad(np.interp(lt, np.arange(bd.nTheta), bd.radonPlan.theta)); r = float(np.interp(lr, np.arange(bd.nRho), bd.radonPlan.rho))
        # (theta, rho) and (theta + 180, -rho) are one line
        e = min((abs(r - (-1) ** k * rho) + abs(np.rad2deg(t - a + k * np.pi)), abs(np.rad2deg(t - a + k * np.pi))) for k in (-1, 0, 1))[1]
        bad += e > 1.15
print("bad", bad)
sys.exit(bool(bad))
"""),
]
