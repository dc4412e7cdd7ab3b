P = "pyebsdindex/opencl/"
K, N = P + "clkernels.cl", P + "clnlpar.cl"
USES = ["fakecl", "fakeray.py"]
CL = """
import os, sys, io, tempfile, contextlib
import numpy as np
here = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("VERIF_CL_DIR", os.environ.get("HOME", "/tmp"))
sys.path.insert(0, os.path.join(here, "fakecl"))
import fakeray
RT = fakeray.install()
from pyopencl import vm
T = tempfile.mkdtemp()

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        return f(*a, **k)

def clean():
    bad = vm.reports()[:2] + list(vm.refused)[:2]
    if bad:
        print(bad)
    return not bad

def scan(P, nr, nc, name="in.up1", bits=8):
    from pyebsdindex import ebsd_pattern
    f = ebsd_pattern.UPFile(os.path.join(T, name))
    f.file_from_pattern_obj(P, bitdepth=bits)
    f.set_scan_rc((nr, nc))
    f.write_data(newpatterns=P, writeHead=True, flt2int="clip")
    return str(f.filepath)

def read(name):
    from pyebsdindex import ebsd_pattern
    f = ebsd_pattern.get_pattern_file_obj(os.path.join(T, name))
    return f.read_data(returnArrayOnly=True, convertToFloat=True)[0]

def mirrored(k, n):
    k = abs(k)
    k = k if k < n else 2 * n - 2 - k
    return min(max(k, 0), n - 1)

r = np.random.default_rng(11)
"""
BANDS = CL + """
from pyebsdindex.opencl import band_detect_cl, openclparam

def patterns(n, shape=(48, 48), dtype=np.uint8, top=200):
    y, x = np.mgrid[:shape[0], :shape[1]]
    out = np.zeros((n,) + shape)
    for k in range(n):
        for _ in range(5):
            t, c = r.uniform(0, np.pi), r.uniform(-.3, .3) * shape[0]
            d = (x - shape[1] / 2) * np.cos(t) + (y - shape[0] / 2) * np.sin(t) - c
            out[k] += np.exp(-(d / 2.5) ** 2)
    out = out / out.max() * top + r.uniform(0, .02 * top, out.shape)
    return out.astype(dtype)
"""

SEEDS = [
 dict(id="cl-nlpar-scratch-400", property="C23", needs="NLPAR on the device with the largest search radius it allows (10)",
  breaks="the scratch arrays of calcnlpar hold 400 neighbours, a search radius of 10 has 441: memory past them is overwritten",
  edits=[(N, "float d[512]; // taking a risk here that noone will want a SR > 10\n  float n[512]; \n  float diff_step[512];", "float d[400]; // the search radius is limited to 10\n  float n[400]; \n  float diff_step[400];")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
P = r.integers(20, 200, (12, 8, 8)).astype(np.uint8)
ok = True
for sr in (3, 9, 10):
    vm.reset()
    o = nlpar_cl.NLPAR(scan(P, 3, 4), searchradius=sr)
    quiet(o.calcnlpar, searchradius=sr, lam=1., fileout=os.path.join(T, "o.up1"), verbose=0)
    assert vm.launches.get("calcnlpar")
    ok &= clean()
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-dilate-past-row", property="C23", needs="the last row of the padded Radon transform, at one column",
  breaks="the local maximum at one column takes in the first value of the next row, for the last row memory past the buffer",
  edits=[(K, "const long int iend = x+kszx2 < imszx ? x+kszx2: imszx-1;", "const long int iend = x+kszx2 <= imszx ? x+kszx2: imszx-1;")],
  demo=BANDS + """
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40)
b.find_bands(patterns(3))
assert vm.launches.get("morphDilateKernelBF")
sys.exit(not clean())
""", uses=USES),
 dict(id="cl-convolve-past-end", property="C23", needs="the row of the Radon transform half a kernel before its end",
  breaks="the convolution in rho reads a row past the end of the Radon transform",
  edits=[(K, "const long int jstart = ((y+kszy2) >= imszy) ? y+kszy2+1-imszy: 0;", "const long int jstart = ((y+kszy2) > imszy) ? y+kszy2+1-imszy: 0;")],
  demo=BANDS + """
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40)
b.find_bands(patterns(3))
assert vm.launches.get("convolution3d2d")
sys.exit(not clean())
""", uses=USES),
 dict(id="cl-last-slot-unset", property="C23", needs="a pattern with fewer bands than are looked for, and device memory that held other values",
  breaks="the slot of the weakest band is not initialised: what it reports depends on what the memory held",
  edits=[(K, "for (i=0;i<lnmax;++i){", "for (i=0;i<lnmax-1;++i){")],
  demo=BANDS + """
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40, nBands=9)
p = patterns(4)
p[2] = 90
out = []
for fill in (0, 0x7fc00000, int(np.float32(1e30).view(np.uint32)), int(np.float32(-1e30).view(np.uint32))):
    vm.reset(fill=fill)
    out.append(quiet(b.find_bands, p))
    assert vm.launches.get("maxlabel")
sys.exit(not all(o.tobytes() == out[0].tobytes() for o in out) or not clean())
""", uses=USES),
 dict(id="cl-tile-buffer-last", property="C23", needs="a scan in several tiles, of which the last is not the largest",
  breaks="device buffers are sized for the last tile, larger ones write past them (or the device refuses them)",
  edits=[(P + "nlpar_cl.py", "    mxchunk = chunksize.max()\n", "    mxchunk = chunksize[-1, -1]\n")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
ok = True
for nr, nc in ((9, 9), (10, 7), (7, 10), (11, 11)):
    P = r.integers(20, 200, (nr * nc, 8, 8)).astype(np.uint8)
    for k in (14, 20, 30):
        vm.reset(platforms=[[dict(unified=False, alloc=k * 64 * 4 * 4)]])
        o = nlpar_cl.NLPAR(scan(P, nr, nc))
        try:
            quiet(o.calcsigma_cl, nn=1, verbose=0)
        except Exception as e:
            print(repr(e)); ok = False
        ok &= clean()
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-radon-fill-dropped", property="C23", needs="device memory that held other values than zero",
  breaks="the rho padding of the Radon transform is recognised by its missing value, which nothing has written any more",
  edits=[(P + "band_detect_cl.py", "    cl.enqueue_fill_buffer(queue, radon_gpu, np.float32(self.radonPlan.missingval), 0, radon_gpu.size)\n", "")],
  demo=BANDS + """
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40, nBands=9)
p = patterns(4)
out = []
for fill in (0, 0x7fc00000, int(np.float32(1e30).view(np.uint32)), int(np.float32(-1e30).view(np.uint32))):
    vm.reset(fill=fill)
    out.append(quiet(b.find_bands, p))
    assert vm.launches.get("maxlabel")
sys.exit(not all(o.tobytes() == out[0].tobytes() for o in out) or not clean())
""", uses=USES),
 dict(id="cl-short-patterns", property="C24", needs="16 bit patterns with values above 32767",
  breaks="16 bit patterns are loaded as signed numbers: bright pixels become negative",
  edits=[(K, "  ushort imVal;\n  float imValflt;\n", "  short imVal;\n  float imValflt;\n")],
  demo=BANDS + """
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40, nBands=9)
ok = True
for top in (20000, 60000):
    p = patterns(4, dtype=np.uint16, top=top)
    a = quiet(b.find_bands, p)
    assert vm.launches.get("maxlabel")
    c = quiet(b.find_bands, p.astype(np.float32))
    ok &= a.tobytes() == c.tobytes()
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-duplicate-pattern-sigma", property="C24", needs="a pattern that the detector recorded twice, next to each other",
  breaks="the noise level of a pattern with an exact copy as neighbour is zero, as the copy is not left out",
  edits=[(N, "if (d[j] > 1e-5){ //sometimes", "if (j != nnn/2){ //sometimes")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
P = r.integers(20, 200, (30, 8, 8)).astype(np.uint8)
ok = True
for dup in (0, 1):
    if dup:
        P[14] = P[13]
    vm.reset()
    o = nlpar_cl.NLPAR(scan(P, 5, 6))
    s = quiet(o.calcsigma_cl, nn=1, automask=False, verbose=0)[0]
    assert vm.launches.get("calcsigma")
    f = P.astype(float); u = f < f.max() * .9961
    for i in range(5):
        for j in range(6):
            best = 1e24
            for y in (-1, 0, 1):
                for x in (-1, 0, 1):
                    a, b = i * 6 + j, mirrored(i + y, 5) * 6 + mirrored(j + x, 6)
                    m = u[a] & u[b]; d = ((f[a] - f[b])[m] ** 2).sum()
                    if d > 0:
                        best = min(best, d / (2 * m.sum()))
            ok &= abs(s[i, j] - best ** .5) < 1e-2
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-threshold-below-zero", property="C24", needs="a distance threshold, and neighbours closer than it",
  breaks="neighbours closer than the distance threshold get a weight above one, more than the pattern itself",
  edits=[(N, "              dd -= dthresh;\n\n              dd = dd >= 0.0 ? dd : 0.0; \n", "              dd = dd >= 0.0 ? dd : 0.0; \n\n              dd -= dthresh;\n")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
base = r.integers(40, 180, (8, 8))
P = np.clip(base + r.normal(0, 6, (30, 8, 8)), 0, 250).astype(np.uint8)
ok = True
for dth in (0., .8):
    vm.reset()
    o = nlpar_cl.NLPAR(scan(P, 5, 6))
    o.sigma = np.full((5, 6), 6., np.float32)
    quiet(o.calcnlpar, searchradius=1, lam=.7, dthresh=dth, saturation_protect=False, automask=False, fileout=os.path.join(T, "o.up1"), verbose=0)
    assert vm.launches.get("calcnlpar")
    g = read("o.up1"); f = P.astype(float)
    for i in range(5):
        for j in range(6):
            W, A = 0., 0.
            for y in (-1, 0, 1):
                for x in (-1, 0, 1):
                    a, b = i * 6 + j, mirrored(i + y, 5) * 6 + mirrored(j + x, 6)
                    d = 0. if a == b else (((f[a] - f[b]) ** 2).sum() - 64 * 72.) / (72. * 128 ** .5)
                    w = np.exp(-max(d - dth, 0) / .49); W += w; A = A + w * f[b]
            ok &= abs(A / W - g[i * 6 + j]).max() < 1.01
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-saturated-centre", property="C24", needs="a pattern with saturated pixels whose neighbours are not saturated there",
  breaks="pixels saturated in the pattern itself take part in its comparison with the neighbours",
  edits=[(N, "      mask0 =  d0 < (float16) (maxlim) ? mask0 : (float16) (0.0);\n", "")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
base = r.integers(40, 120, (8, 8))
P = np.clip(base + r.normal(0, 6, (30, 8, 8)), 0, 250).astype(np.uint8)
ok = True
for sat in (0, 1):
    if sat:
        for k in range(30):
            P[k].flat[r.permutation(64)[:4]] = 255
    vm.reset()
    o = nlpar_cl.NLPAR(scan(P, 5, 6))
    o.sigma = np.full((5, 6), 6., np.float32)
    quiet(o.calcnlpar, searchradius=1, lam=.7, dthresh=0., automask=False, fileout=os.path.join(T, "o.up1"), verbose=0)
    assert vm.launches.get("calcnlpar")
    g = read("o.up1"); f = P.astype(float); u = f < f.max() * .9961
    for i in range(5):
        for j in range(6):
            W, A = 0., 0.
            for y in (-1, 0, 1):
                for x in (-1, 0, 1):
                    a, b = i * 6 + j, mirrored(i + y, 5) * 6 + mirrored(j + x, 6)
                    m = u[a] & u[b]; n = m.sum()
                    d = 0. if a == b else (((f[a] - f[b])[m] ** 2).sum() - n * 72.) / (72. * (2 * n) ** .5)
                    w = np.exp(-max(d, 0) / .49); W += w; A = A + w * f[b]
            ok &= abs(A / W - g[i * 6 + j]).max() < 1.01
sys.exit(not ok)
""", uses=USES),
 dict(id="cl-second-tile", property="C24", needs="a scan in two or more columns of tiles",
  breaks="the second column of tiles overwrites points of the first, for which it lacks neighbours",
  edits=[(P + "nlpar_cl.py", "cstartcalc = sr if (colchunk > 0) else 0", "cstartcalc = sr if (colchunk > 1) else 0")],
  demo=CL + """
from pyebsdindex.opencl import nlpar_cl
nr, nc = 5, 16
base = r.integers(40, 180, (8, 8))
P = np.clip(base + r.normal(0, 6, (nr * nc, 8, 8)), 0, 250).astype(np.uint8)
P[:, 0, 0] = 250
out = []
for dev in (dict(), dict(unified=False, alloc=40 * 64 * 4 * 4)):
    vm.reset(platforms=[[dev]])
    o = nlpar_cl.NLPAR(scan(P, nr, nc))
    o.sigma = np.full((nr, nc), 6., np.float32)
    quiet(o.calcnlpar, searchradius=2, lam=.7, dthresh=0., fileout=os.path.join(T, "o.up1"), verbose=0)
    print(vm.launches.get("calcnlpar"))
    out.append(read("o.up1"))
assert vm.launches.get("calcnlpar") > 1
sys.exit(bool(abs(out[0] - out[1]).max() > 1))
""", uses=USES),
 dict(id="cl-corner-sign", property="C24", needs="a band oblique in the Radon transform",
  breaks="the cross derivative of the peak interpolation has the wrong sign in a corner: bands of the device are displaced",
  edits=[(K, """      indxy = ((y+1)*imszx + (x+1))*nImChunk+z; 
      imVal2 = maxvalin[indxy]; 
      avetempweight += imVal2;
      dxy  +=  imVal2;""", """      indxy = ((y+1)*imszx + (x+1))*nImChunk+z; 
      imVal2 = maxvalin[indxy]; 
      avetempweight += imVal2;
      dxy  -=  imVal2;""")],
  demo=BANDS + """
p = patterns(12)
b = band_detect_cl.BandDetect(patDim=(48, 48), nTheta=60, nRho=40, nBands=6)
a = quiet(b.find_bands, p)
assert vm.launches.get("maxlabel")
c = quiet(b.find_bands, p, useCPU=True)
d = np.abs(a["aveloc"][:, :, None] - c["aveloc"][:, None]).max(-1).min(1)[:, :4]
print(np.median(d))
sys.exit(bool(np.median(d) > .05))
""", uses=USES),
]
