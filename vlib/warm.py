"""Compiles the package's slow numba kernels into the shared scratch cache, several processes in
parallel. Each process drives the real pipeline once with all kernels of other groups replaced by
their Python form, so argument types are those of a real run. Failure here is harmless: a kernel
that is not in the cache is compiled when it is first used."""
import sys
import numpy as np

GROUPS = {"assign": {"_assign_bands_nb"}, "quest": {"_orientation_quest_nb", "_calc_cm"},
          "label": {"band_label_numba"}, "vote": None}


def nlpar(which):
    """NLPAR kernels; the argument types are those the package passes"""
    import os, tempfile, contextlib, io
    import patfiles as pf
    from pyebsdindex.nlpar_cpu import NLPAR
    d = tempfile.mkdtemp()
    p = pf.make("up1", d, pf.random_scan(np.random.default_rng(0), "up1", nr=3, nc=3, shape=(4, 4)), None, name="w")
    n = NLPAR(p, searchradius=1)
    with contextlib.redirect_stdout(io.StringIO()):
        if which == "nlavg":
            n.sigma = np.ones((3, 3), np.float32)
            n.calcnlpar(verbose=0)
        elif which == "nlsigma":
            n.calcsigma()
        else:
            n.opt_lambda(verbose=0)


def main(which):
    if which.startswith("cl"):
        import clcheck
        clcheck.setup()
        from pyebsdindex.opencl import openclparam
        from pyopencl import vm
        vm.reset()
        openclparam.OpenClParam().get_context(kfile=which + ".cl")
        return
    if which.startswith("nl"):
        return nlpar(which)
    from numba.core.dispatcher import Dispatcher
    from pyebsdindex import tripletvote, _ebsd_index_single as single
    from pyebsdindex import band_detect
    named = set().union(*[g for g in GROUPS.values() if g])
    mine = GROUPS[which]
    for cls in (tripletvote.BandIndexer, band_detect.BandDetect):
        for n, v in list(vars(cls).items()):
            f = getattr(v, "__func__", None)
            if not isinstance(f, Dispatcher):
                continue
            keep = (n in mine) if mine is not None else (n not in named)
            if not keep:
                setattr(cls, n, staticmethod(f.py_func))
    rng = np.random.default_rng(0)
    y, x = np.mgrid[0:60, 0:60]
    p = np.zeros((2, 60, 60), dtype=np.float32)
    for k in range(9):
        a = k * np.pi / 9 + 0.1
        p += np.exp(-((x - 30) * np.cos(a) + (y - 30) * np.sin(a) - 12 + 2.5 * k) ** 2 / 4)
    ix = single.EBSDIndexer(phaselist=["FCC"], vendor="EDAX", PC=(.5, .6, .6), patDim=(60, 60))
    ix.index_pats(p)
    if mine is None or "_orientation_quest_nb" in (mine or ()) or "_assign_bands_nb" in (mine or ()):
        # make sure a solvable set of bands passes through every kernel
        from pyebsdindex import rotlib
        lib = ix.phaseLib[0].completelib["polesCart"]
        n = np.asarray(lib[[0, 2, 5, 8, 11, 14, 17, 20, 23]], dtype=np.float32)[None]
        ix.phaseLib[0].bandindex(n, band_intensity=np.ones((1, 9), dtype=np.float32))


if __name__ == "__main__":
    main(sys.argv[1])
