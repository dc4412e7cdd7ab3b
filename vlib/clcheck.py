"""The OpenCL path of the package on the stand-in device (vlib/fakecl), and on the stand-in cluster (vlib/fakeray)."""
import os, sys
import numpy as np
import fakeray
from core import *
from patcheck import hush

RT = None
vm = None
# what memory holds that nothing has written: zero, not a number, large, very negative
FILLS = [0, 0x7fc00000, int(np.float32(1e30).view(np.uint32)), int(np.float32(-1e30).view(np.uint32))]


def setup():
    """before anything imports pyebsdindex"""
    global RT, vm
    if RT is not None:
        return RT
    os.environ.setdefault("VERIF_CL_DIR", os.path.join(os.environ.get("HOME", "/tmp"), "verifcl"))
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fakecl"))
    RT = fakeray.install()
    import_repo()
    from pyopencl import vm as v
    vm = v
    return RT


def observe(ctx):
    """adds what the device did since the last reset to the monitors"""
    s = vm.stats()
    for k in ("loads", "stores", "items", "launches"):
        ctx.count("device_" + k, s[k])
    for k, n in vm.launches.items():
        ctx.count("kernel:" + k, n)
    return s


def sound(ctx, what, info):
    """nothing was reported by the instrumented kernels, nor refused by the device"""
    observe(ctx)
    r = vm.reports()
    ok = True
    for kind, kernel, text in r[:3]:
        ok = False
        ctx.fail("%s:%s" % (kind, kernel or "host"), "%s: kernel %s: %s (%d reports)" % (what, kernel, text, len(r)), dict(info, reports=r[:8]))
    if vm.refused:
        ok = False
        ctx.fail("refused:" + what, "%s: the device refused a call: %s" % (what, vm.refused[0]), dict(info, refused=vm.refused[:5]))
    return ok


def launched(ctx, names, what, info):
    """the device did the work (and not the CPU)"""
    miss = [n for n in names if not vm.launches.get(n)]
    return ctx.check(not miss, "cpu:" + what, lambda: "%s: %s was not run on the device" % (what, miss), info)


def same_bytes(a, b):
    a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def differ(a, b):
    """text describing where two arrays differ"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    if a.dtype.names:
        n = [k for k in a.dtype.names if a[k].tobytes() != b[k].tobytes()]
        return "fields %s: %s" % (n, differ(a[n[0]], b[n[0]]) if n else "")
    d = ~((a == b) | ((a != a) & (b != b)))
    if not d.any():
        return "signs of zeros or payloads of NaN"
    i = tuple(int(x) for x in np.argwhere(d)[0])
    return "%d of %d elements; at %s %r and %r" % (d.sum(), d.size, i, a[i].item(), b[i].item())
