"""C21: orientation maps, scalar maps and the micron bar."""
import numpy as np
from core import *
import rot, patfiles
import C17ref as sy

RULE = ("one case = one image (or one set of colour-key directions); every pixel is judged: orientation colours by symmetry invariance, corner colours and the "
        "crystal direction computed independently, scalar maps by position and monotonicity, micron bars by measuring the drawn bar against the text "
        "captured as it is drawn; non-trivial = distinct map")
ASSUMPTIONS = ["orientation colours are defined for the Laue classes m-3m and 6/mmm (the supported ones)",
               "scalar records contain at least one indexed point"]
PARTS = ["key", "ipf", "scalar", "bar"]
MUST_OBSERVE = ["directions", "pixels", "unindexed", "scalar_pixels", "bars"]
THREADS = 1
WIDTH = 4
KEYS = {43: ([[0, 0, 1], [0, 1, 1], [1, 1, 1]]), 62: ([[0, 0, 1], [1, 0, 0], [np.sqrt(3) / 2, .5, 0]])}


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def full(laue, v):
    """all directions equivalent to v under the Laue group (rotations and inversion)"""
    g = sy.GROUPS[laue]
    o = rot.qrot(g, np.broadcast_to(v, (len(g), 3)))
    return np.r_[o, -o]


def fundamental(laue, v):
    """representative inside the standard triangle, by choosing the equivalent nearest to its middle"""
    c = unit(sum(unit(np.array(k, float)) for k in KEYS[laue]))
    g = sy.GROUPS[laue]
    best = np.full(len(v), -2.); out = np.zeros_like(v)
    for s in g:
        for sg in (1, -1):
            w = sg * rot.qrot(np.broadcast_to(s, (len(v), 4)), v)
            d = w @ c
            m = d > best + 1e-12
            best[m] = d[m]; out[m] = w[m]
    return out


def part_key(ctx):
    import_repo()
    from pyebsdindex.EBSDImage import IPFcolor
    rng = ctx.rng
    for laue, direct, quat in ((43, IPFcolor.ipf_color_cubic, IPFcolor.qu2ipf_cubic), (62, IPFcolor.ipf_color_hex, IPFcolor.qu2ipf_hex)):
        d = {"laue": laue}
        g = sy.GROUPS[laue]
        with quiet(), ctx.must("colour key corners"):
            for k, c in enumerate(KEYS[laue]):
                e = full(laue, unit(np.array(c, float)))
                e = e * rng.uniform(.5, 3, (len(e), 1))
                col = np.asarray(direct(e.copy())).clip(0, 1)
                one = np.asarray(direct(e[0].copy())).reshape(-1, 3).clip(0, 1)
                ctx.check(one.shape == (1, 3) and np.abs(one - col[:1]).max() < 1e-4, "single", "a single direction is coloured unlike the same direction in an array", d)
                ctx.check((col.argmax(1) == k).all() and (col[:, k] > .98).all() and (np.delete(col, k, 1) < .9).all(), "corner",
                          "corner %s of the key is coloured %s" % (c, col[:2].tolist()), d)
                ctx.count("directions", len(e)); ctx.case("c%d%s" % (laue, c))
        for it in range(ctx.n(25, 600)):
            n = int(rng.integers(1, 60))
            v = unit(rng.normal(size=(n, 3)))
            m = int(rng.integers(6))
            if m == 0:    # on symmetry planes, axes and the boundary circle
                v = unit(rng.integers(-2, 3, (n, 3)) + [0, 0, .0]) if not (v == 0).all() else v
                v[~np.isfinite(v).all(1)] = [0, 0, 1]
            elif m == 1:
                v[:, 2] = rng.normal(0, 1e-9, n); v = unit(v)
            elif m == 2:
                v = unit(np.array([0, 0, 1.]) + rng.normal(0, 1e-6, (n, 3)))
            with quiet(), ctx.must("colour key", d):
                keep = v.copy()
                a = np.asarray(direct(v)).clip(0, 1)
                ctx.check(np.array_equal(keep, v), "mutates", "directions changed by the colour key", d)
                ctx.check(a.shape == (n, 3) and np.isfinite(a).all(), "shape", "colours %s for %d directions" % (a.shape, n), d)
                s = rot.qrot(g[rng.integers(0, len(g), n)], v) * np.where(rng.random(n) < .5, -1, 1)[:, None]
                b = np.asarray(direct(s * rng.uniform(.3, 4, (n, 1)))).clip(0, 1)
                ctx.close(b, a, "equivalent", "colour of an equivalent direction", atol=2e-4, rtol=0, data=d)
                # quaternion form: any equivalent orientation, any reference direction of any length
                q = rot.randq(rng, n); ref = rng.normal(size=3)
                if m == 3:
                    ref = np.array([0, 0, 1.])
                x = np.asarray(quat(q, vector=ref)).clip(0, 1)
                y = np.asarray(quat(rot.qmul(g[rng.integers(0, len(g), n)], q), vector=ref * 2.5))
                ctx.close(y.reshape(-1, 3), x.reshape(-1, 3), "equivalent-orientation", "colour of an equivalent orientation", atol=2e-4, rtol=0, data=d)
                # neighbours alike, directions apart told apart
                w = unit(v + rng.normal(0, 1e-4, (n, 3)))
                c = np.asarray(direct(w)).clip(0, 1)
                ctx.check(np.abs(c - a).max() < .05, "continuous", "colours of directions 0.01 deg apart differ by %.3f" % np.abs(c - a).max(), d)
                f = fundamental(laue, v)
                sep = np.rad2deg(np.arccos(np.clip(f @ f.T, -1, 1)))
                dc = np.abs(a[:, None] - a[None]).max(-1)
                ctx.check(not ((sep > 6) & (dc < .004)).any(), "distinct", "different crystal directions share a colour", d)
                ctx.count("directions", 4 * n); ctx.case(v.tobytes(), sample=dict(d, first=v[0].tolist()))


def build(ctx, tv, ei, laues):
    rng = ctx.rng
    from pyebsdindex import tripletvote
    ph = []
    for k, l in enumerate(laues):
        if l == 43:
            ph.append(tv.addphase(libtype="FCC") if rng.random() < .5 else tv.addphase(libtype="BCC"))
        elif l == 62:
            ph.append(tv.addphase(phasename="h", spacegroup=194, latticeparameter=[3, 3, 4.8, 90, 90, 120], polefamilies=[[1, 0, 0], [0, 0, 2], [1, 0, 1]]))
        else:
            ph.append(tv.addphase(phasename="t", spacegroup=139, latticeparameter=[3, 3, 4.4, 90, 90, 90], polefamilies=[[1, 0, 0], [0, 0, 2], [1, 0, 1]]))
    nr, nc = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    if rng.random() < .1:
        nr = nc = 1
    s = patfiles.random_scan(rng, "up1", nr=nr, nc=nc)
    if ctx.part == "bar" or rng.random() < .7:
        kw = dict(filename=patfiles.make("up1", ctx.scratch, s, None, name="m%d" % rng.integers(1 << 30)))
    else:
        kw = dict(patDim=np.array([12, 12]))
    x = ei.EBSDIndexer(phaselist=ph, nTheta=45, nRho=30, **kw)
    if "filename" in kw:
        os.unlink(kw["filename"])
    n = nr * nc
    d = np.zeros((len(ph) + 1, n), x.dataTemplate) if hasattr(x, "dataTemplate") else np.zeros((len(ph) + 1, n), np.dtype(
        [('quat', np.float64, 4), ('iq', np.float32), ('pq', np.float32), ('cm', np.float32), ('phase', np.int32), ('fit', np.float32),
         ('nmatch', np.int32), ('matchattempts', np.int32, 4), ('totvotes', np.int32)]))
    for k in range(len(ph)):
        d[k]['quat'] = rot.randq(rng, n); d[k]['phase'] = k
        d[k]['fit'] = rng.random(n) * 3; d[k]['cm'] = rng.random(n); d[k]['nmatch'] = rng.integers(3, 9, n)
        d[k]['pq'] = rng.random(n) * 9000; d[k]['iq'] = rng.random(n) * 200
        d[k]['matchattempts'] = rng.integers(0, 50, (n, 4))
        un = rng.random(n) < rng.choice([0, .2])
        d[k]['phase'][un] = -1; d[k]['fit'][un] = 180; d[k]['cm'][un] = 0; d[k]['nmatch'][un] = 0
        d[k]['quat'][un] = [1, 0, 0, 0] if rng.random() < .5 else 0
    pick = rng.integers(0, len(ph), n)
    d[-1] = d[pick, np.arange(n)]
    return x, d, ph, nr, nc, "filename" in kw


def size(ctx, known, nr, nc):
    """xsize/ysize arguments and the image shape they mean"""
    n = nr * nc
    m = int(ctx.rng.integers(4)) if known else 1 + int(ctx.rng.integers(3))
    if m == 0:
        return {}, nr, nc
    if m == 1:
        return dict(xsize=nc), nr, nc
    if m == 2:
        return dict(xsize=nc, ysize=nr), nr, nc
    w = int(ctx.rng.integers(1, n + 4))      # any other width: rows fill in order, the rest is black
    return dict(xsize=w), -(-n // w), w


def part_ipf(ctx):
    import_repo()
    from pyebsdindex import tripletvote as tv, ebsd_index as ei
    from pyebsdindex.EBSDImage import IPFcolor
    rng = ctx.rng
    lists = [[43], [62], [43, 62], [62, 43], [43, 43], [43, 62, 43], [62, 42, 43]]
    for it in range(ctx.n(60, 1000)):
        laues = lists[int(rng.integers(len(lists)))]
        with quiet(), ctx.must("indexer"):
            x, d, ph, nr, nc, known = build(ctx, tv, ei, laues)
        n = nr * nc
        kw, H, W = size(ctx, known, nr, nc)
        vec = [np.array([0, 0, 1.]), np.array([1., 0, 0]), rng.normal(size=3)][int(rng.integers(3))]
        info = dict(laues=laues, rows=nr, cols=nc, vector=vec.tolist(), args=kw)
        keep = d.copy()
        with quiet(), ctx.must("orientation map", info):
            img = np.asarray(IPFcolor.makeipf(d, x, vector=vec, **kw))
            ctx.check(keep.tobytes() == d.tobytes(), "mutates", "indexing result changed by making a map", info)
            if not ctx.check(img.shape == (H, W, 3), "shape", "map of shape %s, expected %s" % (img.shape, (H, W, 3)), info):
                continue
            flat = img.reshape(-1, 3)
            ctx.check(np.isfinite(flat).all() and flat.min() >= 0 and flat.max() <= 1, "range", "colours out of range", info)
            ctx.check((flat[n:] == 0).all(), "beyond", "pixels without a scan point are not black", info)
            flat = flat[:n]
            p = d[-1]['phase']
            un = p < 0
            ctx.count("pixels", n); ctx.count("unindexed", un.sum())
            ctx.check((flat[un] == 0).all(), "unindexed", "unindexed points are not black", info)
            q = np.where(un[:, None], [1., 0, 0, 0], d[-1]['quat'])
            v = rot.qrot(q, np.broadcast_to(unit(vec), (n, 3)))
            for k, l in enumerate(laues):
                if l not in KEYS:
                    continue
                m = (p == k)
                if m.any():
                    want = np.asarray((IPFcolor.ipf_color_cubic if l == 43 else IPFcolor.ipf_color_hex)(v[m].copy())).clip(0, 1)
                    ctx.close(flat[m], want, "colour", "colour of the points of phase %d" % k, atol=2e-3, rtol=0, data=info)
            # equivalent orientations point by point
            e = d.copy()
            for k, l in enumerate(laues):
                g = sy.GROUPS[l]
                ok = e[k]['phase'] >= 0
                e[k]['quat'][ok] = rot.qmul(g[rng.integers(0, len(g), int(ok.sum()))], e[k]['quat'][ok]) * np.where(rng.random(int(ok.sum())) < .5, -1, 1)[:, None]
            e[-1]['quat'] = np.where(un[:, None], d[-1]['quat'], e[np.maximum(p, 0), np.arange(n)]['quat'])
            im2 = np.asarray(IPFcolor.makeipf(e, x, vector=vec, **kw)).reshape(-1, 3)[:n]
            ctx.close(im2, flat, "equivalent", "map of equivalent orientations", atol=2e-3, rtol=0, data=info)
            ctx.case(json.dumps(info, default=jsonable) + str(it), sample=info)


def part_scalar(ctx):
    import_repo()
    import matplotlib.pyplot as plt
    from pyebsdindex import tripletvote as tv, ebsd_index as ei
    from pyebsdindex.EBSDImage import scalarimage
    rng = ctx.rng
    lum = lambda c: c[..., :3] @ np.array([.2126, .7152, .0722])
    for it in range(ctx.n(120, 3000)):
        with quiet(), ctx.must("indexer"):
            x, d, ph, nr, nc, known = build(ctx, tv, ei, [43] if rng.random() < .8 else [43, 62])
        n = nr * nc
        if not (d[-1]['fit'] < 179).any():
            continue
        kw, H, W = size(ctx, known, nr, nc)
        f = ["pq", "iq", "fit", "fitinv", "cm", "phase", "nmatch", "matchattempts"][int(rng.integers(8))]
        val = d[-1]["fit" if f == "fitinv" else f].astype(float)
        if val.ndim > 1:
            kw["datafieldindex"] = int(rng.integers(4)); val = val[:, kw["datafieldindex"]]
        if rng.random() < .1:
            d[-1]["pq"] = 77; val = val * 0 + 77 if f == "pq" else val
        if rng.random() < .3 and f != "matchattempts":
            kw["gamma"] = float(rng.uniform(.4, 2))
        kw["cmap"] = ["gray", "viridis"][int(rng.integers(2))]
        raw = rng.random() < .2 and "gamma" not in kw
        if raw:
            kw.update(norescalegray=True, cmap="gray")
        elif rng.random() < .4:
            kw["rescalenice"] = True
        info = dict(field=f, rows=nr, cols=nc, args=kw)
        keep = d.copy()
        with quiet(), ctx.must("scalar map", info):
            img = np.asarray(scalarimage.scalarimage(d, x, datafield=f, **kw))
            ctx.check(keep.tobytes() == d.tobytes(), "mutates", "indexing result changed by making a map", info)
            want = (H, W) if raw else (H, W, 3)
            if not ctx.check(img.shape == want, "shape", "map of shape %s, expected %s" % (img.shape, want), info):
                continue
            flat = img.reshape((-1,) + img.shape[2:])
            ctx.check((flat[n:] == 0).all() and np.isfinite(flat).all(), "beyond", "pixels without a scan point are not black", info)
            flat = flat[:n]
            ctx.count("scalar_pixels", n); ctx.case(json.dumps(info) + str(it), sample=info)
            if raw:
                ctx.close(flat, -val if f == "fitinv" else val, "raw", "unscaled scalar map", atol=0, rtol=1e-6, data=info)
                continue
            ctx.check(flat.min() >= 0 and flat.max() <= 1, "range", "colours out of range", info)
            L = lum(flat)
            if kw["cmap"] == "viridis" and "gamma" in kw:
                L = lum(flat ** (1 / kw["gamma"]))
            o = np.argsort(val, kind="stable")
            step = np.diff(L[o]) * (-1 if f == "fitinv" else 1)
            ctx.check((step > -2e-3).all(), "monotone", "brightness does not follow the value", info)
            same = np.diff(val[o]) == 0
            ctx.check(not same.any() or np.abs(np.diff(L[o])[same]).max() < 1e-6, "same-value", "equal values have different colours", info)
            good = d[-1]['fit'] < 179
            if f not in ("phase", "nmatch", "matchattempts") and good.sum() > 3 and np.ptp(val[good]) > 0 and val.std() > 0:
                ctx.check(np.ptp(L[good]) > .05, "flat", "the map does not show the spread of its values", info)


def part_bar(ctx):
    import_repo()
    from PIL import ImageDraw
    from pyebsdindex import tripletvote as tv, ebsd_index as ei
    from pyebsdindex.EBSDImage import micronbar, scalarimage, IPFcolor
    rng = ctx.rng
    texts = []
    real = ImageDraw.ImageDraw.text

    def spy(self, xy, text, *a, **k):
        texts.append(text)
        return real(self, xy, text, *a, **k)
    ImageDraw.ImageDraw.text = spy
    unit_um = {"nm": 1e-3, "μm": 1., "um": 1., "mm": 1e3}

    def judge(out, H, W, step, info):
        """measure the bar drawn under the image"""
        if not ctx.check(out.shape[1] == W and out.shape[0] > H and len(texts) >= 1, "bar-shape", "image of %s became %s" % ((H, W), out.shape), info):
            return
        t = texts[-1].split()
        ctx.check(len(t) == 2 and t[1] in unit_um and float(t[0]) > 0, "bar-text", "label %r" % texts[-1], info)
        length = float(t[0]) * unit_um[t[1]] / step
        bar = out[H:].reshape(out.shape[0] - H, W, -1)[:, :, 0]
        lo, hi = bar.min(), bar.max()
        if hi <= lo:
            return
        dark = bar < lo + .3 * (hi - lo)
        rows = np.nonzero(dark[:, :max(2, int(length * .6) + 1)].any(1))[0]
        r = rows[len(rows) // 2:]
        run = 0
        for i in rows:
            c = np.nonzero(dark[i])[0]
            if not len(c) or c[0] > max(3, .01 * W):
                continue
            k = 1
            while k < len(c) and c[k] == c[k - 1] + 1:
                k += 1
            run = max(run, k)
        ctx.check(abs(run - length) <= 1.01, "bar-length", "bar labelled %s is %d pixels of %g um long, expected %.2f" % (" ".join(t), run, step, length), info)
        ctx.check(length <= .4 * W + 1, "bar-fits", "bar takes %.1f of %d columns" % (length, W), info)
        ctx.count("bars")
    try:
        for it in range(ctx.n(150, 3000)):
            H, W = int(rng.integers(1, 200)), int(rng.integers(12, 900))
            step = float(10 ** rng.uniform(-2.3, 2.5))
            if rng.random() < .3:
                step = [.001 * 1000 / W / .333, 1 / (W * .333), 3. / W / .999, .1, .05, 1., .5, 2., 10., 100.][int(rng.integers(10))]
            ch = [None, 1, 3, 4][int(rng.integers(4))]
            img = rng.random((H, W) if ch is None else (H, W, ch))
            if rng.random() < .1:
                img[:] = float(rng.random() < .5)
            if rng.random() < .3:
                img = (img * 255).astype(np.uint8)
            kw = dict(rescale=bool(rng.random() < .5))
            keep = img.copy()
            info = dict(rows=H, cols=W, channels=ch, step=step, args=dict(kw), dtype=str(img.dtype))
            if max(W * step * .333, 0) <= .0011:
                continue
            texts.clear()
            with quiet(), ctx.must("micron bar", info):
                out = np.asarray(micronbar.addmicronbar(img, step, **kw))
                ctx.check(np.array_equal(img, keep), "mutates", "image changed by adding a bar", info)
                ctx.check(np.isfinite(out).all(), "finite", "image with bar has undefined values", info)
                top = out[:H]
                im = img.astype(float).squeeze() if ch == 1 else img.astype(float)
                if kw["rescale"]:
                    ctx.check(top.min() >= 0 and top.max() <= 1, "rescale-range", "rescaled image outside 0..1", info)
                    if np.ptp(im) > 0:
                        im = (im - im.min()) / np.ptp(im) * .999
                        ctx.close(top.reshape(im.shape), im, "image", "rescaled image", atol=1e-3, rtol=0, data=info)
                else:
                    ctx.close(top.reshape(im.shape), im, "image", "image above the bar", atol=1e-6, rtol=1e-6, data=info)
                judge(out, H, W, step, info)
                ctx.case(json.dumps(info), sample=info)
            z = [2, 3][int(rng.integers(2))]
            if rng.random() < .3 and W < 300:
                texts.clear()
                with quiet(), ctx.must("micron bar on an enlarged image", info):
                    out = np.asarray(micronbar.addmicronbar(img, step, zoom_xsize=W * z, rescale=False))
                    big = np.repeat(np.repeat(img, z, 0), z, 1)
                    ctx.check(np.allclose(out[:H * z].reshape(big.shape), big), "zoom", "enlarged image is not the image", info)
                    judge(out, H * z, W * z, step / z, info)
        for it in range(ctx.n(30, 400)):       # through the map makers
            with quiet(), ctx.must("indexer"):
                x, d, ph, nr, nc, known = build(ctx, tv, ei, [43])
            step = float(x.fID.xStep)
            W = int(rng.integers(12, 60))
            if not (d[-1]['fit'] < 179).any() or W * step * .333 <= .0011:
                continue
            H = -(-nr * nc // W)
            texts.clear()
            info = dict(points=nr * nc, width=W, step=step)
            with quiet(), ctx.must("map with micron bar", info):
                if rng.random() < .5:
                    a = scalarimage.scalarimage(d, x, xsize=W); b = scalarimage.scalarimage(d, x, xsize=W, addmicronbar=True)
                    ctx.close(np.asarray(b)[:H], a, "image", "map above the bar", atol=1e-6, data=info)
                else:
                    b = IPFcolor.makeipf(d, x, xsize=W, addmicronbar=True)
                judge(np.asarray(b), H, W, step, info)
                ctx.case(json.dumps(info) + str(it))
    finally:
        ImageDraw.ImageDraw.text = real


