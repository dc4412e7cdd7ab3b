"""Writers and readers of the pattern file formats, from their layouts (struct / numpy / h5py only),
independent of the code under test.

scan: dict(pats (n, H, W), nr, nc, xs, ys, hex).  make(fmt, directory, scan, rng) -> path argument
for get_pattern_file_obj; parse(fmt, path) -> dict(pats, xy) read back from the raw bytes."""
import os
import struct
import numpy as np

HDF = ["oh5", "h5edax", "h5bruker", "h5kikuchipy", "h5oina", "h5oinaraw", "h5plain"]
UP = ["up1v1", "up2v1", "up1", "up2"]
EBSP = ["ebsp1", "ebsp2", "ebsp4", "ebsp2nopos", "ebsp5"]
TF = ["tfpat", "tfpatback"]
ALL = UP + EBSP + TF + HDF


def dtypes(fmt):
    """integer types the format stores"""
    if fmt.startswith("up1"):
        return [np.uint8]
    if fmt.startswith("up2") or fmt.startswith("tf"):
        return [np.uint16]
    return [np.uint8, np.uint16]


def has_scan(fmt):
    """does the file say how many columns and rows the scan has, and the steps?"""
    return fmt not in ("up1v1", "up2v1", "ebsp2nopos", "h5plain")


def has_steps(fmt):
    return has_scan(fmt) and not fmt.startswith("tf")


def random_scan(rng, fmt=None, dtype=None, nr=None, nc=None, shape=None, low=0):
    H, W = shape or (int(rng.integers(3, 20)), int(rng.integers(3, 20)))
    nr = nr or int(rng.integers(2, 7))
    nc = nc or int(rng.integers(2, 7))
    dtype = np.dtype(dtype or rng.choice(dtypes(fmt)))
    hi = np.iinfo(dtype).max
    p = rng.integers(low, hi, (nr * nc, H, W), endpoint=True).astype(dtype)
    return dict(pats=p, nr=nr, nc=nc, xs=float(np.round(rng.uniform(.05, 3), 3)), ys=float(np.round(rng.uniform(.05, 3), 3)), hex=0)


def xy(s):
    """positions of the points relative to the scan centre"""
    i = np.arange(s["nr"] * s["nc"])
    return np.stack([(i % s["nc"] - .5 * s["nc"]) * s["xs"], (i // s["nc"] - .5 * s["nr"]) * s["ys"]], -1)


# ------------------------------------------------------------------ UP
def _up(fmt, path, s, rng):
    p = s["pats"]
    n, H, W = p.shape
    if fmt.endswith("v1"):
        off = 16 + (int(rng.integers(0, 400)) if rng is not None and rng.random() < .5 else 0)
        head = struct.pack("<4I", 1, W, H, off)
    else:
        off = 42 + (int(rng.integers(1, 200)) if rng is not None and rng.random() < .4 else 0)
        head = struct.pack("<4I", 3, W, H, off) + struct.pack("<B", 0) + struct.pack("<2I", s["nc"], s["nr"]) + struct.pack("<B", s["hex"]) + struct.pack("<2d", s["xs"], s["ys"])
    with open(path, "wb") as f:
        f.write(head + b"\x5a" * (off - len(head)) + p.tobytes())


def _up_parse(path):
    b = open(path, "rb").read()
    v, W, H, off = struct.unpack("<4I", b[:16])
    dt = np.uint8 if str(path).lower().endswith("1") else np.uint16
    out = dict(version=v, head=b[:off])
    if v >= 3:
        out["extra"] = b[16]
        out["nc"], out["nr"] = struct.unpack("<2I", b[17:25])
        out["hex"] = b[25]
        out["xs"], out["ys"] = struct.unpack("<2d", b[26:42])
    d = np.frombuffer(b[off:], dt)
    out["pats"] = d[:d.size // (H * W) * H * W].reshape(-1, H, W)
    out["rest"] = d.size % (H * W)
    return out


# ------------------------------------------------------------------ EBSP
def _ebsp(fmt, path, s, rng, order=None, gap=None):
    """order: position in the file of every pattern (acquisition order may differ from map order)"""
    v = int(fmt[4])
    pos = not fmt.endswith("nopos")
    p = s["pats"]
    n, H, W = p.shape
    ph = 24 if v >= 5 else 16
    foot = 16 if v == 1 else (18 if pos else 1)
    head = struct.pack("<q", -v) + (b"\x00" if v >= 4 else b"")
    start = len(head) + 8 * n + (8 + 5 if v >= 5 else 0)
    size = ph + p[0].nbytes + foot
    order = np.arange(n) if order is None else order
    slot = np.empty(n, int); slot[order] = np.arange(n)
    tab = (start + slot * size).astype("<u8")
    loc = xy(s)
    with open(path, "wb") as f:
        f.write(head + tab.tobytes())
        if v >= 5:
            f.write(struct.pack("<2I", H, W) + b"\x07" * 5)
        for i in order:
            f.write((struct.pack("<6I", 0, 0, 0, H, W, p[i].nbytes) if v >= 5 else struct.pack("<4I", 0, H, W, p[i].nbytes)) + p[i].tobytes())
            if v == 1:
                f.write(struct.pack("<2d", *loc[i]))
            elif pos:
                f.write(b"\x01" + struct.pack("<d", loc[i, 0]) + b"\x01" + struct.pack("<d", loc[i, 1]))
            else:
                f.write(b"\x00")


def _ebsp_parse(path):
    b = open(path, "rb").read()
    v = -struct.unpack("<q", b[:8])[0]
    o = 9 if v >= 4 else 8
    if v < 5:  # the first record follows the table
        n, i = 1 << 60, 0
        while i < n:
            a = struct.unpack("<Q", b[o + 8 * i:o + 8 * i + 8])[0]
            n = min(n, (a - o) // 8) if a else n
            i += 1
    else:
        n = 0
        q = np.frombuffer(b[o:o + (len(b) - o) // 8 * 8], "<u8")
        H, W = struct.unpack("<2I", b[int(q[0]) + 12:int(q[0]) + 20])
        n = int(np.nonzero(q == H + (W << 32))[0].min())
    tab = np.frombuffer(b[o:o + 8 * n], "<u8")
    ph = 24 if v >= 5 else 16
    pats, loc = [], []
    for t in tab.astype(int):
        H, W, nb = struct.unpack("<3I", b[t + ph - 12:t + ph])
        dt = {1: "<u1", 2: "<u2", 4: "<u4"}[nb // (H * W)]
        pats.append(np.frombuffer(b[t + ph:t + ph + nb], dt).reshape(H, W))
        e = t + ph + nb
        if v == 1:
            loc.append(struct.unpack("<2d", b[e:e + 16]))
        elif b[e]:
            loc.append((struct.unpack("<d", b[e + 1:e + 9])[0], struct.unpack("<d", b[e + 10:e + 18])[0]))
        else:
            loc.append((np.nan, np.nan))
    return dict(version=v, pats=np.array(pats), xy=np.array(loc))


# ------------------------------------------------------------------ ThermoFisher
def _tf(fmt, path, s, rng, scan=True, xypx=None):
    p = s["pats"].astype("<u2")
    n, H, W = p.shape
    back = fmt.endswith("back")
    with open(path, "wb") as f:
        f.write(struct.pack("<5I", 1, s["nc"], s["nr"], W, H) + struct.pack("<h", -1 if scan else 0) + struct.pack("<B", s.get("bits", 16)) + struct.pack("<h", -1 if back else 0))
        if back:
            f.write(s["back"].astype("<u2").tobytes())
        for i in range(n):
            x, y = (i % s["nc"], i // s["nc"]) if xypx is None else xypx[i]
            f.write(struct.pack("<2I", x, y) + p[i].tobytes())


def _tf_parse(path):
    b = open(path, "rb").read()
    v, nc, nr, W, H = struct.unpack("<5I", b[:20])
    scan, = struct.unpack("<h", b[20:22])
    bits = b[22]
    back, = struct.unpack("<h", b[23:25])
    o = 25
    bg = None
    if back < 0:
        bg = np.frombuffer(b[o:o + 2 * H * W], "<u2").reshape(H, W)
        o += 2 * H * W
    dt = np.dtype([("loc", "<u4", 2), ("pat", "<u2", (H, W))])
    n = (len(b) - o) // dt.itemsize
    d = np.frombuffer(b[o:o + n * dt.itemsize], dt)
    return dict(version=v, nc=nc, nr=nr, bits=bits, back=bg, scan=scan < 0, pats=d["pat"], loc=d["loc"], rest=len(b) - o - n * dt.itemsize)


# ------------------------------------------------------------------ HDF5
def dset_name(fmt, group):
    return {"oh5": group + "/EBSD/Data/Pattern", "h5edax": group + "/EBSD/Data/Pattern", "h5bruker": group + "/EBSD/Data/RawPatterns",
            "h5kikuchipy": group + "/EBSD/Data/patterns", "h5oina": group + "/EBSD/Data/Processed Patterns", "h5oinaraw": group + "/EBSD/Data/Raw Patterns", "h5plain": "my/data/pats"}[fmt]


def _hdf(fmt, path, scans, rng):
    """scans: one scan, or several as {group: scan}"""
    import h5py
    groups = scans if "pats" not in scans else {"Scan 1" if fmt != "h5oina" and fmt != "h5oinaraw" else "1": scans}
    S = lambda t: np.array([t.encode()], dtype="S%d" % max(len(t), 1))
    with h5py.File(path, "w") as f:
        if fmt in ("oh5", "h5edax"):
            f["Manufacturer"] = S("EDAX"); f["Version"] = S("OIM Analysis 8.6.0050 x64 [18 Jan 2021]")
        if fmt == "h5bruker":
            f["Manufacturer"] = np.bytes_(b"Bruker Nano"); f["Version"] = np.bytes_(b"Esprit 2.X")
        if fmt == "h5kikuchipy":
            f["manufacturer"] = S("kikuchipy"); f["version"] = S("0.8.1")
        if fmt in ("h5oina", "h5oinaraw"):
            f["Format Version"] = S("5.0"); f["Manufacturer"] = S("Oxford Instruments")
        if fmt == "h5plain":
            f["other"] = np.arange(5)
        for g, s in groups.items():
            ds = dset_name(fmt, g)
            f.create_dataset(ds, data=s["pats"], chunks=(1,) + s["pats"].shape[1:] if rng is not None and rng.random() < .5 else None)
            if fmt == "h5plain":
                continue
            h = f.require_group(g + "/EBSD/Header")
            one = (lambda v, t: np.asarray(v, t)) if fmt == "h5bruker" else (lambda v, t: np.array([v], t))
            names = {"oh5": ("nColumns", "nRows", "Step X", "Step Y"), "h5edax": ("nColumns", "nRows", "Step X", "Step Y"), "h5bruker": ("NCOLS", "NROWS", "XSTEP", "YSTEP"),
                     "h5kikuchipy": ("n_columns", "n_rows", "step_x", "step_y"), "h5oina": ("X Cells", "Y Cells", "X Step", "Y Step"), "h5oinaraw": ("X Cells", "Y Cells", "X Step", "Y Step")}[fmt]
            for nm, v, t in zip(names, (s["nc"], s["nr"], s["xs"], s["ys"]), ("i4", "i4", "f8" if fmt == "h5bruker" else "f4", "f8" if fmt == "h5bruker" else "f4")):
                h[nm] = one(v, t)
            if fmt in ("oh5", "h5edax"):
                h["Grid Type"] = S("HexGrid" if s["hex"] else "SqrGrid")
            if fmt == "h5kikuchipy":
                h["grid_type"] = S("hexagonal" if s["hex"] else "square")
            if fmt in ("h5oina", "h5oinaraw"):
                q = xy(s).astype("f4")
                f[g + "/EBSD/Data/Beam Position X"] = q[:, 0]; f[g + "/EBSD/Data/Beam Position Y"] = q[:, 1]


def _hdf_parse(fmt, path, group=None):
    import h5py
    with h5py.File(path, "r") as f:
        if group is None:
            group = "1" if fmt.startswith("h5oina") else "Scan 1"
        return dict(pats=f[dset_name(fmt, group)][()])


# ------------------------------------------------------------------
EXT = {"up1v1": ".up1", "up2v1": ".up2", "up1": ".up1", "up2": ".up2", "tfpat": ".pat", "tfpatback": ".pat", "oh5": ".oh5", "h5oina": ".h5oina", "h5oinaraw": ".h5oina"}


def ext(fmt):
    return EXT.get(fmt, ".ebsp" if fmt.startswith("ebsp") else ".h5")


def make(fmt, directory, s, rng=None, name=None, **kw):
    path = os.path.join(str(directory), (name or "s%06x" % int(np.random.default_rng().integers(1 << 24))) + ext(fmt))
    if fmt in UP:
        _up(fmt, path, s, rng)
    elif fmt in EBSP:
        _ebsp(fmt, path, s, rng, **kw)
    elif fmt in TF:
        if fmt == "tfpatback" and "back" not in s:
            s["back"] = (np.arange(s["pats"][0].size).reshape(s["pats"][0].shape) * 7 + 3) % 5000
        _tf(fmt, path, s, rng, **kw)
    else:
        _hdf(fmt, path, s, rng)
    return [path, "my/data/pats"] if fmt == "h5plain" else path


def parse(fmt, path, **kw):
    p = path[0] if isinstance(path, list) else path
    if fmt in UP:
        return _up_parse(p)
    if fmt in EBSP:
        return _ebsp_parse(p)
    if fmt in TF:
        return _tf_parse(p)
    return _hdf_parse(fmt, p, **kw)
