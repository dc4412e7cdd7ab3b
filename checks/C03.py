"""C03: the result of a pattern depends on nothing but the pattern (batch, order, chunks, history, threads)."""
import copy
import numpy as np
from core import *
import rot, synth, same, patfiles as pf, importlib.util, os
_s = importlib.util.spec_from_file_location("C02zoo", os.path.join(os.path.dirname(__file__), "C02.py"))
C02 = importlib.util.module_from_spec(_s); _s.loader.exec_module(C02)

RULE = ("one case = one set of patterns indexed in one arrangement (order, batch, chunk size, number type, memory layout, thread count, position in a call history) and compared pattern by pattern "
        "with each pattern indexed by itself on a new indexer; non-trivial = distinct patterns and arrangement")
ASSUMPTIONS = ["a pattern whose own result changes when it is perturbed by floating point noise (3e-6 of its range) cannot be compared and is counted as ill_conditioned",
               "settings of the indexer (background, mask, early exit) are part of the indexer, not of its history"]
PARTS = ["batch", "history", "inputs", "threads"]
WARM = ["assign", "quest", "label", "vote"]
MUST_OBSERVE = ["permuted", "chunked", "subset", "repeated", "history", "other_size", "snapshot", "types", "threads", "shared_parts", "own_file"]
THREADS = 8


def make(rng, ks, shape, geom, ven, **kw):
    from pyebsdindex import ebsd_index
    pl, phs = [], []
    for k in ks:
        p = synth.generic(k) if isinstance(k, str) else synth.Phase(*k)
        pl.append(k if isinstance(k, str) else p.indexer()); phs.append(p)
    f = lambda sh=True: ebsd_index.EBSDIndexer(phaselist=list(pl), vendor=ven, PC=synth.vendor_pc(ven, shape, *geom), **(dict(patDim=shape) if sh else {}), **kw)
    return f, phs


def setting(rng, it):
    ks = [["FCC"], ["FCC", "BCC"], ["HCP"], [C02.OTHER[0], "FCC"], ["BCC", "HCP", "FCC"]][it % 5]
    shape = [(60, 60), (60, 80), (84, 66), (48, 48)][rng.integers(4)]
    H, W = shape
    geom = (W * rng.uniform(.4, .6), H * rng.uniform(.4, .7), min(shape) * rng.uniform(.5, .9))
    ven = synth.VENDORS[rng.integers(5)]
    kw = [dict(), dict(tSigma=None, rSigma=None), dict(nRho=60, nTheta=120, tSigma=None, rSigma=None), dict(nBands=12, rhoMaskFrac=.1), dict(nRho=120, nTheta=72, tSigma=None, rSigma=None)][it % 7 % 5]
    return ks, shape, geom, ven, kw


def alone(f, P):
    ix = f()
    r = [ix.index_pats(p[None])[:2] for p in P]
    return np.concatenate([x[0] for x in r], 1), np.concatenate([x[1] for x in r], 0)


def take(A, o):
    return A[0][:, o], A[1][o]


def part_batch(ctx):
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(6, 50)):
        ks, shape, geom, ven, kw = setting(rng, it)
        info = dict(phases=str(ks), shape=shape, vendor=ven, it=it, **kw)
        with quiet():
            with ctx.must("indexing patterns one by one", info):
                f, phs = make(rng, ks, shape, geom, ven, **kw)
                P, kinds = C02.zoo(rng, shape, geom, phs, ctx.n(22, 40))
                if it % 3 == 0:
                    P[rng.integers(len(P))] = P[rng.integers(len(P))]
                A = alone(f, P)
            sy = same.symmetries(phs)
            again = lambda p: f().index_pats(p[None])[:2]
            n = len(P)
            ix = f()

            def go(what, o, **k):
                with ctx.must("indexing: " + what.split(":")[0], info):
                    d, b, s, c = ix.index_pats(P[o], **k)
                ctx.case([info, what, P[o].tobytes()[:64].hex()], sample=dict(info, arrangement=what, patterns=len(o)))
                ctx.check((int(s), int(c)) == (0, len(o)), "range", "%s: reports range (%s, %s)" % (what, s, c), info)
                same.compare(ctx, what.split(":")[0], what, take(A, o), (d, b), sy, dict(info, what=what), P[o], again)

            allo = np.arange(n)
            go("whole batch", allo)
            for q in range(3):
                go("permuted: %d" % q, rng.permutation(n)); ctx.count("permuted")
            for cs in [1, 2, 3, n - 1, n, n + 1, int(rng.integers(2, n)), int(rng.integers(2, n)), -1]:
                go("chunked: %d" % cs, allo, chunksize=cs); ctx.count("chunked")
            for q in range(3):
                o = rng.integers(0, n, int(rng.integers(1, n)))
                go("subset: %d" % q, o, chunksize=int(rng.integers(1, 12))); ctx.count("subset")
            # a pattern among copies of another
            i, j = rng.integers(0, n, 2)
            go("copies: %d among %d" % (i, j), np.r_[[j] * 5, i, [j] * 4])
            # the module level function, with the indexer and with its settings
            with ctx.must("indexing: function", info):
                r = ebsd_index.index_pats(P, ebsd_indexer_obj=ix, chunksize=int(rng.integers(1, 30)))
                r2 = ebsd_index.index_pats(P[3], ebsd_indexer_obj=ix)
            same.compare(ctx, "function", "index_pats with an indexer", A, r, sy, info, P, again)
            same.compare(ctx, "function", "index_pats with a single 2-D pattern", take(A, np.array([3])), r2, sy, info, P[3:4], again)
            ctx.case([info, "function"])
            # number types and memory layouts of the same values
            U = np.clip(np.round(P), 0, 255)
            with ctx.must("indexing: types", info):
                B = alone(f, U.astype(np.float32))
            fl = np.zeros((n, shape[0], 2 * shape[1]), np.uint8); fl[:, :, ::2] = U
            for nm, X in (("uint8", U.astype(np.uint8)), ("uint16", U.astype(np.uint16)), ("int16", U.astype(np.int16)), ("int32", U.astype(np.int32)), ("float64", U.astype(float)),
                          ("big endian", U.astype(">u2")), ("Fortran", np.asfortranarray(U.astype(np.float32))), ("strided", fl[:, :, ::2]), ("reversed", U.astype(np.uint8)[::-1][::-1])):
                X.flags.writeable = False
                with ctx.must("indexing patterns of another number type or memory layout", dict(info, type=nm)):
                    r = ix.index_pats(X)[:2]
                same.compare(ctx, "types", "the same values as " + nm, B, r, sy, dict(info, type=nm), U, again)
                ctx.count("types")
                ctx.case([info, nm])


def part_history(ctx):
    """one indexer through a random history of calls; reference patterns come back the same in between"""
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(15, 80)):
        ks, shape, geom, ven, kw = setting(rng, it)
        info = dict(phases=str(ks), shape=shape, vendor=ven, it=it, **kw)
        with quiet():
            with ctx.must("indexing", info):
                f, phs = make(rng, ks, shape, geom, ven, **kw)
                P, kinds = C02.zoo(rng, shape, geom, phs, 8)
                A = alone(f, P)
                F = np.nan_to_num(P[:4].astype(float), posinf=0, neginf=0)
                F -= F.min((1, 2), keepdims=True)
                F = np.round(F / np.maximum(F.max((1, 2), keepdims=True), 1e-9) * 60000).astype(np.uint16)
                AF = alone(f, F)
            path = pf.make("up2", ctx.scratch, dict(pats=F, nr=2, nc=2, xs=1., ys=1., hex=0), rng, name="h%d" % it)
            given = False
            sy = same.symmetries(phs)
            again = lambda p: f().index_pats(p[None])[:2]
            first = bool(it // 2 % 2)
            ix = f(first)
            other = f()
            hist = []
            keep = None
            for step in range(ctx.n(6, 12)):
                op = ["size", "size", "pc", "repeat", "blank", "empty_bands", "verbose", "update", "shared", "function", "bands", "file", "file"][rng.integers(13)]
                if step == 0 and not first:
                    op = ["size", "bands", "update"][it // 4 % 3]
                hist.append(op)
                h = dict(info, history=list(hist))
                with ctx.must("history: " + op, h):
                    if op == "size":
                        sh = tuple(int(x) for x in rng.choice([18, 20, 24, 37, 60, 61, 90, 128, 200], 2))
                        ix.index_pats(C02.zoo(rng, sh, (sh[1] / 2, sh[0] / 2, min(sh) * .6), phs, 2)[0]); ctx.count("other_size")
                    elif op == "pc":
                        ix.index_pats(P[:3], PC=synth.vendor_pc(ven, shape, geom[0] + 5, geom[1] - 4, geom[2] * 1.1))
                    elif op == "file":
                        if not given:
                            ix.update_file(path); given = True
                            if rng.random() < .6:
                                sh = tuple(int(x) for x in rng.choice([24, 37, 60, 90], 2))
                                ix.index_pats(C02.zoo(rng, sh, (sh[1] / 2, sh[0] / 2, min(sh) * .6), phs, 2)[0])
                        a = int(rng.integers(4)); r = ix.index_pats(patstart=a, npats=-1)[:2]; ctx.count("own_file")
                        if not same.compare(ctx, "history-file", "its file after " + ", ".join(hist[-3:]), take(AF, np.arange(a, 4)), r, sy, h, F[a:], again):
                            break
                    elif op == "repeat":
                        ix.index_pats(P[:4], chunksize=2); ctx.count("repeated")
                    elif op == "blank":
                        ix.index_pats(np.zeros((3,) + shape, np.uint8))
                    elif op == "empty_bands":
                        ix.index_pats(np.full((2,) + shape, np.nan, np.float32))
                    elif op == "bands":
                        nb = ix.bandDetectPlan.nBands
                        ix.bandDetectPlan.nBands = int(rng.integers(4, 16))
                        ix.index_pats(P[:5])
                        ix.bandDetectPlan.nBands = nb
                    elif op == "verbose":
                        import io, contextlib
                        with contextlib.redirect_stdout(io.StringIO()):
                            ix.index_pats(P[:2], verbose=1)
                    elif op == "update":
                        sh = tuple(int(x) for x in rng.choice([30, 60, 84], 2))
                        ix.update_file(patDim=sh); given = False
                    elif op == "shared":
                        # another indexer made from this one's phase objects, on other patterns
                        o2 = ebsd_index.EBSDIndexer(phaselist=[ix.phaseLib[rng.integers(len(ks))], "BCC"], vendor="BRUKER", PC=(.5, .4, .6), patDim=(64, 48), nBands=7)
                        o2.index_pats(C02.zoo(rng, (64, 48), (24, 32, 30.), phs, 3)[0]); ctx.count("shared_parts")
                    else:
                        ebsd_index.index_pats(P[:2, ::2, ::2].copy(), ebsd_indexer_obj=ix); given = False
                with ctx.must("indexing after a history", h):
                    o = rng.permutation(len(P))[:int(rng.integers(1, len(P) + 1))]
                    r = ix.index_pats(P[o])[:2]
                ctx.count("history")
                ctx.case([h, o.tolist()], sample=h)
                if not same.compare(ctx, "history", "after " + ", ".join(hist[-3:]), take(A, o), r, sy, h, P[o], again):
                    break
                if keep is not None:
                    ctx.check(all(a.tobytes() == b for a, b in zip(*keep)), "result-overwritten", "the result of an earlier call changed during a later one", h)
                keep = (r, [x.tobytes() for x in r])


def state(x):
    return x.tobytes() if isinstance(x, np.ndarray) else copy.deepcopy(x)


def part_inputs(ctx):
    """what the caller passes in is left alone"""
    import_repo()
    from pyebsdindex import ebsd_index
    rng = ctx.rng
    for it in range(ctx.n(10, 60)):
        ks, shape, geom, ven, kw = setting(rng, it)
        info = dict(phases=str(ks), shape=shape, vendor=ven, it=it, **kw)
        phs = [synth.generic(k) if isinstance(k, str) else synth.Phase(*k) for k in ks]
        P, _ = C02.zoo(rng, shape, geom, phs, 8)
        if it % 2:
            P = np.asarray(P, np.float32)
        pl = [k if isinstance(k, str) else p.indexer() for k, p in zip(ks, phs)]
        PC = synth.vendor_pc(ven, shape, *geom)
        form = it % 4
        PC = [list, tuple, np.array, lambda x: np.tile(np.array(x), (len(P), 1))][form](PC)
        mask = (rng.random(shape) > .1).astype(np.uint8) if rng.random() < .5 else None
        dim = np.array(shape)
        held = dict(patterns=P, phaselist=list(pl), PC=PC, patDim=dim, **({} if mask is None else dict(mask=mask)))
        before = {k: state(v) if k != "phaselist" else list(v) for k, v in held.items()}
        libs = [None if isinstance(p, str) else {k: v.tobytes() for k, v in p.completelib.items() if isinstance(v, np.ndarray)} for p in pl]

        def unchanged(when):
            now = dict(patterns=P, PC=PC, patDim=dim, **({} if mask is None else dict(mask=mask)))
            for k, v in now.items():
                ctx.check(state(v) == before[k], "input-" + k, "%s changed by %s" % (k, when), info)
            ctx.check(len(pl) == len(before["phaselist"]) and all(a is b for a, b in zip(pl, before["phaselist"])), "input-phaselist", "phase list changed by " + when, info)
            for p, l in zip(pl, libs):
                if l is not None:
                    ctx.check(all(np.asarray(p.completelib[k]).tobytes() == v for k, v in l.items()), "input-phase", "a phase object changed by " + when, info)
            ctx.count("snapshot")
            ctx.case([info, when, P.tobytes()[:64].hex()], sample=dict(info, when=when))

        with quiet():
            with ctx.must("indexing, inputs held", info):
                mk = {} if mask is None else dict(patternmask=mask)
                ix = ebsd_index.EBSDIndexer(phaselist=pl, vendor=ven, PC=PC, patDim=dim, **mk, **kw)
                unchanged("making an indexer")
                r = ix.index_pats(P, chunksize=int(rng.integers(1, 10)))[:2]
                unchanged("index_pats of an indexer")
                pc0 = state(np.array(ix.PC))
                ix.index_pats(P[:, :shape[0] // 2], PC=None)
                unchanged("index_pats with another size")
                ctx.check(state(np.array(ix.PC)) == pc0, "indexer-pc", "indexing changed the indexer's pattern centre", info)
                if form != 3:
                    r3 = ebsd_index.index_pats(P, phaselist=pl, vendor=ven, PC=PC, backgroundSub=bool(it % 3 == 0), **mk)
                    unchanged("the index_pats function")
                # bands and records belong to the caller
                ix2 = ebsd_index.EBSDIndexer(phaselist=pl, vendor=ven, PC=PC, patDim=dim, **mk, **kw)
                d1, b1 = ix2.index_pats(P)[:2]
                k1 = (d1.tobytes(), b1.tobytes())
                ix2.getmatchedpole(d1, b1)
                ctx.check((d1.tobytes(), b1.tobytes()) == k1, "poles-change-result", "getmatchedpole changed the result it was given", info)
                d1["quat"] = 9; b1["aveloc"] = -5
                d2, b2 = ix2.index_pats(P)[:2]
                ctx.check((d2.tobytes(), b2.tobytes()) == k1 or not np.array_equal(d2["quat"], d1["quat"]), "result-aliased", "writing in a result changed the next one", info)


def part_threads(ctx):
    import_repo()
    import numba
    rng = ctx.rng
    for it in range(ctx.n(3, 20)):
        ks, shape, geom, ven, kw = setting(rng, it + 1)
        info = dict(phases=str(ks), shape=shape, vendor=ven, it=it, **kw)
        with quiet():
            f, phs = make(rng, ks, shape, geom, ven, **kw)
            P, kinds = C02.zoo(rng, shape, geom, phs, 30)
            sy = same.symmetries(phs)
            again = lambda p: f().index_pats(p[None])[:2]
            ref = None
            for nt in [1, 2, 3, 5, 8, 8, 8]:
                numba.set_num_threads(min(nt, numba.config.NUMBA_NUM_THREADS))
                with ctx.must("indexing with several threads", info):
                    r = f().index_pats(P)[:2]
                ctx.count("threads")
                ctx.case([info, nt, P.tobytes()[:64].hex()])
                if ref is None:
                    ref = r
                else:
                    same.compare(ctx, "threads", "%d threads against one" % nt, ref, r, sy, info, P, again)
            # indexers of the same settings used from several Python threads at once
            import threading
            numba.set_num_threads(1)
            out = [None] * 4

            def work(i):
                out[i] = f().index_pats(P)[:2]
            with ctx.must("indexers used from several Python threads", info):
                ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
                [t.start() for t in ts]; [t.join() for t in ts]
            for r in out:
                ctx.check(r is not None, "python-threads", "indexing failed in a Python thread", info)
                if r is not None:
                    same.compare(ctx, "python-threads", "indexer used in one of four Python threads", ref, r, sy, info, P, again)
            ctx.count("threads", 4)
            ctx.case([info, "python threads"])
