"""Distributed indexing on the stand-in cluster, observed pattern by pattern."""
import collections
import hashlib
import numpy as np
import fakeray
from core import *
from patcheck import hush

RT = None
FAILED = [0]
SEEN = []      # (actor, hash) of each pattern a worker looked for bands in


def setup():
    """before anything imports pyebsdindex"""
    global RT
    if RT is not None:
        return RT
    RT = fakeray.install()
    import_repo()
    from pyebsdindex import band_detect, ebsd_index
    if not hasattr(ebsd_index, "index_pats_distributed"):
        raise RuntimeError("index_pats_distributed is not available")
    orig = band_detect.BandDetect.find_bands

    def find_bands(self, patsIn, *a, **k):
        if RT.current is not None:
            SEEN.extend((RT.current.index, h) for h in hashes(patsIn))
        return orig(self, patsIn, *a, **k)
    band_detect.BandDetect.find_bands = find_bands
    return RT


def hashes(P):
    P = np.asarray(P)
    P = P.reshape((-1,) + P.shape[-2:])
    return [hashlib.blake2b(np.ascontiguousarray(p, np.float32).tobytes(), digest_size=8).hexdigest() for p in P]


def exactly_once(ctx, P, o, info, sig="once"):
    """each requested pattern was looked at once by one worker, no other was"""
    got = collections.Counter(h for _, h in SEEN)
    want = collections.Counter(hashes(P[o]))
    more = got - want
    less = want - got
    ctx.count("patterns_seen_by_workers", len(SEEN))
    return ctx.check(not more and not less, sig, "of %d requested patterns %d were never given to a worker, %d were given too often or not requested"
                     % (len(o), sum(less.values()), sum(more.values())), info)


def at_least_once(ctx, P, o, info, sig="requested"):
    got = {h for _, h in SEEN}
    ctx.count("patterns_seen_by_workers", len(SEEN))
    want = set(hashes(P[o]))
    return ctx.check(got == want, sig, "%d requested patterns were never given to a worker, %d patterns given to workers were not requested"
                     % (len(want - got), len(got - want)), info)


# -- schedules -------------------------------------------------------------
def schedule(rng, kind):
    """plan(actor, method, n, idle, args) -> duration and tie breaking of a task; a real task never takes 8 s or more"""
    salt = int(rng.integers(1 << 30))
    slow = int(rng.integers(8))

    def plan(actor, method, n, idle, args):
        r = np.random.default_rng([salt, n, len(method), actor.index])
        if kind == "same":
            d = .05
        elif kind == "uniform":
            d = r.uniform(.001, .5)
        elif kind == "tail":
            d = min(6., .01 / max(1e-9, r.uniform()) ** 1.2)
        elif kind == "reversed":       # later tasks finish earlier
            d = max(.002, 4. - .21 * n)
        elif kind == "slow_worker":
            d = 5. if actor.index == slow else r.uniform(.01, .1)
        elif kind == "slow_index":
            d = r.uniform(1, 4) if method == "indexpoles" else .003
        elif kind == "slow_bands":
            d = r.uniform(1, 4) if method == "findbands" else .003
        else:                          # grid: many events at one instant, broken at random
            d = .1 * int(r.integers(1, 4))
        if idle:
            d = .05 + .35 * r.uniform()
        return dict(dur=d, tie=int(r.integers(1 << 20)))
    return plan


KINDS = ["same", "uniform", "tail", "reversed", "slow_worker", "slow_index", "slow_bands", "grid"]


def order_key():
    """the completion order, as an identity of the interleaving"""
    return hashlib.blake2b(repr([(e[0], e[1], e[2]) for e in RT.log if len(e) > 2]).encode(), digest_size=6).hexdigest()


def run(ctx, plan, call, what, info, time_limit=150.):
    """call() under a plan; its result, or Raised after recording a violation"""
    del SEEN[:]
    RT.reset(plan, time_limit=time_limit)
    try:
        with ctx.must(what, info), hush():
            return call()
    except Raised:
        FAILED[0] += 1
        if FAILED[0] >= 3:
            raise StopPart("enough failures")
        raise
    finally:
        ctx.count("events", len(RT.log))
        ctx.count("virtual_seconds", RT.elapsed())
        RT.shutdown()
