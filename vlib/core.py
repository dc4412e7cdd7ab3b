"""Shared monitor context used by every check part."""
import hashlib, json, os, sys, traceback, contextlib, zlib
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class StopPart(Exception):
    pass


def jsonable(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, bytes):
        return o.decode("latin1")
    return repr(o)


def short(o, n=600):
    s = json.dumps(o, default=jsonable)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, pid, part, seed, tier, scratch):
        self.pid, self.part, self.seed, self.tier, self.scratch = pid, part, seed, tier, scratch
        self.rng = np.random.default_rng([seed, zlib.crc32((pid + part).encode()), 0 if tier == "quick" else 1])
        self.violations, self.counters, self.samples = [], {}, []
        self.evaluations = 0
        self._keys = set()
        self.status, self.error = "running", None
        self._nsig = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- what was observed --------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        """One execution judged by the oracle; key identifies the case."""
        self.evaluations += 1
        if nontrivial:
            if not isinstance(key, (bytes, str)):
                key = json.dumps(key, default=jsonable)
            if isinstance(key, str):
                key = key.encode()
            self._keys.add(hashlib.blake2b(key, digest_size=8).digest())
        if len(self.samples) < 3:
            self.samples.append(short(sample if sample is not None else
                                      (key.decode("latin1") if isinstance(key, bytes) else key)))

    def cases(self, n, keyarray, sample=None):
        """n vectorised cases; keyarray has one row per case."""
        k = np.ascontiguousarray(keyarray).reshape(n, -1)
        self.evaluations += n
        for row in k:
            self._keys.add(hashlib.blake2b(row.tobytes(), digest_size=8).digest())
        if len(self.samples) < 3:
            self.samples.append(short(sample if sample is not None else k[0].tolist()))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    # -- verdicts -----------------------------------------------------------
    def fail(self, sig, msg, data=None):
        self._nsig[sig] = self._nsig.get(sig, 0) + 1
        if self._nsig[sig] <= 5:
            self.violations.append(dict(sig=sig, part=self.part, msg=str(msg)[:2000],
                                        data=json.loads(json.dumps(data, default=jsonable)) if data is not None else None))
            print("FAIL", sig, str(msg)[:800])
            sys.stdout.flush()

    def check(self, cond, sig, msg, data=None):
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg, data() if callable(data) else data)
        return bool(cond)

    def close(self, got, want, sig, what, atol=1e-6, rtol=1e-6, data=None):
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(sig, "%s: shape %s, expected %s" % (what, got.shape, want.shape), data)
            return False
        g = got.astype(np.float64); w = want.astype(np.float64)
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(g - w), np.inf, np.abs(g - w)) * bad), g.shape) if g.shape else ()
            self.fail(sig, "%s: %d of %d differ; at %s got %r expected %r" % (
                what, int(bad.sum()), bad.size, tuple(int(x) for x in i), float(g[i]), float(w[i])), data)
            return False
        return True

    def progress(self, what):
        with open(os.path.join(self.scratch, "progress.txt"), "w") as f:
            f.write(str(what))

    @contextlib.contextmanager
    def must(self, scenario, data=None, also=()):
        """The real code must handle this scenario without raising."""
        self.progress(scenario)
        try:
            yield
        except (StopPart, KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(os.path.join(REPO, ""))]
            jit = not inrepo and tb and not tb[-1].filename.startswith(os.path.join(os.path.dirname(__file__), ""))
            if inrepo or isinstance(e, also):
                f = inrepo[-1] if inrepo else tb[-1]
                if os.environ.get("VERIF_TRACEBACK"):
                    traceback.print_exc()
                self.fail("raises:" + scenario, "%s: %s: %s (at %s:%s)" % (
                    scenario, type(e).__name__, str(e)[:500], os.path.basename(f.filename), f.name), data)
                raise Raised(scenario) from e
            raise
        finally:
            self.progress("")

    def dump(self):
        return dict(status=self.status, error=self.error, violations=self.violations,
                    counters=self.counters, samples=self.samples, evaluations=self.evaluations,
                    distinct=len(self._keys))


class Raised(Exception):
    """The code under test raised in a scenario it must handle (already recorded)."""


@contextlib.contextmanager
def quiet():
    """Swallow Raised: the violation is recorded, go on with the next case."""
    try:
        yield
    except Raised:
        pass


def import_repo():
    import pyebsdindex
    assert os.path.realpath(pyebsdindex.__file__).startswith(os.path.realpath(REPO)), pyebsdindex.__file__
    return pyebsdindex
