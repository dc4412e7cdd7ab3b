"""A deterministic stand-in for ray: actors run inside this process on a virtual clock.

install() must be called before the code under test is imported. Tasks really execute (on copies of their
arguments, as in ray: pickled, arrays read-only); when they finish, and whether their worker fails, dies or
hangs, is decided by RT.plan. Actors wait for resources the way ray places them. All waiting is virtual:
time.sleep, time.time, time.monotonic, time.perf_counter and timeit.default_timer follow the virtual clock."""
import copy
import heapq
import importlib
import importlib.machinery
import importlib.util
import itertools
import pickle
import sys
import time
import timeit
import types

REAL = dict(sleep=time.sleep, time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter)


class Livelock(BaseException):
    """the code under test went on for longer than any correct run"""


class RayError(Exception):
    pass


class RayActorError(RayError):
    pass


class RayTaskError(RayError):
    pass


class Poison:
    """stands for an argument whose use makes the task fail"""

    def __getattr__(self, k):
        raise RuntimeError("injected failure")


class Ref:
    def __init__(self, rt):
        self.rt = rt
        self.ready = False
        self.blob = None
        self.exc = None
        self.id = next(rt.ids)

    def _set(self, v):
        self.blob = dump(v)
        self.ready = True

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_cp = None


def dump(v):
    bufs = []
    data = _cp.dumps(v, protocol=5, buffer_callback=bufs.append)
    return data, [bytes(b.raw()) for b in bufs]


def load(blob):
    return pickle.loads(blob[0], buffers=blob[1])


class Method:
    def __init__(self, actor, name, handle):
        self.a, self.n, self.h = actor, name, handle

    def remote(self, *a, **k):
        return self.a.rt.submit(self.a, self.n, a, k)

    def options(self, **k):
        return self


class Handle:
    def __init__(self, actor):
        self.__dict__["_actor"] = actor

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Method(self._actor, n, self)

    def __del__(self):
        a = self.__dict__.get("_actor")
        if a is not None:
            a.released = True
            a.rt.dirty = True


class Actor:
    def __init__(self, rt, cls, args, kw, res):
        self.rt, self.cls, self.args, self.kw, self.res = rt, cls, args, kw, res
        self.queue = []
        self.obj = None
        self.placed = self.dead = self.released = False
        self.running = None
        self.index = len(rt.actors)
        self.done = 0


class ActorClass:
    def __init__(self, cls, opts):
        self.cls, self.opts = cls, opts
        self.__name__ = getattr(cls, "__name__", "actor")

    def options(self, **k):
        return ActorClass(self.cls, dict(self.opts, **k))

    def remote(self, *a, **k):
        return RT.create(self.cls, a, k, self.opts)


class Function:
    def __init__(self, f, opts):
        self.f, self.opts = f, opts

    def options(self, **k):
        return Function(self.f, dict(self.opts, **k))

    def remote(self, *a, **k):
        class One:
            def call(s, *x, **y):
                return self.f(*x, **y)
        h = RT.create(One, (), {}, self.opts)
        return h.call.remote(*a, **k)


class Runtime:
    def __init__(self):
        self.reset()

    def reset(self, plan=None, time_limit=600., wait_limit=60000):
        self.ids = itertools.count(1)
        self.offset = getattr(self, "offset", 0.)
        self.t0 = self.now() if hasattr(self, "offset") else 0.
        self.actors, self.events, self.log = [], [], []
        self.resources = dict(CPU=1e9, GPU=1e9)
        self.plan = plan or (lambda actor, method, n, idle, args: dict(dur=.01))
        self.ntask = {}
        self.waits = 0
        self.time_limit, self.wait_limit = time_limit, wait_limit
        self.dirty = False
        self.current = None
        self.up = False
        self.faults = []
        self.tripped = 0

    # -- clock: only advances by waiting
    def now(self):
        return self.offset

    def elapsed(self):
        return self.offset - self.t0

    # -- actors
    def create(self, cls, a, k, opts):
        h = None
        res = dict(CPU=float(opts.get("num_cpus", 1) or 0), GPU=float(opts.get("num_gpus", 0) or 0))
        act = Actor(self, cls, dump(a), dump(k), res)
        self.actors.append(act)
        self.log.append(("create", act.index, cls.__name__))
        h = Handle(act)
        self.pump()
        return h

    def submit(self, act, name, a, k):
        ref = Ref(self)
        n = self.ntask.get(name, 0)
        self.ntask[name] = n + 1
        # references among the arguments are resolved when the task runs
        refs = {("a", i): v for i, v in enumerate(a) if isinstance(v, Ref)}
        refs.update({("k", q): v for q, v in k.items() if isinstance(v, Ref)})
        a2 = [None if isinstance(v, Ref) else v for v in a]
        k2 = {q: (None if isinstance(v, Ref) else v) for q, v in k.items()}
        blob = dump((a2, k2))
        idle = all(v is None for v in a2)  # no work in it
        p = self.plan(act, name, n, idle, a2)
        if act.dead:
            self._fail(ref, act)
        else:
            act.queue.append((ref, name, blob, refs, p))
        self.log.append(("submit", act.index, name, n))
        self.pump()
        return ref

    def _fail(self, ref, act):
        ref.exc = RayActorError("The actor died unexpectedly before finishing this task.")
        ref.ready = True

    def _used(self, key):
        return sum(a.res[key] for a in self.actors if a.placed and not a.dead)

    def pump(self):
        """place actors, start tasks"""
        again = True
        while again:
            again = False
            self.dirty = False
            for a in self.actors:
                if a.released and not a.dead and a.running is None and not a.queue:
                    a.dead = True
                    self.log.append(("gone", a.index))
                    again = True
            for a in self.actors:
                if not a.placed and not a.dead:
                    if all(self._used(q) + a.res[q] <= self.resources[q] + 1e-9 for q in a.res):
                        a.placed = True
                        again = True
                if a.placed and not a.dead and a.running is None and a.queue:
                    a.running = a.queue.pop(0)
                    p = a.running[4]
                    if p.get("fault") == "stall":
                        self.log.append(("stall", a.index, a.running[1]))
                        self.faults.append("stall")
                    else:
                        heapq.heappush(self.events, (self.offset + max(1e-4, p["dur"]), p.get("tie", 0), next(self.ids), a, a.running))

    def _finish(self, a, task):
        if a.dead or a.running is not task:
            return
        ref, name, blob, refs, p = task
        fault = p.get("fault")
        if fault == "die":
            self.faults.append(fault)
            self._kill(a)
            self.log.append(("died", a.index, name))
            return
        try:
            self.current = a
            if a.obj is None:
                a.obj = a.cls(*load(a.args), **load(a.kw))
            args, kw = load(blob)
            for (w, i), r in refs.items():
                v = Poison() if fault == "error" else load(r.blob)
                if w == "a":
                    args[i] = v
                else:
                    kw[i] = v
            if fault == "error":
                self.faults.append(fault)
            ref._set(getattr(a.obj, name)(*args, **kw))
        except Livelock:
            raise
        except BaseException as e:
            ref.exc = RayTaskError("%s: %s" % (type(e).__name__, e))
            ref.ready = True
        finally:
            self.current = None
        a.running = None
        a.done += 1
        self.log.append(("done" if fault != "error" else "error", a.index, name))
        if fault == "die_idle":
            self.faults.append(fault)
            self._kill(a)

    def _kill(self, a):
        if a.dead:
            return
        a.dead = True
        for t in ([a.running] if a.running else []) + a.queue:
            self._fail(t[0], a)
        a.running = None
        a.queue = []

    def kill(self, h, no_restart=True):
        if not isinstance(h, Handle):
            raise ValueError("ray.kill() only supported for actors. Got: %s." % type(h))
        self.log.append(("kill", h._actor.index))
        self._kill(h._actor)
        self.pump()

    def _trip(self, why):
        self.tripped += 1
        if self.tripped > 50:
            sys.stderr.write("livelock\n"); sys.stderr.flush()
        raise Livelock(why)

    def advance(self, until, enough=None):
        """let virtual time pass up to `until`, or to the moment enough() holds"""
        self.pump()
        while not (enough and enough()):
            if self.events and self.events[0][0] <= until:
                t, _, _, a, task = heapq.heappop(self.events)
                self.offset = max(self.offset, t)
                self._finish(a, task)
                self.pump()
            else:
                if until < float("inf"):
                    self.offset = max(self.offset, until)
                elif enough:
                    self._trip("waiting for something that never happens")
                break
        if self.elapsed() > self.time_limit:
            self._trip("still running after %.0f virtual seconds" % self.elapsed())

    def wait(self, refs, *, num_returns=1, timeout=None, fetch_local=True):
        if not isinstance(refs, list):
            raise TypeError("wait() expected a list of ray.ObjectRef, got %s" % type(refs))
        for r in refs:
            if not isinstance(r, Ref):
                raise TypeError("wait() expected a list of ray.ObjectRef, got list containing %s" % type(r))
        if timeout is not None and timeout < 0:
            raise ValueError("The 'timeout' argument must be nonnegative. Received %s" % timeout)
        self.waits += 1
        if self.waits > self.wait_limit:
            self._trip("more than %d waits" % self.wait_limit)
        if not refs:
            self.offset += 1e-5
            return [], []
        if len(refs) != len(set(refs)):
            raise ValueError("Wait requires a list of unique ray_waitables.")
        if num_returns <= 0:
            raise ValueError("Invalid number of objects to return %d." % num_returns)
        if num_returns > len(refs):
            raise ValueError("num_returns cannot be greater than the number of ray_waitables provided to ray.wait.")
        self.offset += 1e-5
        self.advance(self.offset + (timeout if timeout is not None else 1e6), lambda: sum(r.ready for r in refs) >= num_returns)
        ok = [r for r in refs if r.ready][:num_returns]
        return ok, [r for r in refs if r not in ok]

    def get(self, refs, timeout=None):
        if isinstance(refs, list):
            return [self.get(r) for r in refs]
        if not isinstance(refs, Ref):
            raise ValueError("Invalid type of object refs, %s" % type(refs))
        self.waits += 1
        if self.waits > self.wait_limit:
            self._trip("more than %d waits" % self.wait_limit)
        if not refs.ready:
            self.advance(float("inf"), lambda: refs.ready)
        if refs.exc is not None:
            raise refs.exc
        return load(refs.blob)

    def put(self, v):
        r = Ref(self)
        r._set(v)
        return r

    def init(self, *a, **k):
        if self.up:
            raise RuntimeError("Maybe you called ray.init twice by accident?")
        self.up = True
        self.resources = dict(CPU=float(k.get("num_cpus") or 8), GPU=float(k.get("num_gpus") or 0))
        return types.SimpleNamespace(address_info={})

    def shutdown(self, *a, **k):
        self.up = False
        for x in self.actors:
            self._kill(x)
        self.events = []

    def remote(self, *a, **k):
        make = lambda o, opts: (ActorClass if isinstance(o, type) else Function)(o, opts)
        if len(a) == 1 and callable(a[0]) and not k:
            return make(a[0], {})
        return lambda o: make(o, k)

    def sleep(self, s):
        self.waits += 1
        if self.waits > self.wait_limit:
            self._trip("more than %d waits" % self.wait_limit)
        self.advance(self.offset + max(0., s))


RT = Runtime()


def install():
    global _cp
    assert "ray" not in sys.modules, "fakeray must be installed before ray is imported"
    spec = importlib.util.find_spec("ray")
    m = types.ModuleType("ray")
    m.__path__ = list(spec.submodule_search_locations)  # for ray.cloudpickle only
    sys.modules["ray"] = m
    _cp = importlib.import_module("ray.cloudpickle")
    m.__spec__ = importlib.machinery.ModuleSpec("ray", None)
    m.__version__ = "2.9.0"
    for f in ("wait", "get", "put", "kill", "init", "shutdown", "remote"):
        setattr(m, f, getattr(RT, f))
    m.is_initialized = lambda: RT.up
    m.cluster_resources = lambda: dict(RT.resources)
    m.available_resources = lambda: dict(RT.resources)
    m.ObjectRef = Ref
    e = types.ModuleType("ray.exceptions")
    for c in (RayError, RayActorError, RayTaskError):
        setattr(e, c.__name__, c)
    e.GetTimeoutError = type("GetTimeoutError", (RayError,), {})
    e.ActorDiedError = RayActorError
    m.exceptions = e
    sys.modules["ray.exceptions"] = e
    base = {k: REAL[k]() for k in ("time", "monotonic", "perf_counter")}
    time.sleep = RT.sleep
    for k in base:
        setattr(time, k, lambda k=k: REAL[k]() + RT.offset)
    timeit.default_timer = time.perf_counter
    return RT
