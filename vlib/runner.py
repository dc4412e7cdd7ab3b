"""Runner: executes the parts of one check in child processes, merges what their
monitors observed, and turns it into a verdict (exit 0 / 1 / 2) plus evidence."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, time, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "vlib"))


def load_check(pid):
    path = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                toks = line[len("finding:"):].split(None, 2)
                d = dict(t.split("=", 1) for t in toks[:2])
                if d.get("property") == pid:
                    out.append((d["sig"], toks[2] if len(toks) > 2 else ""))
    return out


def base_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("NUMBA_", "RAY_", "PYTHON", "ASAN", "UBSAN", "PYOPENCL"))}
    env.update(HOME=scratch, RAY_TMPDIR=scratch, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", RAY_USAGE_STATS_ENABLED="0",
               PYTHONPATH=REPO + ":" + os.path.join(VERIF, "vlib"),
               OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", MPLCONFIGDIR=scratch, TMPDIR=scratch,
               VERIF_REPO=REPO)
    return env


def child_main(pid, part, seed, tier, out, scratch):
    import faulthandler, traceback
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1)   # kill -USR1 shows where a slow part is
    import core
    mod = load_check(pid)
    ctx = core.Ctx(pid, part, seed, tier, scratch)
    try:
        getattr(mod, "part_" + part)(ctx)
        ctx.status = "ok"
    except core.StopPart as e:
        ctx.status = "ok"
    except BaseException as e:  # noqa: B902
        tb = traceback.format_exc()
        inrepo = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(os.path.join(REPO, ""))]
        if inrepo and not isinstance(e, (MemoryError, KeyboardInterrupt)):
            # a scenario the harness drives on purpose was refused by the code under test
            ctx.fail("raises:part-" + part, "%s: %s (at %s:%s)\n%s" % (
                type(e).__name__, str(e)[:400], os.path.basename(inrepo[-1].filename), inrepo[-1].name, tb[-1200:]))
        elif isinstance(e, core.Raised):
            pass
        ctx.status = "error"
        ctx.error = tb
    with open(out + ".tmp", "w") as f:
        json.dump(ctx.dump(), f, default=core.jsonable)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--part", default=None)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--child", default=None)
    ap.add_argument("--scratch", default=None)
    a = ap.parse_args()
    if a.child:
        return child_main(a.pid, a.part, a.seed, a.tier, a.child, a.scratch)

    t0 = time.time()
    mod = load_check(a.pid)
    parts = list(mod.PARTS)
    if a.part:
        parts = [p for p in parts if p in a.part.split(",")]
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.pid)
    limit = getattr(mod, "TIME_LIMIT", {"quick": 780, "thorough": 3 * 3600})[a.tier]
    # at most this many part processes at once
    width = getattr(mod, "WIDTH", 8)
    running, results, pend = {}, {}, list(parts)
    rc = 2

    def part_env(penv, pdir):
        env = base_env(pdir)
        # parts with the same numba configuration share a compile cache
        key = "_".join("%s-%s" % (k, v) for k, v in sorted(penv.items()) if k.startswith("NUMBA_BOUNDS")) or "plain"
        home = os.path.join(scratch, "home", key)
        os.makedirs(home, exist_ok=True)
        env["HOME"] = home
        env["NUMBA_CACHE_DIR"] = os.path.join(home, ".pyebsdindex", "numbacache")
        env["NUMBA_NUM_THREADS"] = str(getattr(mod, "THREADS", 4))
        env.update(penv)
        return env

    try:
        cache = os.path.join(scratch, "home")
        os.makedirs(cache)
        warm = []
        for g in getattr(mod, "WARM", []):
            for penv in getattr(mod, "WARM_ENVS", [{}]):
                wdir = os.path.join(scratch, "w%d" % len(warm))
                os.makedirs(wdir)
                warm.append(subprocess.Popen(
                    [sys.executable, "-B", os.path.join(VERIF, "vlib", "warm.py"), g], env=part_env(penv, wdir), cwd=wdir,
                    stdout=None if os.environ.get("VERIF_VERBOSE") else subprocess.DEVNULL,
                    stderr=None if os.environ.get("VERIF_VERBOSE") else subprocess.DEVNULL, start_new_session=True))
        tw = time.time()
        for w in warm:
            try:
                w.wait(max(1, 150 - (time.time() - tw)))
            except subprocess.TimeoutExpired:
                os.killpg(w.pid, signal.SIGKILL)
                w.wait()
        if warm:
            print("kernels compiled in %.1fs" % (time.time() - tw))
        while pend or running:
            while pend and len(running) < width:
                p = pend.pop(0)
                pdir = os.path.join(scratch, "p_" + p)
                os.makedirs(pdir)
                penv = dict(getattr(mod, "PART_ENV", {}).get(p, {}))
                env = part_env(penv, pdir)
                out = os.path.join(pdir, "result.json")
                log = open(os.path.join(pdir, "log.txt"), "wb")
                pr = subprocess.Popen(
                    [sys.executable, "-B", "-u", os.path.abspath(__file__), a.pid, "--part", p,
                     "--seed", str(a.seed), "--tier", a.tier, "--child", out, "--scratch", pdir],
                    env=env, cwd=pdir, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
                running[p] = (pr, out, log, time.time())
            time.sleep(0.1)
            for p in list(running):
                pr, out, log, ts = running[p]
                if pr.poll() is None:
                    if time.time() - t0 > limit:
                        try:
                            os.killpg(pr.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        pr.wait()
                        pf = os.path.join(os.path.dirname(out), "progress.txt")
                        try:
                            prog, stale = open(pf).read(), time.time() - os.path.getmtime(pf)
                        except OSError:
                            prog, stale = "", 0
                        results[p] = dict(status="timeout", log=tail(log.name), progress=prog, stale=stale)
                        del running[p]
                    continue
                log.close()
                r = None
                if os.path.exists(out):
                    r = json.load(open(out))
                else:
                    r = dict(status="died", rc=pr.returncode)
                    try:
                        r["progress"] = open(os.path.join(os.path.dirname(out), "progress.txt")).read()
                    except OSError:
                        r["progress"] = ""
                r["log"] = tail(log.name)
                r["wall"] = time.time() - ts
                results[p] = r
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except OSError:
                    pass
                del running[p]
        rc = verdict(a, mod, results, t0)
    finally:
        for p in running:
            try:
                os.killpg(running[p][0].pid, signal.SIGKILL)
            except OSError:
                pass
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


HANG = 300.  # seconds


def tail(path, n=6000):
    with open(path, "rb") as f:
        d = f.read()
    return d[-n:].decode("utf8", "replace")


def verdict(a, mod, results, t0):
    viol, errors, counters, samples, assumptions = [], [], {}, [], list(getattr(mod, "ASSUMPTIONS", []))
    evals, distinct = 0, 0
    per_part = {}
    for p, r in results.items():
        if r["status"] == "died":
            # a killed/aborted process while driving the real code: the last
            # scenario it announced tells where
            prog = r.get("progress", "")
            rc_ = r.get("rc")
            if prog and rc_ is not None and rc_ < 0 and -rc_ in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) \
                    or (prog and rc_ == 66):
                viol.append(dict(sig="crash:" + prog.split("|")[0].strip(), part=p,
                                 msg="process died (rc=%s) while running: %s" % (rc_, prog), data={"log": r["log"]}))
            else:
                errors.append("part %s died rc=%s progress=%r\n%s" % (p, rc_, prog, r["log"]))
            continue
        if r["status"] == "timeout":
            if r["progress"] and r["stale"] > HANG:
                # the real code has been at one scenario, of a few seconds, all that time
                viol.append(dict(sig="hang:" + r["progress"].split("|")[0].strip(), part=p,
                                 msg="no return within %.0f s from: %s" % (r["stale"], r["progress"]), data={"log": r["log"]}))
                continue
            errors.append("part %s timed out\n%s" % (p, r["log"]))
            continue
        if r["status"] == "error":
            errors.append("part %s: %s\n%s" % (p, r["error"], r["log"][-1500:]))
        viol += r["violations"]
        evals += r["evaluations"]
        distinct += r["distinct"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += r["samples"][:3]
        per_part[p] = dict(evaluations=r["evaluations"], distinct=r["distinct"], wall=round(r["wall"], 1))
        if r["status"] == "ok" and r["evaluations"] == 0:
            errors.append("part %s observed nothing" % p)
    kf = known_findings(a.pid)
    new, old = [], {}
    for v in viol:
        for sig, txt in kf:
            if v["sig"] == sig:
                old.setdefault(sig, []).append(v)
                break
        else:
            new.append(v)
    for sig, txt in kf:
        if sig in old:
            print("KNOWN-FINDING: property=%s %s %s" % (a.pid, sig, txt))
    wall = time.time() - t0
    ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=mod.RULE,
                            samples=samples[:12], monitors=counters, parts=per_part),
              assumptions=assumptions, wall_s=round(wall, 1), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property %s tier=%s seed=%d: %d evaluations, %d distinct, %.1fs; monitors %s" % (
        a.pid, a.tier, a.seed, evals, distinct, wall, json.dumps(counters)))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(per_part, indent=1))
        for p, r in results.items():
            print("---- log of", p)
            print(r.get("log", "")[-3000:])
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s_%d.json" % (a.pid, a.tier, a.seed))
        with open(path, "w") as f:
            json.dump(dict(property=a.pid, tier=a.tier, seed=a.seed,
                           command="VERIF_SEED=%d VERIF_TIER=%s ./check %s --part %s" % (
                               a.seed, a.tier, a.pid, new[0]["part"]),
                           violations=new[:50]), f, indent=1)
        seen = {}
        for v in new:
            seen.setdefault(v["sig"], []).append(v)
        for sig, vs in list(seen.items())[:12]:
            print("  [%s] x%d (part %s): %s" % (sig, len(vs), vs[0]["part"], str(vs[0]["msg"])[:1200]))
        for e in errors[:3]:
            print("  (also: harness trouble) " + e[-600:])
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if errors:
        for e in errors:
            print("INCONCLUSIVE:", e)
        return 2
    need = getattr(mod, "MUST_OBSERVE", [])
    if not a.part:
        for k in need:
            if counters.get(k, 0) == 0:
                print("INCONCLUSIVE: monitor %s was never reached" % k)
                return 2
    return 0


if __name__ == "__main__":
    main()
