"""Check driver: builds the kernels of /repo's working tree in a scratch cache, runs the workload
of one check in worker processes, collects what the monitors saw, writes the evidence file.

exit 0  property held on everything explored (known findings are printed)
exit 1  VIOLATION line(s)
exit 2  no answer (build failed, floors of coverage not reached, worker lost for outside reasons)
"""
import argparse, ast, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CDDM_REPO") or os.environ.get("VH_REPO", "/repo")
PY = os.environ.get("CDDM_PY", "/opt/venv/bin/python")
KNOWN = os.path.join(VERIF, "known_findings.json")

CONFIG_ENV = {
    "default": {},
    "bounds": {"NUMBA_BOUNDSCHECK": "1"},
    "parallel": {"CDDM_TARGET_PARALLEL": "1"},
    "single": {"CDDM_DOUBLE_PRECISION": "0"},
    "fastmath": {"CDDM_FASTMATH": "1"},
}
CPU_LIMIT = 150.0     # CPU seconds one case may use before it counts as not terminating
WALL_LIMIT = 840.0


def base_env(tmp, config):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CDDM_", "NUMBA_", "PYTHON", "MPL"))}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               QT_QPA_PLATFORM="offscreen", LC_ALL="C.UTF-8", LANG="C.UTF-8",
               NUMBA_NUM_THREADS=str(os.cpu_count() or 1), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               HOME=os.path.join(tmp, "home-" + config), NUMBA_CACHE_DIR=os.path.join(tmp, "nb-" + config),
               MPLCONFIGDIR=os.path.join(tmp, "mpl"), TMPDIR=os.path.join(tmp, "scratch"),
               MALLOC_PERTURB_="128", PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONFAULTHANDLER="1",
               PYTHONUNBUFFERED="1", VH_REPO=REPO)
    env.update(CONFIG_ENV[config])
    if os.environ.get("VH_WARM"):       # development only: keep the compiled kernels between runs
        env["NUMBA_CACHE_DIR"] = os.environ["VH_WARM"] + "-" + config
    for k in ("HOME", "NUMBA_CACHE_DIR", "MPLCONFIGDIR", "TMPDIR"):
        os.makedirs(env[k], exist_ok=True)
    return env


def cpu_of(pid):
    """CPU seconds of one of our own children"""
    try:
        with open("/proc/%d/stat" % pid) as fh:
            f = fh.read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def prewarm(tmp, configs, jobs, log):
    """Compile every kernel of every configuration; one share failing is not fatal"""
    procs = []
    k = max(1, jobs)
    for c in configs:
        env = base_env(tmp, c)
        # config file and matplotlib cache are created once, before anything runs concurrently
        for i in range(k):
            procs.append(([PY, os.path.join(VERIF, "vh", "prewarm.py"), str(k), str(i)], env))
    running, pend = [], list(procs)
    while pend or running:
        while pend and len(running) < jobs:
            cmd, env = pend.pop(0)
            running.append(subprocess.Popen(cmd, env=env, cwd=tmp, stdout=log, stderr=log))
        running = [p for p in running if p.poll() is None]
        time.sleep(0.05)


class Worker:
    def __init__(self, prop, config, shard, nshard, tier, seed, tmp, log, only=None):
        self.config, self.shard = config, shard
        self.out = os.path.join(tmp, "out-%s-%d.jsonl" % (config, shard))
        self.err = os.path.join(tmp, "err-%s-%d.txt" % (config, shard))
        open(self.out, "w").close()
        cmd = [PY, "-m", "vh.worker", prop, config, str(shard), str(nshard), tier, str(seed), self.out]
        if only:
            cmd += [only[0], str(only[1])]
        with open(self.err, "w") as eh:
            self.p = subprocess.Popen(cmd, env=base_env(tmp, config), cwd=os.path.join(tmp, "scratch"), stdout=eh,
                                      stderr=eh, start_new_session=True)
        self.pos, self.buf = 0, ""
        self.current = None      # (stream, case) under way
        self.cpu0 = self.t0 = 0.0
        self.events = []
        self.done = self.ready = False
        self.killed = None

    def poll(self):
        with open(self.out) as fh:
            fh.seek(self.pos)
            data = fh.read()
            self.pos = fh.tell()
        self.buf += data
        *lines, self.buf = self.buf.split("\n")
        for line in lines:
            ev = json.loads(line)
            if ev["e"] == "start":
                self.current = (ev["stream"], ev["case"])
                self.cpu0, self.t0 = cpu_of(self.p.pid), time.time()
            elif ev["e"] == "ready":
                self.ready = True
            elif ev["e"] == "end":
                self.current = None
                self.events.append(ev)
            elif ev["e"] == "done":
                self.done = True
                self.events.append(ev)
            else:
                self.events.append(ev)
        return self.p.poll()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


class Meta:
    """The literal constants of a check module (it is not imported here: that would compile cddm)"""
    RULE = ""

    def __init__(self, path):
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                try:
                    setattr(self, node.targets[0].id, ast.literal_eval(node.value))
                except ValueError:
                    pass


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    only, oconfig = None, None
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.tier, a.seed = r["property"], r["tier"], r["seed"]
        only, oconfig = (r["stream"], r["case"]), r["config"]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.path.insert(0, VERIF)
    mod = Meta(os.path.join(VERIF, "checks", a.prop.lower() + ".py"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % a.prop)
    rc = 2
    workers = []
    try:
        rc = drive(a, mod, tmp, t0, only, oconfig, workers)
    finally:
        for w in workers:
            w.kill()
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    return rc


def drive(a, mod, tmp, t0, only, oconfig, workers):
    prop = a.prop
    configs = list(getattr(mod, "CONFIGS", ("default",)))
    if oconfig:
        configs = [oconfig]
    log = open(os.path.join(tmp, "prewarm.txt"), "w")
    warm = configs + (["default"] if getattr(mod, "PEER", False) and "default" not in configs else [])
    prewarm(tmp, warm, a.jobs, log)
    t_warm = time.time() - t0
    share = getattr(mod, "SHARE", {})
    total = sum(share.get(c, 1) for c in configs)
    for c in configs:
        n = max(1, int(round(a.jobs * share.get(c, 1) / total))) if not only else 1
        n = min(n, getattr(mod, "MAX_WORKERS", 64))
        for s in range(n):
            workers.append(Worker(prop, c, s, n, a.tier, a.seed, tmp, log, only))
    violations, problems = [], []
    alive = list(workers)
    wall_block = getattr(mod, "WALL_BLOCK_IS_VIOLATION", None)
    while alive:
        time.sleep(0.1)
        for w in list(alive):
            rc = w.poll()
            if w.current and rc is None:
                used = cpu_of(w.p.pid) - w.cpu0
                if used > CPU_LIMIT:
                    w.kill()
                    violations.append(dict(config=w.config, stream=w.current[0], case=w.current[1], key="no-termination",
                                           msg="call did not terminate within %d s of CPU time" % CPU_LIMIT))
                    alive.remove(w)
                    continue
                if wall_block and time.time() - w.t0 > wall_block:
                    w.kill()
                    violations.append(dict(config=w.config, stream=w.current[0], case=w.current[1], key="blocked",
                                           msg="consumer blocked for %d s (frames lost or deadlock)" % wall_block))
                    alive.remove(w)
                    continue
            if rc is not None:
                w.poll()
                alive.remove(w)
                if not w.done:
                    tail = open(w.err).read()[-3000:]
                    if w.current and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                        violations.append(dict(config=w.config, stream=w.current[0], case=w.current[1], key="crash",
                                               msg="process died with %s\n%s" % (signal.Signals(-rc).name, tail)))
                    elif rc > 0 and not w.ready and w.config != "default" and any(x.ready and x.config == "default" for x in workers):
                        # the package works as it is but not when built in this configuration
                        violations.append(dict(config=w.config, stream="start", case=0, key="does-not-start", msg=tail[-1500:]))
                    else:
                        problems.append("worker %s/%d ended with %s: %s" % (w.config, w.shard, rc, tail))
        if time.time() - t0 > WALL_LIMIT:
            for w in alive:
                w.kill()
                problems.append("worker %s/%d out of time (%s)" % (w.config, w.shard, w.current))
            alive = []
    counters, keys, samples, ncases, streams = {}, set(), [], 0, {}
    for w in workers:
        for ev in w.events:
            if ev["e"] == "end":
                ncases += 1
                streams[ev["stream"]] = streams.get(ev["stream"], 0) + 1
                if ev.get("sample") is not None and len([1 for s in samples if s["stream"] == ev["stream"]]) < 2:
                    samples.append({"stream": ev["stream"], "config": w.config, "case": ev["case"], "input": ev["sample"]})
            elif ev["e"] == "violation":
                violations.append(dict(config=w.config, stream=ev["stream"], case=ev["case"], key=ev["key"], msg=ev["msg"],
                                       info=ev.get("info")))
            elif ev["e"] == "done":
                for k, v in ev["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                keys.update(ev["keys"])
    known = {}
    if os.path.exists(KNOWN):
        for f in json.load(open(KNOWN)).get("findings", []):
            if f["property"] == prop:
                known[f["key"]] = f
    hits, fresh = {}, []
    for v in violations:
        if v["key"] in known:
            hits[v["key"]] = v
        else:
            fresh.append(v)
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    floors = getattr(mod, "FLOORS", {}).get(a.tier, {}) if not only else {}
    for k, v in floors.items():
        got = counters.get(k, 0)
        if got < v:
            problems.append("coverage floor not reached: %s = %d < %d" % (k, got, v))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    shown = {}
    for v in fresh:
        shown.setdefault((v["stream"], v["key"]), []).append(v)
    lines = 0
    for (s, k), vs in shown.items():
        v = vs[0]
        if lines >= 8:
            break
        lines += 1
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d-%d.json" % (prop, s, v["config"], a.seed, v["case"]))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, tier=a.tier, seed=a.seed, stream=s, case=v["case"], config=v["config"], key=k,
                           message=v["msg"], info=v.get("info"), occurrences=len(vs)), fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s %s case %d, %d of this kind] %s" % (v["config"], k, v["case"], len(vs), v["msg"][:2000]))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=ncases, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:12],
                            monitor_events=dict(sorted(counters.items())), cases_per_stream=streams,
                            configurations=configs, prewarm_s=round(t_warm, 1),
                            known_findings_seen=sorted(hits), problems=[p[:500] for p in problems]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d distinct, %d monitor events, %d violations, %.1f s (build %.1f s)"
          % (prop, a.tier, a.seed, ncases, len(keys), sum(counters.values()), len(fresh), time.time() - t0, t_warm))
    if fresh:
        return 1
    if problems:
        for p in problems[:4]:
            print("NO ANSWER: " + p[-1500:])
        return 2
    return 0
