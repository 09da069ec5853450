"""Explorer driver shared by all checks.

A check module (checks/cXX.py) provides
    ID            property id
    RULE          text: how cases are made / what is non-trivial
    cases(tier)   -> iterable of JSON-serialisable cases, simplest first; a case may carry "hs": [hash profile indexes]
    run(case)     -> Result
    ASSUMPTIONS   list of strings
    BOUNDS(tier)  -> text describing the completed bound
The deciding step is the complete enumeration of cases() on the real implementation in /repo.
"""
from __future__ import annotations
import hashlib, importlib, itertools, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
PY = "/opt/venv/bin/python"
# PYTHONHASHSEED values: under CPython 3.12 str hashing they realise both relative orders of {"Line","Transformer"} and
# several orders of the one-port sets (tools/hash_profiles.py prints them)
HASH_PROFILES = ["0", "3", "5", "1"]
TIME_CAP = float(os.environ.get("MC_TIME_CAP", "800"))
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "300"))


class Result:
    def __init__(self):
        self.states = set()      # canonical states / configurations reached (hashes)
        self.transitions = 0     # API calls executed on the implementation
        self.traces = 0          # executions compared with the reference model
        self.outcomes = set()    # distinct observable outcomes (non-vacuity)
        self.violations = []     # (key, message)
        self.sample = None

    def state(self, obj):
        h = digest(obj)
        new = h not in self.states
        self.states.add(h)
        return new

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def bad(self, key, msg):
        self.violations.append((str(key), str(msg)[:2000]))

    def pack(self):
        return dict(states=sorted(self.states), transitions=self.transitions, traces=self.traces,
                    outcomes=sorted(self.outcomes), violations=self.violations, sample=self.sample)


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


def deviations(slots, k, must=None):
    """All assignments of slots (dict name -> [default, alt...]) with at most k non-default slots, fewest first."""
    names = list(slots)
    base = {n: slots[n][0] for n in names}
    for d in range(k + 1):
        for combo in itertools.combinations(names, d):
            for alts in itertools.product(*[slots[n][1:] for n in combo]):
                c = dict(base)
                c.update(zip(combo, alts))
                yield c


# ------------------------------------------------------------------ worker
def worker_main(modname):
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    def emit(d):
        proto.write(json.dumps(d, default=str) + "\n")
        proto.flush()

    try:
        mod = importlib.import_module(modname)
    except BaseException as e:  # the implementation cannot even be imported
        emit(dict(fatal=f"import: {type(e).__name__}: {e}"))
        return
    emit(dict(ready=True))

    class Timeout(BaseException):
        pass

    def onalarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    for line in sys.stdin:
        req = json.loads(line)
        t = time.time()
        signal.alarm(CASE_TIMEOUT)
        try:
            r = run_case(mod, req["case"]).pack()
            signal.alarm(0)
        except Timeout:
            r = dict(timeout=True)
        except BaseException as e:
            signal.alarm(0)
            r = dict(error=traceback.format_exc()[-3000:])
        r["t"] = time.time() - t
        r["i"] = req["i"]
        emit(r)


def run_case(mod, case):
    """run() wrapped so that an unexpected exception of the code under test becomes a violation."""
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    try:
        return mod.run(case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/verif/" not in f.filename]
        r = Result()
        r.transitions = 1
        loc = type(e).__name__
        tag = mod.tag(case) if hasattr(mod, "tag") else digest(case)
        r.bad(f"exception:{loc}:{tag}", f"unexpected {loc}: {e} in case {json.dumps(case, default=str)[:600]}\n"
              + "".join(traceback.format_exception(e)[-6:])[-1500:])
        return r


class Worker(threading.Thread):
    def __init__(self, drv, profile, jobs, tmp):
        super().__init__(daemon=True)
        self.drv, self.profile, self.jobs, self.tmp = drv, profile, jobs, tmp
        self.proc = None

    def start_proc(self):
        env = dict(os.environ, PYTHONHASHSEED=HASH_PROFILES[self.profile], PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=self.tmp, HOME=self.tmp,
                   PYTHONPATH=f"{REPO}:{VERIF}", PYTHONWARNINGS="ignore")
        self.proc = subprocess.Popen([PY, "-W", "ignore", "-m", "mc.core", "--worker", self.drv.modname], cwd=self.tmp, env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        first = self.read()
        if not first.get("ready"):
            self.drv.fatal(first.get("fatal", "worker died at start"))
            return False
        return True

    def read(self):
        line = self.proc.stdout.readline()
        return json.loads(line) if line else {"dead": True}

    def run(self):
        try:
            if not self.start_proc():
                return
            while not self.drv.stop:
                job = self.drv.next(self.profile)
                if job is None:
                    break
                i, case = job
                try:
                    self.proc.stdin.write(json.dumps(dict(i=i, case=case)) + "\n")
                    self.proc.stdin.flush()
                    r = self.read()
                except BrokenPipeError:
                    r = {"dead": True}
                self.drv.done(self.profile, i, case, r)
                if "dead" in r or "timeout" in r:
                    self.kill()
                    if not self.start_proc():
                        return
        finally:
            self.kill()

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                self.proc.stdin.close()
            except Exception:
                pass
            try:
                self.proc.wait(2)
            except Exception:
                self.proc.kill()
                self.proc.wait()


class Driver:
    def __init__(self, modname, tier, seed, nproc=None):
        self.modname, self.tier, self.seed = modname, tier, seed
        self.mod = importlib.import_module(modname + "_cases") if False else load_light(modname)
        self.lock = threading.Lock()
        self.stop = False
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = self.executions = 0
        self.viol, self.samples, self.fatals = {}, [], []
        self.redo = []
        self.t0 = time.time()
        self.capped = False
        self.slow = (0, None)
        self.nproc = nproc or int(os.environ.get("MC_PROCS", "8"))
        cases = list(self.mod.cases(tier))
        self.cases = cases
        default_hs = getattr(self.mod, "HS", [0])
        self.queues = {}
        for i, c in enumerate(cases):
            for h in (c.get("hs") if isinstance(c, dict) and c.get("hs") else default_hs):
                self.queues.setdefault(h, []).append(i)
        rnd = random.Random(seed)
        for q in self.queues.values():   # scheduling order only; the space is enumerated completely
            rnd.shuffle(q)
            if getattr(self.mod, "cost", None):
                q.sort(key=lambda i: -self.mod.cost(cases[i]))
            q.reverse()

    def fatal(self, msg):
        with self.lock:
            self.fatals.append(msg)
            self.stop = True

    def next(self, profile):
        with self.lock:
            if time.time() - self.t0 > TIME_CAP:
                if any(self.queues.values()):
                    self.capped = True
                return None
            q = self.queues.get(profile)
            if not q:
                return None
            i = q.pop()
            return i, self.cases[i]

    def done(self, profile, i, case, r):
        with self.lock:
            self.executions += 1
            if r.get("t", 0) > self.slow[0]:
                self.slow = (r["t"], case)
            if "dead" in r or "timeout" in r:
                if (profile, i) not in self.redo:  # retry once: the machine may have been short of memory / time
                    self.redo.append((profile, i))
                    self.queues[profile].insert(0, i)
                    return
                what = "crash of the process" if "dead" in r else f"no answer within {CASE_TIMEOUT}s"
                self.add_viol(f"{'crash' if 'dead' in r else 'hang'}:{digest(case)}", what, case, profile)
                return
            if "error" in r:
                self.add_viol(f"error:{digest(case)}", r["error"], case, profile)
                return
            self.states.update(r["states"])
            self.outcomes.update(r["outcomes"])
            self.transitions += r["transitions"]
            self.traces += r["traces"]
            for k, m in r["violations"]:
                self.add_viol(k, m, case, profile)
            if r.get("sample") is not None and len(self.samples) < 5:
                self.samples.append(r["sample"])

    def add_viol(self, key, msg, case, profile):
        if key not in self.viol:
            self.viol[key] = (msg, case, profile)

    def explore(self):
        tmp = tempfile.mkdtemp(prefix="mc_")
        try:
            profiles = sorted(self.queues)
            weight = {h: len(self.queues[h]) for h in profiles}
            total = sum(weight.values()) or 1
            workers = []
            n = max(1, min(self.nproc, total))
            alloc = {h: max(1, round(n * weight[h] / total)) for h in profiles}
            for h in profiles:
                for k in range(min(alloc[h], weight[h])):
                    d = os.path.join(tmp, f"w{h}_{k}")
                    os.mkdir(d)
                    workers.append(Worker(self, h, None, d))
            for w in workers:
                w.start()
            for w in workers:
                w.join()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def load_light(modname):
    return importlib.import_module(modname)


def known_findings(pid):
    known = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known:"):
                parts = line[len("known:"):].strip().split(None, 2)
                if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                    known[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return known


def main(argv):
    if argv[:1] == ["--worker"]:
        worker_main(argv[1])
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"checks.{pid.lower()}"
    sys.path.insert(0, str(VERIF))
    t0 = time.time()
    d = Driver(modname, tier, seed)
    d.explore()
    mod = d.mod
    known = known_findings(pid)
    for m in d.fatals:
        d.viol.setdefault("fatal", (f"the implementation cannot be loaded: {m}", None, 0))
    n_viol = 0
    seen_known = {}
    rdir = VERIF / "replays" / pid
    lines = []
    for key in sorted(d.viol):
        msg, case, profile = d.viol[key]
        if key in known:
            seen_known[key] = msg
            continue
        n_viol += 1
        if n_viol <= int(os.environ.get("MC_MAX", "20")):
            rdir.mkdir(parents=True, exist_ok=True)
            path = rdir / f"{digest([key])}.json"
            path.write_text(json.dumps(dict(property=pid, key=key, message=msg, case=case, hash_profile=profile), indent=1, default=str))
            lines.append(f"VIOLATION property={pid} replay={path}")
            if len(lines) <= int(os.environ.get("MC_SHOW", "6")):
                print(f"# {key}: {msg[:600]}")
    for key, what in known.items():
        if key in seen_known:
            print(f"KNOWN-FINDING: property={pid} key={key} {what}")
        elif not d.capped:
            print(f"# note: listed finding not reproduced in this run: {key}")
    exhaustive = not d.capped and not d.fatals
    cov = dict(states=len(d.states), transitions=d.transitions, traces_validated_against_impl=d.traces,
               executions=d.executions, cases=len(d.cases), distinct_outcomes=len(d.outcomes),
               hash_profiles=[HASH_PROFILES[h] for h in sorted(d.queues)],
               bound=mod.BOUNDS(tier) if hasattr(mod, "BOUNDS") else "", rule=getattr(mod, "RULE", ""),
               samples=d.samples or [c for c in d.cases[:2]], exhaustive=exhaustive,
               known_findings=sorted(seen_known))
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=n_viol)
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"# {pid} {tier}: cases={len(d.cases)} executions={d.executions} states={len(d.states)} transitions={d.transitions} "
          f"traces={d.traces} outcomes={len(d.outcomes)} wall={time.time()-t0:.1f}s slowest={d.slow[0]:.1f}s"
          + (" CAPPED" if d.capped else ""))
    if os.environ.get("MC_DEBUG"):
        import collections
        print("# violation classes:", collections.Counter(":".join(k.split(":")[:2]) if not k.startswith(("objective", "subopt", "status")) else k.split(":")[0] for k in d.viol if k not in known))
        print("# slowest case:", json.dumps(d.slow[1], default=str)[:500])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if n_viol else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        rc = 2
    os._exit(rc) if rc == 2 else sys.exit(rc)
