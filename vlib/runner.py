"""Shard runner, PyPy worker client, evidence and verdict discipline.

Verdicts: exit 0 held on everything observed; exit 1 violated (witness written to a replay file);
exit 2 inconclusive (monitor not reached, too few events, worker timeouts).  Inconclusive is never folded into held."""
import os, sys, json, time, random, subprocess, select, shutil, tempfile, traceback, multiprocessing as mp, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
SHARDS = 8
STRETCH = float(os.environ.get("VERIF_STRETCH", 350))


class WorkerDied(Exception):
    pass


class WorkerTimeout(Exception):
    pass


class Worker:
    """One process running the code under test."""

    def __init__(self, hashseed="random", timeout=150, scratch=None):
        self.hashseed, self.timeout = str(hashseed), timeout
        self.scratch = scratch or tempfile.gettempdir()
        self.p = None
        self.calls = 0

    def start(self):
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO
        env["PYTHONHASHSEED"] = self.hashseed
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["TMPDIR"] = self.scratch
        env.pop("PYTHONHOME", None)
        self.err = tempfile.TemporaryFile(dir=self.scratch)
        self.p = subprocess.Popen([PYPY, "-B", os.path.join(VERIF, "vlib", "worker.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.scratch,
                                  start_new_session=True)
        self.buf = b""

    def stop(self):
        if self.p is None:
            return
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()
        self.p = None

    def call(self, op, timeout=None, **kw):
        if self.p is None:
            self.start()
        self.calls += 1
        msg = (json.dumps(dict(kw, op=op)) + "\n").encode()
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
        except OSError:
            return self._died()
        end = time.time() + (timeout or self.timeout)
        fd = self.p.stdout.fileno()
        chunks = []
        while True:
            left = end - time.time()
            if left <= 0:
                self.stop()
                raise WorkerTimeout(op)
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if not r:
                continue
            b = os.read(fd, 1 << 20)
            if not b:
                return self._died()
            if b"\n" in b:
                chunks.append(b)
                break
            chunks.append(b)
        return json.loads(b"".join(chunks))

    def _died(self):
        self.err.seek(0)
        e = self.err.read()[-1500:].decode(errors="replace")
        self.stop()
        return {"exc": "ProcessDied", "msg": "the process running the generator died", "tb": e}


class Shard:
    """Passed to a check's shard function; collects observations."""

    def __init__(self, pid, tier, seed, idx, n, scratch, deadline):
        self.pid, self.tier, self.seed, self.idx, self.n = pid, tier, seed, idx, n
        self.rng = random.Random(f"{pid}:{seed}:{idx}")
        self.scratch = scratch
        self.deadline = deadline
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = {}
        self.timeouts = 0
        self.bounded = self.hung = False
        self.truncated = False
        self.worker = Worker(hashseed=(seed * 131 + idx * 7 + 1) % 4294967295, scratch=scratch)
        self.notes = []
        self.stretch, self.last_sum, self.enough, self.min_keys, self.min_counts = 0, 0, False, 0, {}

    def over(self):
        """Time is up, or enough witnesses.  On a slow machine the shard goes on past its soft deadline (up to `stretch`
        seconds) until the monitors of all shards together have observed the required minimum."""
        if len(self.violations) >= 3 or self.hung:
            return True
        now = time.time()
        if now <= self.deadline:
            return False
        self.truncated = True
        if now > self.deadline + self.stretch:
            return True
        if now - self.last_sum >= 2:
            self.last_sum = now
            self.enough = self._minimum_reached()
        return self.enough

    def _minimum_reached(self):
        path = os.path.join(self.scratch, "progress.%d" % self.idx)
        with open(path + ".t", "w") as f:
            json.dump(dict(self.counts, _keys=len(self.keys), _viol=len(self.violations)), f)
        os.replace(path + ".t", path)
        tot = {}
        for i in range(self.n):
            try:
                for k, v in json.load(open(os.path.join(self.scratch, "progress.%d" % i))).items():
                    tot[k] = tot.get(k, 0) + v
            except (OSError, ValueError):
                pass
        return tot.get("_viol", 0) > 0 or (tot.get("_keys", 0) >= 1.1 * self.min_keys
                                           and all(tot.get(k, 0) >= m for k, m in self.min_counts.items()))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def top(self, k, v):
        self.counts["max_" + k] = max(self.counts.get("max_" + k, 0), v)

    def evaluated(self, key=None, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial and key is not None:
            self.keys.add(hashlib.blake2b(json.dumps(key, sort_keys=True, default=str).encode(), digest_size=8).hexdigest())
        if sample is not None and nontrivial and len(self.samples) < 3:
            self.samples.append(sample)

    def violate(self, what, **witness):
        self.violations.append(dict(what=what, **witness))

    def known_finding(self, key, text):
        self.known[key] = text

    def call(self, op, **kw):
        """Call the code under test.  Returns the event, or None on a watchdog timeout (inconclusive)."""
        t = time.time()
        try:
            return self.worker.call(op, **kw)
        except WorkerTimeout:
            self.timeouts += 1
        finally:
            self.top("call_seconds", round(time.time() - t, 1))
        if self.bounded and "timeout" not in kw:
            # the workload of this check is sized to take seconds at most: once more in a fresh process, alone this time
            try:
                return self.worker.call(op, timeout=200, **kw)
            except WorkerTimeout:
                self.violate("the code under test does not finish a request that takes at most seconds", request=dict(kw, op=op))
                self.hung = True
        return None

    def need(self, op, witness=None, **kw):
        """Like call, for requests that must succeed: an exception is a violation.  Returns the result or None."""
        ev = self.call(op, **kw)
        if ev is None:
            return None
        if "exc" in ev:
            self.violate("valid request failed with an exception", request=dict(kw, op=op), event=ev, info=witness)
            return None
        return ev["ok"]


def _shard_main(modname, pid, tier, seed, idx, n, scratch, deadline, q):
    sys.path.insert(0, VERIF)
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    import importlib
    sh = Shard(pid, tier, seed, idx, n, scratch, deadline)
    err = None
    try:
        mod = importlib.import_module(modname)
        sh.min_keys = getattr(mod, "MIN_NONTRIVIAL", {}).get(tier, 1)
        sh.min_counts = getattr(mod, "MIN_OBSERVED", {})
        sh.stretch = STRETCH if tier == "quick" else 60
        sh.bounded = tier == "quick"      # the thorough workload has requests that may take minutes
        mod.shard(sh)
    except Exception:
        err = traceback.format_exc()
    finally:
        sh.worker.stop()
    q.put(dict(idx=idx, evaluations=sh.evaluations, keys=sorted(sh.keys), samples=sh.samples, counts=sh.counts,
               violations=sh.violations, known=sh.known, timeouts=sh.timeouts, truncated=sh.truncated, err=err,
               notes=sh.notes, calls=sh.worker.calls))


def load_known(pid):
    """Known-findings entries registered for this property (mechanism keys)."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["key"]] = d
    return out


def run(pid, argv=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if argv:
        for a in argv:
            if a in ("quick", "thorough"):
                tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    modname = "checks." + pid.lower()
    sys.path.insert(0, VERIF)
    import importlib
    mod = importlib.import_module(modname)
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 780)
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", budget))
    nsh = int(os.environ.get("VERIF_SHARDS", 0)) or getattr(mod, "SHARDS", SHARDS)
    ctx = mp.get_context("spawn")
    q = ctx.Queue()
    procs = [ctx.Process(target=_shard_main, args=(modname, pid, tier, seed, i, nsh, scratch, deadline, q)) for i in range(nsh)]
    results = []
    try:
        for p in procs:
            p.start()
        hard = deadline + (480 if tier == "quick" else 160) 
        while len(results) < nsh and time.time() < hard:
            try:
                results.append(q.get(timeout=5))
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    time.sleep(1)
                    if q.empty():
                        break
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
            p.join(5)
            if p.is_alive():
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return finish(pid, mod, tier, seed, results, nsh, t0)


def finish(pid, mod, tier, seed, results, nsh, t0):
    counts, keys, samples, viols, known, errs = {}, set(), [], [], {}, []
    ev = timeouts = calls = 0
    trunc = False
    for r in sorted(results, key=lambda r: r["idx"]):
        ev += r["evaluations"]
        keys.update(r["keys"])
        samples += r["samples"][:1]
        viols += r["violations"]
        known.update(r["known"])
        timeouts += r["timeouts"]
        calls += r["calls"]
        trunc |= r["truncated"]
        if r["err"]:
            errs.append(r["err"])
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
    listed = load_known(pid)
    for k in list(known):
        if k not in listed:
            viols.append(dict(what="violation classified as a finding that is not listed: " + k, text=known.pop(k)))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:6] or ["none"],
               generator_calls=calls, observed=counts, truncated_by_watchdog=trunc, worker_timeouts=timeouts,
               shards_reporting=len(results), known_findings_seen=sorted(known))
    rec = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1, default=str)
    for k, t in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {t}")
    print(f"{pid} tier={tier} seed={seed}: {ev} evaluations, {len(keys)} distinct non-trivial, {calls} calls, "
          f"{timeouts} timeouts, wall {rec['wall_s']} s, observed {json.dumps(counts, sort_keys=True)}")
    if viols:
        path = os.path.join(evdir, f"{pid}.violation.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, violations=viols[:10]), f, indent=1, default=str)
        print("first witness:", json.dumps(viols[0], default=str)[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        print("ERROR of the check:\n" + errs[0][-3000:])
        return 2
    if len(results) < nsh:
        print("INCONCLUSIVE: a shard did not report")
        return 2
    if timeouts > max(2, 0.05 * calls):
        print(f"INCONCLUSIVE: {timeouts} requests hit the watchdog")
        return 2
    need = getattr(mod, "MIN_NONTRIVIAL", {}).get(tier, 1)
    if len(keys) < need:
        print(f"INCONCLUSIVE: only {len(keys)} distinct non-trivial cases observed, need {need}")
        return 2
    for k, m in getattr(mod, "MIN_OBSERVED", {}).items():
        if counts.get(k, 0) < m:
            print(f"INCONCLUSIVE: monitor counter {k} = {counts.get(k, 0)} < {m}")
            return 2
    return 0
