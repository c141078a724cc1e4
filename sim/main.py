"""Orchestrator: seeded search, minimisation, replay, evidence."""
import collections
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from sim import core

NWORKERS = int(os.environ.get("SIM_WORKERS", "8"))


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, prop, name, k, base, shared, tier, hashseed="0"):
        self.scratch = os.path.join(base, "w%d" % k, "run")
        os.makedirs(os.path.dirname(self.scratch), exist_ok=True)
        tmp = os.path.join(base, "w%d" % k, "tmp")
        os.makedirs(tmp, exist_ok=True)
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = hashseed
        env["TMPDIR"] = tmp
        home = os.path.join(base, "w%d" % k, "home")
        os.makedirs(home, exist_ok=True)
        env["HOME"] = home
        for x in ("XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"):
            env.pop(x, None)
        env["SIM_REPO"] = core.REPO
        env["SIM_WORKER"] = str(k)
        env.update(prop.worker_env(shared) if hasattr(prop, "worker_env") else {})
        self.args = [core.PYTHON, "-m", "sim.worker", name, self.scratch, shared, tier]
        self.env = env
        self.start()

    def start(self):
        self.proc = subprocess.Popen(
            self.args, cwd=core.VERIF, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            start_new_session=True)
        line = self.proc.stdout.readline()
        if not line:
            raise WorkerDied("worker did not start")
        msg = json.loads(line)
        if "fatal" in msg:
            raise WorkerDied(msg["fatal"])

    def call(self, job):
        try:
            self.proc.stdin.write((json.dumps(job) + "\n").encode())
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            self.stop()
            self.start()
            return {"error": "worker died"}
        return json.loads(line)

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


class Campaign:
    def __init__(self, name, tier, seed):
        self.name = name
        self.tier = tier
        self.seed = seed
        self.prop = importlib.import_module("sim.props." + name.lower())
        self.base = tempfile.mkdtemp(prefix="ctsim-")
        os.chmod(self.base, 0o755)
        self.shared = os.path.join(self.base, "shared")
        os.makedirs(self.shared)
        self.workers = []

    def open(self, nworkers=NWORKERS):
        if hasattr(self.prop, "setup"):
            self.prop.setup(self.shared, self.tier)
        self.workers = []
        lock = threading.Lock()
        errs = []

        def mk(k):
            try:
                w = Worker(self.prop, self.name, k, self.base, self.shared, self.tier)
                with lock:
                    self.workers.append(w)
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=mk, args=(k,)) for k in range(nworkers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]

    def close(self):
        for w in self.workers:
            w.stop()
        shutil.rmtree(self.base, ignore_errors=True)

    def map(self, jobs, deadline=None, on_result=None, stop=None):
        """Run the jobs on the workers; results keep their job's index."""
        q = collections.deque(enumerate(jobs))
        results = {}
        lock = threading.Lock()

        def loop(w):
            while True:
                with lock:
                    if not q or (stop and stop()) or (deadline and time.monotonic() > deadline):
                        return
                    i, job = q.popleft()
                try:
                    r = w.call(job)
                except WorkerDied as e:
                    r = {"error": str(e)}
                with lock:
                    results[i] = r
                    if on_result:
                        on_result(i, job, r)
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.workers]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return results


def same_class(res, klass):
    if klass == "hang":
        return bool(res.get("timeout"))
    return bool(res.get("viol")) and res["viol"]["class"] == klass


def minimise(camp, world, klass, budget_s=60.0, timeout=None):
    """Greedy shrinking: take the first smaller world that still fails in the
    same class; candidates of a round are tried in parallel, but the choice is
    by their order, so that the result does not depend on timing."""
    end = time.monotonic() + budget_s
    rounds = tried = 0
    cur = world
    res = None
    while time.monotonic() < end:
        rounds += 1
        better = None
        cands = list(camp.prop.shrinks(cur))
        seen = set()
        batch = []
        cur_size = camp.prop.size(cur) if hasattr(camp.prop, "size") else len(json.dumps(cur))
        for c in cands:
            k = core.digest(c)
            if k in seen:
                continue
            seen.add(k)
            batch.append(c)
        for j in range(0, len(batch), 2 * len(camp.workers)):
            part = batch[j:j + 2 * len(camp.workers)]
            out = camp.map([{"world": c, "timeout": timeout} for c in part])
            tried += len(part)
            for i in range(len(part)):
                if i in out and same_class(out[i], klass):
                    better, res = part[i], out[i]
                    break
            if better is not None or time.monotonic() > end:
                break
        if better is None:
            break
        cur = better
    return cur, {"rounds": rounds, "tried": tried}


def write_replay(camp, world, res, info):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (camp.name, core.digest(world)))
    with open(path, "w") as f:
        json.dump({"property": camp.name, "seed": info["seed"], "index": info["index"],
                   "class": res["viol"]["class"], "message": res["viol"]["msg"],
                   "digest": res.get("digest"), "minimised": info.get("min"),
                   "trace_tail": res.get("tail"), "world": world}, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def known_findings(name):
    """Signatures of the listed findings: 'finding: property=<id> sig=<sig> <what fails>'."""
    out = []
    p = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % name):
                rest = line.split(" ", 2)[2]
                sig, what = rest.split(" ", 1)
                out.append((sig[len("sig="):], what))
    return out


def run_check(name):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    print("property %s tier %s seed %d" % (name, tier, seed))
    sys.stdout.flush()
    camp = Campaign(name, tier, seed)
    prop = camp.prop
    try:
        camp.open()
        runs = int(os.environ.get("SIM_RUNS", prop.RUNS[tier]))
        wall = float(os.environ.get("SIM_WALL", prop.WALL[tier] if hasattr(prop, "WALL") else
                                    {"quick": 150.0, "thorough": 1500.0}[tier]))
        deadline = t0 + wall
        viols, errors, hangs = [], [], []
        agg = collections.Counter()
        states = set()
        wkeys = set()
        nontrivial = set()
        skipped = 0
        steps = events = 0
        samples = []
        digests = {}

        def on_result(i, job, r):
            nonlocal skipped, steps, events
            if r.get("timeout"):
                hangs.append((i, r))
                return
            if r.get("error"):
                errors.append((i, r))
                return
            for k, v in r.get("stats", {}).items():
                agg[k] += v
            states.update(r.get("states", ()))
            if r.get("wkey"):
                wkeys.add(r["wkey"])
                if r.get("nontrivial"):
                    nontrivial.add(r["wkey"])
            if r.get("skip"):
                skipped += 1
            steps += r.get("steps", 0)
            events += r.get("events", 0)
            if r.get("digest"):
                digests[i] = r["digest"]
            if r.get("viol"):
                viols.append((i, r))
            elif job.get("want_world") and r.get("nontrivial") and len(samples) < 3:
                samples.append({"index": i, "world": r["world"], "events": r.get("tail")})

        jobs = [{"seed": seed, "index": i, "want_world": i < 24} for i in range(runs)]
        t_run = time.monotonic()
        camp.map(jobs, deadline, on_result,
                 stop=lambda: len(viols) >= getattr(prop, "STOP", 12) or len(errors) >= 20 or len(hangs) >= 3)
        # a run that gave no answer in its time is repeated, by itself: one that
        # never ends is a violation (no promised output comes), a slow one is not
        hung = []
        for i, r in sorted(hangs, key=lambda v: v[0])[:1 if viols else 2]:
            out = camp.map([{"world": r["world"]}] * 2)
            ends = [out[k] for k in sorted(out) if not out[k].get("timeout")]
            if not ends:
                hung.append((i, r))
                break
            agg["runs repeated because they were slow"] += 1
            on_result(i, {}, ends[0])
        t_run = time.monotonic() - t_run
        done = len(digests) + len([v for v in viols if not v[1].get("digest")])

        # determinism: the same index again, on whichever worker comes first
        again = {}
        mismatches = []
        if not viols:
            idx = sorted(digests)[:: max(1, len(digests) // 24)][:24]
            out = camp.map([{"seed": seed, "index": i} for i in idx])
            for j, i in enumerate(idx):
                r = out.get(j)
                if r and not r.get("error"):
                    again[i] = r.get("digest")
                    if r.get("digest") != digests[i]:
                        mismatches.append(i)

        # triage: minimise one violation per class
        reported, known = [], []
        unreproduced = []
        findings = known_findings(name)
        viols.sort(key=lambda v: v[0])
        classes = {}
        for i, r in viols:
            classes.setdefault(r["viol"]["class"], []).append((i, r))
        for klass in sorted(classes, key=lambda c: classes[c][0][0]):
            ok = False
            for i, r in classes[klass][:3]:
                world = r["world"]
                rep = [camp.workers[0].call({"world": world}) for _ in range(2)]
                if not any(same_class(x, klass) for x in rep):
                    rep = [camp.workers[-1].call({"world": world}) for _ in range(4)]
                if not any(same_class(x, klass) for x in rep):
                    unreproduced.append({"index": i, "class": klass, "msg": r["viol"]["msg"]})
                    continue
                left = max(10.0, min(60.0 if tier == "quick" else 180.0, 600 - (time.monotonic() - t0)))
                small, info = minimise(camp, world, klass, left)
                final = None
                for _ in range(5):
                    x = camp.workers[0].call({"world": small})
                    if same_class(x, klass):
                        final = x
                        break
                if final is None:
                    small, final = world, r
                sig = prop.signature(small, final["viol"]) if hasattr(prop, "signature") else None
                path = write_replay(camp, small, final, {"seed": seed, "index": i, "min": info})
                match = [f for f in findings if sig is not None and f[0] == sig]
                if match:
                    known.append(match[0])
                else:
                    reported.append((klass, final["viol"]["msg"], path))
                ok = True
                break
        for i, r in hung:
            if viols:
                break
            small, info = minimise(camp, r["world"], "hang", 60.0, 15.0)
            res = {"viol": {"class": "hang", "msg": "no end: the run gives no answer in its time, and neither do its repetitions"}}
            if not camp.workers[0].call({"world": small}).get("timeout"):
                small, info = r["world"], {}
            path = write_replay(camp, small, res, {"seed": seed, "index": i, "min": info})
            reported.append(("hang", res["viol"]["msg"], path))
        wall_s = time.monotonic() - t0
        for sig, what in findings:
            hit = [k for k in known if k[0] == sig] or agg.get("known:" + sig)
            print("KNOWN-FINDING: property=%s %s%s" % (name, what, "" if hit else " (not reached in this run)"))
        cov = {
            "evaluations": len(digests) + len(viols) - len([v for v in viols if v[1].get("digest")]),
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples or [{"note": "no sample: the run stopped at a violation"}],
            "planned_runs": runs,
            "runs_per_hour": int(len(digests) / max(t_run, 1e-6) * 3600),
            "seeds_per_hour": int(len(digests) / max(t_run, 1e-6) * 3600),
            "simulated_steps": steps,
            "simulated_time": prop.SIMTIME,
            "recorded_events": events,
            "faults_and_probes": dict(sorted(agg.items())),
            "distinct_states": len(states),
            "state_measure": prop.STATES,
            "components_real": prop.REAL,
            "components_stub": prop.STUB,
            "determinism_rerun": {"runs": len(again), "digest_mismatches": len(mismatches)},
            "trivial_or_skipped": skipped,
            "harness_errors": len(errors),
            "unreproduced": unreproduced,
            "workers": len(camp.workers),
        }
        ev = {"property": name, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
              "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall_s, 2), "violations": len(reported)}
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", name + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%d runs (%d distinct non-trivial, %d states) in %.1f s, %d steps; re-run mismatches %d/%d" % (
            cov["evaluations"], len(nontrivial), len(states), wall_s, steps, len(mismatches), len(again)))
        if mismatches:
            print("  not the same the second time: runs %s" % mismatches)
        for k, v in sorted(agg.items()):
            print("  %-40s %d" % (k, v))
        for klass, msg, path in reported:
            print("violation [%s] %s" % (klass, core.clip(msg, 1500)))
            print("VIOLATION property=%s replay=%s" % (name, path))
        sys.stdout.flush()
        if reported:
            return 1
        if errors:
            for i, r in errors[:3]:
                print("harness error in run %d: %s" % (i, r["error"][-1500:]), file=sys.stderr)
            return 2
        if unreproduced:
            print("unreproduced observations: %s" % json.dumps(unreproduced)[:2000], file=sys.stderr)
            return 2
        if not digests or not nontrivial:
            print("nothing was explored", file=sys.stderr)
            return 2
        return 0
    finally:
        camp.close()


def run_replay(path):
    rec = json.load(open(path))
    camp = Campaign(rec["property"], os.environ.get("VERIF_TIER", "quick"), rec.get("seed", 1))
    try:
        camp.open(1)
        r = camp.workers[0].call({"world": rec["world"]})
        if r.get("timeout") and rec["class"] == "hang":
            r = {"viol": {"class": "hang", "msg": rec["message"]}}
        if r.get("error"):
            print(r["error"], file=sys.stderr)
            return 2
        print("digest %s (recorded %s)" % (r.get("digest"), rec.get("digest")))
        if r.get("viol"):
            print("violation [%s] %s" % (r["viol"]["class"], r["viol"]["msg"]))
            for e in r.get("tail") or []:
                print("  event", json.dumps(e)[:300])
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
        print("no violation")
        return 0
    finally:
        camp.close()


def run_selftest(names):
    """Determinism on many seeds: twice each, different worker counts."""
    bad = 0
    for name in names:
        table = {}
        for nw, seeds in ((8, range(1, 9)), (3, range(1, 9))):
            camp = Campaign(name, "quick", 1)
            try:
                camp.open(nw)
                jobs = [{"seed": s, "index": i} for s in seeds for i in range(20)]
                out = camp.map(jobs)
                for j, job in enumerate(jobs):
                    r = out[j]
                    table.setdefault((job["seed"], job["index"]), []).append(
                        r.get("digest") or r.get("error") or str(r.get("viol")))
            finally:
                camp.close()
        diff = [k for k, v in table.items() if len(set(v)) != 1]
        bad += len(diff)
        print("%s: %d runs twice, %d differ %s" % (name, len(table), len(diff), diff[:5]))
        sys.stdout.flush()
    return 1 if bad else 0


def main():
    os.umask(0o022)
    # whatever the caller ignores: the simulated processes get the defaults
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM):
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    args = sys.argv[1:]
    if not args:
        print("usage: check PROPERTY | replay FILE | selftest [PROPERTY...]", file=sys.stderr)
        return 2
    if args[0] == "replay":
        return run_replay(args[1])
    if args[0] == "selftest":
        return run_selftest(args[1:])
    return run_check(args[0])


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    sys.exit(main())
