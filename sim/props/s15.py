"""S15: runs in separate processes do not affect each other, also when killed."""
import fcntl
import json
import os
import pickle
import select
import shutil
import signal
import tempfile
import time

from sim import core, csrc, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded interleaving of several processes at their file system calls (all but one are held), seeded kills, equal process ids "
             "and equal random names, edits and new runs in between; each outcome compared with the run alone")
NOTE = ("Sampled schedules (about 1400 worlds of 2-8 runs quick, 15000 thorough). Processes switch at the calls of libc that touch "
        "the simulated tree; their memory is not shared, so nothing else of them is visible to each other.")
RUNS = {"quick": 1400, "thorough": 15000}
RULE = ("a world is 1-3 phases; in each, 1-3 processes (command line or API; files, text or standard input; output to a file, standard "
        "output or a stream) share sources, libraries, working, temporary and home directory, under a seeded schedule that may kill them "
        "(SIGKILL, SIGTERM, SIGINT) at any call; between phases sources are edited (also to the same size and time). Process ids and "
        "random sequences are drawn, also equal ones. Non-trivial: two processes overlapped, or one was killed and another ran later.")
SIMTIME = "no clock in the code under test; the unit is the simulated system call (simulated_steps)"
STATES = "distinct (call, next process's call) pairs at switches, and (call) at kills"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "nm", "the file system", "signals"]
STUB = ["process start and end (forked)", "getpid, getrandom (LD_PRELOAD)", "the order of system calls of different processes"]
ASSUMPTIONS = ["runs that write the same output file at the same time are identical runs and are not killed",
               "what a killed run itself leaves in its own output file is unspecified"]
TIMEOUT = 120.0
MAXSTEPS = 60000


def preload():
    iosim.preload()


def worker_env(shared):
    return iosim.worker_env(shared)


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)


def gen_job(r, k, nfiles, names):
    cfg = {}
    for o in ("comments", "docs", "locs"):
        if r.random() < 0.2:
            cfg[o] = True
    if r.random() < 0.3:
        cfg["filter"] = False
    cfg["kinds"] = r.choice(["cdefmstu", "cdefstu", "acdefmstu", "cs"])
    if names and r.random() < 0.15:
        cfg["symbols"] = [r.choice(names)]
    if r.random() < 0.4:
        cfg["dlls"] = sorted(set(r.randrange(3) for _ in range(r.choice([1, 1, 2]))))
    if r.random() < 0.25:
        cfg["clang"] = ["-target", r.choice(["i386-linux-gnu", "x86_64-linux-gnu"])]
    j = {"cfg": cfg, "files": sorted(set(r.randrange(nfiles) for _ in range(r.choice([1, 1, 2])))), "rand": r.choice([1, 1, r.randrange(1, 1000)]),
         "pid": r.choice([0, 7, 7, r.randrange(2, 30000)]), "clock": r.choice([0, 0, 0, -86400 * 400, 86400 * 400])}
    x = r.random()
    if x < 0.3:
        j["via"] = "api"
        j["api"] = r.choice(["files", "file", "string", "load_files", "load_string"])
    else:
        j["via"] = "cli"
        j["mode"] = r.choice(["module", "script"])
        j["out"] = r.choice([None, "o%d.py" % k, "o%d.py" % k, "o%d.py" % k, "../out/o%d.py" % k])
        if r.random() < 0.4:
            j["stdin"] = True
            j["files"] = j["files"][:1]
            for o in ("docs", "locs", "comments"):
                cfg.pop(o, None)
    if r.random() < 0.06:
        j["bad"] = r.choice(["missing", "option", "library"])
    return j


def gen_sched(r, n):
    """[[process, calls, kill or None], ...]; afterwards the rest runs in turn."""
    out = []
    style = r.choice(["fine", "coarse", "mixed", "late"])
    for _ in range(r.choice([0, 1, 3, 8, 20, 60, 200]) if n > 1 else r.choice([0, 1])):
        k = {"fine": r.choice([1, 1, 2, 3]), "coarse": r.randrange(5, 300), "mixed": r.choice([1, 2, 5, 20, 100]),
             "late": r.choice([1, 400])}[style]
        if style != "fine" and r.random() < 0.25:
            # up to a call that changes something
            k = {"mut": round(r.random(), 4), "after": r.choice([0, 0, 1])}
        out.append([r.randrange(n), k, None])
    if r.random() < 0.45:
        at = r.randrange(len(out) + 1)
        k = r.choice([r.randrange(20), r.randrange(80), r.randrange(400), "end", "mut", "mut", "mut", "mut"])
        if k == "end":
            k = {"end": r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 15])}
        elif k == "mut":
            k = {"mut": round(r.random(), 4), "after": r.choice([0, 0, 1, 1, 2])}
        out.insert(at, [r.randrange(n), k, r.choice(["k", "k", "k", "t", "i"])])
    return out


def gen(r, index, tier):
    tree = iosim.gen_tree(r, "c", nfiles=r.choice([1, 2, 2, 3]), big=0.05)
    names = sorted(set(d["n"].split()[-1] for f in tree["files"] for d in f["d"]))
    nf = len(tree["files"])
    pool = [gen_job(r, k, nf, names) for k in range(r.choice([1, 2, 2, 3]))]
    phases = []
    for p in range(r.choice([1, 2, 2, 3])):
        jobs = []
        for _ in range(r.choice([1, 2, 2, 2, 3])):
            k = r.randrange(len(pool))
            j = dict(pool[k])
            if jobs and r.random() < 0.15:
                # the identical run a second time
                j = dict(jobs[-1])
            elif any(x.get("out") and os.path.basename(x["out"]) == os.path.basename(j["out"]) for x in jobs if j.get("out")):
                j["out"] = "p%d.py" % len(jobs)
            if r.random() < 0.3:
                j["pid"] = r.choice([0, 7, 7, r.randrange(2, 30000)])
            jobs.append(j)
        ph = {"jobs": jobs, "sched": gen_sched(r, len(jobs))}
        if p and r.random() < 0.5:
            i = r.randrange(nf)
            ph["edit"] = {"f": i, "how": r.choice(["value", "value", "decl"]), "keep": r.random() < 0.6, "v": r.randrange(100, 999)}
        phases.append(ph)
    return {"tree": tree, "phases": phases}


# ------------------------------------------------------------------ one process

def child(job, paths, libpaths, conf_args, root, gate):
    """In the forked process."""
    os.environ["HOME"] = os.environ["XDG_CACHE_HOME"] = os.path.join(root, "home")
    os.environ["TMPDIR"] = tmp = os.path.join(root, "tmp")
    tempfile.tempdir = None
    c = iosim.conf(gate=gate, rand=job["rand"], pid=job["pid"], clock=job["clock"], **conf_args)
    lp = list(libpaths)
    cfg = dict(job["cfg"])
    if job.get("bad") == "library":
        cfg["dlls"] = [len(lp)]
        lp.append(os.path.join(root, "src", "h0.h"))
        open(lp[-1], "a", encoding="utf-8").close()
    elif job.get("bad") == "option":
        cfg["clang"] = ["-target", "nosuchcpu-unknown"]
    files = [paths[i] for i in job["files"]]
    if job.get("bad") == "missing":
        files.append(os.path.join(root, "src", "nosuch.h"))
    if job["via"] == "api":
        os.chdir(os.path.join(root, "cwd"))
        a = job["api"]
        if a in ("string", "load_string"):
            with open(files[0], encoding="utf-8") as f:
                args = [f.read()]
            cfg["clang"] = list(cfg.get("clang", ())) + ["-I" + os.path.dirname(files[0])]
        else:
            args = files
        r = iosim.api_child(a, args, cfg, c, libs=lp)
        return {"ok": r["res"][0] == "ok", "res": r["res"], "text": r["text"]}
    argv = ops.cli_args(cfg, lp)
    if job.get("out"):
        argv += ["-o", os.path.join(root, "out", job["out"]) if not job["out"].startswith("..") else job["out"]]
    si = "/dev/null"
    if job.get("stdin"):
        si = files[0]
        argv += ["--clang-args=" + " ".join(list(cfg.get("clang", ())) + ["-I" + os.path.dirname(files[0]).replace(" ", "?")])]
        files = ["-"] + files[1:]
    r = iosim.cli_child(argv + files, job["mode"], os.path.join(root, "cwd"), tmp, si, os.path.join(root, "std", "out%s" % gate[2]), c)
    return {"ok": r["rc"] == 0, "res": [r["rc"], r["what"]], "text": None}


class Proc:
    """A process that is held before each of its system calls on the tree."""

    def __init__(self, k, job, ctx, paths, libpaths, others):
        self.k = k
        self.job = job
        self.result = ctx.path("std", "res%d" % k)
        self.trace = ctx.path("std", "trace%d" % k)
        for f in (self.result, self.trace):
            if os.path.exists(f):
                os.unlink(f)
        ur, uw = os.pipe()
        dr, dw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                for o in others:
                    os.close(o.up)
                    os.close(o.down)
                os.close(ur)
                os.close(dw)
                w = fcntl.fcntl(uw, fcntl.F_DUPFD_CLOEXEC, 300)
                r = fcntl.fcntl(dr, fcntl.F_DUPFD_CLOEXEC, 300)
                os.close(uw)
                os.close(dr)
                os.write(w, b"s")
                if os.read(r, 1) != b"g":
                    os._exit(4)
                roots = [ctx.path(d) for d in ("src", "out", "tmp", "cwd", "home")]
                res = child(job, paths, libpaths, {"trace": self.trace, "roots": roots}, ctx.root, (r, w, k))
                with open(self.result + ".new", "wb") as f:
                    pickle.dump(res, f)
                os.rename(self.result + ".new", self.result)
                code = 0
            except BaseException:  # pylint: disable=broad-except
                import traceback
                with open(self.result + ".err", "w", encoding="utf-8") as f:
                    traceback.print_exc(file=f)
            finally:
                os._exit(code)
        os.close(uw)
        os.close(dr)
        self.up, self.down = ur, dw
        self.done = False
        self.killed = None
        self.steps = 0
        self.status = None
        self.wait()

    def wait(self):
        """Until it asks for its next call, or is gone."""
        rd, _, _ = select.select([self.up], [], [], 60)
        if not rd:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            raise RuntimeError("a simulated process does not go on")
        if not os.read(self.up, 1):
            self.done = True
            _, self.status = os.waitpid(self.pid, 0)
            os.close(self.up)
            os.close(self.down)

    def step(self, what=b"g"):
        os.write(self.down, what)
        self.steps += 1
        self.wait()

    def kill(self):
        if not self.done:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.up)
            os.close(self.down)
            self.done = True

    def outcome(self, ctx):
        if not os.path.exists(self.result):
            if self.killed:
                return None
            err = ""
            if os.path.exists(self.result + ".err"):
                with open(self.result + ".err", encoding="utf-8") as f:
                    err = f.read()
            raise RuntimeError("no outcome of a simulated process: %s %s" % (self.status, err[-1500:]))
        with open(self.result, "rb") as f:
            res = pickle.load(f)
        if self.job["via"] == "cli":
            p = ctx.path("out", os.path.basename(self.job["out"])) if self.job.get("out") else ctx.path("std", "out%d" % self.k)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    res["text"] = f.read().decode("utf-8", "replace")
        return res


def lay(ctx, world, upto):
    """The sources as they are in a phase."""
    tree = world["tree"]
    stamps = {}
    text = ["int edited = 100;\n"] * len(tree["files"])
    for q in range(upto + 1):
        e = world["phases"][q].get("edit")
        if e and e["f"] < len(text):
            text[e["f"]] = "int edited = %d;\n" % e["v"] if e["how"] == "value" else "struct edited { char c[%d]; };\n" % e["v"]
    # some of these are in each of the libraries
    fp, hp = iosim.write_tree(ctx, dict(tree, files=[dict(f, extra=[t] + ["int f%d(void);\n" % k for k in range(7)])
                                                     for f, t in zip(tree["files"], text)]))
    e = world["phases"][upto].get("edit")
    for i, p in enumerate(fp + hp):
        # an edit within the resolution of the clock, or a restored time
        s = 1600000000 + (0 if not e or e["keep"] or i != e["f"] else 100 * upto)
        os.utime(p, (s, s))
        stamps[p] = s
    return fp


def fresh_dirs(ctx, *names):
    for d in names:
        shutil.rmtree(ctx.path(d), ignore_errors=True)
        ctx.mkdir(d)


def mutates(t):
    return t[1] in ("write", "mkdir", "unlink", "rmdir", "rename", "chmod", "ftruncate") or t[1] == "open" and t[3][:1] not in ("r", "d")


def opname(trace, n):
    return trace[n][1] if n < len(trace) else "?"


def run(world, ctx):
    libpaths = libs.pool_paths(ctx.shared)
    fresh_dirs(ctx, "src", "std")
    # each run alone, in directories that no other run has used
    alone = {}
    lens = {}

    def key(p, j):
        return json.dumps([p if any(ph.get("edit") for ph in world["phases"][1:p + 1]) else 0, j], sort_keys=True)
    for p, ph in enumerate(world["phases"]):
        fp = None
        for j in ph["jobs"]:
            if key(p, j) in alone:
                continue
            if fp is None:
                fp = lay(ctx, world, p)
            fresh_dirs(ctx, "out", "tmp", "cwd", "home")
            x = Proc(0, j, ctx, fp, libpaths, [])
            try:
                while not x.done:
                    x.step()
            finally:
                x.kill()
            r = x.outcome(ctx)
            alone[key(p, j)] = r
            lens[key(p, j)] = (x.steps, [t for t in iosim.read_trace(x.trace) if t[0] is not None])
            ctx.log("alone", p, r["ok"], r["res"] if not r["ok"] else "", ctx.dig(r["text"]), x.steps)
    fresh_dirs(ctx, "out", "tmp", "cwd", "home")
    history = []
    for p, ph in enumerate(world["phases"]):
        phase(world, ctx, p, ph, libpaths, alone, lens, key, history)


def phase(world, ctx, p, ph, libpaths, alone, lens, key, history):
    fp = lay(ctx, world, p)
    jobs = ph["jobs"]
    procs = []
    outs = [os.path.basename(j["out"]) for j in jobs if j.get("out")]
    dup = set(o for o in outs if outs.count(o) > 1)
    overlap = False
    try:
        for k, j in enumerate(jobs):
            procs.append(Proc(k, j, ctx, fp, libpaths, [o for o in procs if not o.done]))
        last = None
        total = 0
        for who, n, kill in ph["sched"]:
            x = procs[who % len(procs)]
            if x.done:
                continue
            l, tr = lens[key(p, x.job)]
            if isinstance(n, dict) and "mut" in n:
                at = [i for i, t in enumerate(tr) if mutates(t) and i + n["after"] > x.steps]
                n = at[min(int(n["mut"] * len(at)), len(at) - 1)] + n["after"] - x.steps if at else 1
            elif isinstance(n, dict):
                n = max(0, l - n["end"] - x.steps)
            if last is not None and last is not x and not last.done:
                overlap = True
                ctx.state("switch", opname(lens[key(p, last.job)][1], last.steps - 1), opname(tr, x.steps - 1))
            for _ in range(n):
                if x.done:
                    break
                x.step()
                total += 1
            last = x
            if kill and not x.done and x.steps and not (x.job.get("out") and os.path.basename(x.job["out"]) in dup):
                x.killed = kill
                op = opname(tr, x.steps - 1)
                ctx.state("kill", kill, op)
                ctx.count("fault:%s before %s" % ({"k": "SIGKILL", "t": "SIGTERM", "i": "SIGINT"}[kill], op))
                x.step(kill.encode())
                ctx.log("killed", x.k, kill, x.steps, op)
        while any(not x.done for x in procs):
            for x in procs:
                if not x.done:
                    x.step()
                    total += 1
            if total > MAXSTEPS:
                raise core.Violation("endless", "phase %d: the runs do not end" % p)
    finally:
        for x in procs:
            x.kill()
    ctx.steps += total
    if overlap:
        ctx.count("phases with overlapping runs")
    for x in procs:
        ctx.count("runs")
        tr = [t for t in iosim.read_trace(x.trace) if t[0] is not None]
        ctx.log("run", p, x.k, x.killed, len(tr), ctx.dig([[t[1], t[2]] for t in tr]))
        if x.killed:
            history.append("run %d of phase %d was killed" % (x.k, p))
            continue
        want = alone[key(p, x.job)]
        got = x.outcome(ctx)
        ctx.log("outcome", p, x.k, got["ok"], got["res"] if not got["ok"] else "", ctx.dig(got["text"]))
        if overlap or history:
            ctx.nontrivial = True
        desc = "phase %d, run %d (%s), beside %d other runs, after %s" % (p, x.k, x.job.get("api") or "clang2py " + (
            "-o FILE " if x.job.get("out") else "") + ("-" if x.job.get("stdin") else "FILES"), len(procs) - 1, history or "nothing")
        if got["ok"] != want["ok"] or got["res"] != want["res"]:
            raise core.Violation("outcome", "%s: ended with %s, alone with %s" % (desc, core.clip(got["res"], 400), core.clip(want["res"], 400)))
        if got["ok"] and got["text"] != want["text"]:
            raise core.Violation("output", "%s: other output than alone: %s" % (desc, core.first_diff(want["text"] or "", got["text"] or "")))
        history.append("run %d of phase %d" % (x.k, p))


def size(w):
    return len(json.dumps(w))


def shrinks(w):
    ps = w["phases"]
    if len(ps) > 1:
        for i in range(len(ps)):
            yield dict(w, phases=ps[:i] + ps[i + 1:])
    for i, ph in enumerate(ps):
        def put(q):
            return dict(w, phases=ps[:i] + [q] + ps[i + 1:])
        if len(ph["jobs"]) > 1:
            for k in range(len(ph["jobs"])):
                yield put(dict(ph, jobs=ph["jobs"][:k] + ph["jobs"][k + 1:]))
        if ph.get("edit"):
            yield put({k: v for k, v in ph.items() if k != "edit"})
        s = ph["sched"]
        if s:
            yield put(dict(ph, sched=[]))
            if len(s) > 1:
                yield put(dict(ph, sched=s[:len(s) // 2]))
                yield put(dict(ph, sched=s[len(s) // 2:]))
            for k in range(min(len(s), 30)):
                yield put(dict(ph, sched=s[:k] + s[k + 1:]))
        for k, j in enumerate(ph["jobs"]):
            for c in sorted(j["cfg"]):
                cfg = dict(j["cfg"])
                del cfg[c]
                yield put(dict(ph, jobs=ph["jobs"][:k] + [dict(j, cfg=cfg)] + ph["jobs"][k + 1:]))
            if len(j["files"]) > 1:
                yield put(dict(ph, jobs=ph["jobs"][:k] + [dict(j, files=j["files"][:1])] + ph["jobs"][k + 1:]))
            for a, v in (("pid", 0), ("clock", 0), ("rand", 1)):
                if j[a] != v:
                    yield put(dict(ph, jobs=ph["jobs"][:k] + [dict(j, **{a: v})] + ph["jobs"][k + 1:]))
    nf = len(w["tree"]["files"])
    used = set(i for ph in ps for j in ph["jobs"] for i in j["files"]) | set(ph["edit"]["f"] for ph in ps if ph.get("edit"))
    if nf > 1 and nf - 1 not in used:
        yield dict(w, tree=dict(w["tree"], files=w["tree"]["files"][:-1]))
    for t in iosim.shrink_tree(w["tree"]):
        if len(t["files"]) == nf:
            yield dict(w, tree=t)
