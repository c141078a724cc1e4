"""S02: concurrent translations in one process do not affect each other."""
import io
import os
import sys
import warnings

from sim import core, csrc, libs, ops, sched
from sim.props import s06

LEVEL = "exploration"
TECHNIQUE = ("seeded preemptive scheduling of 2-4 real threads at line, call and return granularity, each thread refined against the "
             "same translations made alone in a fresh process")
NOTE = ("Sampled schedules (about 1200 quick, 20000 thorough). A libclang call is one step: races inside libclang are not explored. "
        "Trusts that a forked, never-used process is fresh.")
RUNS = {"quick": 1200, "thorough": 20000}
RULE = ("a world is 2-4 threads of 1-3 operations (translations through every entry point with their own sources, options and "
        "targets, loading the result, building further pointer types in it, symbol listing; some of them rejected) and a schedule: "
        "gaps between preemptions at several scales, and preemption at chosen source places. Non-trivial: at least two "
        "preemptions inside the code under test.")
SIMTIME = "no clock in the code under test; the unit is the executed line, call or return (simulated_steps)"
STATES = "distinct (function preempted, function resumed) pairs"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "generated modules", "nm", "threads"]
STUB = ["choice of the running thread", "locks created by the code under test (cooperative)"]
ASSUMPTIONS = ["threads switch at lines, calls and returns of ctypeslib and generated code, not inside libclang, clang.cindex or the standard library",
               "no preemption while a module is being imported"]
TIMEOUT = 120.0


def preload():
    sched.patch()
    ops.load_ctypeslib()


def setup(shared, tier):
    libs.pool(shared)


def gen(r, index, tier):
    nt = r.choice([2, 2, 2, 3, 3, 4])
    nfiles = r.randint(1, 3)
    lang = "c++" if r.random() < 0.12 else "c"
    feats = {"comments": r.random() < 0.3}
    srcs = [csrc.gen_source(r, r.randint(1, 5), safe=r.random() < 0.6, lang=lang, features=feats) for _ in range(r.randint(1, 4))]
    names = sorted(set(d["n"].split()[-1] for s in srcs for d in s["decls"]))[:20]
    cfgs = [ops.gen_cfg(r, 3, names, lang, target_p=0.6) for _ in range(r.randint(2, 4))]
    if r.random() < 0.5:
        cfgs[0] = {"clang": ["-x", "c++"]} if lang == "c++" else {}
    if r.random() < 0.15:
        # reports counts on the standard error stream, and nothing else changes
        cfgs[-1] = dict(cfgs[-1], verbose=True)
    if r.random() < 0.4:
        # settings that differ in one point: what is kept for one is wrong for the other
        cfgs.append(ops.vary_cfg(r, r.choice(cfgs)))
    threads = []
    for t in range(nt):
        th = []
        for _ in range(r.choice([1, 1, 2, 3])):
            o = {"api": r.choice(["string", "string", "files", "file", "load_string", "load_string", "load_files", "cli", "use", "cfg"]),
                 "src": r.randrange(len(srcs)), "cfg": r.randrange(len(cfgs)),
                 "files": [r.randrange(nfiles) for _ in range(r.choice([1, 1, 2]))], "bad": None}
            if r.random() < 0.12:
                o["bad"] = r.choice(["syntax", "option", "missing", "out"])
            th.append(o)
        threads.append(th)
    # the same work in every thread, often
    x = r.random()
    if x < 0.25:
        threads = [threads[0] for _ in threads]
    elif x < 0.6:
        # the same calls, so that they meet in the same code, but not with the same settings
        threads = [[dict(o, cfg=(o["cfg"] + k) % len(cfgs), src=(o["src"] + k * (x < 0.45)) % len(srcs)) for o in threads[0]]
                   for k in range(nt)]
    # one thread may own the process's standard output
    if r.random() < 0.3:
        k = r.randrange(nt)
        threads[k] = [dict(o, api="stdout") if r.random() < 0.7 else o for o in threads[k]]
    scale = r.choice([1, 3, 10, 40, 200, 1000, 4000])
    n = r.choice([3, 10, 40, 150, 400])
    lst = []
    for _ in range(n):
        s = r.choice([scale, scale, scale, 2, 300, 3000])
        lst.append([1 + int(r.expovariate(1.0 / s)), r.randrange(12)])
    if r.random() < 0.5:
        lst.insert(0, [r.randint(1, 8000), r.randrange(12)])
    schedule = {"list": lst}
    if r.random() < 0.5:
        schedule["sites"] = [r.randrange(1 << 30), r.choice([5, 20, 100, 300]), r.choice([5, 50, 400]), 1 << 30, False]
        x = r.random()
        if x < 0.5:
            # a few functions, each line of them often enough to take turns there
            schedule["sites"][1:] = [r.choice([4, 8, 25, 60]), r.choice([400, 1500]), r.choice([2, 10, 40]), True]
        elif x < 0.75:
            # many places, none of them for long
            schedule["sites"][1:] = [r.choice([5, 20, 50]), 400, r.choice([1, 2, 5]), False]
        if r.random() < 0.5:
            schedule["list"] = []
    return {"srcs": srcs, "cfgs": cfgs, "nfiles": nfiles, "threads": threads, "schedule": schedule, "rel": r.random() < 0.4}


def one(o, world, files, libpaths, outpath):
    spec = dict(world["cfgs"][o["cfg"] % len(world["cfgs"])])
    text = csrc.text(world["srcs"][o["src"] % len(world["srcs"])])
    op = {"api": o["api"], "text": text, "files": o["files"]}
    if o["bad"] == "syntax":
        op["text"] += "struct broken { int\n"
    if o["bad"] == "option":
        spec["clang"] = list(spec.get("clang", ())) + ["-target", "nosuchcpu-unknown"]
    if o["bad"] == "missing":
        files = [f + ".gone" for f in files]
    if o["api"] in ("cli", "stdout"):
        # at most one thread of a world uses the standard output
        from ctypeslib import clang2py
        args = ops.cli_args(spec, libpaths)
        if o["api"] == "cli":
            args += ["-o", outpath]
        before = STDOUT.tell()
        try:
            rc = clang2py.main(args + [files[i] for i in o["files"]])
        except SystemExit as e:
            return ["exit", e.code]
        except Exception as e:
            return ops.err(e)
        if o["api"] == "stdout":
            return ["exit", rc, STDOUT.getvalue()[before:]]
        with open(outpath, encoding="utf-8") as f:
            return ["exit", rc, f.read()]
    try:
        cfg = ops.make_cfg(spec, libpaths)
    except Exception as e:
        return ops.err(e)
    if o["api"] == "cfg":
        # an API user inspecting and reusing one configuration
        a = ops.do_translate(dict(op, api="string"), files, cfg)
        b = ops.do_translate(dict(op, api="string"), files, cfg)
        return ["twice", a, b]
    if o["api"] == "use":
        return use(op, cfg)
    if o["bad"] == "out":
        return ops.do_translate(dict(op, api="string"), files, cfg, ops.FaultyOut(2))
    return ops.do_translate(op, files, cfg)


def use(op, cfg):
    """Loads the module and builds types and values with it."""
    import ctypes
    import ctypeslib
    try:
        ns = ctypeslib.translate(op["text"], cfg=cfg)
        out = [ops.module_summary(ns)]
        pt = ns.get("POINTER_T")
        for n in sorted(ns):
            v = ns[n]
            if isinstance(v, type) and issubclass(v, (ctypes.Structure, ctypes.Union)) and n in ns["__all__"]:
                if pt is not None:
                    p = pt(v)
                    out.append([n, ops.type_key(p), pt(v) is p, p._subtype_ is v if hasattr(p, "_subtype_") else p._type_ is v])
                x = v()
                if hasattr(v, "as_dict"):
                    out.append([n, core.norm(repr(sorted(x.as_dict())))])
        if "char_pointer_cast" in ns:
            out.append(ns["string_cast"](ns["char_pointer_cast"]("abc")))
        return ["ok", out]
    except Exception as e:
        return ops.err(e)


STDOUT = None


def thread_ops(th, world, files, libpaths, outdir, k):
    out = []
    for j, o in enumerate(th):
        out.append(one(o, world, files, libpaths, os.path.join(outdir, "o%d_%d.py" % (k, j))))
    return out


def run(world, ctx):
    if not world["srcs"] or not world["cfgs"] or len(world["threads"]) < 1:
        raise core.Skip("nothing left")
    files = []
    for i in range(world["nfiles"]):
        files.append(ctx.write("d%d/f%d.h" % (i % 3, i), csrc.text(world["srcs"][i % len(world["srcs"])])))
    libpaths = libs.pool_paths(ctx.shared)
    d1 = d2 = ctx.mkdir("out")
    if world.get("rel"):
        # as a user of a project directory writes them
        files = [os.path.relpath(f) for f in files]
        d1 = d2 = "out"
    global STDOUT
    STDOUT = sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    cache = {}
    want = []
    for k, th in enumerate(world["threads"]):
        key = core.digest([k, th])
        if key not in cache:
            cache[key] = ctx.fresh(thread_ops, th, world, files, libpaths, d1, k)
        want.append(cache[key])
    warnings.simplefilter("default")
    before = settings()
    s = sched.Scheduler(world["schedule"])
    got = s.run([lambda k=k, th=th: thread_ops(th, world, files, libpaths, d2, k) for k, th in enumerate(world["threads"])])
    ctx.steps += s.steps
    ctx.count("preemptions", len(s.switches))
    ctx.count("threads", len(world["threads"]))
    ctx.count("fault:rejected input in a thread", sum(1 for th in world["threads"] for o in th if o["bad"]))
    ctx.log("switches", s.switches[:400], len(s.switches), s.steps, s.abort)
    for a, b in zip(s.switches, s.switches[1:]):
        ctx.state(a[2:], b[2:])
    if len(s.switches) >= 2:
        ctx.nontrivial = True
    tail = "; last switches: %s" % ["%d->%d in %s:%s" % x for x in s.switches[-4:]]
    if s.abort:
        raise core.Violation("deadlock" if s.abort == "deadlock" else "no-progress", "%s%s" % (s.abort, tail))
    if s.errors:
        raise core.Violation("thread-died", "%s%s" % (core.clip(s.errors[0][2], 500), tail))
    for k, (w, g) in enumerate(zip(want, got)):
        ctx.log("thread", k, ctx.dig(g))
        for j, (a, b) in enumerate(zip(w, g)):
            if a != b:
                raise core.Violation("interference", "thread %d operation %d (%s) among %d threads: alone and together differ: %s%s" % (
                    k, j, world["threads"][k][j]["api"], len(want), core.first_diff("\n".join(map(str, a)), "\n".join(map(str, b))), tail))


    after = settings()
    if after != before:
        raise core.Violation("settings-left-behind", "after %d threads have ended: %s%s" % (
            len(want), "; ".join(s06.compare(before, after, "")), tail))


SETTINGS = ["working directory", "environment", "C environment", "umask", "signal handlers", "recursion limit", "locale",
            "standard streams", "stream settings", "hooks", "module search", "arguments", "warning filters", "garbage collector",
            "switch interval", "random state", "socket timeout", "integer digits", "builtins", "decimal", "temporary directory",
            "codec errors"]


def settings():
    """Of the process, which all threads share."""
    x = s06.snapshot(False)
    return {k: x[k] for k in SETTINGS}


def size(w):
    import json
    return len(json.dumps(w))


def shrinks(w):
    s = w["schedule"]
    n = len(s["list"])
    if s.get("sites"):
        yield dict(w, schedule={"list": s["list"]})
        if s["sites"][2] > 1:
            for b in (1, s["sites"][2] // 2, s["sites"][2] - 1):
                yield dict(w, schedule=dict(s, sites=s["sites"][:2] + [b] + s["sites"][3:]))
    step = max(1, n // 2)
    while n:
        for i in range(0, n, step):
            yield dict(w, schedule=dict(s, list=s["list"][:i] + s["list"][i + step:]))
        if step == 1 or n > 40 and step <= n // 16:
            break
        step = max(1, step // 2)
    for i, th in enumerate(w["threads"]):
        if len(w["threads"]) > 1:
            yield dict(w, threads=w["threads"][:i] + w["threads"][i + 1:])
        for j in range(len(th)):
            if len(th) > 1:
                yield dict(w, threads=w["threads"][:i] + [th[:j] + th[j + 1:]] + w["threads"][i + 1:])
    for i, c in enumerate(w["cfgs"]):
        for k in sorted(c):
            c2 = dict(c)
            del c2[k]
            yield dict(w, cfgs=w["cfgs"][:i] + [c2] + w["cfgs"][i + 1:])
    for i, src in enumerate(w["srcs"]):
        for s2 in csrc.shrink_source(src):
            yield dict(w, srcs=w["srcs"][:i] + [s2] + w["srcs"][i + 1:])
