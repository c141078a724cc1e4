"""S03: the output is reproducible across processes and environments."""
import ctypes
import ctypes.util
import json
import os
import subprocess

from sim import core, csrc, ctx as simctx, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded draws of the ambient nondeterminism (hash seed, object identity order, memory layout, pid, clock, random names, "
             "TMPDIR, working directory, locale, environment) for real processes; byte comparison of what they generate")
NOTE = ("Sampled environments (about 280 pairs of processes with 6-10 translations each quick, 8000 pairs thorough). Only one C library, "
        "one file system and the installed locales are drawn from.")
RUNS = {"quick": 280, "thorough": 8000}
RULE = ("a world is a batch of 4-10 translations (API and command line, files, text, standard input; seeded sources, options and "
        "libraries) and 2-3 environments; the batch is run by a new process in each. Non-trivial: at least one translation succeeded.")
SIMTIME = "clock offsets between -50 and +50 years are part of the environments; nothing waits"
STATES = "distinct (locale, hash seed class, working directory, clock class) combinations and source shapes"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "interpreter start, locale, encodings", "nm"]
STUB = ["clock, pid and getrandom (LD_PRELOAD)", "identity hashes of ctypeslib's objects", "find_library (remembers its answers)"]
ASSUMPTIONS = ["environment variables that name include directories or libclang are options, not ambience",
               "text piped through standard input is ASCII where the locale varies (decoding it is the caller's choice)"]
TIMEOUT = 120.0

_known = {}


def preload():
    real = ctypes.util.find_library

    def find(name):
        _known[name] = real(name)
        return _known[name]
    ctypes.util.find_library = find
    ops.load_ctypeslib()
    ctypes.util.find_library = real


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)


LOCALES = [{}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
           {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "C", "LC_CTYPE": "C.UTF-8"},
           {"PYTHONUTF8": "1", "LC_ALL": "C"}, {"LC_ALL": "nosuch_LOCALE", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}]
NOISE = {"COLUMNS": ["20", "200"], "LINES": ["5"], "TERM": ["dumb", "xterm"], "TZ": ["UTC", "Asia/Tokyo", "XYZ12"], "HOME": ["/", "/nonexistent"],
         "USER": ["nobody", "a b"], "FOO": ["bar", "x" * 5000], "NO_COLOR": ["1"], "PAGER": ["cat"], "LANGUAGE": ["de", "fr"],
         "SHELL": ["/bin/false"], "EDITOR": ["ed"], "CC": ["clang"], "CFLAGS": ["-DFOO=7 -m32"], "PYTHONTRACEMALLOC": ["1"],
         "PYTHONOPTIMIZE": ["1", "2"], "PYTHONDEVMODE": ["1"], "FORCE_COLOR": ["1"], "SOURCE_DATE_EPOCH": ["1", "1700000000"],
         "MALLOC_ARENA_MAX": ["1"], "HOSTNAME": ["h1", "h2"], "PWD": ["/nowhere"], "LOGNAME": ["me"], "DISPLAY": [":0"], "DEBUG": ["1"],
         "VERBOSE": ["1"], "TARGET": ["i386-linux-gnu"], "ARCH": ["arm"], "PYTHONMALLOC": ["malloc", "debug"]}


def environment(r):
    env = dict(r.choice(LOCALES))
    for k in sorted(NOISE):
        if r.random() < 0.25:
            env[k] = r.choice(NOISE[k])
    return {"env": env, "hashseed": r.choice([0, 1, 2, 3, r.randrange(4294967296), r.randrange(4294967296), r.randrange(4294967296)]),
            "identity": r.randrange(1 << 30), "layout": r.randrange(1 << 30), "rand": r.randrange(1 << 30),
            "clock": r.choice([0, r.randrange(-10 ** 9, 10 ** 9), 1577836800]), "pid": r.choice([0, 2, 4194303, r.randrange(3, 4000000)]),
            "tmp": r.choice(["tmp", "t", "tmp dir", "a/long/path/of/temporary/files/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]),
            "cwd": r.choice(["cwd", "src", "c w d", "cwd/deeper"]),
            "host": r.choice(["", "h", "build-7.example.org"]), "cpus": r.choice([0, 1, 2, 5, 64]), "tty": r.choice([0, 0, 30, 200]),
            "disk": r.randrange(1 << 30)}


def machine(env):
    """For the shim."""
    return "rand\t%d\nclock\t%d\npid\t%d\n" % (env["rand"], env["clock"], env["pid"]) + "".join(
        "%s\t%s\n" % (k, env[k]) for k in ("host", "cpus", "tty") if env.get(k))


def lay_out(env, sources):
    """The same files, made in another order and at other times."""
    import random
    r = random.Random("disk%d" % env.get("disk", 0))
    todo = sorted(sources)
    r.shuffle(todo)
    for p in todo:
        os.unlink(p)
    for p in todo:
        with open(p, "wb") as f:
            f.write(sources[p])
        t = r.choice([0, 1, 10 ** 9, r.randrange(4 * 10 ** 9)])
        os.utime(p, (r.randrange(4 * 10 ** 9), t))
        os.chmod(p, r.choice([0o644, 0o600, 0o444, 0o755]))


def gen(r, index, tier):
    jobs = []
    for i in range(r.randint(4, 10)):
        lang = "c++" if r.random() < 0.3 else "c"
        srcs = [csrc.gen_source(r, r.choice([3, 6, 10, 16, 25]), safe=r.random() < 0.5, lang=lang, prefix="" if k == 0 else "z%d_" % k,
                                features={"comments": r.random() < 0.4}) for k in range(r.choice([1, 1, 1, 2, 3]))]
        names = sorted(set(d["n"].split()[-1] for s in srcs for d in s["decls"]))[:20]
        cfg = ops.gen_cfg(r, 3, names, lang, target_p=0.25)
        x = r.random()
        job = {"srcs": srcs, "cfg": cfg, "utf8": r.random() < 0.2}
        if x < 0.45:
            job["api"] = r.choice(["string", "files", "files", "file"])
        else:
            job["api"] = "main"
            job["out"] = r.random() < 0.7
            job["stdin"] = r.random() < 0.3
        jobs.append(job)
    return {"jobs": jobs, "envs": [environment(r) for _ in range(r.choice([2, 2, 3]))]}


def process(world, env, jobs, ctx, k):
    """One process in its environment."""
    tmp, cwd = ctx.mkdir(env["tmp"]), ctx.mkdir(env["cwd"])
    batch = {"jobs": jobs, "tmp": tmp, "shim": os.path.join(ctx.shared, iosim.SHIM), "layout": env["layout"], "identity": env["identity"],
             "machine": machine(env), "libs": libs.pool_paths(ctx.shared),
             "stdout": ctx.path("stdout"), "find_library": _known}
    b = ctx.write("batch.json", json.dumps(batch))
    res = ctx.path("result.json")
    if os.path.exists(res):
        os.unlink(res)
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": core.VERIF, "PYTHONDONTWRITEBYTECODE": "1", "SIM_REPO": core.REPO,
         "PYTHONHASHSEED": str(env["hashseed"]), "TMPDIR": tmp, "LD_PRELOAD": os.path.join(ctx.shared, iosim.SHIM), "SIMIO_ONCE": "1",
         "SIMIO_CONF": machine(env)}
    e.update(env["env"])

    def quiet():
        # no address space randomisation: the layout is drawn from the seed
        ctypes.CDLL(None).personality(0x0040000)
    try:
        p = subprocess.run([core.PYTHON, "-m", "sim.envproc", b, res], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, preexec_fn=quiet, timeout=100)
    except subprocess.TimeoutExpired:
        raise simctx.ChildTimeout("no end of process %d" % k) from None
    if p.returncode != 0 or not os.path.exists(res):
        # compared like any other outcome; an error of the harness if all fail
        return {"out": [["failed", "process: %d" % p.returncode]] * len(jobs), "enc": None,
                "why": "process %d: %d %s" % (k, p.returncode, p.stderr.decode("utf-8", "replace")[-1500:])}
    with open(res, encoding="utf-8") as f:
        return json.load(f)


def run(world, ctx):
    if len(world["envs"]) < 2 or not world["jobs"]:
        raise core.Skip("nothing to compare")
    jobs = []
    for i, j in enumerate(world["jobs"]):
        paths = []
        ascii_only = j.get("stdin") or j["api"] == "main" and not j["out"]
        for k, s in enumerate(j["srcs"]):
            t = csrc.text(s)
            if j["utf8"] and k == 0 and not ascii_only:
                t += '#define utf8_text "caf\u00e9 \u20ac"\n'
            paths.append(ctx.write("src/j%d_%d.h" % (i, k), t if not ascii_only else t.encode("ascii", "replace")))
        cfg = dict(j["cfg"])
        if j.get("stdin"):
            # locations name the copy of the standard input
            cfg = {k: v for k, v in cfg.items() if k not in ("locs", "docs")}
        job = {"api": j["api"], "cfg": cfg, "files": paths, "stdin": bool(j.get("stdin")),
               "out": ctx.path("out%d.py" % i) if j.get("out") else None}
        if j["api"] == "string":
            job["text"] = csrc.text(j["srcs"][0])
        elif j["api"] == "file":
            job["files"] = paths[:1]
        jobs.append(job)
    sources = {p: open(p, "rb").read() for j in jobs for p in j["files"]}
    res, why = [], []
    for k, env in enumerate(world["envs"]):
        lay_out(env, sources)
        r = process(world, env, jobs, ctx, k)
        res.append(r["out"])
        ctx.steps += len(jobs)
        ctx.count("processes")
        ctx.count("locale " + ",".join("%s=%s" % x for x in sorted(env["env"].items()) if x[0] in ("LC_ALL", "LC_CTYPE", "LANG", "PYTHONUTF8")))
        ctx.count("fault:clock jump", int(bool(env["clock"])))
        ctx.state(sorted(x for x in env["env"].items() if x[0].startswith(("L", "PYTHON"))), env["hashseed"] < 4, env["cwd"],
                  env["clock"] > 0)
        if r.get("why"):
            why.append(r["why"])
        ctx.log("process", k, [ctx.dig(o) for o in r["out"]], r["enc"])
    if len(why) == len(res):
        raise RuntimeError(why[0])
    for i, j in enumerate(world["jobs"]):
        a = res[0][i]
        if a[0] == "ok":
            ctx.nontrivial = True
            ctx.count("translations compared")
        for k in range(1, len(res)):
            b = res[k][i]
            if a != b:
                e0, e1 = world["envs"][0], world["envs"][k]
                diff = {x: [e0[x], e1[x]] for x in e0 if e0[x] != e1[x]}
                raise core.Violation("not-reproducible", "translation %d (%s) differs between two processes: %s; the environments differ in %s%s" % (
                    i, "main -o" if j.get("out") else j["api"], core.first_diff(a[1], b[1]) if a[0] == b[0] else "%s / %s" % (
                        core.clip(a, 300), core.clip(b, 300)), core.clip(json.dumps(diff), 500), core.clip("; " + why[0], 700) if why else ""))


def size(w):
    return len(json.dumps(w))


def shrinks(w):
    js = w["jobs"]
    if len(js) > 1:
        for j in js:
            yield dict(w, jobs=[j])
        yield dict(w, jobs=js[:len(js) // 2])
        yield dict(w, jobs=js[len(js) // 2:])
        return
    if len(w["envs"]) > 2:
        for i in range(len(w["envs"])):
            yield dict(w, envs=w["envs"][:i] + w["envs"][i + 1:])
    a, b = w["envs"][:2]
    for k in sorted(a):
        if a[k] != b.get(k):
            yield dict(w, envs=[a, dict(b, **{k: a[k]})] + w["envs"][2:])
    for k in sorted(set(a["env"]) | set(b["env"])):
        if a["env"].get(k) != b["env"].get(k):
            e = dict(b["env"])
            e.pop(k, None)
            if k in a["env"]:
                e[k] = a["env"][k]
            yield dict(w, envs=[a, dict(b, env=e)] + w["envs"][2:])
    j = js[0]
    for k in sorted(j["cfg"]):
        c = dict(j["cfg"])
        del c[k]
        yield dict(w, jobs=[dict(j, cfg=c)])
    if len(j["srcs"]) > 1:
        yield dict(w, jobs=[dict(j, srcs=j["srcs"][:1])])
    for i, s in enumerate(j["srcs"]):
        for t in csrc.shrink_source(s):
            yield dict(w, jobs=[dict(j, srcs=j["srcs"][:i] + [t] + j["srcs"][i + 1:])])
