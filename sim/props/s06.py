"""S06: every run cleans up after itself."""
import builtins
import codecs
import fcntl
import gc
import hashlib
import io
import locale
import logging
import os
import resource
import signal
import stat
import sys
import tempfile
import threading

from sim import core, csrc, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("histories of translations in one process with faults at seeded system calls and interrupts while parsing; "
             "snapshots of the process and of the file system compared around every operation")
NOTE = ("Sampled histories and fault placements (about 1500 runs quick, 25000 thorough). Interrupts are delivered while sources are "
        "being parsed, not between two bytecodes of the clean-up itself.")
RUNS = {"quick": 1500, "thorough": 25000}
RULE = ("a world is a history of 1-4 operations (API calls, clang2py.main() in process, real clang2py processes), each with an ending: "
        "success, rejected source or option, missing file, failing or killed symbol lister, I/O error at a chosen call of input, "
        "spool or output, SIGINT at a chosen read of libclang, KeyboardInterrupt at a chosen line of the parser. "
        "Non-trivial: at least one operation did not simply succeed.")
SIMTIME = "no clock in the code under test; the unit is the simulated system call (simulated_steps)"
STATES = "distinct (entry point, ending planned, call hit, outcome)"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "kernel file system, descriptors, processes", "nm or its stand-in"]
STUB = ["errors of system calls on the tree (LD_PRELOAD)", "faulty symbol listers (scripts)"]
ASSUMPTIONS = ["the process-wide effects of libclang itself (crash recovery handlers of its first use) are not ctypeslib's",
               "the command line may configure logging",
               "when the removal of a temporary file is what fails, it stays"]
TIMEOUT = 120.0

READERR = ["ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EINTR"]
WRITEERR = ["ENOSPC", "EIO", "EDQUOT", "EPIPE", "EACCES", "EROFS", "EMFILE"]
NM = {"fail": "#!/bin/sh\nexit 3\n", "kill": "#!/bin/sh\nkill -9 $$\n", "partial": "#!/bin/sh\necho '0000 T f0'\nexit 1\n",
      "garbage": "#!/bin/sh\nprintf '\\377\\376 T \\200\\n'\n", "notexec": "not a program",
      "long": "#!/bin/sh\ni=0; while [ $i -lt 3000 ]; do echo \"00000000 T some_long_symbol_name_$i\"; i=$((i+1)); done\nexit 2\n"}


def preload():
    iosim.preload()
    import warnings, decimal, random, socket, faulthandler  # noqa: F401,E401


def worker_env(shared):
    return iosim.worker_env(shared)


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)
    d = os.path.join(shared, "nm")
    os.makedirs(d, exist_ok=True)
    for k, v in NM.items():
        p = os.path.join(d, k)
        with open(p, "w") as f:
            f.write(v)
        os.chmod(p, 0o644 if k == "notexec" else 0o755)


# ---------------------------------------------------------------- snapshots

def tree(path):
    """What is below path: names, kinds, modes, contents, modification times."""
    out = {}
    for d, ds, fs in os.walk(path):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            h = ""
            if stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    h = hashlib.sha256(f.read()).hexdigest()[:12]
            elif stat.S_ISLNK(s.st_mode):
                h = os.readlink(p)
            out[os.path.relpath(p, path)] = [oct(s.st_mode), s.st_size if not stat.S_ISDIR(s.st_mode) else 0, s.st_mtime_ns, h,
                                             s.st_nlink if not stat.S_ISDIR(s.st_mode) else 0]
        s = os.stat(d)
        out[os.path.relpath(d, path) + "/"] = [oct(s.st_mode), s.st_mtime_ns if d != path else 0]
    return out


def c_environ():
    import ctypes
    env = ctypes.POINTER(ctypes.c_char_p).in_dll(ctypes.CDLL(None), "environ")
    out = []
    i = 0
    while env[i] is not None:
        out.append(env[i].decode("utf-8", "replace"))
        i += 1
    return sorted(out)


def snapshot(with_logging):
    import ctypes
    import decimal
    import faulthandler
    import random
    import socket
    import warnings
    out = {}
    fds = {}
    d = os.open("/proc/self/fd", os.O_RDONLY | os.O_DIRECTORY)
    for n in os.listdir(d):
        if int(n) != d:
            try:
                fds[n] = os.readlink("/proc/self/fd/" + n)
            except OSError:
                pass
    os.close(d)
    # the descriptor listdir itself used
    out["file descriptors"] = {k: v for k, v in fds.items() if not v.startswith("/proc/%d/fd" % os.getpid())}
    out["threads"] = [len(os.listdir("/proc/self/task")), sorted(t.name for t in threading.enumerate())]
    kids = []
    for t in os.listdir("/proc/self/task"):
        try:
            kids += open("/proc/self/task/%s/children" % t).read().split()
        except OSError:
            pass
    out["child processes"] = kids
    out["working directory"] = os.getcwd()
    out["environment"] = dict(os.environ)
    out["C environment"] = c_environ()
    um = os.umask(0)
    os.umask(um)
    out["umask"] = um
    out["signal handlers"] = {str(s): str(signal.getsignal(s)) for s in sorted(signal.valid_signals())}
    st = open("/proc/self/status").read()
    out["signal dispositions"] = [x for x in st.splitlines() if x[:6] in ("SigBlk", "SigIgn", "SigCgt")]
    out["nice"] = os.nice(0)
    out["resource limits"] = {n: resource.getrlimit(getattr(resource, n)) for n in dir(resource) if n.startswith("RLIMIT_")}
    out["recursion limit"] = sys.getrecursionlimit()
    out["locale"] = locale.setlocale(locale.LC_ALL, None)
    out["standard streams"] = [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__)]
    out["stream settings"] = [[getattr(s, "encoding", None), getattr(s, "errors", None), getattr(s, "closed", None)]
                              for s in (sys.stdin, sys.stdout, sys.stderr)]
    out["hooks"] = [str(sys.excepthook), str(sys.displayhook), str(sys.unraisablehook), str(threading.excepthook),
                    str(sys.gettrace()), str(sys.getprofile())]
    out["module search"] = [list(sys.path), [str(x) for x in sys.meta_path], [str(x) for x in sys.path_hooks]]
    out["arguments"] = list(sys.argv)
    out["warning filters"] = [str(f) for f in warnings.filters] + [str(warnings.showwarning)]
    out["garbage collector"] = [gc.isenabled(), gc.get_threshold(), gc.get_debug()]
    out["switch interval"] = sys.getswitchinterval()
    out["stack size"] = threading.stack_size()
    threading.stack_size(out["stack size"])
    out["random state"] = core.digest(repr(random.getstate()))
    out["socket timeout"] = socket.getdefaulttimeout()
    out["faulthandler"] = faulthandler.is_enabled()
    out["integer digits"] = sys.get_int_max_str_digits()
    out["bytecode"] = sys.dont_write_bytecode
    out["alarms"] = [[x > 0 for x in signal.getitimer(t)] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]
    out["stream flags"] = [fcntl.fcntl(n, fcntl.F_GETFL) if str(n) in out["file descriptors"] else None for n in (0, 1, 2)]
    out["builtins"] = [sorted(vars(builtins)), str(builtins.open), str(builtins.print), str(builtins.__import__)]
    out["decimal"] = str(decimal.getcontext())
    out["temporary directory"] = tempfile.tempdir
    out["codec errors"] = [str(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "backslashreplace", "surrogateescape")]
    with open("/proc/self/maps") as f:
        out["mapped sources"] = sorted(set(x.split(None, 5)[5].strip() for x in f if x.rstrip().endswith((".h", ".c", ".cpp", ".hpp"))))
    out["synthetic modules"] = sorted(n for n, m in list(sys.modules.items()) if getattr(m, "__spec__", None) is None)
    out["logging"] = [logging.root.manager.disable, logging.raiseExceptions]
    if with_logging:
        out["logging"] += [logging.root.level, [str(h) for h in logging.root.handlers], logging.getLogger("ctypeslib").level,
                           [len(logging.getLogger(n).handlers) for n in sorted(logging.root.manager.loggerDict)
                            if n.startswith("ctypeslib")]]
    return out


def compare(a, b, what):
    out = []
    for k in a:
        if a[k] == b[k]:
            continue
        x, y = a[k], b[k]
        if isinstance(x, dict):
            d = ["%s: %s -> %s" % (n, x.get(n, "absent"), y.get(n, "absent")) for n in sorted(set(x) | set(y)) if x.get(n) != y.get(n)]
            out.append("%s: %s" % (k, "; ".join(d[:4])))
        elif isinstance(x, list) and k == "C environment":
            out.append("%s: %s" % (k, sorted(set(x) ^ set(y))[:4]))
        else:
            out.append("%s: %s -> %s" % (k, core.clip(str(x), 200), core.clip(str(y), 200)))
    return ["%s: %s" % (what, o) if what else o for o in out]


# ---------------------------------------------------------------- generation

def gen(r, index, tier):
    lang = "c++" if r.random() < 0.1 else "c"
    feats = {"comments": r.random() < 0.3}
    t = iosim.gen_tree(r, lang, feats=feats, big=0.15)
    names = sorted(set(d["n"].split()[-1] for s in t["files"] + t["hdrs"] for d in s["d"]))[:20]
    nops = r.choice([1, 1, 2, 3, 4])
    todo = []
    for _ in range(nops):
        cfg = ops.gen_cfg(r, 3, names, lang, target_p=0.2)
        x = r.random()
        o = {"cfg": cfg, "files": sorted(set(r.randrange(len(t["files"])) for _ in range(r.choice([1, 1, 2])))), "plan": None}
        if x < 0.4:
            o["via"] = "api"
            o["api"] = r.choice(["files", "files", "file", "string", "load_files", "load_string"])
        else:
            o["via"] = "main" if x < 0.93 else "exec"
            o["mode"] = r.choice(["module", "script"])
            o["out"] = r.choice(["-", "o", "o", "old"])
            o["stdin"] = r.random() < 0.45
        if r.random() < 0.2:
            o["nm"] = r.choice(sorted(NM) + ["nosuchprogram", "nm", "nm"])
            o["cfg"] = dict(cfg, dlls=cfg.get("dlls") or [r.randrange(3)])
        x = r.random()
        if x < 0.15:
            o["plan"] = None
        elif x < 0.25:
            o["plan"] = {"k": "syntax"}
        elif x < 0.30:
            o["plan"] = {"k": "option", "opt": r.choice([["-target", "nosuchcpu-unknown"], ["-include", "nosuch.h"], ["-nosuchoption"]])}
        elif x < 0.34:
            o["plan"] = {"k": "missing"}
        elif x < 0.37:
            o["plan"] = {"k": "refused"}
        elif x < 0.40:
            o["plan"] = {"k": "usage", "arg": r.choice([["-k", "z"], ["--nosuch"], ["-r", "("], ["-m", "nosuchmodule"], ["-l", "nosuchlib.so"],
                                                      ["-p", "nosuchlib.so"], ["-m", "sys", "-m", "nosuchmodule2"]])}
        elif x < 0.62:
            o["plan"] = {"k": "err", "errno": r.choice(READERR), "on": "in", "frac": r.random(), "n": r.choice([1, 1, 3]),
                         "sticky": r.random() < 0.3}
        elif x < 0.74:
            o["plan"] = {"k": "err", "errno": r.choice(WRITEERR), "on": "out", "frac": r.random(), "n": 1, "sticky": r.random() < 0.5}
        elif x < 0.87:
            o["plan"] = {"k": "sig", "frac": r.random()}
        else:
            o["plan"] = {"k": "line", "frac": r.random(), "exc": r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}
        todo.append(o)
    return {"tree": t, "ops": todo, "mod": r.random() < 0.2, "ambient": gen_ambient(r) if r.random() < 0.7 else {}}


def gen_ambient(r):
    """Settings a caller's process can have: none of them is the default."""
    a = {"umask": r.choice([0o077, 0o027, 0o002, 0o037]), "gc": r.choice(["off", "off", [123, 7, 5]]), "recursion": r.choice([2500, 4000]),
         "switch": r.choice([0.01, 0.001]), "warnings": r.choice(["always", "once"]), "signals": r.choice([["SIGTERM"], ["SIGINT", "SIGHUP"], ["SIGUSR1", "SIGPIPE"]]),
         "random": r.randrange(1000), "excepthook": True, "digits": 5000, "nofile": 200, "timeout": 12.5, "argv": ["caller", "-o", "x"],
         "environ": r.choice(["LC_ALL", "PYTHONPATH", "LANG", "COLUMNS"]), "nosite": True, "stack": 1 << 20, "alarm": 3000.0, "blocked": "SIGUSR2"}
    return {k: v for k, v in a.items() if r.random() < 0.4}


def ambient_handler(sig, frame):
    raise KeyboardInterrupt


def ambient_hook(*a):
    sys.__excepthook__(*a)


def ambient(a):
    import random
    import socket
    import warnings
    if "umask" in a:
        os.umask(a["umask"])
    if a.get("gc") == "off":
        gc.disable()
    elif "gc" in a:
        gc.set_threshold(*a["gc"])
    if "recursion" in a:
        sys.setrecursionlimit(a["recursion"])
    if "switch" in a:
        sys.setswitchinterval(a["switch"])
    if "warnings" in a:
        warnings.resetwarnings()
        warnings.simplefilter(a["warnings"])
    for n in a.get("signals", ()):
        signal.signal(getattr(signal, n), ambient_handler)
    if "random" in a:
        random.seed(a["random"])
    if "excepthook" in a:
        sys.excepthook = ambient_hook
    if "digits" in a:
        sys.set_int_max_str_digits(a["digits"])
    if "nofile" in a:
        resource.setrlimit(resource.RLIMIT_NOFILE, (a["nofile"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    if "timeout" in a:
        socket.setdefaulttimeout(a["timeout"])
    if "argv" in a:
        sys.argv = list(a["argv"])
    if "environ" in a:
        os.environ[a["environ"]] = {"COLUMNS": "90", "PYTHONPATH": "/nonexistent"}.get(a["environ"], "C.UTF-8")
    if "nosite" in a:
        sys.path.insert(0, "/nonexistent")
    if "stack" in a:
        threading.stack_size(a["stack"])
    if "alarm" in a:
        signal.setitimer(signal.ITIMER_VIRTUAL, a["alarm"])
    if "blocked" in a:
        signal.pthread_sigmask(signal.SIG_BLOCK, [getattr(signal, a["blocked"])])


# ---------------------------------------------------------------- running

class ParseTracer(ops.Tracer):
    """Lines of the parser only: interrupted while parsing."""
    FILES = ("clangparser.py", "cursorhandler.py", "typehandler.py", "handler.py")

    def _interesting(self, code):
        f = code.co_filename
        return f.startswith(ops.CTYPESLIB) and os.path.basename(f) in self.FILES


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def prepare(o, world, ctx, dry):
    """Arguments of one operation; a dry run has none of the planned fault."""
    fp = [ctx.path("src", world["tree"]["files"][i]["name"]) for i in o["files"] if i < len(world["tree"]["files"])]
    fp = fp or [ctx.path("src", world["tree"]["files"][0]["name"])]
    plan = None if dry else o["plan"]
    cfg = dict(o["cfg"])
    k = plan["k"] if plan else None
    if k == "syntax":
        fp = fp + [ctx.path("src", "broken.h")]
    elif k == "refused":
        # read, parsed, and refused when the code is generated
        fp = fp + [ctx.path("src", "refused.h")]
    elif k == "missing":
        fp = fp + [ctx.path("src", "nosuch.h")]
    elif k == "option":
        cfg["clang"] = list(cfg.get("clang", ())) + plan["opt"]
    return fp, cfg, plan


def history(world, ctx, traces, out):
    """In a forked child: all operations, one after the other.  traces: None
    for the dry run."""
    dry = traces is None
    tmp, cwd = ctx.mkdir("tmp"), ctx.mkdir("cwd")
    ctx.mkdir("out")
    os.chdir(cwd)
    os.environ["TMPDIR"] = tmp
    home = ctx.mkdir("home")
    for k, d in (("HOME", ""), ("XDG_CACHE_HOME", ".cache"), ("XDG_CONFIG_HOME", ".config"), ("XDG_RUNTIME_DIR", ".run")):
        os.environ[k] = os.path.join(home, d).rstrip("/")
    tempfile.tempdir = None
    tempfile.gettempdir()
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for fd, name, flags in ((0, os.devnull, os.O_RDONLY), (1, ctx.path("out", "stdout"), os.O_WRONLY | os.O_CREAT),
                            (2, ctx.path("stderr"), os.O_WRONLY | os.O_CREAT)):
        f = os.open(name, flags, 0o644)
        os.dup2(f, fd)
        os.close(f)
    sys.stdin = sys.__stdin__ = iosim._wrap(0, "r", "utf-8", "strict")
    sys.stdout = sys.__stdout__ = iosim._wrap(1, "w", "utf-8", "strict")
    sys.stderr = sys.__stderr__ = iosim._wrap(2, "w", "utf-8", "strict")
    sys.argv = ["prog", "x"]
    # libclang's own first use
    from clang.cindex import Index
    idx = Index.create()
    idx.parse("warm.c", unsaved_files=[("warm.c", "int a;")])
    del idx
    gc.collect()
    libpaths = libs.pool_paths(ctx.shared)
    ambient(world.get("ambient", {}))
    result = []
    for i, o in enumerate(world["ops"]):
        fp, cfg, plan = prepare(o, world, ctx, dry)
        faults, at = [], None
        hit = None
        if not dry:
            faults, at, hit = place(plan, traces[i], o, ctx)
        c = iosim.conf(ctx.path("trace"), [ctx.path("src"), ctx.path("out"), tmp], (), faults)
        tracer = None
        if o["via"] != "exec" and o["plan"] and o["plan"]["k"] == "line":
            tracer = ParseTracer(at=at if not dry else None, exc=EXC[o["plan"]["exc"]])
        src0 = tree(ctx.path("src"))
        tmp0, cwd0, home0 = tree(tmp), tree(cwd), tree(home)
        lib0 = tree(os.path.join(ctx.shared, "libs"))
        p0 = snapshot(o["via"] == "api")
        if o["via"] == "api":
            res = api(o, fp, cfg, libpaths, c, tracer, plan)
        elif o["via"] == "main":
            res = main(o, fp, cfg, libpaths, c, tracer, plan, ctx)
        else:
            res = process(o, fp, cfg, libpaths, c, plan, ctx)
        gc.collect()
        p1 = snapshot(o["via"] == "api")
        diffs = compare(p0, p1, "")
        if str(res[-1]).startswith("standard input was"):
            diffs.append(res[-1])
        for what, before, path in (("source files", src0, ctx.path("src")), ("temporary directory", tmp0, tmp),
                                   ("working directory content", cwd0, cwd), ("home directory", home0, home), ("libraries", lib0, os.path.join(ctx.shared, "libs"))):
            diffs += compare({what: before}, {what: tree(path)}, "")
        tr = iosim.read_trace(ctx.path("trace"))
        allowed = (ctx.path("out"), tmp, "/dev/null", "/dev/tty", "/dev/pt", "/dev/fd/", "/dev/std", "/proc/")
        for t in tr:
            if t[0] is None and t[1] == "opened-for-writing" and not t[2].startswith(allowed) and os.path.exists(t[2]):
                diffs.append("a file was opened for writing: %s" % t[2])
            if t[0] is None and t[1] == "changed" and not t[2].startswith(allowed) and os.path.exists(t[2]):
                diffs.append("%s was called for %s" % (t[3], t[2]))
        extra = sorted(set(os.listdir(ctx.path("out"))) - {"stdout", "o%d.py" % i})
        if extra:
            diffs.append("the output's directory has %s too" % extra)
        wrote_dest = o["via"] != "api" and o["out"] != "-"
        if os.path.exists(ctx.path("out", "o%d.py" % i)):
            if not wrote_dest:
                diffs.append("an output was written that was not requested")
            os.unlink(ctx.path("out", "o%d.py" % i))
        result.append({"res": res, "diffs": diffs, "trace": [t for t in tr if t[0] is not None], "hit": hit,
                       "fired": [[t[1], t[2], t[4], t[5]] for t in tr if t[4]] + ([["line", tracer.fired[0], tracer.fired[1], 0]]
                                                                               if tracer and tracer.fired else []),
                       "lines": tracer.n if tracer else 0})
    return result


def place(plan, dryop, o, ctx):
    """(shim faults, line number, description) for the planned ending."""
    if not plan:
        return [], None, None
    trace = dryop["trace"]
    tmp, out = ctx.path("tmp"), ctx.path("out")
    spool = [t for t in trace if t[2].startswith(tmp)]
    # the clean-up of the copy of stdin begins after the last read
    last = max([t[0] for t in trace if t[1] in ("read", "mmap")] or [-1])
    if plan["k"] == "err":
        if plan["on"] == "in":
            cand = [t for t in trace if not t[2].startswith(out) and t[0] <= last and t[1] in ("open", "read", "mmap", "fstat", "stat", "write", "mkdir", "close")]
            if o["via"] == "exec":
                first = min([t[0] for t in cand if t[2].startswith(ctx.path("src"))] or [0])
                cand = [t for t in cand if t[0] >= first]
        else:
            cand = [t for t in trace if (t[2].startswith(out) or t[2].startswith(tmp) and t[0] <= last) and t[1] in ("open", "write", "close")]
        t = pick(plan["frac"], cand)
        if t is None:
            return [], None, None
        sticky = int(plan["sticky"] and plan["errno"] != "EINTR" and not t[2].startswith(tmp))
        n = 1 if spool else plan["n"]
        return [("err", t[0], iosim.ERR[plan["errno"]], n, sticky)], None, [t[1], plan["errno"], t[2]]
    if plan["k"] == "sig":
        reads = [t for t in trace if t[1] in ("read", "mmap") and not t[2].startswith("fd:") and not t[2].startswith(out)]
        # only what libclang reads: after the files were copied
        wr = max([t[0] for t in spool if t[1] == "write"] or [-1])
        cand = [t for t in reads if t[0] > wr]
        t = pick(plan["frac"], cand)
        if t is None:
            return [], None, None
        return [("sig", t[0], int(signal.SIGINT))], None, [t[1], "SIGINT", t[2]]
    if plan["k"] == "line":
        return [], 1 + int(plan["frac"] * dryop["lines"]) if dryop["lines"] else None, None
    return [], None, None


def pick(frac, seq):
    return seq[min(len(seq) - 1, int(frac * len(seq)))] if seq else None


def guarded(c, tracer, fn):
    """Runs fn under the shim; returns a canonical ending."""
    iosim.start(c)
    try:
        try:
            if tracer:
                with tracer:
                    fn()
            else:
                fn()
            return ["ok"]
        except SystemExit as e:
            return ["exit", e.code if isinstance(e.code, int) else str(e.code)]
        except KeyboardInterrupt:
            return ["interrupted"]
        except BaseException as e:  # pylint: disable=broad-except
            return ["raised", type(e).__name__]
    finally:
        if tracer:
            sys.settrace(None)
        iosim.stop()


def api(o, fp, cfg, libpaths, c, tracer, plan):
    import ctypeslib
    from ctypeslib.library import Library
    if plan and plan["k"] == "usage":
        cfg = dict(cfg, clang=list(cfg.get("clang", ())) + ["-include", "nosuch.h"])
    stream = io.StringIO()
    if plan and plan.get("on") == "out":
        stream = ops.FaultyOut(int(plan["frac"] * 12))
    texts = []
    for p in fp:
        try:
            with open(p, encoding="utf-8") as f:
                texts.append(f.read())
        except OSError:
            texts.append("#include \"nosuch.h\"\n")

    def go():
        k = ops.make_cfg(dict(cfg, dlls=()), libpaths)
        if o.get("nm"):
            k.searched_dlls = [Library(libpaths[j], nm=nm_of(o, libpaths)) for j in cfg.get("dlls", ())]
        elif cfg.get("dlls"):
            k.searched_dlls = [Library(libpaths[j], nm="nm") for j in cfg["dlls"]]
        a = o["api"]
        if a in ("string", "load_string"):
            k.clang_opts = list(k.clang_opts) + ["-I" + os.path.dirname(fp[0])]
            if a == "string":
                ctypeslib.translate(texts[-1], stream, k)
            else:
                ctypeslib.translate(texts[-1], cfg=k)
        elif a == "file":
            ctypeslib.translate_files(fp[-1], stream, k)
        elif a == "files":
            ctypeslib.translate_files(list(fp), stream, k)
        else:
            ctypeslib.translate_files(list(fp), cfg=k)
    return guarded(c, tracer, go)


def nm_of(o, libpaths):
    if o["nm"] in ("nm", "nosuchprogram"):
        return o["nm"]
    return os.path.join(os.path.dirname(os.path.dirname(libpaths[0])), "nm", o["nm"])


def argv_of(o, fp, cfg, libpaths, plan, ctx):
    a = ops.cli_args(cfg, libpaths)
    if o.get("nm"):
        a += ["--nm", nm_of(o, libpaths)]
    if plan and plan["k"] == "usage":
        a += plan["arg"]
    fp = list(fp)
    stdin = os.devnull
    if o["stdin"]:
        stdin = fp[0]
        fp[0] = "-"
        if not any(x.startswith("--clang-args=") for x in a):
            a.append("--clang-args=-I" + os.path.dirname(stdin).replace(" ", "\\ "))
        else:
            a = [x + " -I" + os.path.dirname(stdin).replace(" ", "\\ ") if x.startswith("--clang-args=") else x for x in a]
    i = next(k for k, x in enumerate(ctx.world_ops) if x is o)
    if o["out"] != "-":
        dest = ctx.path("out", "o%d.py" % i)
        a += ["-o", dest]
        if o["out"] == "old":
            with open(dest, "w") as f:
                f.write("OLD = 1\n")
    return a + fp, stdin


def main(o, fp, cfg, libpaths, c, tracer, plan, ctx):
    """clang2py.main() called by a program."""
    from ctypeslib import clang2py
    argv, stdin = argv_of(o, fp, cfg, libpaths, plan, ctx)
    f = os.open(stdin, os.O_RDONLY)
    os.dup2(f, 0)
    os.close(f)
    old = sys.stdin
    sys.stdin = iosim._wrap(0, "r", "utf-8", "strict")
    given = sys.stdin
    res = guarded(c, tracer, lambda: clang2py.main(argv))
    sys.stdout.flush()
    if sys.stdin is not given or given.closed:
        res = res + ["standard input was %s" % ("replaced" if sys.stdin is not given else "closed")]
    sys.stdin = old
    f = os.open(os.devnull, os.O_RDONLY)
    os.dup2(f, 0)
    os.close(f)
    return res


def process(o, fp, cfg, libpaths, c, plan, ctx):
    argv, stdin = argv_of(o, fp, cfg, libpaths, plan, ctx)
    r = iosim.cli_exec(argv, o["mode"], ctx.path("cwd"), ctx.path("tmp"), stdin, ctx.path("out", "stdout"), c, ctx.shared)
    return ["process", r["rc"]]


def run(world, ctx):
    if not world["ops"]:
        raise core.Skip("nothing left")
    tr = world["tree"]
    # the copy of stdin includes the headers by their place relative to the sources
    tr = dict(tr, files=[dict(f, name="p%d.h" % i) for i, f in enumerate(tr["files"])])
    world = dict(world, tree=tr)
    iosim.write_tree(ctx, tr)
    ctx.write("src/broken.h", "struct broken { int\n")
    ctx.write("src/refused.h", "struct refused { int a; };\nint *refused_pointer;\n")
    ctx.world_ops = world["ops"]
    dry = ctx.fresh(history, world, ctx, None, None, timeout=80)
    iosim.clean(ctx, "tmp", "out", "cwd")
    wet = ctx.fresh(history, world, ctx, dry, None, timeout=80)
    for kind, res in (("undisturbed", dry), ("disturbed", wet)):
        for i, (o, x) in enumerate(zip(world["ops"], res)):
            k = o["plan"]["k"] if o["plan"] else "none"
            ctx.steps += len(x["trace"])
            ctx.log(kind, i, x["res"], x["fired"][:6], x["diffs"][:3])
            if kind == "disturbed":
                ctx.count("via %s" % (o.get("api") or o["via"]))
                ctx.count("fault:" + (k if k != "err" else "err on " + o["plan"]["on"]))
                ctx.count("ended: %s" % x["res"][0])
                if o.get("nm") and o["nm"] != "nm":
                    ctx.count("fault:symbol lister " + o["nm"])
                ctx.state(o.get("api") or o["via"], o.get("stdin"), k, x["fired"][:1] and x["fired"][0][0], (x["hit"] or [])[:2], x["res"])
                if x["hit"] and x["fired"] and [x["fired"][0][0], ctx.norm(x["fired"][0][1])] != [x["hit"][0], ctx.norm(x["hit"][2])] \
                        and not x["hit"][2].startswith(ctx.path("tmp")):
                    ctx.count("faults that hit another call than planned")
                    return
                if x["res"][0] != "ok" or x["fired"]:
                    ctx.nontrivial = True
            if x["diffs"]:
                raise core.Violation("leftover: " + x["diffs"][0].split(":")[0], "operation %d of %d (%s, ending %s, %s) left: %s; calls hit %s" % (
                    i, len(world["ops"]), o.get("api") or o["via"], k if kind == "disturbed" else "success", x["res"], x["diffs"][:3], x["fired"][:4]))


def size(w):
    import json
    return len(json.dumps(w))


def shrinks(w):
    for i, o in enumerate(w["ops"]):
        def put(x):
            return dict(w, ops=w["ops"][:i] + [x] + w["ops"][i + 1:])
        if len(w["ops"]) > 1:
            yield dict(w, ops=w["ops"][:i] + w["ops"][i + 1:])
        if o["plan"]:
            yield put(dict(o, plan=None))
            if o["plan"].get("sticky"):
                yield put(dict(o, plan=dict(o["plan"], sticky=False)))
        if "nm" in o:
            yield put({k: v for k, v in o.items() if k != "nm"})
        if o.get("stdin"):
            yield put(dict(o, stdin=False))
        if len(o["files"]) > 1:
            yield put(dict(o, files=o["files"][:1]))
        for k in sorted(o["cfg"]):
            c = dict(o["cfg"])
            del c[k]
            yield put(dict(o, cfg=c))
    for k in sorted(w.get("ambient", ())):
        yield dict(w, ambient={n: v for n, v in w["ambient"].items() if n != k})
    for t in iosim.shrink_tree(w["tree"]):
        yield dict(w, tree=t)
