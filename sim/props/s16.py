"""S16: a translation that was cut short never passes for a complete one."""
import gc
import io
import json
import os
import signal
import sys

from sim import core, csrc, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded cut points: interrupts raised at chosen executed lines, signals delivered at chosen system calls, the stack or the "
             "Python allocator exhausted at chosen depths and allocations; an outcome is a failure or the undisturbed module")
NOTE = ("Sampled cut points (about 1300 translations with 8 cuts each quick, 20000 thorough). Interrupts strike at line granularity in the "
        "code of ctypeslib, of the clang bindings and of the modules loaded; memory is exhausted for Python objects only (libclang "
        "aborts the process when it gets none).")
RUNS = {"quick": 1300, "thorough": 20000}
RULE = ("a world is a source tree, an entry point (API call, or command line to a file or to standard output) and 8 cuts, each applied to "
        "a run of its own: an exception at the n-th executed line, a signal whose handler raises at the n-th system call on the tree, a "
        "recursion limit, a failing n-th allocation. Non-trivial: the undisturbed run "
        "succeeds and a cut was met.")
SIMTIME = "no clock in the code under test; the unit is the executed line or system call (simulated_steps)"
STATES = "distinct (entry point, kind of cut, function it struck in or decile, outcome)"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "signals and their handlers", "the allocator and its failures (_testcapi)"]
STUB = ["the time of delivery of an interrupt (trace function)", "process exit (forked)"]
ASSUMPTIONS = ["handlers of signals raise KeyboardInterrupt, TimeoutError or an exception class of their own",
               "a process that the interpreter or libclang aborts has failed"]
TIMEOUT = 120.0
SIG = "lost-in-libclang-callback"
KIND = ["line", "line", "line", "line", "line", "sig", "stack", "stack", "mem", "mem"]


class Timeout(Exception):
    """What a user's alarm handler may raise."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "TimeoutError": TimeoutError, "Timeout": Timeout,
       "RecursionError": RecursionError, "SystemExit": SystemExit}
_code = None


def preload():
    iosim.preload()
    global _code
    from clang import cindex
    _code = (ops.CTYPESLIB, cindex.__file__)
    import _testcapi  # noqa: F401


def worker_env(shared):
    return iosim.worker_env(shared)


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)


def gen(r, index, tier):
    lang = "c++" if r.random() < 0.1 else "c"
    tree = iosim.gen_tree(r, lang, nfiles=r.choice([1, 1, 2]), feats={"comments": r.random() < 0.3}, big=0.0)
    cfg = {"kinds": r.choice(["cdefmstu", "cdefstu", "acdefmstu"])}
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.25:
            cfg[k] = True
    if r.random() < 0.4:
        cfg["filter"] = False
    clang = []
    if r.random() < 0.25:
        clang += ["-target", r.choice(["i386-linux-gnu", "x86_64-linux-gnu"])]
    if lang == "c++":
        clang += ["-x", "c++"]
    if clang:
        cfg["clang"] = clang
    if r.random() < 0.2:
        cfg["dlls"] = [r.randrange(3)]
    w = {"tree": tree, "cfg": cfg, "nest": r.choice([0, 0, 0, 3, 8, 20])}
    x = r.random()
    if x < 0.65:
        w["via"] = r.choice(["files", "file", "string", "files", "file", "string", "load_files", "load_string"])
    else:
        w["via"] = "cli"
        w["mode"] = r.choice(["module", "script"])
        w["out"] = r.random() < 0.6
    cuts = []
    for _ in range(8):
        k = r.choice(KIND)
        c = {"k": k, "at": round(r.random(), 6)}
        if k == "line":
            # by time, or one line of the code as likely as another
            c["by"] = r.choice(["time", "time", "place", "place", "place"])
            if c["by"] == "place" and r.random() < 0.25:
                # the delivery is short, and what is swallowed there is seen by nobody
                c["at"] = min(round(1 - 0.12 * c["at"] ** 2, 6), 0.999999)
            c["occ"] = r.choice(["first", "last", "mid"])
            c["exc"] = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "TimeoutError", "Timeout", "RecursionError",
                                 "SystemExit"])
        elif k == "sig":
            c["exc"] = r.choice(["KeyboardInterrupt", "TimeoutError", "Timeout"])
        elif k == "mem":
            # one only: with more of them, what reports a dropped exception gets none either
            c["n"] = 1
        cuts.append(c)
    w["cuts"] = cuts
    return w


def extra(world):
    n = world["nest"]
    return "struct deep { %s int leaf; %s int last; };\n" % ("struct { int a; " * n, "".join("} d%d;" % i for i in range(n))) if n else ""


# ------------------------------------------------------------------ in the child

def make(exc, text):
    # the interpreter raises these without an argument
    return exc() if exc in (KeyboardInterrupt, MemoryError) else exc(text)


def summary(places):
    return [[x[0], x[len(x) // 2], x[-1]] for x in places.values()]


class Tracer:
    def __init__(self, at, exc):
        self.places = {}
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(_code[0]) or f == _code[1] or f == "<string>":
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if not self.at and frame.f_code.co_filename != _code[1]:
                self.places.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.n)
            if self.n == self.at:
                self.fired = frame.f_code.co_name
                raise make(self.exc, "simulated interrupt")
        return self.local


def depth():
    f, n = sys._getframe(), 0
    while f:
        n += 1
        f = f.f_back
    return n


def attempt(world, cut, files, libpaths, root, faults, at):
    """In a forked child.  Returns the outcome and what the cut met."""
    import _testcapi
    # free lists and the collector's counters do not depend on what this process did before
    gc.collect()
    gc.collect()
    lost = []

    def unraisable(u):
        # ctypes drops what a callback of libclang raises
        o = u.object
        m = str(u.err_msg)
        lost.append([getattr(u.exc_type, "__name__", "?"), getattr(o, "__qualname__", type(o).__name__),
                     getattr(o, "__module__", "?"), "callback" in m])
    sys.unraisablehook = unraisable
    # or what making the arguments of such a callback raises
    sys.excepthook = lambda t, v, tb: lost.append([t.__name__, "", "clang.cindex" if sys._getframe(1).f_code.co_filename == _code[1]
                                                   else "?", True])
    c = iosim.conf(os.path.join(root, "trace"), [os.path.join(root, "src")], (), faults)
    k = cut and cut["k"]
    tr = Tracer(at if k == "line" else 0, EXC[cut["exc"]] if k == "line" else None)
    if k == "sig":
        def handler(signum, frame):
            tr.fired = "handler"
            raise make(EXC[cut["exc"]], "simulated signal")
    limit = sys.getrecursionlimit()
    trace = cut is None or k == "line"
    if world["via"] == "cli":
        argv = ops.cli_args(world["cfg"], libpaths)
        out = os.path.join(root, "out", "o.py")
        if world["out"]:
            argv += ["-o", out]
        else:
            out = os.path.join(root, "stdout")
        start, stop = iosim.start, iosim.stop

        def begin(c):
            start(c)
            if k == "sig":
                signal.signal(signal.SIGUSR1, handler)
            elif k == "stack":
                sys.setrecursionlimit(depth() + at)
            if trace:
                sys.settrace(tr.glob)
            elif k == "mem":
                _testcapi.set_nomemory(at, at + cut["n"])

        def end():
            if k == "mem":
                _testcapi.remove_mem_hooks()
            sys.settrace(None)
            sys.setrecursionlimit(limit)
            stop()
        iosim.start, iosim.stop = begin, end
        r = iosim.cli_child(argv + files, world["mode"], os.path.join(root, "cwd"), os.path.join(root, "tmp"), "/dev/null",
                            os.path.join(root, "stdout"), c)
        text = ""
        if os.path.exists(out):
            with open(out, encoding="utf-8", errors="replace") as f:
                text = f.read()
        return {"ok": r["rc"] == 0, "res": r["what"], "text": text, "n": tr.n, "fired": tr.fired, "lost": lost,
            "places": summary(tr.places)}
    import ctypeslib
    os.chdir(os.path.join(root, "cwd"))
    cfg = ops.make_cfg(world["cfg"], libpaths)
    v = world["via"]
    if v in ("string", "load_string"):
        cfg.clang_opts = list(cfg.clang_opts) + ["-I" + os.path.dirname(files[0])]
        with open(files[0], encoding="utf-8") as f:
            text = f.read()
    out = io.StringIO()
    res, ns = None, None

    def call():
        if v == "files":
            return ctypeslib.translate_files(list(files), out, cfg)
        if v == "file":
            return ctypeslib.translate_files(files[0], out, cfg)
        if v == "string":
            return ctypeslib.translate(text, out, cfg)
        if v == "load_files":
            return ctypeslib.translate_files(list(files), cfg=cfg)
        return ctypeslib.translate(text, cfg=cfg)
    iosim.start(c)
    if k == "sig":
        signal.signal(signal.SIGUSR1, handler)
    try:
        if k == "stack":
            sys.setrecursionlimit(depth() + at)
        elif k == "mem":
            _testcapi.set_nomemory(at, at + cut["n"])
        if trace:
            sys.settrace(tr.glob)
        ns = call()
        sys.settrace(None)
    except BaseException as e:  # pylint: disable=broad-except
        sys.settrace(None)
        res = e
    finally:
        if k == "mem":
            _testcapi.remove_mem_hooks()
        sys.setrecursionlimit(limit)
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        iosim.stop()
    ok = res is None
    text = out.getvalue()
    if v.startswith("load") and ok:
        text = json.dumps(ops.module_summary(ns), sort_keys=True)
    return {"ok": ok, "res": None if ok else type(res).__name__, "text": text, "n": tr.n, "fired": tr.fired, "lost": lost,
            "places": summary(tr.places)}


def measure(world, files, libpaths, root):
    """How deep the stack gets, and how many allocations there are."""
    return attempt(world, None, files, libpaths, root, [], 0)


# ------------------------------------------------------------------ the run

def one(world, ctx, cut, files, libpaths, faults, at):
    from sim.ctx import ChildDied
    for d in ("out", "cwd", "tmp"):
        iosim.clean(ctx, d)
        ctx.mkdir(d)
    for f in ("stdout", "trace"):
        if os.path.exists(ctx.path(f)):
            os.unlink(ctx.path(f))
    try:
        return ctx.fresh(attempt, world, cut, files, libpaths, ctx.root, faults, at)
    except ChildDied as e:
        if cut is None:
            raise
        return {"ok": False, "res": "died %s" % e.signal, "text": "", "n": 0, "fired": None, "lost": []}
    except RuntimeError as e:
        if not cut or not (cut["k"] == "mem" and "MemoryError" in str(e) or cut["k"] == "stack" and "RecursionError" in str(e)):
            raise
        # the end of the emulated process had no memory, or no stack, either
        return {"ok": False, "res": "failed at the end", "text": "", "n": 0, "fired": None, "lost": []}


def run(world, ctx):
    from sim import main
    listed = [s for s, _ in main.known_findings("S16")]
    t = extra(world)
    tree = world["tree"]
    if t:
        tree = dict(tree, files=[dict(f, extra=[t]) if i == 0 else f for i, f in enumerate(tree["files"])])
    files, _ = iosim.write_tree(ctx, tree)
    libpaths = libs.pool_paths(ctx.shared)
    base = one(world, ctx, None, files, libpaths, [], 0)
    calls = [x for x in iosim.read_trace(ctx.path("trace")) if x[0] is not None]
    ctx.log("alone", base["ok"], base["res"], base["n"], ctx.dig(base["text"]))
    if not base["ok"]:
        raise core.Skip("rejected undisturbed")
    for c in world["cuts"]:
        faults, at = [], 0
        if c["k"] == "line":
            at = 1 + int(c["at"] * base["n"])
            if c["by"] == "place" and base["places"]:
                ps = base["places"]
                at = ps[min(int(c["at"] * len(ps)), len(ps) - 1)][("first", "mid", "last").index(c["occ"])]
        elif c["k"] == "sig":
            if not calls:
                continue
            faults = [("sig", calls[min(int(c["at"] * len(calls)), len(calls) - 1)][0], int(signal.SIGUSR1))]
        elif c["k"] == "stack":
            at = 8 + int(c["at"] * 110)
        else:
            # how many allocations there are is not measured: small numbers often, large ones sometimes
            at = 1 + int(10 ** (5.6 * c["at"]))
        got = one(world, ctx, c, files, libpaths, faults, at)
        ctx.steps += got["n"]
        met = got["fired"] or (not got["ok"] and c["k"] in ("stack", "mem")) or got["lost"]
        what = {"line": c.get("exc"), "sig": "signal (%s)" % c.get("exc"), "stack": "stack exhausted", "mem": "allocations failing"}[c["k"]]
        ctx.log("cut", what, at if c["k"] != "mem" else "", got["ok"] if c["k"] != "mem" else "", got["res"] if c["k"] != "mem" else "", got["fired"],
                ctx.dig(got["text"]) if c["k"] != "mem" else "")
        if met:
            ctx.nontrivial = True
            ctx.count("fault:" + what)
            ctx.state(world["via"], c["k"], got["fired"] or int(10 * c["at"]), got["ok"])
        if not got["ok"]:
            ctx.count("cut runs that failed as they should")
            continue
        if got["text"] == base["text"]:
            ctx.count("cut runs that completed")
            continue
        msg = "%s, %s at %s (%s): success, but the module is not the complete one (dropped: %s): %s" % (
            world["via"], what, at or faults, got["fired"], got["lost"], core.first_diff(base["text"].replace("], ", "],\n"), got["text"].replace("], ", "],\n")) if world["via"].startswith("load") else core.first_diff(base["text"], got["text"]))
        if any(x[3] for x in got["lost"]) and SIG in listed:
            # known: what struck while libclang called the bindings back is dropped by ctypes
            ctx.count("known:" + SIG)
            continue
        raise core.Violation("passed-for-complete", msg)


def signature(world, viol):
    return None


def size(w):
    return len(json.dumps(w))


def shrinks(w):
    cs = w["cuts"]
    if len(cs) > 1:
        for c in cs:
            yield dict(w, cuts=[c])
        yield dict(w, cuts=cs[:len(cs) // 2])
        yield dict(w, cuts=cs[len(cs) // 2:])
        return
    if w["nest"]:
        yield dict(w, nest=0)
    for k in sorted(w["cfg"]):
        c = dict(w["cfg"])
        del c[k]
        yield dict(w, cfg=c)
    if len(w["tree"]["files"]) > 1:
        yield dict(w, tree=dict(w["tree"], files=w["tree"]["files"][:1]))
    for t in iosim.shrink_tree(w["tree"]):
        yield dict(w, tree=t)
    for c in cs:
        for at in (0.0, round(c["at"] / 2, 6), round(c["at"] * 0.9, 6)):
            if at != c["at"]:
                yield dict(w, cuts=[dict(c, at=at)])
