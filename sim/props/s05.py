"""S05: success is reported only when the whole module was delivered."""
import io
import os

from sim import core, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("injection of output faults (failing, short and interrupted writes at seeded calls, failing open and close, full and "
             "closed destinations, failing caller's streams), checked against the undisturbed run")
NOTE = ("Sampled fault placements (about 2400 runs quick, 40000 thorough). Errors are injected at the libc boundary of the process; "
        "what the disk does with accepted bytes is not simulated (the program does not promise durability).")
RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("a world is a source tree (outputs from 1 KB to 100 KB), an entry point, a destination (file, symbolic link, existing file, "
        "standard output as file, pipe, full device or closed, the caller's stream of several kinds) and a fault plan over the output "
        "calls. Non-trivial: the undisturbed run succeeds and a fault was met.")
SIMTIME = "no clock in the code under test; the unit is the simulated system call or stream call (simulated_steps)"
STATES = "distinct (entry point, destination, fault, call number up to 8, outcome)"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "Python's text and buffer layers", "pipes",
        "process exit (about 6% of the runs)"]
STUB = ["errors of system calls on the destination (LD_PRELOAD)", "caller's streams", "process exit in the forked runs"]
ASSUMPTIONS = ["a caller that passes its own stream closes it itself: what a failing close of it means is up to the caller"]
TIMEOUT = 120.0

HARD = ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EROFS", "EACCES", "EPERM", "EBADF", "ENXIO", "EAGAIN", "ESTALE", "ETIMEDOUT", "ENOMEM"]


def preload():
    iosim.preload()


def worker_env(shared):
    return iosim.worker_env(shared)


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)


EXCS = {"OSError": OSError, "ValueError": ValueError, "BrokenPipeError": BrokenPipeError, "RuntimeError": RuntimeError,
        "KeyboardInterrupt": KeyboardInterrupt, "AttributeError": AttributeError, "KeyError": KeyError, "TypeError": TypeError,
        "NotImplementedError": NotImplementedError, "StopIteration": StopIteration, "MemoryError": MemoryError,
        "UnicodeError": UnicodeError, "FileNotFoundError": FileNotFoundError, "InterruptedError": InterruptedError,
        "SystemExit": SystemExit, "RecursionError": RecursionError, "IndexError": IndexError, "AssertionError": AssertionError,
        "Exception": Exception, "EOFError": EOFError, "GeneratorExit": GeneratorExit, "TimeoutError": TimeoutError}


class Stream(io.TextIOBase):
    """What a caller may pass: a text stream of the caller's own."""

    def __init__(self, p):
        super().__init__()
        self.p = p
        self.parts = []
        self.calls = 0
        self.chars = 0
        self.fired = False

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("text expected")
        self.calls += 1
        p = self.p
        at = p.get("at")
        hit = at is not None and self.calls == 1 + at
        if p.get("chars") is not None and self.chars + len(s) > p["chars"] and not self.fired:
            hit = True
            if p.get("keep"):
                self.parts.append(s[:p["chars"] - self.chars])
        if hit or self.fired and p.get("sticky"):
            self.fired = True
            raise EXCS[p["exc"]]("simulated failure of the stream")
        self.parts.append(s)
        self.chars += len(s)
        return len(s)

    def getvalue(self):
        return "".join(self.parts)


class EmptyStream(Stream):
    def __len__(self):
        return len(self.parts)


class FlushStream(Stream):
    """Buffers; the failure comes with flush or close, which the caller calls."""

    def flush(self):
        pass


class UsedStream(io.StringIO):
    """A healthy stream the caller has written to before."""
    fired, calls = False, 0

    def __init__(self, n, rewound):
        io.StringIO.__init__(self)
        io.StringIO.write(self, ("x" * 79 + "\n") * (n // 80) + "y" * (n % 80))
        self.n = n
        if rewound:
            # old contents behind the position are overwritten as far as the module is long
            self.seek(0)
        self.start = self.tell()

    def finish(self):
        try:
            v, at = io.StringIO.getvalue(self), self.tell()
        except ValueError:
            return "the stream was closed"
        if self.start and v[:self.start] != ("x" * 79 + "\n") * (self.n // 80) + "y" * (self.n % 80):
            return "what was there before changed"
        return v[self.start:at]


class StringStream(Stream, io.StringIO):
    def __init__(self, p):
        Stream.__init__(self, p)


def gen(r, index, tier):
    lang = "c++" if r.random() < 0.05 else "c"
    tree = iosim.gen_tree(r, lang, nfiles=r.choice([1, 1, 2]), feats={"comments": r.random() < 0.3}, big=0.0)
    fill = r.choice([0, 0, 0, 30, 120, 250])
    cfg = {}
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.25:
            cfg[k] = True
    if lang == "c++":
        cfg["clang"] = ["-x", "c++"]
    if r.random() < 0.2:
        cfg["filter"] = False
    cfg["kinds"] = r.choice(["cdefmstu", "cdefstu", "acdefmstu"])
    if r.random() < 0.15:
        cfg["preload"] = [r.randrange(3)]
    x = r.random()
    w = {"tree": tree, "cfg": cfg, "fill": fill, "ascii": r.random() < 0.85}
    if x < 0.35:
        w["via"] = "api"
        w["api"] = r.choice(["files", "file", "string"])
        kind = r.choice(["plain", "plain", "empty", "flush", "string", "fd", "fd", "used"])
        w["dest"] = kind
        if kind == "used":
            w["stream"] = {}
            w["before"] = r.choice([1, 30, 9000, 200000])
            w["rewound"] = r.random() < 0.3
        elif kind == "fd":
            w["buf"] = r.choice(["default", "line", "through", "small"])
        else:
            p = {"exc": r.choice(sorted(EXCS)), "sticky": r.random() < 0.5}
            if r.random() < 0.6:
                p["at"] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, r.randrange(60)])
            elif r.random() < 0.9:
                p["chars"] = r.choice([0, 1, 100, 500, 1000, 3000, r.randrange(20000)])
                p["keep"] = r.random() < 0.7
            w["stream"] = p
    else:
        w["via"] = "cli" if x < 0.93 else "exec"
        w["mode"] = r.choice(["module", "script"])
        w["dest"] = r.choice(["file", "file", "file", "old", "link", "stdout", "stdout", "stdout", "pipe", "pipe", "closedpipe", "fullout",
                              "fullfile", "dir", "nodir", "closed"])
        w["enc"] = r.choice(["utf-8"] * 8 + ["ascii"])
    plan = []
    if not (w["via"] == "api" and w["dest"] != "fd"):
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.6:
                plan.append({"k": "err", "errno": r.choice(HARD), "op": r.choice(["write", "write", "write", "any", "open", "close"]),
                             "frac": r.random(), "sticky": r.random() < 0.5, "n": 1})
            elif x < 0.75:
                plan.append({"k": "err", "errno": "EINTR", "op": "write", "frac": r.random(), "sticky": False, "n": r.choice([1, 1, 3])})
            else:
                plan.append({"k": "short", "bytes": r.choice([1, 2, 10, 500, 1000, 4096, 8191]), "op": "write", "frac": r.random(),
                             "sticky": r.random() < 0.6, "n": 1})
    w["plan"] = plan
    return w


def fill(world):
    t = ""
    for i in range(world["fill"]):
        t += "typedef int filler_type_with_a_long_name_%d;\nint filler_value_%d = %d;\n" % (i, i, i * 7)
    if not world["ascii"]:
        t += '#define zzmacro "caf\u00e9 \u20ac \U0001f600"\n'
    return t


def api(world, args, libpaths, c, trace, path):
    """The API with a caller's stream."""
    if world["dest"] == "fd":
        def mk():
            b = world.get("buf", "default")
            if b == "small":
                return io.TextIOWrapper(io.BufferedWriter(io.FileIO(path, "w"), 16), encoding="utf-8")
            f = open(path, "w", encoding="utf-8", buffering=1 if b == "line" else -1)
            if b == "through":
                f.reconfigure(write_through=True)
            return f
        return api_fd(world, args, libpaths, c, mk)
    if world["dest"] == "used":
        st = UsedStream(world["before"], world["rewound"])
        return call(world, args, libpaths, st) + [st.finish(), False, 0]
    cls = {"plain": Stream, "empty": EmptyStream, "flush": FlushStream, "string": StringStream}[world["dest"]]
    st = cls(world.get("stream") or {})
    return call(world, args, libpaths, st) + [st.getvalue(), st.fired, st.calls]


def call(world, args, libpaths, st):
    import ctypeslib
    cfg = ops.make_cfg(world["cfg"], libpaths)
    if world["api"] == "string":
        cfg.clang_opts = list(cfg.clang_opts) + ["-I" + os.path.dirname(args[0])]
    try:
        if world["api"] == "files":
            ctypeslib.translate_files(list(args), st, cfg)
        elif world["api"] == "file":
            ctypeslib.translate_files(args[0], st, cfg)
        else:
            with open(args[0], encoding="utf-8") as f:
                text = f.read()
            ctypeslib.translate(text, st, cfg)
    except BaseException as e:  # pylint: disable=broad-except
        return [False, type(e).__name__]
    return [True, None]


def api_fd(world, args, libpaths, c, mk):
    iosim.start(c)
    try:
        try:
            st = mk()
        except OSError as e:
            return [False, "open: " + type(e).__name__]
        res = call(world, args, libpaths, st)
        try:
            st.close()
        except OSError as e:
            # the caller sees this one itself
            return [False, "close: " + type(e).__name__]
        return res
    finally:
        iosim.stop()


def one(world, ctx, faults, baseline=False):
    fp = [ctx.path("src", f["name"]) for f in world["tree"]["files"]]
    libpaths = libs.pool_paths(ctx.shared)
    iosim.clean(ctx, "out", "tmp")
    ctx.mkdir("out")
    ctx.mkdir("tmp")
    trace = ctx.path("trace")
    dest = world["dest"]
    if world["via"] == "api":
        path = ctx.path("out", "o.py")
        if dest == "fd":
            c = iosim.conf(trace, [ctx.path("out")], (), faults)
            r = ctx.fresh(api, world, fp, libpaths, c, trace, path)
            tr = iosim.read_trace(trace)
            text = open(path, "rb").read() if os.path.exists(path) else b""
            return {"ok": r[0], "how": r[1], "bytes": text, "trace": tr, "fired": [t for t in tr if t[4]]}
        w = world
        if baseline:
            w = dict(world, stream={}, dest="plain")
        r = ctx.fresh(api, w, fp, libpaths, None, trace, path)
        return {"ok": r[0], "how": r[1], "bytes": r[2].encode("utf-8"), "trace": [], "fired": [("stream", r[4])] if r[3] else [],
                "calls": r[4]}
    argv = ops.cli_args(world["cfg"], libpaths)
    out = ctx.path("out", "stdout")
    got = out
    stdout = out
    watch = (1,)
    drain = None
    if dest in ("file", "old", "link", "fullfile", "dir", "nodir"):
        got = ctx.path("out", "o.py")
        watch = ()
        if dest == "old":
            ctx.write("out/o.py", "OLD = 1\n" * 5000)
        elif dest == "link":
            ctx.write("out/real.py", "OLD = 1\n")
            os.symlink("real.py", got)
        elif not baseline:
            if dest == "dir":
                os.mkdir(got)
            elif dest == "nodir":
                got = ctx.path("out", "nosuch", "o.py")
        argv += ["-o", got]
    elif not baseline:
        if dest == "closed":
            stdout = None
        elif dest == "closedpipe":
            rfd, stdout = os.pipe()
            os.close(rfd)
    if dest == "pipe":
        drain, stdout = os.pipe()
    argv += fp
    # a full disk is simulated: no device of the machine is ever named to the code
    c = iosim.conf(trace, [ctx.path("out")] if watch == () else [], watch,
                   [("full", 1)] if dest in ("fullfile", "fullout") and not baseline else faults)
    chunks = []
    if world["via"] == "cli":
        if drain is not None:
            r = piped(ctx, drain, stdout, chunks, lambda: ctx.fresh(
                iosim.cli_child, argv, world["mode"], ctx.path("cwd"), ctx.path("tmp"), "/dev/null", stdout, c, world["enc"]))
        else:
            r = ctx.fresh(iosim.cli_child, argv, world["mode"], ctx.path("cwd"), ctx.path("tmp"), "/dev/null", stdout, c, world["enc"])
            if isinstance(stdout, int):
                os.close(stdout)
    else:
        def ex():
            so = stdout
            if so is None:
                # closed in the child: through a shell
                return iosim.cli_exec(argv, world["mode"], ctx.path("cwd"), ctx.path("tmp"), "/dev/null", None, c, ctx.shared,
                                      enc=world["enc"])
            return iosim.cli_exec(argv, world["mode"], ctx.path("cwd"), ctx.path("tmp"), "/dev/null", os.dup(so) if isinstance(so, int) else so, c,
                                  ctx.shared, enc=world["enc"])
        if drain is not None:
            r = piped(ctx, drain, stdout, chunks, ex)
        else:
            r = ex()
            if isinstance(stdout, int):
                os.close(stdout)
    tr = iosim.read_trace(trace)
    if drain is not None:
        data = b"".join(chunks)
    elif not os.path.isfile(got):
        data = b""
    else:
        with open(got, "rb") as f:
            data = f.read()
    return {"ok": r["rc"] == 0, "how": [r["rc"], r["what"]], "bytes": data, "trace": tr, "fired": [t for t in tr if t[4]]}


def piped(ctx, rfd, wfd, chunks, fn):
    """Runs fn while a thread of the harness empties the pipe."""
    import threading

    def loop():
        while True:
            b = os.read(rfd, 65536)
            if not b:
                break
            chunks.append(b)
        os.close(rfd)
    t = threading.Thread(target=loop, daemon=True)
    t.start()
    try:
        return fn()
    finally:
        os.close(wfd)
        t.join(20)


def pick(frac, seq):
    return seq[min(len(seq) - 1, int(frac * len(seq)))] if seq else None


def check_whole(world, ctx, data):
    """The undisturbed run must have delivered everything, too: the text the API
    writes to a plain list of strings."""
    fp = [ctx.path("src", f["name"]) for f in world["tree"]["files"]]
    w = dict(world, stream={}, dest="plain", via="api", api=world.get("api", "files"))
    r = ctx.fresh(api, w, fp, libs.pool_paths(ctx.shared), None, None, None)
    if not r[0]:
        raise core.Violation("whole", "the API call fails (%s) where the command line succeeds" % r[1])
    text = data.decode("utf-8", "replace")
    if world["via"] != "api" and world["cfg"].get("comments"):
        head = text.split("\n", 2)
        if len(head) == 3 and head[0].startswith("# generated by") and head[1].startswith("# flags"):
            text = head[2]
    if world.get("enc", "utf-8") != "utf-8" and not world["ascii"]:
        return
    if text != r[2]:
        raise core.Violation("incomplete", "success was reported for a healthy destination (%s), but it does not have the whole module: %s" % (
            world["dest"], core.first_diff(r[2], text)))


def run(world, ctx):
    if world["via"] == "exec" and world["dest"] == "closed":
        world = dict(world, dest="fullout")
    tree = world["tree"]
    tree = dict(tree, files=[dict(f, extra=[fill(world)]) if i == 0 else f for i, f in enumerate(tree["files"])])
    iosim.write_tree(ctx, tree)
    base = one(world, ctx, [], baseline=True)
    ctx.log("baseline", base["ok"], ctx.dig(base["bytes"].decode("utf-8", "replace")), len(base["bytes"]))
    ctx.count("via %s" % (world.get("api") or world["via"]))
    ctx.count("to %s" % world["dest"])
    static = world["via"] != "api" and world["dest"] in ("fullout", "fullfile", "dir", "nodir", "closed", "closedpipe")
    enc = world.get("enc", "utf-8")
    if not base["ok"]:
        # a stream that cannot represent the module is a failing destination: of what it did not say it failed
        if enc == "ascii" and not world["ascii"]:
            ctx.nontrivial = True
            ctx.count("fault:unencodable text")
            return
        raise core.Skip("rejected without faults")
    check_whole(world, ctx, base["bytes"])
    trace = [t for t in base["trace"] if t[0] is not None and t[1] in ("open", "write", "close")]
    faults, where = [], []
    if not static:
        for p in world["plan"]:
            cand = trace if p["op"] == "any" else [t for t in trace if t[1] == p["op"]]
            t = pick(p["frac"], cand)
            if t is None:
                continue
            if p["k"] == "err":
                faults.append(("err", t[0], iosim.ERR[p["errno"]], p["n"], int(p["sticky"])))
                where.append(("err " + p["errno"], t[1], min(8, [x for x in trace if x[1] == t[1]].index(t))))
            else:
                faults.append(("short", t[0], p["bytes"], int(p["sticky"])))
                where.append(("short", t[1], min(8, [x for x in trace if x[1] == t[1]].index(t))))
    got = one(world, ctx, faults)
    ctx.steps += len(got["trace"]) + got.get("calls", 0)
    ctx.log("faults", where, [list(map(str, t[1:3])) + [t[4], t[5]] for t in got["fired"][:8] if len(t) > 4])
    ctx.log("outcome", got["ok"], got["how"], ctx.dig(got["bytes"].decode("utf-8", "replace")))
    stream = world.get("stream") or {}
    for w in where:
        ctx.count("fault:" + w[0])
        ctx.state(world["via"], world["dest"], w, got["ok"])
    if static:
        ctx.count("fault:" + world["dest"])
        ctx.state(world["via"], world["dest"], got["ok"])
    if got["fired"] and got["fired"][0][0] == "stream":
        ctx.count("fault:stream raises " + stream["exc"])
        ctx.state("stream", world["dest"], stream["exc"], min(8, got["fired"][0][1]), got["ok"])
    ctx.nontrivial = bool(got["fired"]) or static or world["dest"] in ("empty", "pipe", "flush", "used")
    desc = "%s to %s, faults %s, calls hit %s" % (world.get("api") or world["via"], world["dest"], where or stream or "none",
                                                 [list(t[1:3]) + [t[5]] for t in got["fired"][:4] if len(t) > 4])
    if not got["ok"]:
        ctx.count("runs that failed as they should")
        if not got["fired"] and not static:
            # nothing was wrong with the destination
            if not where:
                raise core.Violation("failed", "the destination was healthy, but the run failed (%s): %s" % (got["how"], desc))
        return
    ctx.count("runs that still succeeded")
    if got["bytes"] != base["bytes"]:
        raise core.Violation("incomplete", "success was reported, but the destination has %d of %d bytes: %s: %s" % (
            len(got["bytes"]), len(base["bytes"]), desc,
            core.first_diff(base["bytes"].decode("utf-8", "replace"), got["bytes"].decode("utf-8", "replace"))))
    hard = [t for t in got["fired"] if len(t) > 4 and t[4] == "ERR" and t[1] in ("open", "write", "close") and t[5] != iosim.ERR["EINTR"]]
    if hard or got["fired"] and got["fired"][0][0] == "stream":
        raise core.Violation("swallowed", "a failure of the output was not reported: %s" % desc)


def size(w):
    import json
    return len(json.dumps(w))


def shrinks(w):
    for i in range(len(w["plan"])):
        if len(w["plan"]) > 1:
            yield dict(w, plan=w["plan"][:i] + w["plan"][i + 1:])
        p = w["plan"][i]
        if p.get("sticky"):
            yield dict(w, plan=w["plan"][:i] + [dict(p, sticky=False)] + w["plan"][i + 1:])
    if w["fill"]:
        for f in (0, w["fill"] // 2):
            yield dict(w, fill=f)
    if not w["ascii"]:
        yield dict(w, ascii=True)
    for k in sorted(w["cfg"]):
        c = dict(w["cfg"])
        del c[k]
        yield dict(w, cfg=c)
    if len(w["tree"]["files"]) > 1:
        yield dict(w, tree=dict(w["tree"], files=w["tree"]["files"][:1]))
    for t in iosim.shrink_tree(w["tree"]):
        yield dict(w, tree=t)
