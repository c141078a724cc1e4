"""S04: input that cannot be fully read and parsed is never translated."""
import os

from sim import core, csrc, iosim, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("injection of I/O faults at seeded system calls (libclang's included) and of missing, changing and erroneous "
             "inputs, checked against the undisturbed run of the same world")
NOTE = ("Sampled fault placements (about 2500 runs quick, 40000 thorough). One fault sequence per run; the kernel is real, its "
        "errors are injected at the libc boundary of the process.")
RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("a world is a source tree (1-3 listed files, 0-3 headers, seeded sizes), an entry point (API, command line in a forked "
        "process, command line in a real process, standard input), options, and a fault plan: an erroneous or missing file or "
        "header, a bad compiler option, or errors, short reads, vanishing or changing files at chosen system calls. "
        "Non-trivial: the undisturbed run succeeds and the fault was applied.")
SIMTIME = "no clock in the code under test; the unit is the simulated system call (simulated_steps)"
STATES = "distinct (entry point, fault kind, system call, file role, outcome)"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "kernel file system", "process exit (about 6% of the runs)"]
STUB = ["errors of system calls on the tree (LD_PRELOAD)", "process exit in the forked runs"]
ASSUMPTIONS = ["a file that silently reads as a shorter valid one cannot be told from a shorter file",
               "errors inside function bodies are not errors of the input: the bodies are not parsed",
               "sources that ask whether a header exists (__has_include) are out of scope"]
TIMEOUT = 120.0

SYNTAX = {
    "syntax": "struct broken_%d { int\n",
    "expected": "int broken_%d y;\n",
    "type": "nosuchtype_t broken_%d;\n",
    "redefinition": "struct broken_%d { int a; };\nstruct broken_%d { int b; };\n",
    "error": "#error \"broken %d\"\n",
    "include": "#include \"nosuchheader%d.h\"\n",
    "sysinclude": "#include <nosuchheader%d.h>\n",
    "assert": "_Static_assert(sizeof(int) == 77, \"broken %d\");\n",
    "unterminated if": "#if 1 // %d\n",
    "comment": "/* broken %d\n",
    "array": "int broken_%d[-1];\n",
    "conflict": "extern int broken_%d;\nextern char *broken_%d;\n",
    "pragma": "#pragma GCC error \"broken %d\"\n",
    "late": "".join("#warning w%d\n" % i for i in range(40)) + "int broken_%d = nosuchname;\n",
    "utf8": b"int broken_\xff\xfe;\n",
    "self": None,
    "attribute": "struct broken_%d { int a; } __attribute__((aligned(3)));\n",
    "else": "#endif // %d\n#endif // one too many\n",
}
MISSING = ["missing", "dir", "dangling", "loop"]
OPTIONS = [["-include", "nosuchheader.h"], ["-target", "nosuchcpu-unknown-none"], ["-std=c77"], ["-x", "nosuchlanguage"],
           ["-nosuchoption"], ["-imacros", "nosuchheader.h"], ["-march=nosuch"], ["-Werror", "-Wshift-count-overflow"],
           ["--nosuch-option=1"], ["-fno-such-option"], ["-D1X=1"]]
READERR = ["ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EPERM", "ENXIO", "ETIMEDOUT", "EINTR", "EOVERFLOW"]


def preload():
    iosim.preload()


def worker_env(shared):
    return iosim.worker_env(shared)


def setup(shared, tier):
    iosim.build(shared)
    libs.pool(shared)


def gen(r, index, tier):
    lang = "c++" if r.random() < 0.1 else "c"
    feats = {"comments": r.random() < 0.3}
    tree = iosim.gen_tree(r, lang, feats=feats)
    names = sorted(set(d["n"].split()[-1] for s in tree["files"] + tree["hdrs"] for d in s["d"]))[:20]
    cfg = ops.gen_cfg(r, 3, names, lang, target_p=0.3)
    if r.random() < 0.3:
        cfg = {"clang": ["-x", "c++"]} if lang == "c++" else {}
    nf = len(tree["files"])
    listed = list(range(nf))
    r.shuffle(listed)
    if r.random() < 0.1:
        listed.append(r.choice(listed))
    x = r.random()
    if x < 0.45:
        entry = {"via": "api", "api": r.choice(["files", "files", "files", "file", "string", "load_files", "load_string"])}
    else:
        entry = {"via": "cli" if x < 0.94 else "exec", "mode": r.choice(["module", "script"]),
                 "out": r.choice(["-", "o", "o", "old"]),
                 "stdin": r.random() < 0.25}
    plan = []
    x = r.random()
    if x < 0.30:
        kind = r.choice(sorted(SYNTAX))
        plan.append({"k": "syntax", "kind": kind, "who": r.random(), "pos": r.random(), "hdr": r.random() < 0.4})
    elif x < 0.38:
        plan.append({"k": "gone", "kind": r.choice(MISSING), "who": r.random(), "hdr": r.random() < 0.4})
    elif x < 0.45:
        plan.append({"k": "option", "opt": r.choice(OPTIONS), "first": r.random() < 0.5})
    else:
        for _ in range(r.choice([1, 1, 1, 2])):
            y = r.random()
            if y < 0.55:
                plan.append({"k": "err", "errno": r.choice(READERR), "frac": r.random(), "n": r.choice([1, 1, 1, 2, 5, 1000]),
                             "sticky": r.random() < 0.4, "op": r.choice(["any", "any", "open", "read", "data"])})
            elif y < 0.65:
                plan.append({"k": "short", "bytes": r.choice([1, 7, 100, 5000]), "frac": r.random(), "sticky": r.random() < 0.5})
            elif y < 0.85:
                plan.append({"k": "unlink", "frac": r.random(), "who": r.random(), "hdr": r.random() < 0.5})
            else:
                plan.append({"k": "replace", "frac": r.random(), "who": r.random(), "hdr": r.random() < 0.5,
                             "kind": r.choice(["syntax", "type", "error"])})
    return {"tree": tree, "cfg": cfg, "listed": listed, "entry": entry, "plan": plan}


def pick(frac, seq):
    return seq[min(len(seq) - 1, int(frac * len(seq)))] if seq else None


def target(p, world, fp, hp):
    """(role, index, path) of the file a fault is about."""
    tree = world["tree"]
    if p.get("hdr"):
        reach = iosim.reachable(tree, world["listed"])
        j = pick(p["who"], reach)
        if j is not None:
            return "hdr", j, hp[j]
    i = pick(p["who"], sorted(set(world["listed"])))
    return "file", i, fp[i]


def broken(kind, n):
    t = SYNTAX[kind]
    if isinstance(t, bytes):
        return t
    return (t.replace("%d", str(n))).encode()


def sabotage(path, kind, pos, n):
    """Put the erroneous text into the file, between two of its lines."""
    with open(path, "rb") as f:
        text = f.read()
    if kind == "self":
        # includes itself without end: only when it is not guarded
        text = b'#include "%s"\n' % os.path.basename(path).encode() + text
    elif kind in ("syntax", "unterminated if", "comment"):
        text = text + broken(kind, n)
    else:
        lines = text.splitlines(True)
        # inside the guard, at the top level
        places = [i for i, l in enumerate(lines) if i >= 2 and not l.startswith(b"/**")
                  and not (i > 0 and lines[i - 1].startswith(b"/**"))]
        at = pick(pos, places)
        lines.insert(at, broken(kind, n))
        text = b"".join(lines)
    with open(path, "wb") as f:
        f.write(text)


def vanish(path, kind, ctx):
    os.unlink(path)
    if kind == "dir":
        os.mkdir(path)
    elif kind == "dangling":
        os.symlink(path + ".nowhere", path)
    elif kind == "loop":
        os.symlink(path, path)


class Run:
    """One execution of the world's entry point, disturbed or not."""

    def __init__(self, world, ctx, fp):
        self.w, self.ctx = world, ctx
        self.fp = [fp[i] for i in world["listed"]]
        self.libs = libs.pool_paths(ctx.shared)
        self.tmp = ctx.path("tmp")
        self.src = ctx.path("src")
        self.trace = ctx.path("trace")

    def go(self, faults, cfg, old="OLD = 1\n"):
        w, ctx = self.w, self.ctx
        e = w["entry"]
        iosim.clean(ctx, "tmp", "out")
        ctx.mkdir("out")
        ctx.mkdir("tmp")
        c = iosim.conf(self.trace, [self.src, self.tmp], (), faults)
        if e["via"] == "api":
            args = self.fp
            if e["api"] in ("string", "load_string"):
                with open(self.fp[0], "rb") as f:
                    text = f.read().decode("utf-8", "replace")
                args = [text]
                cfg = dict(cfg, clang=list(cfg.get("clang", ())) + ["-I" + os.path.dirname(self.fp[0])])
            elif e["api"] == "file":
                args = self.fp[:1]
            r = ctx.fresh(iosim.api_child, e["api"], args, cfg, c, None, None, self.libs)
            self.ops = iosim.read_trace(self.trace)
            ok = r["res"][0] == "ok"
            return {"ok": ok, "how": r["res"][1:] if not ok else None, "text": r["text"] or "",
                    "val": r["res"][1] if ok else None}
        argv = ops.cli_args(cfg, self.libs)
        files = list(self.fp)
        stdin = "/dev/null"
        if e.get("stdin"):
            stdin = files[0]
            files[0] = "-"
            argv = [a for a in argv]
            # the copy of the standard input lies elsewhere
            ca = [a for a in argv if a.startswith("--clang-args=")]
            inc = "-I" + os.path.dirname(self.fp[0]).replace(" ", "\\ ")
            argv = [a for a in argv if not a.startswith("--clang-args=")] + [
                (ca[0] + " " + inc) if ca else "--clang-args=" + inc]
            c = iosim.conf(self.trace, [self.src, self.tmp], (0,), faults)
        argv += files
        out = ctx.path("out", "stdout")
        dest = out
        if e["out"] != "-":
            dest = ctx.path("out", "o.py")
            argv += ["-o", dest]
            if e["out"] == "old":
                with open(dest, "w") as f:
                    f.write(old)
        if e["via"] == "cli":
            r = ctx.fresh(iosim.cli_child, argv, e["mode"], ctx.path("cwd"), self.tmp, stdin, out, c)
        else:
            r = iosim.cli_exec(argv, e["mode"], ctx.path("cwd"), self.tmp, stdin, out, c, ctx.shared)
        self.ops = iosim.read_trace(self.trace)
        text = ""
        if os.path.exists(dest):
            with open(dest, "rb") as f:
                text = f.read().decode("utf-8", "replace")
        if e["out"] != "-":
            with open(out, "rb") as f:
                extra = f.read().decode("utf-8", "replace")
        else:
            extra = ""
        return {"ok": r["rc"] == 0, "how": [r["rc"], r["what"]], "text": text, "val": extra}


def run(world, ctx):
    e = world["entry"]
    tree = world["tree"]
    world = dict(world, listed=[i for i in world["listed"] if i < len(tree["files"])])
    if not world["listed"] or not world["plan"]:
        raise core.Skip("nothing to do")
    if e["via"] == "api" and e["api"] in ("string", "load_string", "file"):
        world["listed"] = world["listed"][:1]
    if e.get("stdin"):
        # one of the files comes through the pipe; its directory must be sayable
        tree = world["tree"] = dict(tree, files=[dict(f, name="p%d.h" % i) for i, f in enumerate(tree["files"])])
        if world["cfg"].get("locs") or world["cfg"].get("docs"):
            world = dict(world, cfg={k: v for k, v in world["cfg"].items() if k not in ("locs", "docs")})
    fp, hp = iosim.write_tree(ctx, tree)
    run_ = Run(world, ctx, fp)
    base = run_.go([], world["cfg"])
    ctx.log("baseline", base["ok"], ctx.dig(base["text"]), len(run_.ops))
    ctx.steps += len(run_.ops)
    ctx.count("via %s" % (e.get("api") or e["via"]))
    if not base["ok"]:
        raise core.Skip("rejected without faults")
    trace = [t for t in run_.ops if t[0] is not None]
    # what comes after the last read is not input any more (the removal of the copy of stdin)
    last = max([t[0] for t in trace if t[1] in ("read", "mmap")] or [-1])
    # nor is what happens before the first of the input is touched (a process that is starting)
    first = min([t[0] for t in trace if t[2].startswith(run_.src) or t[2].startswith("fd:")] or [0])
    trace = [t for t in trace if first <= t[0] <= last]
    cfg = dict(world["cfg"])
    faults, must_fail, where = [], False, []
    touched = set(fp) | set(hp)
    for k, p in enumerate(world["plan"]):
        if p["k"] == "syntax":
            role, i, path = target(p, world, fp, hp)
            kind = p["kind"]
            in_mem = role == "file" and e["via"] == "api" and e["api"] in ("string", "load_string")
            if kind == "self" and (in_mem or e.get("stdin")):
                kind = "syntax"
            if kind == "utf8" and (in_mem or e.get("stdin")):
                kind = "type"
            sabotage(path, kind, p["pos"], k)
            must_fail = True
            where.append(("syntax " + kind, "-", role))
        elif p["k"] == "gone":
            role, i, path = target(p, world, fp, hp)
            if role == "file" and (e.get("stdin") and path == run_.fp[0] or e["via"] == "api" and e["api"] in ("string", "load_string")):
                raise core.Skip("the text is not read from a file")
            if p["kind"] != "missing" and role == "hdr" and p["kind"] == "dir":
                pass
            vanish(path, p["kind"], ctx)
            must_fail = True
            where.append(("gone " + p["kind"], "-", role))
        elif p["k"] == "option":
            opt = list(p["opt"])
            if opt[0] == "-Werror":
                ctx.write("src/zz.h", "int zz = 1 << 99;\n")
                opt += ["-include", ctx.path("src", "zz.h")]
            cur = list(cfg.get("clang", ()))
            cfg["clang"] = opt + cur if p["first"] and opt[0] not in ("-x", "-target", "-std=c77") else cur + opt
            must_fail = True
            where.append(("option " + opt[0], "-", "-"))
        else:
            cand = trace
            if p["k"] == "err":
                if p["op"] == "open":
                    cand = [t for t in trace if t[1] == "open"]
                elif p["op"] == "read":
                    cand = [t for t in trace if t[1] in ("read", "mmap")]
                elif p["op"] == "data":
                    cand = [t for t in trace if t[1] in ("read", "mmap", "fstat", "write", "open")]
                t = pick(p["frac"], cand)
                if t is None:
                    continue
                faults.append(("err", t[0], iosim.ERR[p["errno"]], p["n"],
                               int(p["sticky"] and p["errno"] != "EINTR")))    # interruptions end
                where.append(("err %s%s" % (p["errno"], " sticky" if p["sticky"] or p["n"] > 1 else ""), t[1], role_of(t[2], fp, hp)))
            elif p["k"] == "short":
                cand = [t for t in trace if t[1] in ("read", "write")]
                t = pick(p["frac"], cand)
                if t is None:
                    continue
                faults.append(("short", t[0], p["bytes"], int(p["sticky"])))
                where.append(("short", t[1], role_of(t[2], fp, hp)))
            else:
                role, i, path = target(p, world, fp, hp)
                spooled = [t[2] for t in trace if t[2].startswith(run_.tmp) and t[1] == "open" and t[3].startswith("w")]
                t = pick(p["frac"], cand)
                if t is None:
                    continue
                if role == "file" and e["via"] == "api" and e["api"] in ("string", "load_string"):
                    raise core.Skip("the text is not read from a file")
                if role == "file" and e.get("stdin") and path == run_.fp[0]:
                    raise core.Skip("the text is not read from a file")
                if p["k"] == "unlink":
                    faults.append(("unlink", t[0], path))
                else:
                    new = ctx.path("broken%d" % k)
                    with open(path, "rb") as f:
                        text = f.read()
                    with open(new, "wb") as f:
                        f.write(text.replace(b"#endif\n", b"") + broken(p["kind"], k) + b"#endif\n")
                    faults.append(("rename", t[0], new, path))
                where.append((p["k"], t[1], role))
                # it is gone (or broken) when it is needed
                again = [x[0] for x in trace if x[0] >= t[0] and x[1] == "open" and x[2] == path]
                if len(world["plan"]) == 1 and again and any(
                        x[0] > again[0] and x[1] in ("read", "mmap") and x[2] == path for x in trace):
                    must_fail = True
    if not where:
        raise core.Skip("no call to disturb")
    for w in where:
        ctx.count("fault:" + w[0].split(" ")[0])
    got = run_.go(faults, cfg)
    fired = [t for t in run_.ops if t[4]]
    ctx.steps += len(run_.ops)
    ctx.log("faults", where, [[t[1], t[2], t[4], t[5]] for t in fired[:8]])
    ctx.log("outcome", got["ok"], got["how"] if e["via"] != "api" else (got["how"] or [None])[0], ctx.dig(got["text"]))
    for w in where:
        ctx.state(e.get("api") or e["via"], w, got["ok"])
    if faults and not fired:
        raise core.Skip("the disturbed call did not happen")
    ctx.nontrivial = True
    desc = "%s; entry %s; calls hit: %s" % (where, {k: v for k, v in e.items()}, [list(t[1:3]) + [t[5]] for t in fired[:5]])
    if got["ok"]:
        ctx.count("runs that still succeeded")
        if must_fail:
            raise core.Violation("accepted", "a translation with an unusable input or option reported success: %s" % desc)
        if got["text"] != base["text"]:
            raise core.Violation("wrong-output", "success was reported, but the output is not the one of an undisturbed run: %s: %s" % (
                desc, core.first_diff(base["text"], got["text"])))
        if got["val"] != base["val"]:
            raise core.Violation("wrong-output", "success was reported, but the module is not the one of an undisturbed run: %s" % desc)
        return
    ctx.count("runs that failed as they should")
    if e["via"] == "api" and e["api"].startswith("load"):
        return
    text = got["text"]
    if e.get("out") == "old" and text == "OLD = 1\n":
        return
    if any(t[0] is not None and t[0] > last for t in fired):
        # a fault that lasted until after the input was read: what failed may be something else
        ctx.count("faults that outlast the reading")
        return
    code = iosim.code_lines(text)
    if code or e.get("out", "-") != "-" and iosim.code_lines(got["val"]):
        raise core.Violation("partial-output", "the translation failed (%s) but delivered code: %s: %s" % (
            got["how"], desc, core.clip(repr(code or got["val"]), 300)))


def role_of(path, fp, hp):
    if path in fp:
        return "file"
    if path in hp:
        return "hdr"
    if path.startswith("fd:"):
        return "stdin"
    return "spool" if "/tmp/" in path else "other"


def size(w):
    import json
    return len(json.dumps(w))


def shrinks(w):
    for i in range(len(w["plan"])):
        if len(w["plan"]) > 1:
            yield dict(w, plan=w["plan"][:i] + w["plan"][i + 1:])
        p = w["plan"][i]
        if p.get("sticky") or p.get("n", 1) > 1:
            yield dict(w, plan=w["plan"][:i] + [dict(p, **({"sticky": False, "n": 1} if "n" in p else {"sticky": False}))] + w["plan"][i + 1:])
    for k in sorted(w["cfg"]):
        c = dict(w["cfg"])
        del c[k]
        yield dict(w, cfg=c)
    for i in range(len(w["listed"])):
        if len(w["listed"]) > 1:
            yield dict(w, listed=w["listed"][:i] + w["listed"][i + 1:])
    if w["entry"].get("stdin"):
        yield dict(w, entry=dict(w["entry"], stdin=False))
    for t in iosim.shrink_tree(w["tree"]):
        yield dict(w, tree=t)
