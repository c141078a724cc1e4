"""S01: translation results do not depend on process history."""
import copy
import io
import os
import sys

from sim import core, csrc, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded histories of translations in one process with rejected, I/O-failing and interrupted operations, "
             "refined against fresh processes")
NOTE = ("Sampled histories (about 900 quick, 16000 thorough); each completed translation must equal byte for byte the "
        "same translation in a pristine process. Trusts that a forked, never-used process is fresh.")
RUNS = {"quick": 900, "thorough": 16000}
RULE = ("a world is a history of 2-14 operations (occasionally up to 60) of one process: translations through "
        "every entry point over a small pool of sources, options and targets that reuse the same names, in two "
        "directories with equally named files (some with one fault repeated up to 300 times), edits of the source files and of the headers they include, rejected, I/O-failing and interrupted translations; every completed translation is "
        "compared with the same one in a fresh process. Non-trivial: at least two translations, one of them "
        "after a different or faulty one.")
SIMTIME = "no clock in the code under test; the unit is the operation (simulated_steps)"
STATES = "distinct (operation outcome, preceding operation kinds and fault sites) pairs"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "nm"]
STUB = ["output streams (may fail)", "interrupt delivery (exception at a chosen line of the code under test)"]
ASSUMPTIONS = ["a freshly forked copy of a process that has imported ctypeslib and never translated stands for a fresh process",
               "interrupts are delivered at line boundaries of ctypeslib code and generated code"]


def preload():
    ops.load_ctypeslib()


def setup(shared, tier):
    libs.pool(shared)


def gen(r, index, tier):
    long = r.random() < 0.04
    nfiles = r.randint(1, 3)
    lang = "c++" if r.random() < 0.12 else "c"
    safe = r.random() < 0.6
    feats = {"comments": r.random() < 0.4}
    srcs = [csrc.gen_source(r, r.randint(1, 7), safe=safe, lang=lang, features=feats)
            for _ in range(r.randint(2, 5))]
    nhdrs = r.choice([0, 0, 1, 1, 2])
    for s in srcs:
        s["incs"] = [h for h in range(nhdrs) if r.random() < 0.6]
        s["foo"] = r.random() < 0.3
    ndirs = r.choice([1, 1, 2])
    names = sorted(set(d["n"].split()[-1] for s in srcs for d in s["decls"]))[:20]
    cfgs = [ops.gen_cfg(r, 3, names, lang) for _ in range(r.randint(1, 4))]
    if r.random() < 0.5:
        cfgs[0] = {"clang": ["-x", "c++"]} if lang == "c++" else {}
    if r.random() < 0.08:
        # the same options the other way round
        pair = r.choice(ops.PAIRS)
        cfgs += [dict(cfgs[0], clang=list(cfgs[0].get("clang", ())) + list(q)) for q in (pair, pair[::-1])]
    if r.random() < 0.15:
        # reports counts on the standard error stream, and nothing else changes
        cfgs[-1] = dict(cfgs[-1], verbose=True)
    if r.random() < 0.4:
        # settings that differ in one point: what is kept for one is wrong for the other
        cfgs.append(ops.vary_cfg(r, r.choice(cfgs)))
    swarm = [k for k in ("out_err", "interrupt", "missing", "syntax", "badopt", "edit", "nm")
             if r.random() < 0.6]
    hist = [{"op": "edit", "dir": d, "file": i, "src": r.randrange(len(srcs))} for i in range(nfiles) for d in range(ndirs)]
    hist += [{"op": "hdr", "dir": d, "h": i, "v": r.randrange(NHDR)} for i in range(nhdrs) for d in range(ndirs)]
    if nhdrs and r.random() < 0.6:
        swarm += ["hdr"] * 2
    n = r.randint(15, 60) if long else r.randint(2, 14)
    marathon = 0
    if not long and r.random() < 0.04:
        marathon = r.choice([40, 150, 300])
        n = r.randint(4, 8)
        swarm = [r.choice(["interrupt", "interrupt", "interrupt", "out_err", "syntax", "badopt", "missing", "nm"])]
    for _ in range(n):
        if swarm and r.random() < 0.35:
            k = r.choice(swarm)
            if k == "edit":
                hist.append({"op": "edit", "dir": r.randrange(ndirs), "file": r.randrange(nfiles), "src": r.randrange(len(srcs))})
                continue
            if k == "hdr":
                hist.append({"op": "hdr", "dir": r.randrange(ndirs), "h": r.randrange(nhdrs),
                             "v": None if r.random() < 0.12 else r.randrange(NHDR)})
                continue
            o = {"op": "tr", "api": r.choice(["string", "files", "load_string"]),
                 "src": r.randrange(len(srcs)), "files": [r.randrange(nfiles)],
                 "cfg": r.randrange(len(cfgs)), "fault": k, "dir": r.randrange(ndirs), "rel": r.random() < 0.5}
            if k == "out_err":
                o["api"] = r.choice(["string", "files"])
                o["nth"] = r.randint(0, 4)
            elif k == "interrupt":
                o["at"] = round(r.random(), 4)
                o["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
            elif k == "missing":
                o["api"] = "files"
            if marathon and not any(x.get("rep") for x in hist):
                # the same trouble over and over: what each time leaves behind adds up
                o["rep"] = marathon
            hist.append(o)
            continue
        api = r.choice(["string", "string", "files", "files", "file", "load_string", "load_files", "cli"])
        o = {"op": "tr", "api": api, "src": r.randrange(len(srcs)),
             "files": sorted(set(r.randrange(nfiles) for _ in range(r.choice([1, 1, 2, 3]))), key=lambda x: r.random()),
             "cfg": r.randrange(len(cfgs)), "fault": None, "dir": r.randrange(ndirs), "rel": r.random() < 0.5}
        if api == "cli":
            o["stdin"] = r.random() < 0.3
        hist.append(o)
    return {"srcs": srcs, "cfgs": cfgs, "hist": hist, "nfiles": nfiles}


NHDR = 5


def header_text(h, v):
    """A version of header number h: what sources need of it is always there."""
    t = ["int", "long", "double", "char", "unsigned short"][v]
    return ("#ifndef H%d\n#define H%d\n#define HM%d %d\ntypedef %s ht%d;\nstruct hs%d { %s a; char b[%d]; };\n"
            "enum he%d { he%d_%d = %d };\n%s#endif\n" % (
                h, h, h, v + 1, t, h, h, t, v + 1, h, h, v, v * 3, "void hf%d_%d(int a);\n" % (h, v) if v % 2 else ""))


def source_text(src):
    t = "".join('#include "h%d.h"\n' % h for h in src.get("incs", ()))
    t += csrc.text(src)
    for h in src.get("incs", ()):
        t += "struct uses_h%d { ht%d a; struct hs%d b; char c[HM%d]; enum he%d *e; };\n" % (h, h, h, h, h)
    if src.get("foo"):
        t += "#ifdef FOO\nstruct uses_foo { char a[FOO + 1]; };\n#else\nstruct uses_foo { long a; };\n#endif\n"
    return t


def prepare(o, world):
    """The part of an operation that depends on the world."""
    op = dict(o)
    if not world["srcs"] or not world["cfgs"]:
        raise core.Skip("nothing left")
    op["text"] = source_text(world["srcs"][o["src"] % len(world["srcs"])])
    op["spec"] = world["cfgs"][o["cfg"] % len(world["cfgs"])]
    return op


def apply_edit(path, text):
    if text is None:
        if os.path.exists(path):
            os.unlink(path)
        return
    with open(path, "w") as f:
        f.write(text)
    os.utime(path, (1600000000, 1600000000))


def execute(op, dirs, libpaths, lines=None):
    """One translation in this process; returns (outcome, fault that fired)."""
    d, files = place(op, dirs)
    os.chdir(d)
    fault = op.get("fault")
    spec = dict(op["spec"])
    if fault == "badopt":
        spec["clang"] = list(spec.get("clang", ())) + ["-target", "nosuchcpu-unknown"]
    if fault == "syntax":
        op = dict(op, text=op["text"] + "struct broken { int\n")
    if fault == "missing":
        files = [f + ".gone" for f in files]
    if fault == "nm":
        from ctypeslib.library import Library
        try:
            Library(libpaths[0], nm="/nonexistent/nm")
            return ["ok", "nm"], fault
        except Exception as e:
            return ops.err(e), fault
    if op["api"] == "cli":
        args = ops.cli_args(spec, libpaths) + (["-o", op["dest"]] if op.get("dest") else [])
        if op.get("stdin"):
            # locations would name the temporary copy of stdin
            args = ops.cli_args(dict(spec, locs=False, docs=False), libpaths) + (["-o", op["dest"]] if op.get("dest") else [])
            return ops.do_cli(args + ["-"], op["text"]), None
        return ops.do_cli(args + [files[i] for i in op["files"]]), None
    try:
        cfg = ops.make_cfg(spec, libpaths)
    except Exception as e:
        return ops.err(e), None
    if fault == "out_err":
        out = ops.FaultyOut(op["nth"])
        res = ops.do_translate(op, files, cfg, out)
        return res, fault if out.fired else None
    if fault == "interrupt":
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["exc"]]
        at = max(1, int(lines * op["at"])) if lines else 1
        tr = ops.Tracer(at, exc)
        try:
            with tr:
                res = ops.do_translate(op, files, cfg)
        except KeyboardInterrupt:
            res = ["interrupted"]
        return res, ("interrupt@%s:%s" % tr.fired) if tr.fired else None
    return ops.do_translate(op, files, cfg), fault


def place(op, dirs):
    """The directory an operation works in, and the files as it names them."""
    d, files = dirs[op.get("dir", 0)]
    return d, [os.path.basename(f) for f in files] if op.get("rel") else files


def count_lines(op, dirs, state, libpaths):
    for p, t in state.items():
        apply_edit(p, t)
    d, files = place(op, dirs)
    os.chdir(d)
    t = ops.Tracer()
    cfg = ops.make_cfg(op["spec"], libpaths)
    with t:
        ops.do_translate(op, files, cfg)
    return t.n


def baseline(op, dirs, state, libpaths):
    for p, t in state.items():
        apply_edit(p, t)
    return execute(op, dirs, libpaths)[0]


def change(o, dirs, world, state):
    """Apply an edit to the model of the files; returns the path."""
    if not world["srcs"]:
        raise core.Skip("nothing left")
    d = o.get("dir", 0)
    if o["op"] == "hdr":
        p = os.path.join(dirs[d][0], "h%d.h" % o["h"])
        state[p] = None if o["v"] is None else header_text(o["h"], o["v"])
    else:
        p = dirs[d][1][o["file"]]
        state[p] = source_text(world["srcs"][o["src"] % len(world["srcs"])])
    return p


def run(world, ctx):
    sys.stderr = io.StringIO()
    dirs = []
    for n in ("src", "alt"):
        ctx.mkdir(n)
        dirs.append((ctx.path(n), [ctx.path(n, "f%d.h" % i) for i in range(world["nfiles"])]))
    libpaths = libs.pool_paths(ctx.shared)
    empty = {p: "" for d in dirs for p in d[1]}
    state = dict(empty)
    # every translation in a process of its own
    want = []
    cache = {}
    for o in world["hist"]:
        if o["op"] in ("edit", "hdr"):
            change(o, dirs, world, state)
            want.append(None)
            continue
        op = prepare(o, world)
        if op["fault"] == "interrupt":
            want.append(ctx.fresh(count_lines, op, dirs, dict(state), libpaths))
            continue
        key = core.digest([op, sorted(state.items())])
        if key not in cache:
            cache[key] = ctx.fresh(baseline, op, dirs, dict(state), libpaths)
        want.append(cache[key])
    for p in state:
        apply_edit(p, None)
    # the history, in this process
    state = dict(empty)
    for p, t in state.items():
        apply_edit(p, t)
    past = []
    done = 0
    for k, o in enumerate(world["hist"]):
        ctx.steps += 1
        if o["op"] in ("edit", "hdr"):
            p = change(o, dirs, world, state)
            apply_edit(p, state[p])
            past.append(o["op"])
            ctx.count("op:edit" if o["op"] == "edit" else "op:header-edit" if state[p] is not None else "fault:header-removed")
            continue
        op = prepare(o, world)
        for i in range(o.get("rep", 0)):
            ctx.steps += 1
            ctx.count("fault:repeated")
            again = dict(op, at=round((op.get("at", 0) + 0.618034 * (i + 1)) % 1, 4))
            execute(again, dirs, libpaths, want[k] if op["fault"] == "interrupt" else None)
        if op["fault"] == "interrupt":
            res, fired = execute(op, dirs, libpaths, want[k])
            ctx.count("fault:interrupt" if fired else "fault:interrupt-not-reached")
            ctx.log(k, "interrupt", fired or "", ctx.dig(res))
            past.append(fired or "tr")
            continue
        res, fired = execute(op, dirs, libpaths)
        ctx.count("fault:%s" % fired if fired else "op:%s" % op["api"])
        ctx.count("outcome:%s" % ("error" if res[0] == "err" or (res[0] == "exit" and res[1]) else "ok"))
        ctx.log(k, op["api"], fired or "", ctx.dig(res))
        ctx.state(ctx.dig(res), sorted(set(past))[:6])
        if res != want[k]:
            raise core.Violation(
                "history-dependent", "operation %d (%s, fault %s) after [%s]: %s; fresh process: %s; got: %s" % (
                    k, op["api"], op["fault"], ", ".join(past[-6:]),
                    core.first_diff("\n".join(map(str, want[k])), "\n".join(map(str, res))),
                    core.clip(want[k], 300), core.clip(res, 300)))
        past.append("%s%s" % (op["api"], "+" + fired if fired else ""))
        done += 1
    ctx.nontrivial = done >= 1 and len(past) - world["nfiles"] >= 2


def shrinks(w):
    h = w["hist"]
    n = len(h)
    if n > 3:
        yield dict(w, hist=h[n // 2:])
        yield dict(w, hist=h[:n // 2])
    for i in range(n):
        yield dict(w, hist=h[:i] + h[i + 1:])
    for i, c in enumerate(w["cfgs"]):
        for k in sorted(c):
            c2 = dict(c)
            del c2[k]
            yield dict(w, cfgs=w["cfgs"][:i] + [c2] + w["cfgs"][i + 1:])
    used = set(o["src"] for o in h if "src" in o)
    for i, s in enumerate(w["srcs"]):
        if i not in used:
            if s["decls"]:
                yield dict(w, srcs=w["srcs"][:i] + [dict(s, decls=[])] + w["srcs"][i + 1:])
            continue
        for s2 in csrc.shrink_source(s):
            yield dict(w, srcs=w["srcs"][:i] + [s2] + w["srcs"][i + 1:])
    for i, o in enumerate(h):
        if o["op"] == "tr":
            if o["fault"]:
                yield dict(w, hist=h[:i] + [dict(o, fault=None)] + h[i + 1:])
            if o.get("rep"):
                for x in (0, o["rep"] // 2, o["rep"] - 10, o["rep"] - 1):
                    yield dict(w, hist=h[:i] + [dict(o, rep=max(0, x))] + h[i + 1:])
            if len(o["files"]) > 1:
                yield dict(w, hist=h[:i] + [dict(o, files=o["files"][:1])] + h[i + 1:])
            if o["api"] not in ("string", "files"):
                yield dict(w, hist=h[:i] + [dict(o, api="string")] + h[i + 1:])
            for key in ("dir", "rel"):
                if o.get(key):
                    yield dict(w, hist=h[:i] + [dict(o, **{key: 0})] + h[i + 1:])
            if o["src"]:
                yield dict(w, hist=h[:i] + [dict(o, src=0)] + h[i + 1:])
            if o["cfg"]:
                yield dict(w, hist=h[:i] + [dict(o, cfg=0)] + h[i + 1:])
