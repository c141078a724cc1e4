"""S08: functions bind to the first listed library that exports them."""
import ctypes
import io
import os
import stat
import subprocess

from sim import core, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded library landscapes and listing orders with faults injected into the symbol listing (tool missing, failing, "
             "killed half-way; library missing, replaced, unreadable), judged by what the called functions return")
NOTE = ("Sampled landscapes (about 2500 quick, 40000 thorough). Each function returns a number naming its library; weak, "
        "indirect, versioned and aliased exports and same-named libraries included.")
RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("a world is a header of functions and external variables, 1-6 libraries (subsets of exports of several symbol "
        "kinds, equal base names, symlinks, listed twice, by linker name), a listing order, the entry point, and "
        "optionally a fault of the listing tool or of a library at one of them. The module is loaded in a fresh process "
        "and everything is called. Non-trivial: a name exported by two listed libraries, or a fault that fired.")
SIMTIME = "no clock in the code under test; one step is one library listed or one function called"
STATES = "distinct (export pattern of a name over the order, symbol kind, how listed, fault) combinations"
REAL = ["ctypeslib (all of it)", "libclang", "nm (except when its failure is simulated)", "generated modules", "libraries built by gcc", "ctypes/dlopen"]
STUB = ["listing tool, when it is made to fail", "the library files' state at listing time"]
ASSUMPTIONS = ["names found through a library's dependencies only are out of scope",
               "libraries listed by linker name are found through LD_LIBRARY_PATH"]

NF, NV, NL = 12, 5, 6
FN = ["f0", "_f1", "f2", "__f3", "f4_", "F5", "f6", "_F7_", "__f8__", "fn_with_a_long_name_9", "_name", "_filepath"]
VN = ["v0", "_v1", "v2", "__v3", "V4"]
assert len(FN) == NF and len(VN) == NV
TRAPS = ["abs", "getpid", "strlen", "labs"]


def preload():
    ops.load_ctypeslib()


def lib_source(l):
    out = []
    for k in range(NF):
        v = 1000 * (l + 1) + k
        kind = (l * 5 + k * 3) % 6
        if kind == 1:
            out.append("__attribute__((weak)) int %s(void) { return %d; }" % (FN[k], v))
        elif kind == 2:
            out.append("static int impl%d(void) { return %d; }\nstatic void *res%d(void) { return (void *)impl%d; }\n"
                       "int %s(void) __attribute__((ifunc(\"res%d\")));" % (k, v, k, k, FN[k], k))
        elif kind == 3:
            out.append("__attribute__((visibility(\"hidden\"))) int real%d(void) { return %d; }\n"
                       "int %s(void) __attribute__((alias(\"real%d\")));" % (k, v, FN[k], k))
        elif kind == 4:
            out.append("__attribute__((visibility(\"protected\"))) int %s(void) { return %d; }" % (FN[k], v))
        else:
            out.append("int %s(void) { return %d; }" % (FN[k], v))
    for k in range(NV):
        v = 100 * (l + 1) + k
        kind = (l + k) % 5
        if kind == 1:
            out.append("const int %s = %d;" % (VN[k], v))
        elif kind == 2:
            out.append("__attribute__((weak)) int %s = %d;" % (VN[k], v))
        elif kind == 3:
            # in .bss: its value is set when the library is loaded
            out.append("static int b%d;\nextern int %s __attribute__((alias(\"b%d\")));\n"
                       "__attribute__((constructor)) static void set%d(void) { b%d = %d; }" % (k, VN[k], k, k, k, v))
        else:
            out.append("int %s = %d;" % (VN[k], v))
    out.append("static int local(void) { return -1; }\nint filler%d(void) { return local(); }" % l)
    # names it only uses
    out.append("extern int used_elsewhere(void) __attribute__((weak));\nint user%d(void) { return used_elsewhere ? used_elsewhere() : 0; }" % l)
    return "\n".join(out) + "\n"


def setup(shared, tier):
    d = os.path.join(shared, "l8")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "v.map"), "w") as f:
        f.write("VER_1.0 { global: *; };\n")
    ps = []
    for l in range(NL):
        src = os.path.join(d, "m%d.c" % l)
        with open(src, "w") as f:
            f.write(lib_source(l))
        flags = ["-Wl,--version-script=" + os.path.join(d, "v.map")] if l in (2, 5) else []
        ps.append(subprocess.Popen(["gcc", "-O1", "-s", "-w", "-fPIC", "-shared", "-o", os.path.join(d, "m%d.so" % l), src] + flags))
    bad = [p for p in ps if p.wait()]
    assert not bad
    b = os.path.join(shared, "byname")
    os.makedirs(b, exist_ok=True)
    for l, keep in ((0, range(0, 7)), (1, range(4, NF))):
        place(os.path.join(d, "m%d.so" % l), os.path.join(b, "libbyname%d.so" % l), keep, range(NV))


def worker_env(shared):
    return {"LD_LIBRARY_PATH": os.path.join(shared, "byname")}


def place(master, path, fs, vs):
    """A copy of master that exports only these functions and variables."""
    data = open(master, "rb").read()
    names = [FN[k].encode() for k in range(NF) if k not in fs] + [VN[k].encode() for k in range(NV) if k not in vs]
    for n in names:
        assert b"\0" + n + b"\0" in data
        data = data.replace(b"\0" + n + b"\0", b"\0" + b"#" * len(n) + b"\0")
    with open(path, "wb") as f:
        f.write(data)


def gen(r, index, tier):
    n = r.randint(1, NL)
    nf = r.randint(1, NF)
    nv = r.randint(0, NV)
    p = r.choice([0.2, 0.5, 0.8])
    ll = []
    masters = r.sample(range(NL), n)
    for m in masters:
        ll.append({"m": m, "fs": [k for k in range(NF) if r.random() < p], "vs": [k for k in range(NV) if r.random() < p],
                   "dir": r.randrange(3), "base": r.choice(["libx.so", "liby.so", "lib%d.so" % m, "lib%d.so.1" % m, "lib-a b%d.so" % m, "x%d.dll" % m])})
    order = list(range(n))
    r.shuffle(order)
    order = [{"l": i, "as": r.choice(["path", "path", "path", "rel", "link"])} for i in order]
    if r.random() < 0.15:
        order.insert(r.randrange(len(order) + 1), {"l": r.randrange(n), "as": r.choice(["path", "link"])})
    if r.random() < 0.05:
        order.insert(r.randrange(len(order) + 1), {"l": -1 - r.randrange(2), "as": "name"})
    fault = None
    if r.random() < 0.4:
        fault = {"k": r.choice(["nm-missing", "nm-exit", "nm-kill", "nm-partial-exit", "nm-partial-kill", "nm-noexec",
                                "lib-missing", "lib-text", "lib-dir", "lib-dangling", "lib-empty", "lib-truncated", "nm-stderr",
                                "nm-reorder", "path-nm-exit", "path-nm-missing", "preload-missing"]),
                 "at": r.randrange(len(order)), "sig": r.choice([9, 11, 15, 6]), "rc": r.choice([1, 2, 127, 255])}
    spec = {}
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.2:
            spec[k] = True
    if r.random() < 0.2:
        spec["kinds"] = r.choice(["fd", "cdefmstu", "f"])
    pre = [r.randrange(n) for _ in range(r.randint(1, 2))] if r.random() < 0.15 else []
    return {"pre": pre, "nf": nf, "nv": nv, "libs": ll, "order": order, "fault": fault, "spec": spec, "traps": r.random() < 0.4,
            "api": r.choice(["cli", "cli", "cliout", "string", "files", "load"])}


OKF = ("nm-stderr", "nm-reorder")


def script(path, text):
    with open(path, "w") as f:
        f.write("#!/bin/sh\n" + text)
    os.chmod(path, 0o755)
    return path


def observe(ns, world):
    out = {}
    for k in range(world["nf"]):
        out[FN[k]] = call(ns.get(FN[k]))
    for k in range(world["nv"]):
        v = ns.get(VN[k])
        out[VN[k]] = ["real", v.value] if isinstance(v, ctypes._SimpleCData) else ["none", str(v)]
    if world["traps"]:
        for t in TRAPS:
            out[t] = call(ns.get(t), False)
    return out


def call(fn, real=True):
    if fn is None:
        return ["undefined"]
    if isinstance(fn, ctypes._CFuncPtr):
        return ["real", fn() if real else "?"]
    return ["placeholder"]


def load(code, world):
    try:
        ns = {"__name__": "bindings"}
        exec(compile(code, "bindings.py", "exec"), ns)
    except Exception as e:
        return ops.err(e)
    return ["ok", observe(ns, world)]


def generate(world, hdr, paths, nm, envpath, outpath, pre):
    """In a process of its own: returns (outcome, delivered text, observation)."""
    import ctypeslib
    from ctypeslib.library import Library
    if envpath is not None:
        os.environ["PATH"] = envpath
    spec = dict(world["spec"])
    api = world["api"]
    f = world["fault"]
    if api in ("cli", "cliout"):
        args = ops.cli_args(spec)
        for p in paths:
            args += ["-l", p]
        for p in pre:
            args += ["-p", p]
        if nm != "nm":
            args += ["--nm", nm]
        if f and f["k"] == "preload-missing":
            args += ["-p", "/nonexistent/libnone.so"]
        res = ops.do_cli(args + (["-o", outpath] if api == "cliout" else []) + [hdr])
        text = res[-1]
        if api == "cliout":
            text = open(outpath, encoding="utf-8").read() if os.path.exists(outpath) else ""
        return [res[0] == "exit" and res[1] in (0, None), core.clip(res[:2] if res[0] == "exit" else res[:3], 300), text, None]
    o = io.StringIO()
    obs = None
    try:
        cfg = ops.make_cfg(spec)
        cfg.searched_dlls = [Library(p, nm=nm) for p in paths]
        cfg.preloaded_dlls = list(pre)
        if f and f["k"] == "preload-missing":
            cfg.preloaded_dlls = ["/nonexistent/libnone.so"]
        if api == "string":
            ctypeslib.translate(open(hdr).read(), o, cfg)
        elif api == "files":
            ctypeslib.translate_files([hdr], o, cfg)
        else:
            obs = ["ok", observe(ctypeslib.translate_files([hdr], cfg=cfg), world)]
    except Exception as e:
        return [False, ops.err(e), o.getvalue(), None]
    return [True, "ok", o.getvalue(), obs]


def run(world, ctx):
    if not world["libs"] or not world["order"]:
        raise core.Skip("nothing left")
    sh = os.path.join(ctx.shared, "l8")
    files = []
    used = set()
    for i, l in enumerate(world["libs"]):
        p = os.path.join(ctx.mkdir("d%d" % l["dir"]), l["base"])
        if p in used:
            p = os.path.join(ctx.mkdir("e%d" % i), l["base"])
        used.add(p)
        place(os.path.join(sh, "m%d.so" % l["m"]), p, l["fs"], l["vs"])
        files.append(p)
    h = "".join("int %s(void);\n" % FN[k] for k in range(world["nf"]))
    h += "".join("extern int %s;\n" % VN[k] for k in range(world["nv"]))
    if world["traps"]:
        h += "int abs(int); int getpid(void); unsigned long strlen(const char *); long labs(long);\n"
    hdr = ctx.write("h.h", h)
    paths, listed = [], []
    for j, o in enumerate(world["order"]):
        if o["as"] == "name":
            b = -1 - o["l"]
            paths.append("libbyname%d.so" % b)
            listed.append({"m": b, "fs": list(range(0, 7)) if b == 0 else list(range(4, NF)), "vs": list(range(NV))})
            continue
        if o["l"] >= len(files):
            continue
        p = files[o["l"]]
        if o["as"] == "rel":
            p = "./" + os.path.relpath(p, os.getcwd())
        elif o["as"] == "link":
            q = os.path.join(ctx.mkdir("links"), "lib%d.so" % j)
            os.symlink(p, q)
            p = q
        paths.append(p)
        listed.append(world["libs"][o["l"]])
    if not paths:
        raise core.Skip("nothing left")
    f = world["fault"]
    nm, envpath = "nm", None
    fires = False
    if f:
        at = f["at"] % len(paths)
        k = f["k"]
        # the listing tool is not asked about libraries found by name
        viatool = world["order"][min(at, len(world["order"]) - 1)]["as"] != "name" and not paths[at].startswith("libbyname")
        fires = k not in OKF
        if k.startswith("nm-") or k.startswith("path-nm"):
            if not viatool:
                fires = False
            else:
                target = paths[at]
                cond = 'case "$*" in *"%s"*) ' % target
                act = {"nm-exit": "exit %d" % f["rc"], "nm-kill": "kill -%d $$" % f["sig"],
                       "nm-partial-exit": '/usr/bin/nm "$@" | head -n 4; exit %d' % f["rc"],
                       "nm-partial-kill": '/usr/bin/nm "$@"; kill -%d $$' % f["sig"],
                       "path-nm-exit": "exit %d" % f["rc"],
                       "nm-stderr": 'echo "nm: warning: something" >&2; exec /usr/bin/nm "$@"',
                       "nm-reorder": '/usr/bin/nm "$@" | /usr/bin/sort -r; exit 0'}.get(k)
                tools = ctx.mkdir("tools")
                if act:
                    s = script(os.path.join(tools, "nm"), "%s%s;; esac\nexec /usr/bin/nm \"$@\"\n" % (cond, act))
                    if k.startswith("path"):
                        envpath = tools + ":" + os.environ.get("PATH", "/usr/bin:/bin")
                    else:
                        nm = s
                elif k == "nm-missing":
                    nm = os.path.join(tools, "no-such-nm")
                elif k == "path-nm-missing":
                    envpath = tools
                else:
                    nm = os.path.join(tools, "nm")
                    with open(nm, "w") as fl:
                        fl.write("not executable")
                    os.chmod(nm, 0o644)
        elif k.startswith("lib-"):
            p = paths[at]
            if not viatool:
                paths[at] = "libnosuch9.so"
            else:
                real = os.path.realpath(p)
                data = open(real, "rb").read()
                q = os.path.join(ctx.mkdir("bad"), os.path.basename(p))
                paths[at] = q
                if k == "lib-text":
                    ctx.write("bad/" + os.path.basename(p), "hello\n")
                elif k == "lib-dir":
                    os.mkdir(q)
                elif k == "lib-dangling":
                    os.symlink("/nonexistent/x.so", q)
                elif k == "lib-empty":
                    open(q, "w").close()
                elif k == "lib-truncated":
                    with open(q, "wb") as fl:
                        fl.write(data[:700])
    outpath = ctx.path("out.py")
    ok, why, text, obs = ctx.fresh(generate, world, hdr, paths, nm, envpath, outpath,
                                   [files[i] for i in world["pre"] if i < len(files)])
    ctx.steps += len(paths)
    code = [x for x in text.splitlines() if x.strip() and not x.startswith("#")]
    what = "listed %s, fault %s, %s" % ([os.path.basename(p) for p in paths], f and (f["k"], f["at"]), world["api"])
    ctx.log(what, ok, why if not ok else "", ctx.dig(text))
    ctx.count("listings", len(paths))
    if fires:
        ctx.count("fault:" + f["k"])
        ctx.state(f["k"], f["at"], world["api"], len(paths))
        ctx.nontrivial = True
        if ok:
            raise core.Violation("fault-ignored", "%s: the run succeeded" % what)
        if code:
            raise core.Violation("code-delivered", "%s: the run failed (%s) but delivered %r" % (what, why, core.clip(code[:3])))
        return
    if f:
        ctx.count("fault:%s (harmless)" % f["k"])
    if not ok:
        raise core.Violation("run-failed", "%s: %s" % (what, why))
    # what should reach what
    want = {}
    for k in range(world["nf"]):
        o = next((l for l in listed if k in l["fs"]), None)
        want[FN[k]] = ["real", 1000 * (o["m"] + 1) + k] if o else ["placeholder"]
    for k in range(world["nv"]):
        o = next((l for l in listed if k in l["vs"]), None)
        want[VN[k]] = ["real", 100 * (o["m"] + 1) + k] if o else ["none"]
    got = obs or ctx.fresh(load, text, world)
    if got[0] != "ok":
        raise core.Violation("load-failed", "%s: %s" % (what, got[1:]))
    got = got[1]
    byname = any(p.startswith("libbyname") for p in paths)
    for n in sorted(got):
        if n in TRAPS:
            if got[n][0] == "real" and not byname:
                raise core.Violation("not-exported-bound", "%s: %s is in none of the libraries but bound to a real function" % (what, n))
            continue
        if n in VN and "d" not in world["spec"].get("kinds", "d"):
            continue
        if n in VN and want[n][0] == "none":
            if got[n][0] == "real":
                raise core.Violation("not-exported-bound", "%s: variable %s is in none of the libraries, its value is %s" % (what, n, got[n][1]))
            continue
        ctx.steps += 1
        if got[n] != want[n]:
            raise core.Violation("wrong-library", "%s: %s gives %s, should be %s; exported by %s" % (
                what, n, got[n], want[n], [os.path.basename(p) for p, l in zip(paths, listed) if has(l, n)]))
        pat = "".join("x" if has(l, n) else "." for l in listed)
        if pat.count("x") > 1:
            ctx.nontrivial = True
        ctx.state(pat, world["order"][pat.index("x")]["as"] if "x" in pat and len(world["order"]) == len(paths) else "", (FN.index(n) if n in FN else VN.index(n)) % 6)


def has(l, n):
    return FN.index(n) in l["fs"] if n in FN else VN.index(n) in l["vs"]


def shrinks(w):
    if w["fault"]:
        yield dict(w, fault=None)
    for i in range(len(w["order"])):
        yield dict(w, order=w["order"][:i] + w["order"][i + 1:])
    for i, o in enumerate(w["order"]):
        if o["as"] not in ("path", "name"):
            yield dict(w, order=w["order"][:i] + [dict(o, **{"as": "path"})] + w["order"][i + 1:])
    for i, l in enumerate(w["libs"]):
        for k in l["fs"]:
            yield dict(w, libs=w["libs"][:i] + [dict(l, fs=[x for x in l["fs"] if x != k])] + w["libs"][i + 1:])
        for k in l["vs"]:
            yield dict(w, libs=w["libs"][:i] + [dict(l, vs=[x for x in l["vs"] if x != k])] + w["libs"][i + 1:])
    for k in ("nf", "nv"):
        if w[k] > 1:
            yield dict(w, **{k: w[k] // 2})
            yield dict(w, **{k: w[k] - 1})
    if w["nv"]:
        yield dict(w, nv=0)
    if w["traps"]:
        yield dict(w, traps=False)
    if w["pre"]:
        yield dict(w, pre=w["pre"][1:])
    if w["api"] != "files":
        yield dict(w, api="files")
    for k in sorted(w["spec"]):
        sp = dict(w["spec"])
        del sp[k]
        yield dict(w, spec=sp)
