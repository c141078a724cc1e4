"""S12: finding the clang library skips unusable candidates."""
import importlib.metadata
import os
import shutil
import sys
import warnings

from sim import core, libs

LEVEL = "exploration"
TECHNIQUE = ("seeded simulated installations (what the library search returns, what each candidate file is) with missing, "
             "unloadable, foreign and mismatching libraries injected, against a preference-order model of the import")
NOTE = ("Sampled installations (about 8000 quick, 150000 thorough); each import runs in a process that never imported "
        "ctypeslib. The candidate set is the documented one (versions 3.7 to 25, default names).")
RUNS = {"quick": 8000, "thorough": 150000}
RULE = ("a world is an installation: version of the Python bindings, the environment setting (absent, missing path, file, "
        "directory), and for each library name what the search returns: nothing, a usable library with its version, a "
        "missing file, a text file, a truncated library, a library of something else, a directory, a file that is "
        "removed between search and load. The import and the calls after it are judged by the version they report and "
        "the warnings. Non-trivial: at least one unusable candidate came before the expected choice, or none is usable.")
SIMTIME = "no clock in the code under test; one step is one import"
STATES = "distinct (environment kind, kinds of candidates in preference order, version match) installations"
REAL = ["ctypeslib import and discovery", "clang.cindex configuration", "dlopen"]
STUB = ["ctypes.util.find_library and the search path of dlopen (the simulated installation)", "candidate libraries (built by gcc, export only the version)",
        "version of the installed bindings"]
ASSUMPTIONS = ["a library that exports clang_getClangVersion is a clang library"]

TEMPLATE = """
typedef struct { const void *data; unsigned flags; } S;
static const char text[80] = "@VERSION@.......................................................";
S clang_getClangVersion(void) { S s = { text, 0 }; return s; }
"""
VERSIONS = ["%d" % v for v in range(25, 6, -1)] + ["6.0", "5.0", "4.0", "3.9", "3.8", "3.7"]
FORMS = ["clang version %s", "Ubuntu clang version %s-1ubuntu1", "Debian clang version %s-++2022", "Apple clang version %s (clang-1400)",
         "clang version %s (https://github.com/llvm/llvm-project 1234)", "Alpine clang version %s", "clang version %sgit",
         "AMD clang version %s (roc-5.7.1)", "Apple LLVM version %s (clang-902.0.39.2)", "FreeBSD clang version %s (https://x llvmorg-1-g2)",
         "Android (7155654, based on r399163b1) clang version %s", "Homebrew clang version %s", "clang version %s\nTarget: x"]
# what no version can be told from: usable all the same
ODD = ["clang trunk", "some vendor's compiler", "clang version", "clang version unknown"]
BAD = ["missing", "text", "truncated", "other", "dir", "empty", "vanish", "noperm-text"]


def preload():
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    import ctypes.util
    import importlib.metadata
    import argparse, logging, tempfile, subprocess, textwrap, pkgutil, collections  # noqa
    from clang import cindex  # noqa
    assert not cindex.Config.loaded
    assert "ctypeslib" not in sys.modules


def setup(shared, tier):
    t = os.path.join(shared, "template.so")
    with open(t + ".c", "w") as f:
        f.write(TEMPLATE.replace("data; unsigned flags;", "data;").replace("{ text, 0 }", "{ text }"))
    libs.cc(t, open(t + ".c").read())
    libs.cc(os.path.join(shared, "other.so"), "int unrelated(void) { return 1; }")


def full(r, v):
    if "." in v:
        return v + r.choice([".0", ".1", ".2"])
    return v + r.choice([".0.0", ".0.1", ".0.6", ".1.8"])


def gen(r, index, tier):
    pyv = full(r, r.choice(VERSIONS[:19]))
    # versions to come (and long gone): one major number can begin with another
    odd = r.random() < 0.12
    some = ["1.9", "2", "3.4", "30", "70", "100", "181", "9", "90"] if odd else VERSIONS
    if odd and r.random() < 0.7:
        pyv = full(r, r.choice(some + ["1.9", "2", "3.4", "9"]))
    major = pyv.split(".")[0]
    inst = {}

    def cand(v):
        x = r.random()
        if x < pbad:
            return {"kind": r.choice(BAD)}
        if r.random() < 0.06:
            return {"kind": "ok", "v": "Unknown", "form": r.randrange(len(ODD))}
        return {"kind": "ok", "v": v, "form": r.randrange(len(FORMS))}
    pbad = r.choice([0.2, 0.5, 0.8, 1.0])
    if r.random() < 0.25:
        inst["clang-" + pyv] = cand(pyv)
    if r.random() < 0.5:
        inst["clang-" + major] = cand(full(r, major))
    for n in ("libclang", "clang"):
        if r.random() < 0.35:
            inst[n] = cand(full(r, r.choice(some + VERSIONS)))
    for v in r.sample(VERSIONS, r.choice([0, 0, 1, 1, 2, 4])):
        inst.setdefault("clang-" + v, cand(full(r, v)))
    if inst and r.random() < 0.25:
        # two names of one installed library
        of = r.choice(sorted(inst))
        inst.setdefault(r.choice(["libclang", "clang"]), {"alias": of})
    env = None
    x = r.random()
    if x < 0.15:
        env = {"as": "nopath"}
    elif x < 0.5:
        env = {"as": r.choice(["file", "file", "dir"]), "c": cand(full(r, r.choice(some + VERSIONS)))}
        if env["c"]["kind"] in ("missing", "vanish", "dir"):
            env["c"]["kind"] = "text"
        if env["as"] == "dir" and r.random() < 0.2:
            env["c"] = {"kind": "emptydir"}
        env["rel"] = r.random() < 0.15
    elif x < 0.55:
        env = {"as": "empty"}
    return {"py": pyv, "inst": inst, "env": env, "soname": r.random() < 0.5}


def make(path, c, shared):
    k = c["kind"]
    if k == "missing":
        return
    if k == "vanish":
        k = "text"
    if k == "dir":
        os.mkdir(path)
        return
    if k == "other":
        shutil.copyfile(os.path.join(shared, "other.so"), path)
        return
    data = open(os.path.join(shared, "template.so"), "rb").read()
    if k == "ok":
        s = (ODD[c["form"]] if c["v"] == "Unknown" else FORMS[c["form"]] % c["v"]).encode()
        i = data.index(b"@VERSION@")
        data = data[:i] + s + b"\0" + data[i + len(s) + 1:]
    elif k == "truncated":
        data = data[:40]
    elif k == "text" or k == "noperm-text":
        data = b"/* GNU ld script */ INPUT ( libclang.so.1 )\n"
    elif k == "empty":
        data = b""
    with open(path, "wb") as f:
        f.write(data)
    if k == "noperm-text":
        os.chmod(path, 0)


def the_import(paths, vanish, env, pyv, soname):
    """In a process of its own: import ctypeslib in this installation."""
    import ctypes.util
    order = []
    if soname:
        # the search gives names, which the dynamic linker looks for in the installation
        where = dict((os.path.basename(p), p) for p in paths.values())
        dlopen = ctypes._dlopen
        ctypes._dlopen = lambda name, *mode: dlopen(where.get(name, name), *mode)

    def find_library(name):
        order.append(name)
        p = paths.get(name)
        if p in vanish and os.path.exists(p):
            os.remove(p)
        return os.path.basename(p) if soname and p else p
    ctypes.util.find_library = find_library
    real = importlib.metadata.version

    def version(name):
        return pyv if name == "clang" else real(name)
    importlib.metadata.version = version
    os.environ.pop("CLANG_LIBRARY_PATH", None)
    if env is not None:
        os.environ["CLANG_LIBRARY_PATH"] = env
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            import ctypeslib
            out = {"import": "ok"}
        except BaseException as e:
            return {"import": "%s: %s" % (type(e).__name__, e), "warnings": [str(w.message) for w in ws]}
    out["warnings"] = [str(w.message) for w in ws]
    try:
        out["version"] = ctypeslib.clang_version()
    except Exception as e:
        out["version"] = "none (%s)" % type(e).__name__
    out["py"] = ctypeslib.clang_py_version()
    out["api"] = [callable(getattr(ctypeslib, n, None)) for n in ("translate", "translate_files")]
    return out


def run(world, ctx):
    d = ctx.mkdir("inst")
    paths, vanish = {}, []
    inst = dict((n, c) for n, c in world["inst"].items() if "alias" not in c)
    for i, n in enumerate(sorted(inst)):
        c = inst[n]
        p = os.path.join(d, "cand%d.so" % i)
        make(p, c, ctx.shared)
        paths[n] = p
        if c["kind"] == "vanish":
            vanish.append(p)
    for n, c in world["inst"].items():
        if "alias" in c and c["alias"] in paths:
            paths[n] = paths[c["alias"]]
            inst[n] = inst[c["alias"]]
    world = dict(world, inst=inst)
    env = None
    e = world["env"]
    if e:
        if e["as"] == "empty":
            env = ""
        elif e["as"] == "nopath":
            env = os.path.join(d, "not", "there.so")
        elif e["as"] == "file":
            env = os.path.join(d, "userlib.so")
            make(env, e["c"], ctx.shared)
        else:
            env = os.path.join(d, "userdir")
            os.mkdir(env)
            if e["c"]["kind"] != "emptydir":
                make(os.path.join(env, "libclang.so"), e["c"], ctx.shared)
        if e.get("rel"):
            env = "./" + os.path.relpath(env, os.getcwd())
    # the model
    tiers = []
    if e and "c" in e:
        tiers.append([e["c"]])
    major = world["py"].split(".")[0]
    match = [n for n in ("clang-" + world["py"], "clang-" + major) if n in world["inst"]]
    tiers.append([world["inst"][n] for n in match])
    tiers.append([world["inst"][n] for n in sorted(world["inst"]) if n not in match])
    usable = []
    before = 0
    for t in tiers:
        usable = [c["v"] for c in t if c["kind"] == "ok"]
        before += sum(c["kind"] != "ok" for c in t)
        if usable:
            break
    ctx.nontrivial = before > 0 or not usable
    kinds = [[c["kind"] for c in t] for t in tiers]
    for t in kinds:
        for k in t:
            if k != "ok":
                ctx.count("fault:candidate-" + k)
    if e and e["as"] == "nopath":
        ctx.count("fault:env-nopath")
    got = ctx.fresh(the_import, paths, vanish, env, world["py"], world["soname"])
    ctx.steps += 1
    ctx.log(kinds, got.get("version"), len(got["warnings"]), got["import"])
    ctx.state(kinds, e["as"] if e else None, [u.split(".")[0] == major for u in usable])
    what = "bindings %s, environment %s, candidates %s" % (
        world["py"], e and (e["as"], e.get("c")), dict((n, c["v"] if c["kind"] == "ok" else c["kind"]) for n, c in sorted(world["inst"].items())))
    if got["import"] != "ok":
        raise core.Violation("import-failed", "%s: the import raised %s" % (what, got["import"]))
    if got["py"] != world["py"] or not all(got["api"]):
        raise core.Violation("incomplete-import", "%s: got %s" % (what, core.clip(got)))
    if not usable:
        ctx.count("none usable")
        if not got["version"].startswith("none"):
            raise core.Violation("unusable-selected", "%s: nothing is usable, but version %s is reported" % (what, got["version"]))
        if not got["warnings"]:
            raise core.Violation("no-warning", "%s: nothing is usable and no warning was given" % what)
        return
    ctx.count("usable")
    if got["version"] not in usable:
        raise core.Violation("wrong-library", "%s: version %s is used, the preferred one has %s" % (
            what, got["version"], " or ".join(sorted(set(usable)))))
    if got["version"] != "Unknown" and got["version"].split(".")[0] != major:
        ctx.count("mismatch")
        if not any(got["version"] in w and world["py"] in w for w in got["warnings"]):
            raise core.Violation("mismatch-not-announced", "%s: version %s was selected without a warning (warnings: %s)" % (
                what, got["version"], core.clip(got["warnings"], 300)))


def shrinks(w):
    for n in sorted(w["inst"]):
        i2 = dict(w["inst"])
        del i2[n]
        yield dict(w, inst=i2)
    if w["soname"]:
        yield dict(w, soname=False)
    if w["env"]:
        yield dict(w, env=None)
        if w["env"].get("rel"):
            yield dict(w, env=dict(w["env"], rel=False))
    for n in sorted(w["inst"]):
        c = w["inst"][n]
        if c.get("kind", "ok") not in ("ok", "text"):
            yield dict(w, inst=dict(w["inst"], **{n: {"kind": "text"}}))
