"""S09: generated bindings load against a library that lost functions."""
import ctypes
import importlib.util
import io
import os
import shutil
import subprocess
import sys

from sim import core, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded deployments: bindings generated against complete libraries, then loaded in fresh processes after a "
             "seeded subset of exports (or the whole library) was lost, against a model of what must remain")
NOTE = ("Sampled interfaces, output styles and lost subsets (about 1200 quick, 24000 thorough); remaining functions are "
        "compared with the complete deployment and called.")
RUNS = {"quick": 1200, "thorough": 24000}
RULE = ("a world is 1-3 libraries with seeded functions (some exported by several), an output style (comments, docstrings, "
        "locations, kinds, entry point, preload), and up to five later deployments: each library keeps a subset of its functions, "
        "is missing, or is not a library any more. Non-trivial: a deployment lost at least one function and kept one.")
SIMTIME = "no clock in the code under test; one step is one deployment loaded"
STATES = "distinct (style, libraries, number lost, position of the lost ones) deployments"
REAL = ["ctypeslib (all of it)", "generated modules", "libclang", "nm", "ctypes/dlopen", "libraries built by gcc"]
STUB = ["what the file system holds at load time"]
ASSUMPTIONS = ["loading means executing or importing the module; star imports are not considered",
               "variables are not lost (the property is about functions)"]

RET = {"int": 11, "long": 100000000007, "short": 300, "unsigned char": 200, "double": 2.5, "unsigned int": 4000000000,
       "long long": -5, "float": 0.5, "void": None, "signed char": -7,
       # pointers: the number is the address
       "void *": 0x1000000, "struct S0 *": 0x2000000, "S0_t *": 0x3000000, "int **": 0x4000000, "double *": 0x5000000,
       "struct a_record_with_quite_a_long_name **": 0x6000000, "a_callback_with_quite_a_long_name": 0x7000000,
       "struct a_record_never_defined_here *": 0x8000000, "S0_t ***": 0x9000000, "cb_t": 0xa000000}
ARGS = ["struct a_record_with_quite_a_long_name *", "a_callback_with_quite_a_long_name", "cb_t", "int **",
        "struct a_record_never_defined_here **", "union U0 *", "int", "long", "double", "const char *", "void *", "struct S0 *", "short", "unsigned int", "S0_t *", "enum E0"]
PRE = """struct S0 { int a; char *n; };
typedef struct S0 S0_t;
enum E0 { E0_A, E0_B };
union U0 { int i; float f; };
struct a_record_with_quite_a_long_name { S0_t s; struct a_record_with_quite_a_long_name *next; };
struct a_record_never_defined_here;
typedef struct a_record_with_quite_a_long_name *(*a_callback_with_quite_a_long_name)(struct a_record_with_quite_a_long_name *, int, S0_t *);
typedef int (*cb_t)(int);
"""


def preload():
    ops.load_ctypeslib()


def gen(r, index, tier):
    funcs = []
    # a world has few result types, so that functions share them
    rets = r.sample(sorted(RET), r.choice([1, 2, 3, 6, len(RET)]))
    for i in range(r.randint(2, 9)):
        funcs.append({"n": r.choice(["f%d", "do_%d", "X%d", "get%d_v", "_h%d", "__q%d__"]) % i, "ret": r.choice(rets),
                      "args": [r.choice(ARGS) for _ in range(r.randint(0, 4))],
                      "c": r.random() < 0.3, "h": r.randrange(2), "nf": r.random() < 0.1})
    nl = r.choice([1, 1, 2, 3])
    ex = []
    for l in range(nl):
        ex.append(sorted(i for i in range(len(funcs)) if r.random() < (0.9 if nl == 1 else 0.55)))
    deps = []
    for _ in range(r.randint(1, 5)):
        d = []
        for l in range(nl):
            x = r.random()
            if x < 0.06:
                d.append(r.choice(["gone", "text", "dir"]))
            elif x < 0.25:
                d.append(ex[l])
            elif x < 0.33:
                d.append([])
            elif x < 0.55 and ex[l]:
                # all but one, or one only
                k = r.choice(ex[l])
                d.append([i for i in ex[l] if i != k] if r.random() < 0.7 else [k])
            else:
                d.append([i for i in ex[l] if r.random() < 0.5])
        deps.append({"libs": d, "load": r.choice(["exec", "import", "api"])})
    spec = {}
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.4:
            spec[k] = True
    if r.random() < 0.3:
        spec["kinds"] = r.choice(["f", "fs", "cdefmstu", "fst"])
    return {"funcs": funcs, "ex": ex, "deps": deps, "spec": spec, "var": r.random() < 0.3,
            "samebase": r.random() < 0.25, "preload": r.random() < 0.1, "gen": r.choice(["cli", "files", "cliout"])}


def value(i, lib, ret):
    v = RET[ret]
    if v is None:
        return None
    if ret in ("double", "float"):
        return v + 4 * lib + 16 * i
    if ret in ("unsigned char", "signed char"):
        return v + (lib + 3 * i if v > 0 else -(lib + 3 * i))
    return v + 100 * lib + i


def proto(f):
    return "%s %s(%s)" % (f["ret"], f["n"], ", ".join("%s a%d" % (a, i) for i, a in enumerate(f["args"])) or "void")


def headers(world, d):
    out = []
    for h in range(2):
        t = "#ifndef H%d\n#define H%d\n" % (h, h)
        t += PRE if h == 0 else '#include "h0.h"\n'
        for f in world["funcs"]:
            if f["h"] == h:
                if f["c"]:
                    t += "/** \\brief %s it */\n" % f["n"]
                t += proto(f) + ";\n"
        if h == 0 and world["var"]:
            t += "extern int the_var;\n"
        t += "#endif\n"
        p = os.path.join(d, "h%d.h" % h)
        with open(p, "w") as fl:
            fl.write(t)
        out.append(p)
    return out


def lib_code(world, l):
    out = [PRE]
    for i, f in enumerate(world["funcs"]):
        v = value(i, l, f["ret"])
        body = "" if v is None else "return (%s)%s;" % (f["ret"], v)
        out.append("%s { %s }" % (proto(f), body))
    if world["var"] and l == 0:
        out.append("int the_var = 41;")
    out.append("int always_%d(void) { return 1; }" % l)
    return "\n".join(out)


def build(world, l, keep, path, src):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    if keep == "gone":
        return
    if keep == "dir":
        os.mkdir(path)
        return
    if keep == "text":
        with open(path, "w") as f:
            f.write("not a library\n")
        return
    # the complete library with the names of the lost functions overwritten
    if not os.path.exists(src + ".all"):
        subprocess.run(["gcc", "-O0", "-s", "-w", "-fPIC", "-shared", "-o", src + ".all", src], check=True)
    with open(src + ".all", "rb") as f:
        data = f.read()
    for i, f in enumerate(world["funcs"]):
        if i not in keep:
            name = b"\0" + f["n"].encode() + b"\0"
            assert name in data
            data = data.replace(name, b"\0" + b"#" * len(f["n"]) + b"\0")
    with open(path, "wb") as f:
        f.write(data)


def spec_of(world):
    spec = dict(world["spec"], dlls=list(range(len(world["ex"]))))
    if world["preload"]:
        spec["preload"] = [0]
    return spec


def generate(world, hdrs, libpaths, outpath):
    import ctypeslib
    spec = spec_of(world)
    try:
        if world["gen"] == "files":
            o = io.StringIO()
            ctypeslib.translate_files(hdrs, o, ops.make_cfg(spec, libpaths))
            return ["ok", o.getvalue()]
        args = ops.cli_args(spec, libpaths) + (["-o", outpath] if world["gen"] == "cliout" else []) + hdrs
        res = ops.do_cli(args)
        if res[1] != 0:
            return ["err", res]
        if world["gen"] == "cliout":
            with open(outpath, encoding="utf-8") as f:
                return ["ok", f.read()]
        return ["ok", res[2]]
    except Exception as e:
        return ops.err(e)


def observe(ns, world):
    """What a user of the module has."""
    out = {}
    for i, f in enumerate(world["funcs"]):
        fn = ns.get(f["n"])
        if fn is None:
            continue
        o = {"doc": getattr(fn, "__doc__", None)}
        if isinstance(fn, ctypes._CFuncPtr):
            o["restype"] = ops.type_key(fn.restype, 2)
            o["argtypes"] = [ops.type_key(a, 2) for a in fn.argtypes] if fn.argtypes is not None else None
            args = []
            for a in (fn.argtypes or ()):
                if issubclass(a, ctypes._CFuncPtr):
                    args.append(a())
                    continue
                args.append(None if issubclass(a, (ctypes._Pointer, ctypes.c_void_p, ctypes.c_char_p)) else a(1))
            try:
                v = fn(*args)
                if isinstance(v, (ctypes._Pointer, ctypes._CFuncPtr)):
                    v = ctypes.cast(v, ctypes.c_void_p).value
                o["value"] = v
            except Exception as e:
                o["value"] = "raised %s" % type(e).__name__
        else:
            o["stub"] = type(fn).__name__
        out[f["n"]] = o
    names = sorted(k for k in ns.get("__all__", ()) if k in ns and k not in out)
    return out, names, ns["the_var"].value if world["var"] and "the_var" in ns and hasattr(ns["the_var"], "value") else None


def load(world, code, how, hdrs, libpaths, outpath):
    """In a fresh process: load the module as deployed now."""
    try:
        if how == "import":
            with open(outpath, "w") as f:
                f.write(code)
            s = importlib.util.spec_from_file_location("bindings", outpath)
            mod = importlib.util.module_from_spec(s)
            sys.modules["bindings"] = mod
            s.loader.exec_module(mod)
            ns = vars(mod)
        else:
            ns = {"__name__": "bindings"}
            exec(compile(code, "bindings.py", "exec"), ns)
    except Exception as e:
        return ops.err(e)
    return ["ok", observe(ns, world)]


def load_api(world, keep, hdrs, libpaths, srcs):
    """The API generates and loads in one call: the libraries lose their
    functions after they were listed."""
    import ctypeslib
    try:
        cfg = ops.make_cfg(spec_of(world), libpaths)
        for l, k in enumerate(keep):
            build(world, l, k, libpaths[l], srcs[l])
        ns = ctypeslib.translate_files(hdrs, cfg=cfg)
    except Exception as e:
        return ops.err(e)
    return ["ok", observe(ns, world)]


def run(world, ctx):
    if not world["funcs"] or not world["ex"]:
        raise core.Skip("nothing left")
    d = ctx.mkdir("src")
    hdrs = headers(world, d)
    libpaths, srcs = [], []
    for l, ex in enumerate(world["ex"]):
        p = ctx.path("d%d" % l, "libx.so") if world["samebase"] else ctx.path("lib", "lib%d.so" % l)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        s = ctx.write("src/l%d.c" % l, lib_code(world, l))
        build(world, l, ex, p, s)
        libpaths.append(p)
        srcs.append(s)
    outpath = ctx.path("bindings.py")
    code = ctx.fresh(generate, world, hdrs, libpaths, outpath)
    if code[0] != "ok":
        raise core.Skip("not generated: %s" % code[1:])
    code = code[1]
    base = ctx.fresh(load, world, code, "exec", hdrs, libpaths, outpath)
    if base[0] != "ok":
        raise core.Violation("complete-load-failed", "the module does not load with the complete libraries: %s" % base[1:])
    full, names, var = base[1]
    owner = {}
    for i, f in enumerate(world["funcs"]):
        owner[f["n"]] = next((l for l, ex in enumerate(world["ex"]) if i in ex), None)
    for k, dep in enumerate(world["deps"]):
        ctx.steps += 1
        keep = [x for x in dep["libs"]][:len(world["ex"])]
        keep += world["ex"][len(keep):]
        for l, kp in enumerate(keep):
            build(world, l, world["ex"][l] if dep["load"] == "api" else kp, libpaths[l], srcs[l])
        if dep["load"] == "api":
            got = ctx.fresh(load_api, world, keep, hdrs, libpaths, srcs)
        else:
            got = ctx.fresh(load, world, code, dep["load"], hdrs, libpaths, outpath)
        used = set(owner[n] for n in full if owner[n] is not None)
        hasvar = "the_var" in names
        if hasvar:
            used.add(0)
        if world["preload"]:
            used.add(0)
        gone = [l for l in used if isinstance(keep[l], str)]
        lost = sorted(n for n in full if owner[n] is not None and not isinstance(keep[owner[n]], str) and
                      [f["n"] for f in world["funcs"]].index(n) not in keep[owner[n]])
        what = "style %s, %s, lost %s, gone %s" % (sorted(k for k, v in world["spec"].items() if v), dep["load"], lost, gone)
        ctx.count("fault:lost-functions", len(lost))
        ctx.count("fault:lost-library", len(gone))
        ctx.count("deployments")
        order = [n for n in full]
        ctx.state(sorted(world["spec"]), dep["load"], len(lost), [order.index(n) for n in lost][:3], len(full), len(gone))
        ctx.log(k, what, ctx.dig(got))
        if gone:
            unneeded = not [n for n in full if owner[n] in gone] and not (0 in gone and (hasvar or world["preload"]))
            if got[0] == "ok" and not unneeded:
                raise core.Violation("loaded-without-library", "%s: loading succeeded although library %s is gone" % (what, gone))
            continue
        if got[0] != "ok":
            raise core.Violation("load-failed", "%s: %s" % (what, got[1:]))
        gf, gn, gv = got[1]
        if lost and len(lost) < len(full):
            ctx.nontrivial = True
        for n in full:
            if n in lost:
                if n in gf:
                    raise core.Violation("lost-function-defined", "%s: %s is defined: %s" % (what, n, gf[n]))
                continue
            if n not in gf:
                raise core.Violation("function-missing", "%s: %s is undefined though its library has it" % (what, n))
            if gf[n] != full[n]:
                raise core.Violation("function-changed", "%s: %s is %s, with the complete library %s" % (what, n, gf[n], full[n]))
            i = [f["n"] for f in world["funcs"]].index(n)
            f = world["funcs"][i]
            if owner[n] is not None and gf[n].get("value") != value(i, owner[n], f["ret"]):
                raise core.Violation("wrong-function", "%s: %s returned %r, its library's returns %r" % (
                    what, n, gf[n].get("value"), value(i, owner[n], f["ret"])))
        if gn != names or gv != var:
            raise core.Violation("other-names", "%s: other names are %s, should be %s" % (what, gn, names))


def shrinks(w):
    for i in range(len(w["deps"])):
        yield dict(w, deps=w["deps"][:i] + w["deps"][i + 1:])
    n = len(w["funcs"])
    for i in range(n):
        def cut(x):
            return x if isinstance(x, str) else [j - (j > i) for j in x if j != i]
        yield dict(w, funcs=w["funcs"][:i] + w["funcs"][i + 1:], ex=[cut(x) for x in w["ex"]],
                   deps=[dict(d, libs=[cut(x) for x in d["libs"]]) for d in w["deps"]])
    if len(w["ex"]) > 1:
        for l in range(len(w["ex"])):
            yield dict(w, ex=w["ex"][:l] + w["ex"][l + 1:], deps=[dict(d, libs=d["libs"][:l] + d["libs"][l + 1:]) for d in w["deps"]])
    for k in ("var", "samebase", "preload"):
        if w[k]:
            yield dict(w, **{k: False})
    if w["gen"] != "files":
        yield dict(w, gen="files")
    for k in sorted(w["spec"]):
        sp = dict(w["spec"])
        del sp[k]
        yield dict(w, spec=sp)
    for i, f in enumerate(w["funcs"]):
        if f["args"]:
            yield dict(w, funcs=w["funcs"][:i] + [dict(f, args=[])] + w["funcs"][i + 1:])
    for i, d in enumerate(w["deps"]):
        if d["load"] != "exec":
            yield dict(w, deps=w["deps"][:i] + [dict(d, load="exec")] + w["deps"][i + 1:])
