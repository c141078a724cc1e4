"""Translations as operations with canonical outcomes, for the properties that
compare what a process delivers with what another one delivers."""
import ctypes
import io
import logging
import os
import re
import sys

from sim import core

CTYPESLIB = os.path.join(core.REPO, "ctypeslib") + os.sep


def quiet():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def load_ctypeslib():
    """Import the code under test from /repo's working tree."""
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    quiet()
    import ctypeslib
    from ctypeslib import clang2py
    assert ctypeslib.__file__.startswith(core.REPO), ctypeslib.__file__
    assert clang2py.__file__.startswith(core.REPO)
    # load libclang itself
    from clang import cindex
    cindex.conf.lib
    return ctypeslib


KINDS = "acdefmstu"


def kind_types(kinds):
    from ctypeslib.codegen import typedesc as t
    tab = {"a": t.Alias, "c": t.Structure, "d": t.Variable, "e": t.Enumeration, "f": t.Function,
           "m": t.Macro, "s": t.Structure, "t": t.Typedef, "u": t.Union}
    return [tab[k] for k in kinds]


def make_cfg(spec, libs=()):
    """A CodegenConfig as an API user would set it up."""
    import re
    from ctypeslib.codegen.config import CodegenConfig
    from ctypeslib.library import Library
    cfg = CodegenConfig()
    if "kinds" in spec:
        cfg.types = kind_types(spec["kinds"])
    for a, k in (("generate_comments", "comments"), ("generate_docstrings", "docs"),
                 ("generate_locations", "locs"), ("filter_location", "filter"), ("verbose", "verbose")):
        if k in spec:
            setattr(cfg, a, spec[k])
    style = spec.get("style", "assign")
    for a, k in (("symbols", "symbols"), ("clang_opts", "clang")):
        if k in spec:
            if style == "assign":
                setattr(cfg, a, list(spec[k]))
            else:
                getattr(cfg, a).extend(spec[k])
    if "expr" in spec:
        ex = [re.compile(e) for e in spec["expr"]]
        if style == "assign":
            cfg.expressions = ex
        else:
            cfg.expressions.extend(ex)
    if spec.get("dlls"):
        cfg.searched_dlls = [Library(libs[i], nm="nm") for i in spec["dlls"]]
    if spec.get("preload"):
        cfg.preloaded_dlls = [libs[i] for i in spec["preload"]]
    return cfg


def cli_args(spec, libs=()):
    a = []
    if "kinds" in spec:
        a += ["-k", spec["kinds"]]
    for k, o in (("comments", "-c"), ("docs", "-d"), ("locs", "-e"), ("verbose", "-v")):
        if spec.get(k):
            a.append(o)
    if spec.get("filter") is False:
        a.append("-i")
    for s in spec.get("symbols", ()):
        a += ["-s", s]
    for s in spec.get("expr", ()):
        a += ["-r", s]
    for i in spec.get("dlls", ()):
        a += ["-l", libs[i]]
    for i in spec.get("preload", ()):
        a += ["-p", libs[i]]
    if spec.get("clang"):
        a.append("--clang-args=" + " ".join(spec["clang"]))
    return a


TARGETS = ["x86_64-linux-gnu", "i386-linux-gnu", "arm-linux-gnueabihf", "aarch64-linux-gnu",
           "powerpc64-linux-gnu", "mips-linux-gnu", "sparc-linux-gnu", "x86_64-pc-windows-msvc",
           "riscv32-linux", "s390x-linux-gnu"]


PAIRS = [["-m32", "-m64"], ["-fshort-enums", "-fno-short-enums"], ["-funsigned-char", "-fsigned-char"],
         ["-DFOO=2", "-UFOO"]]


def gen_cfg(r, nlibs=0, names=(), lang="c", target_p=0.5):
    spec = {}
    if r.random() < 0.5:
        ks = [k for k in KINDS if r.random() < 0.75]
        spec["kinds"] = "".join(ks) or "s"
    elif r.random() < 0.3:
        spec["kinds"] = "cdefmstu"
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.25:
            spec[k] = True
    if r.random() < 0.3:
        spec["filter"] = False
    if names and r.random() < 0.2:
        spec["symbols"] = sorted(set(r.choice(names) for _ in range(r.randint(1, 3))))
    if names and r.random() < 0.15:
        spec["expr"] = [r.choice(["S.*", "^f[0-3]", "struct_", "[tv][0-9]", "E", r.choice(names)])]
    clang = []
    if r.random() < target_p:
        x = r.random()
        t = r.choice(TARGETS)
        clang += ["-target", t] if x < 0.6 else ["--target=" + t] if x < 0.8 else [r.choice(["-m32", "-mx32", "-m64"])]
    if r.random() < 0.3:
        clang += [r.choice(["-fshort-enums", "-funsigned-char", "-DFOO=1", "-DFOO=1", "-DFOO=3", "-Wall", "-fpack-struct",
                            "-mlong-double-64", "-fshort-wchar"])]
    if r.random() < 0.08:
        # several options of a kind: the last one counts
        clang += r.choice(PAIRS)[::r.choice([1, -1])]
    if lang == "c++":
        clang += ["-x", "c++"]
    if clang:
        spec["clang"] = clang
    if nlibs and r.random() < 0.2:
        spec["dlls"] = sorted(set(r.randrange(nlibs) for _ in range(2)), reverse=r.random() < 0.5)
    if nlibs and r.random() < 0.08:
        spec["preload"] = [r.randrange(nlibs)]
    if r.random() < 0.4:
        spec["style"] = "inplace"
    return spec


def vary_cfg(r, spec):
    """Settings that differ from these in one small point."""
    c = {k: list(v) if isinstance(v, list) else v for k, v in spec.items()}
    cl = c.get("clang")
    x = r.random()
    if cl and x < 0.6:
        # the pairs stay together, their order changes; or one goes, or comes twice
        parts, i = [], 0
        while i < len(cl):
            w = 2 if cl[i] in ("-target", "-x") else 1
            parts.append(cl[i:i + w])
            i += w
        y = r.random()
        if y < 0.5 and len(parts) > 1:
            parts.reverse()
        elif y < 0.7:
            parts.pop(r.randrange(len(parts)))
        elif y < 0.85:
            parts.append(list(parts[0]))
        else:
            parts.append(["-DFOO=2"])
        c["clang"] = [t for q in parts for t in q]
        if not c["clang"]:
            del c["clang"]
    elif x < 0.8:
        k = c.get("kinds") or "".join(KINDS)
        c["kinds"] = "".join(sorted(set(k) ^ {r.choice(KINDS)})) or "s"
    elif x < 0.9:
        k = r.choice(["comments", "docs", "locs"])
        c[k] = not c.get(k)
    else:
        c["filter"] = not c.get("filter", True)
    return c


# ---------------------------------------------------------------- outcomes

def type_key(t, depth=0):
    """What a ctypes type is, by value."""
    if t is None:
        return "None"
    if not isinstance(t, type):
        return "obj:" + core.norm(repr(t))
    try:
        size = ctypes.sizeof(t)
    except TypeError:
        return "type:" + t.__name__
    if issubclass(t, (ctypes.Structure, ctypes.Union)):
        if depth > 3:
            return "%s/%d" % (t.__name__, size)
        fl = []
        for f in getattr(t, "_fields_", ()):
            d = getattr(t, f[0])
            fl.append([f[0], d.offset, d.size, list(f[2:]), type_key(f[1], depth + 1)
                       if not issubclass(f[1], (ctypes._Pointer, ctypes._CFuncPtr)) or depth < 1 else f[1].__name__])
        return [t.__name__, size, ctypes.alignment(t), fl]
    if issubclass(t, ctypes.Array):
        return ["array", t._length_, type_key(t._type_, depth + 1)]
    if issubclass(t, ctypes._Pointer):
        return ["ptr", t.__name__]
    if issubclass(t, ctypes._CFuncPtr):
        return ["fp", type_key(t._restype_, 4), [type_key(a, 4) for a in (t._argtypes_ or ())]]
    st = getattr(t, "_subtype_", None)
    return [t.__name__, size, getattr(t, "_type_", None) if isinstance(getattr(t, "_type_", None), str) else "?",
            getattr(st, "__name__", str(st)) if st is not None else None]


def module_summary(ns):
    """The observable content of a loaded module."""
    out = {}
    for k in sorted(ns):
        v = ns[k]
        if k.startswith("_") and k != "__all__" and k not in ns.get("__all__", ()):
            continue
        if isinstance(v, type(os)):
            continue
        if isinstance(v, type):
            out[k] = ["T", type_key(v)]
        elif isinstance(v, ctypes._CFuncPtr):
            out[k] = ["F", type_key(v.restype, 2), [type_key(a, 2) for a in (v.argtypes or ())], v.__doc__]
        elif callable(v):
            out[k] = ["callable", getattr(v, "__name__", "?")]
        else:
            out[k] = ["V", core.norm(repr(v))]
    return out


_TMP = re.compile(re.escape(os.environ.get("TMPDIR", "/tmp")) + r"/[\w.-]+")


def err(e):
    """An error outcome; scratch and temporary names are not part of it."""
    return ["err", type(e).__name__, _TMP.sub("$TMP", core.norm(str(e)))]


class FaultyOut(io.StringIO):
    """An outfile that fails at its nth write."""

    def __init__(self, nth, exc=OSError):
        io.StringIO.__init__(self)
        self.left = nth
        self.exc = exc
        self.fired = False

    def write(self, s):
        if self.left <= 0:
            self.fired = True
            raise self.exc(28, "No space left on device")
        self.left -= 1
        return io.StringIO.write(self, s)


def do_translate(op, files, cfg, out=None):
    """Run the API call of op; returns its canonical outcome."""
    import ctypeslib
    try:
        if op["api"] == "string":
            o = out or io.StringIO()
            ctypeslib.translate(op["text"], o, cfg)
            return ["ok", o.getvalue()]
        if op["api"] == "files":
            o = out or io.StringIO()
            ctypeslib.translate_files([files[i] for i in op["files"]], o, cfg)
            return ["ok", o.getvalue()]
        if op["api"] == "file":
            o = out or io.StringIO()
            ctypeslib.translate_files(files[op["files"][0]], o, cfg)
            return ["ok", o.getvalue()]
        if op["api"] == "load_string":
            return ["ok", module_summary(ctypeslib.translate(op["text"], cfg=cfg))]
        if op["api"] == "load_files":
            return ["ok", module_summary(ctypeslib.translate_files([files[i] for i in op["files"]], cfg=cfg))]
    except RecursionError as e:
        return ["err", "RecursionError"]
    except Exception as e:
        return err(e)
    raise AssertionError(op["api"])


def do_cli(args, stdin_text=None):
    """clang2py.main(argv) with its standard streams replaced."""
    from ctypeslib import clang2py
    so, se, si, argv = sys.stdout, sys.stderr, sys.stdin, sys.argv
    out = io.StringIO()
    sys.stdout, sys.stderr, sys.stdin = out, io.StringIO(), io.StringIO(stdin_text or "")
    sys.argv = ["clang2py"] + args
    # what the command line leaves behind in the logging module is reset: the
    # simulator keeps logging off (its locks are not under the scheduler)
    try:
        try:
            rc = clang2py.main(args)
            res = ["exit", rc]
        except SystemExit as e:
            res = ["exit", e.code]
        except Exception as e:
            res = err(e)
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = so, se, si, argv
    return res + [out.getvalue()]


# ---------------------------------------------------------------- interrupts

class Tracer:
    """Counts line events in the code under test (and in generated modules);
    raises at a given one: the crash point of an interrupted translation."""

    def __init__(self, at=None, exc=KeyboardInterrupt):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None

    def _interesting(self, code):
        f = code.co_filename
        return f.startswith(CTYPESLIB) or f == "<string>"

    def glob(self, frame, event, arg):
        if self._interesting(frame.f_code):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc() if self.exc is KeyboardInterrupt else self.exc("simulated interrupt")
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
