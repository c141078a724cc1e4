"""Runs of the API and of the command line under the I/O shim (native/simio.c):
source trees, the emulation of a process around main(), traces and faults."""
import ctypes
import errno
import gc
import io
import locale
import logging
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile

from sim import core, csrc, ops

SHIM = "simio.so"


# ------------------------------------------------------------------ the shim

def build(shared):
    out = os.path.join(shared, SHIM)
    subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", out,
                    os.path.join(core.VERIF, "sim", "native", "simio.c"), "-ldl"], check=True)


def worker_env(shared):
    return {"LD_PRELOAD": os.path.join(shared, SHIM)}


def preload():
    """In the worker: the children of the code under test run without the shim."""
    path = os.environ.pop("LD_PRELOAD")
    lib = ctypes.CDLL(path)
    lib.simio_start.argtypes = [ctypes.c_char_p]
    lib.simio_count.restype = ctypes.c_long
    global _lib
    _lib = lib
    ops.load_ctypeslib()
    import runpy  # noqa: F401  (used in the forked children)
    import traceback  # noqa: F401
    import encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa: F401,E401
    # the first parse initialises parts of libclang: not in the worker, every
    # run starts from a library that was never used


def conf(trace, roots, watch=(), faults=(), clock=0, pid=0, rand=1, gate=None):
    out = ["trace\t" + trace, "rand\t%d" % rand] + ["root\t" + r for r in roots] + ["watch\t%d" % w for w in watch]
    for f in faults:
        out.append("\t".join(str(x) for x in f))
    if clock:
        out.append("clock\t%d" % clock)
    if pid:
        out.append("pid\t%d" % pid)
    if gate:
        out.append("gate\t%d\t%d" % gate[:2])
    return "\n".join(out) + "\n"


def start(c):
    rc = _lib.simio_start(os.fsencode(c))
    if rc:
        raise RuntimeError("simio_start %d" % rc)


def stop():
    _lib.simio_stop()


def read_trace(path):
    """[(number or None, op, path, extra, what, errno)]"""
    out = []
    try:
        with open(path, "rb") as f:
            data = f.read()
    except FileNotFoundError:
        return out
    if len(data) < 8:
        return out
    n = struct.unpack("<q", data[:8])[0]
    for line in data[8:8 + n].decode("utf-8", "surrogateescape").splitlines():
        p = line.split("\t")
        if len(p) != 6:
            continue
        out.append((None if p[0] == "-" else int(p[0]), p[1], p[2], p[3], p[4], int(p[5])))
    os.unlink(path)
    return out


# ------------------------------------------------------------------ source trees

def gen_tree(r, lang="c", nfiles=None, feats=None, big=0.1):
    """Listed files and headers; every file has its own names."""
    feats = feats or {}
    nh = r.choice([0, 1, 1, 2, 3])
    hdrs = []
    for i in range(nh):
        src = csrc.gen_source(r, r.randint(1, 4), prefix="h%d_" % i, lang=lang, features=feats)
        hdrs.append({"d": src["decls"], "inc": sorted(set(r.randrange(i) for _ in range(r.choice([0, 1, 2]))) if i else []),
                     "name": r.choice(["h%d.h", "inc/h%d.h", "sub dir/h%d.h"]) % i, "big": r.random() < big})
    n = nfiles or r.choice([1, 1, 1, 2, 3])
    files = []
    for i in range(n):
        src = csrc.gen_source(r, r.randint(1, 5), prefix="s%d_" % i, lang=lang, features=feats)
        inc = sorted(set(r.randrange(nh) for _ in range(r.choice([0, 1, 2])))) if nh else []
        files.append({"d": src["decls"], "inc": inc, "name": r.choice(["f%d.h", "f%d.h", "f%d.c", "d/f%d.h"]) % i,
                      "big": r.random() < big})
    return {"lang": lang, "hdrs": hdrs, "files": files}


FILL = "".join("/* filler line %04d of a longer file, which is read by mapping it */\n" % i for i in range(320))


def render(f, guard, up):
    t = "#ifndef %s\n#define %s\n" % (guard, guard)
    t += "".join('#include "%s"\n' % u for u in up)
    if f.get("big"):
        t += FILL
    t += "".join(d["c"] + "\n" for d in f["d"])
    for x in f.get("extra", ()):
        t += x
    return t + "#endif\n"


def write_tree(ctx, tree, base="src"):
    """Returns (listed paths, header paths)."""
    ctx.mkdir(base)
    hp = [ctx.path(base, h["name"]) for h in tree["hdrs"]]
    fp = [ctx.path(base, f["name"]) for f in tree["files"]]

    def rel(to, frm):
        return os.path.relpath(to, os.path.dirname(frm))
    for kind, lst, paths in (("H", tree["hdrs"], hp), ("F", tree["files"], fp)):
        for i, f in enumerate(lst):
            up = [rel(hp[j], paths[i]) for j in f["inc"] if j < len(hp) and not (kind == "H" and j >= i)]
            ctx.write(os.path.relpath(paths[i], ctx.root), render(f, "%s%d_GUARD" % (kind, i), up))
    return fp, hp


def reachable(tree, listed):
    """Indices of the headers that the listed files include."""
    todo = [j for i in listed for j in tree["files"][i]["inc"] if j < len(tree["hdrs"])]
    seen = set()
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += [k for k in tree["hdrs"][j]["inc"] if k < j]
    return sorted(seen)


def shrink_tree(tree):
    for key in ("hdrs", "files"):
        for i, f in enumerate(tree[key]):
            def put(g):
                return dict(tree, **{key: tree[key][:i] + [g] + tree[key][i + 1:]})
            if f.get("big"):
                yield put(dict(f, big=False))
            if f["inc"]:
                yield put(dict(f, inc=[]))
            for s in csrc.shrink_source({"decls": f["d"]}):
                yield put(dict(f, d=s["decls"]))
            if f["d"]:
                yield put(dict(f, d=[]))
    if tree["hdrs"]:
        n = len(tree["hdrs"]) - 1
        fix = [dict(f, inc=[j for j in f["inc"] if j < n]) for f in tree["files"]]
        yield dict(tree, hdrs=[dict(h, inc=[j for j in h["inc"] if j < n]) for h in tree["hdrs"][:-1]], files=fix)


# ------------------------------------------------------------------ a command-line process

class Dead(Exception):
    """The emulated process would have been killed by a signal."""


def _wrap(fd, mode, enc, errors):
    if mode == "r":
        return io.TextIOWrapper(io.BufferedReader(io.FileIO(fd, "r", closefd=False)), encoding=enc, errors=errors)
    raw = io.FileIO(fd, "w", closefd=False)
    if fd == 2:
        return io.TextIOWrapper(io.BufferedWriter(raw), encoding=enc, errors="backslashreplace", line_buffering=True)
    return io.TextIOWrapper(io.BufferedWriter(raw), encoding=enc, errors=errors)


def cli_child(argv, mode, cwd, tmp, stdin, stdout, c, enc="utf-8", keep=None):
    """In a forked child: what the clang2py process does.  stdin, stdout: paths
    (or fds, or None: closed).  Returns [exit status, exception name]."""
    import runpy
    import traceback
    os.makedirs(cwd, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    os.chdir(cwd)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = None
    signal.signal(signal.SIGINT, signal.default_int_handler)
    errs = enc != "utf-8" and "surrogateescape" or "strict"
    for fd, what, flags in ((0, stdin, os.O_RDONLY), (1, stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                            (2, os.path.join(os.path.dirname(tmp), "stderr"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
        if what is None:
            os.close(fd)
        elif isinstance(what, int):
            os.dup2(what, fd)
            os.close(what)
        else:
            f = os.open(what, flags, 0o644)
            if f != fd:
                os.dup2(f, fd)
                os.close(f)
    sys.stdin = sys.__stdin__ = _wrap(0, "r", enc, errs) if stdin is not None else None
    sys.stdout = sys.__stdout__ = _wrap(1, "w", enc, errs) if stdout is not None else None
    sys.stderr = sys.__stderr__ = _wrap(2, "w", enc, errs)
    sys.argv = ["clang2py"] + list(argv)
    logging.disable(logging.NOTSET)
    before = keep() if keep else None
    what = None
    start(c)
    from sim import ctx
    owner, real_exit = os.getpid(), os._exit

    def at_once(code):
        # nothing is flushed
        if os.getpid() == owner and ctx.reply:
            stop()
            ctx.reply(("ok", {"rc": code & 255, "what": "_exit", "before": before, "after": keep() if keep else None}))
        real_exit(code)
    os._exit = at_once
    try:
        try:
            if mode == "module":
                runpy.run_module("ctypeslib.clang2py", run_name="__main__", alter_sys=True)
                rc = 0
            else:
                from ctypeslib import clang2py
                sys.exit(clang2py.main())
        except SystemExit as e:
            what = "SystemExit"
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except KeyboardInterrupt:
            what = "KeyboardInterrupt"
            rc = 130
        except BaseException as e:  # pylint: disable=broad-except
            what = type(e).__name__
            rc = 1
            traceback.print_exc()
        # what the interpreter does when it ends
        gc.collect()
        if sys.stdout is not None and not sys.stdout.closed:
            try:
                sys.stdout.flush()
            except BaseException:  # pylint: disable=broad-except
                what = (what or "") + "+flush"
                if rc == 0:
                    rc = 120
        try:
            sys.stderr.flush()
        except BaseException:  # pylint: disable=broad-except
            pass
    finally:
        stop()
        os._exit = real_exit
    after = keep() if keep else None
    return {"rc": rc & 255, "what": what, "before": before, "after": after}


def cli_exec(argv, mode, cwd, tmp, stdin, stdout, c, shared, env=None, enc="utf-8", timeout=60, shim=True):
    """A real process.  Returns the same dictionary."""
    os.makedirs(cwd, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    e = dict(os.environ)
    for k in [k for k in e if k == "LD_PRELOAD" or k.startswith("PYTHON") and k not in ("PYTHONHASHSEED", "PYTHONDONTWRITEBYTECODE")]:
        del e[k]
    e["TMPDIR"] = tmp
    e["PYTHONPATH"] = core.REPO + os.pathsep + os.path.join(core.VERIF, "sim", "site")
    e["PYTHONWARNINGS"] = "ignore"
    e["PYTHONIOENCODING"] = enc + ":strict"
    if shim:
        e["LD_PRELOAD"] = os.path.join(shared, SHIM)
        e["SIMIO_CONF"] = c
        e["SIMIO_ONCE"] = "1"
    e.update(env or {})
    if mode == "module":
        cmd = [core.PYTHON, "-m", "ctypeslib.clang2py"]
    else:
        cmd = [core.PYTHON, "-c", "import sys; from ctypeslib.clang2py import main; sys.exit(main())"]
    si = open(stdin, "rb") if isinstance(stdin, str) else stdin
    so = open(stdout, "wb") if isinstance(stdout, str) else stdout
    try:
        with open(os.path.join(os.path.dirname(tmp), "stderr"), "wb") as se:
            p = subprocess.Popen(cmd + list(argv), cwd=cwd, env=e, stdin=si if si is not None else subprocess.DEVNULL,
                                 stdout=so if so is not None else subprocess.DEVNULL, stderr=se)
    finally:
        for f in (si, so):
            if hasattr(f, "close"):
                f.close()
            elif isinstance(f, int) and f > 2:
                os.close(f)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        from sim.ctx import ChildTimeout
        raise ChildTimeout("no end of the process after %s s" % timeout)
    return {"rc": rc & 255 if rc >= 0 else 128 - rc, "what": "exec", "before": None, "after": None}


def api_child(api, args, cfgspec, c, out=None, keep=None, libs=()):
    """In a forked child: one API call under the shim.  out: None (StringIO) or
    a callable that makes the stream."""
    import ctypeslib
    stream = out() if out else io.StringIO()
    before = keep() if keep else None
    res = None
    start(c)
    try:
        try:
            cfg = ops.make_cfg(cfgspec, libs)
            if api == "files":
                ctypeslib.translate_files(list(args), stream, cfg)
                res = ["ok", None]
            elif api == "file":
                ctypeslib.translate_files(args[0], stream, cfg)
                res = ["ok", None]
            elif api == "string":
                ctypeslib.translate(args[0], stream, cfg)
                res = ["ok", None]
            elif api == "load_files":
                res = ["ok", ops.module_summary(ctypeslib.translate_files(list(args), cfg=cfg))]
            elif api == "load_string":
                res = ["ok", ops.module_summary(ctypeslib.translate(args[0], cfg=cfg))]
        except KeyboardInterrupt:
            res = ["err", "KeyboardInterrupt", ""]
        except Exception as e:  # pylint: disable=broad-except
            res = ops.err(e)
            del e
    finally:
        stop()
    gc.collect()
    after = keep() if keep else None
    text = stream.getvalue() if hasattr(stream, "getvalue") else None
    return {"res": res, "text": text, "before": before, "after": after}


def code_lines(text):
    """The lines of a partial output that are code."""
    return [x for x in text.splitlines() if x.strip() and not x.lstrip().startswith("#")]


ERR = {n: getattr(errno, n) for n in ("ENOENT", "EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EINTR",
                                      "ENOSPC", "EDQUOT", "EFBIG", "EPIPE", "EROFS", "EPERM", "EAGAIN", "EBADF", "ENXIO",
                                      "ENODEV", "ENOTDIR", "ENAMETOOLONG", "EOVERFLOW", "ETIMEDOUT", "EISDIR")}


def clean(ctx, *dirs):
    for d in dirs:
        shutil.rmtree(ctx.path(d), ignore_errors=True)
