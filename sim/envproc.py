"""A process of S03: runs a batch of translations in the environment it was
started with.  Usage: python -m sim.envproc BATCH RESULT"""
import ctypes
import ctypes.util
import itertools
import json
import os
import random
import sys


def patch_identity(seed):
    """Objects of the code under test hash by a seeded sequence instead of
    their addresses."""
    r = random.Random("identity%d" % seed)
    table = {}

    def h(self):
        e = table.get(id(self))
        if e is None or e[0] is not self:
            e = table[id(self)] = (self, r.getrandbits(60))
        return e[1]
    n = 0
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("ctypeslib"):
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, type) and v.__module__.startswith("ctypeslib") and v.__hash__ is object.__hash__ \
                    and not issubclass(v, type):
                try:
                    v.__hash__ = h
                    n += 1
                except TypeError:
                    pass
    return n


def one(job, b):
    """In a forked child."""
    from sim import iosim, ops
    os.environ["TMPDIR"] = b["tmp"]
    import tempfile
    tempfile.tempdir = None
    lib = ctypes.CDLL(b["shim"])
    iosim._lib = lib
    lib.simio_start.argtypes = [ctypes.c_char_p]
    # other addresses for what follows
    r = random.Random(b["layout"])
    junk = [bytearray(r.randrange(1, 3000)) for _ in range(r.randrange(0, 2000))]
    junk2 = [object() for _ in range(r.randrange(0, 3000))]
    for i in sorted(r.sample(range(len(junk)), len(junk) // 2), reverse=True):
        del junk[i]
    for i in sorted(r.sample(range(len(junk2)), len(junk2) // 2), reverse=True):
        del junk2[i]
    patch_identity(b["identity"])
    lib.simio_start(b["machine"].encode())
    if job["api"] != "main":
        op = {"api": job["api"], "text": job.get("text"), "files": list(range(len(job["files"])))}
        try:
            cfg = ops.make_cfg(job["cfg"], b["libs"])
        except Exception as e:
            return ["err", type(e).__name__]
        res = ops.do_translate(op, job["files"], cfg)
        return res if res[0] == "ok" else res[:2]
    from sim import core
    from ctypeslib import clang2py
    argv = ops.cli_args(job["cfg"], b["libs"])
    if job["out"]:
        argv += ["-o", job["out"]]
        if os.path.exists(job["out"]):
            os.unlink(job["out"])
    files = list(job["files"])
    for fd, path, flags in ((0, files[0] if job["stdin"] else os.devnull, os.O_RDONLY),
                            (1, b["stdout"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (2, os.devnull, os.O_WRONLY)):
        f = os.open(path, flags, 0o644)
        os.dup2(f, fd)
        os.close(f)
    if job["stdin"]:
        files[0] = "-"
    import io
    # as the interpreter made them for this locale
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, closefd=False)), encoding=b0[0], errors=b0[1])
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding=b0[2], errors=b0[3])
    import logging
    logging.disable(logging.CRITICAL)
    try:
        rc = clang2py.main(argv + files)
    except SystemExit as e:
        rc = ["exit", str(e.code)]
    except Exception as e:
        rc = ["err", type(e).__name__]
    try:
        sys.stdout.flush()
    except Exception as e:
        rc = ["flush", type(e).__name__]
    out = job["out"] or b["stdout"]
    data = open(out, "rb").read().decode("utf-8", "backslashreplace") if os.path.exists(out) else ""
    return ["ok" if rc == 0 else "err", rc if rc != 0 else data]


b0 = None


def main():
    global b0
    with open(sys.argv[1], encoding="utf-8") as f:
        b = json.load(f)
    b0 = [sys.stdin.encoding, sys.stdin.errors, sys.stdout.encoding, sys.stdout.errors]
    known = b["find_library"]
    ctypes.util.find_library = known.get
    from sim import ctx, guard, ops
    guard.install()
    ops.load_ctypeslib()
    out = []
    for job in b["jobs"]:
        try:
            out.append(ctx.fork_call(one, (job, b), timeout=60))
        except ctx.ChildDied as e:
            out.append(["died", e.signal])
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump({"out": out, "enc": b0}, f)


if __name__ == "__main__":
    main()
