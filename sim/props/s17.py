"""S17: what a finished translation used is given back: memory does not grow
with the number of translations."""
import collections
import gc
import json
import os

from sim import core, csrc, libs, ops
from sim.props import s01

LEVEL = "exploration"
TECHNIQUE = ("seeded long histories of translations in one process, with rejected, I/O-failing and interrupted ones; census of the live "
             "objects and of the data they hold at checkpoints of the history")
NOTE = ("Sampled histories of 32 rounds (about 450 quick, 6000 thorough); a suspected growth is followed over at least 700 translations, so that "
        "bounded caches are not taken for leaks. Memory inside libclang is seen only through the live translation units.")
RUNS = {"quick": 450, "thorough": 6000}
RULE = ("a world is 1-3 operations (every entry point, own sources, options, targets and libraries; some rejected, with a failing output, "
        "missing file or symbol lister, or interrupted at a chosen line) repeated in rounds, each time with other file names and "
        "declarations; objects and container elements alive after a garbage collection are counted after 16, 24 and 32 rounds. "
        "Non-trivial: at least 32 translations ended as planned.")
SIMTIME = "no clock in the code under test; the unit is the translation (simulated_steps)"
STATES = "distinct (entry point, ending, option names, library use) combinations"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "nm", "the garbage collector"]
STUB = ["output streams (may fail)", "interrupt delivery (exception at a chosen line of the code under test)"]
ASSUMPTIONS = ["memory is measured as live Python objects (which own the libclang translation units), container elements and text held",
               "loaded modules are sampled with records and enums only: the ctypes module itself keeps pointer and function types for ever"]
TIMEOUT = 120.0
STOP = 4

RECORDS = ("struct R0 { int a; char b[3]; };\nunion R1 { int i; double d; struct R0 r; };\ntypedef struct R0 R0_t;\n"
           "enum R2 { R2_A, R2_B = 7 };\nstruct R3 { struct { short x; unsigned y:3; } in; union R1 u; };\n#define R4 12\n")


def preload():
    ops.load_ctypeslib()


def setup(shared, tier):
    libs.pool(shared)


def gen(r, index, tier):
    out = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        lang = "c++" if r.random() < 0.12 else "c"
        src = csrc.gen_source(r, r.randint(1, 5), safe=r.random() < 0.6, lang=lang, features={"comments": r.random() < 0.4})
        names = sorted(set(d["n"].split()[-1] for d in src["decls"]))[:20]
        cfg = ops.gen_cfg(r, 3, names, lang) if r.random() < 0.8 else {"clang": ["-x", "c++"]} if lang == "c++" else {}
        o = {"op": "tr", "api": r.choice(["string", "string", "files", "files", "file", "cli", "load_string", "load_files"]), "src": src, "cfg": cfg,
             "fault": None, "rel": r.random() < 0.5, "n": r.choice([1, 1, 2, 3]), "shared": r.random() < 0.3}
        if o["api"].startswith("load"):
            o["cfg"] = {k: v for k, v in cfg.items() if k in ("comments", "docs", "locs", "filter")}
        elif r.random() < 0.45:
            o["fault"] = k = r.choice(["out_err", "interrupt", "interrupt", "missing", "syntax", "badopt", "nm"])
            if k in ("out_err", "interrupt", "syntax", "badopt"):
                o["api"] = r.choice(["string", "files"])
            if k == "out_err":
                o["nth"] = r.randint(0, 4)
            if k == "interrupt":
                o["at"] = round(r.random(), 4)
                o["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
            if k == "missing":
                o["api"] = r.choice(["files", "file", "cli"])
        if o["api"] == "cli" and not o["fault"]:
            o["stdin"] = r.random() < 0.3
            o["dest"] = r.random() < 0.4
        out.append(o)
    return {"ops": out}


def text_of(o, k):
    """The source of round k: names of its own, the same shape and length."""
    u = "u%05d" % k
    if o["api"].startswith("load"):
        return RECORDS + "struct %s { int %s_f; };\nenum e%s { %s_v = 3 };\n" % (u, u, u, u)
    return csrc.text(o["src"]) + (
        "\n#define M%s 5\nstruct %s { int %s_f; struct %s *%s_n; };\nenum e%s { %s_v };\ntypedef struct %s %s_t;\nint %s_fn(struct %s *a, int b);\n"
        "extern int %s_x;\n" % (u, u, u, u, u, u, u, u, u, u, u, u))


class Round:
    def __init__(self, ctx, world):
        self.ctx = ctx
        self.ops = world["ops"]
        self.libpaths = libs.pool_paths(ctx.shared)
        self.lines = [None] * len(self.ops)
        self.made = 0

    def one(self, i, k):
        o = self.ops[i]
        d = self.ctx.path("src")
        files = [os.path.join(d, "f%05d_%d.h" % (k, j)) for j in range(o["n"])]
        text = text_of(o, k)
        for j, f in enumerate(files):
            with open(f, "w") as s:
                s.write(text if j == 0 else "struct w%05d_%d { long a; };\n" % (k, j))
        op = dict(o, text=text, spec=dict(o["cfg"], style="assign"), files=list(range(len(files))), dir=0)
        if o.get("dest"):
            op["dest"] = os.path.join(d, "o%05d.py" % k)
        if o["fault"] == "syntax":
            with open(files[0], "a") as s:
                s.write("struct broken { int\n")
        dirs = [(d, files)]
        if o["fault"] == "interrupt" and self.lines[i] is None:
            self.lines[i] = s01.count_lines(op, dirs, {}, self.libpaths)
        res, fired = s01.execute(op, dirs, self.libpaths, self.lines[i])
        for f in files:
            os.unlink(f)
        if o.get("dest") and os.path.exists(op["dest"]):
            os.unlink(op["dest"])
        self.made += 1
        return res[0], fired is not None

    def all(self, k):
        return [self.one(i, k) for i in range(len(self.ops))]


def census(path):
    """Objects alive, elements of the containers, text they hold."""
    for _ in range(3):
        gc.collect()
    objs = gc.get_objects()
    n, el, tx = len(objs), 0, 0
    seen = set()
    for o in objs:
        if isinstance(o, (list, dict, set, frozenset, tuple, collections.deque)):
            el += len(o)
        for x in gc.get_referents(o):
            t = type(x)
            if t is str or t is bytes:
                if id(x) not in seen:
                    seen.add(id(x))
                    tx += len(x)
            elif (t is dict or t is tuple) and not gc.is_tracked(x) and id(x) not in seen:
                seen.add(id(x))
                el += len(x)
    h = collections.Counter(type(x).__module__ + "." + type(x).__name__ for x in objs)
    # on disk: the census does not count its own results
    with open(path, "w") as f:
        json.dump([{"objects": n, "elements": el, "text": tx}, h], f)


MARKS = [16, 24, 32, 64, 128, 256, 512, 768]


def results(ctx, m):
    ms = [x for x in MARKS if x <= m]
    at = {}
    for x in ms:
        with open(ctx.path("census%d" % x)) as f:
            at[x] = json.load(f)
    return ms, at


def run(world, ctx):
    if not world["ops"]:
        raise core.Skip("nothing left")
    ctx.mkdir("src")
    gc.unfreeze()
    rd = Round(ctx, world)
    k = followed = 0
    endings = collections.Counter()
    grow = []
    for m in MARKS:
        while k < m:
            for i, (kind, fired) in enumerate(rd.all(k)):
                endings[(i, kind, fired)] += 1
            k += 1
        census(ctx.path("census%d" % m))
        if m >= 32:
            ms, at = results(ctx, m)
            # growth in every interval since the 16th round
            grow = [key for key in sorted(at[m][0])
                    if all(at[b][0][key] - at[a][0][key] >= (b - a) * (0.25 if key != "text" else 4) for a, b in zip(ms, ms[1:]))]
            del at
            if not grow or rd.made >= 700:
                break
            followed += 1
    ms, at = results(ctx, m)
    for x in ms:
        ctx.log("census", x, {key: at[x][0][key] - at[16][0][key] for key in at[x][0]})
    ctx.count("growth followed further", int(bool(followed)))
    ctx.steps += rd.made
    for (i, kind, fired), n in sorted(endings.items()):
        ctx.log("ending", i, kind, fired, n)
        o = world["ops"][i]
        ctx.count("outcome:%s" % kind, n)
        if fired:
            ctx.count("fault:%s" % o["fault"], n)
        ctx.state(o["api"], kind, o["fault"] if fired else None, sorted(o["cfg"]))
    ctx.nontrivial = rd.made >= 32
    if grow:
        a, b = at[ms[-2]], at[ms[-1]]
        d = (collections.Counter(b[1]) - collections.Counter(a[1])).most_common(5)
        raise core.Violation("memory-growth", "%d translations (%s): %s; more objects of %s" % (
            rd.made, ", ".join("%s%s" % (o["api"], " ending by " + o["fault"] if o["fault"] else "") for o in world["ops"]),
            "; ".join("%s after %s rounds: %s" % (key, "/".join(map(str, ms)), "/".join(str(at[x][0][key]) for x in ms)) for key in grow), d))


def size(w):
    return len(json.dumps(w))


def shrinks(w):
    for i, o in enumerate(w["ops"]):
        if len(w["ops"]) > 1:
            yield {"ops": [o]}
    for i, o in enumerate(w["ops"]):
        for c in sorted(o["cfg"]):
            yield {"ops": w["ops"][:i] + [dict(o, cfg={k: v for k, v in o["cfg"].items() if k != c})] + w["ops"][i + 1:]}
        if o["fault"]:
            yield {"ops": w["ops"][:i] + [dict(o, fault=None)] + w["ops"][i + 1:]}
        if o["n"] > 1:
            yield {"ops": w["ops"][:i] + [dict(o, n=1)] + w["ops"][i + 1:]}
        for s in csrc.shrink_source(o["src"]):
            yield {"ops": w["ops"][:i] + [dict(o, src=s)] + w["ops"][i + 1:]}
