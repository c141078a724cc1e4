"""S13: configurations are independent and survive use unchanged."""
import io
import os
import re

from sim import core, csrc, libs, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded interleavings of operations on several configurations (assignment, in-place edits, parsing, "
             "successful, failing and interrupted use), refined against each configuration's own operations in a fresh process")
NOTE = ("Sampled operation sequences (about 1600 quick, 24000 thorough); after every step every live configuration, a "
        "new default one and the parsed option objects must have the values the reference gives them.")
RUNS = {"quick": 1600, "thorough": 24000}
RULE = ("a world is 4-30 operations over up to 4 configurations and up to 3 parsed command lines: create, assign, "
        "modify in place, parse (one parsed command line into several configurations too), translate with success, "
        "rejected input, failing output, failing library listing or an interrupt, run the command line. After each "
        "operation all other configurations, a new default one and the option objects are compared with before; at the "
        "end each configuration is compared with its own operations alone in a fresh process, and translates the same. "
        "Non-trivial: at least two configurations and one mutation.")
SIMTIME = "no clock in the code under test; the unit is the operation (simulated_steps)"
STATES = "distinct (operation, attribute, previous operation) triples with their outcomes"
REAL = ["ctypeslib (all of it)", "libclang", "clang.cindex", "nm", "argparse"]
STUB = ["output streams (may fail)", "interrupt delivery"]
ASSUMPTIONS = ["the options of a configuration are the public attributes of CodegenConfig and its cross_arch property",
               "lists the caller shares between two configurations itself are out of scope"]

LISTS = ["symbols", "expressions", "clang_opts", "preloaded_dlls", "searched_dlls", "types"]
FLAGS = ["verbose", "generate_comments", "generate_docstrings", "generate_locations", "filter_location"]


def preload():
    ops.load_ctypeslib()


def setup(shared, tier):
    libs.pool(shared)


def items(r, attr):
    n = r.randint(0, 3)
    if attr == "symbols":
        return [r.choice(["S0", "S1", "f0", "f1", "v0", "struct_S0"]) for _ in range(n)]
    if attr == "expressions":
        return [r.choice(["S.*", "f[0-4]", "v.", "E"]) for _ in range(n)]
    if attr == "clang_opts":
        return r.choice([["-target", r.choice(ops.TARGETS)], ["-DX=1"], ["-fshort-enums"], [], ["-Wall", "-DY"],
                         ["-target", "nosuchcpu-unknown"] if r.random() < 0.2 else ["-funsigned-char"]])
    if attr in ("preloaded_dlls", "searched_dlls"):
        return [r.randrange(3) for _ in range(r.choice([0, 1, 1, 2]))]
    return list("".join(k for k in ops.KINDS if r.random() < 0.5) or "s")


def gen(r, index, tier):
    srcs = [csrc.gen_source(r, r.randint(1, 5), safe=r.random() < 0.7) for _ in range(r.randint(1, 3))]
    ncl = r.randint(1, 3)
    cls = [ops.gen_cfg(r, 3, ["S0", "f0", "v0"]) for _ in range(ncl)]
    for c in cls:
        if "clang" in c and r.random() < 0.5 and c["clang"][0] == "-target":
            c["opt_t"] = c["clang"][1]
            c["clang"] = c["clang"][2:]
        if r.random() < 0.25:
            c["module"] = r.choice(["ctypes", "os.path", "collections"])
    out = []
    nc = r.randint(2, 4)
    for _ in range(r.randint(4, 30 if r.random() < 0.1 else 14)):
        c = r.randrange(nc)
        x = r.random()
        if x < 0.20:
            out.append({"op": "new", "c": c})
        elif x < 0.32:
            a = r.choice(LISTS)
            out.append({"op": "assign", "c": c, "a": a, "v": items(r, a)})
        elif x < 0.38:
            out.append({"op": "flag", "c": c, "a": r.choice(FLAGS), "v": r.random() < 0.5})
        elif x < 0.58:
            a = r.choice(LISTS)
            out.append({"op": "inplace", "c": c, "a": a, "v": items(r, a),
                        "how": r.choice(["append", "extend", "insert", "clear", "pop", "iadd"])})
        elif x < 0.62:
            out.append({"op": "known", "c": c, "v": r.choice(["S0", "c_int", "zz"])})
        elif x < 0.78:
            out.append({"op": "parse", "c": c, "cl": r.randrange(ncl)})
        elif x < 0.82:
            out.append({"op": "cli", "cl": r.randrange(ncl), "src": r.randrange(len(srcs))})
        else:
            f = r.choice([None, None, None, "syntax", "out", "missing", "interrupt", "lib"])
            out.append({"op": "use", "c": c, "src": r.randrange(len(srcs)), "fault": f,
                        "api": r.choice(["string", "files", "file", "load_string", "load_files"]),
                        "as": r.choice(["abs", "abs", "rel", "dot"]), "also": r.random() < 0.3,
                        "nth": r.randint(0, 3), "at": round(r.random(), 4)})
    return {"srcs": srcs, "cls": cls, "ops": out}


# ---------------------------------------------------------------- values

def val(x):
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, re.Pattern):
        return "re:" + x.pattern
    if hasattr(x, "_filepath"):
        return "lib:" + os.path.basename(x._filepath)
    if isinstance(x, (list, tuple)):
        return [val(i) for i in x]
    if isinstance(x, dict):
        return dict((str(k), val(v)) for k, v in sorted(x.items(), key=lambda i: str(i[0])))
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return "obj:" + type(x).__name__


ATTRS = LISTS + FLAGS + ["known_symbols", "local_platform_triple", "cross_arch"]


def value(cfg):
    """The options a caller sees."""
    return dict((a, val(getattr(cfg, a))) for a in ATTRS)


def conv(attr, v, libpaths):
    from ctypeslib.library import Library
    if attr == "expressions":
        return [re.compile(x) for x in v]
    if attr == "types":
        return ops.kind_types(v)
    if attr == "preloaded_dlls":
        return [libpaths[i] for i in v]
    if attr == "searched_dlls":
        return [Library(libpaths[i], nm="nm") for i in v]
    return list(v)


class Proc:
    """A process using the configuration API."""

    def __init__(self, world, path, libpaths):
        from ctypeslib import clang2py
        from ctypeslib.codegen import config
        self.config = config
        self.world, self.path, self.libs = world, path, libpaths
        self.cfgs = {}
        self.texts = [csrc.text(s) for s in world["srcs"]]
        self.parsed = []
        with open(path, "w") as f:
            f.write("int x;\n")
        for c in world["cls"]:
            self.parsed.append(clang2py._make_parser(config.CodegenConfig()).parse_args(self.argv(c)))

    def argv(self, c):
        a = ops.cli_args(c, self.libs)
        if "opt_t" in c:
            a += ["-t", c["opt_t"]]
        if "module" in c:
            a += ["-m", c["module"]]
        return a + [self.path]

    def get(self, i):
        if i not in self.cfgs:
            self.cfgs[i] = self.config.CodegenConfig()
        return self.cfgs[i]

    def do(self, o):
        k = o["op"]
        if k == "cli":
            with open(self.path, "w") as f:
                f.write(self.texts[o["src"] % len(self.texts)])
            return ops.do_cli(self.argv(self.world["cls"][o["cl"]]))[:2]
        if k == "new":
            self.cfgs[o["c"]] = self.config.CodegenConfig()
            return "ok"
        cfg = self.get(o["c"])
        if k == "flag":
            setattr(cfg, o["a"], o["v"])
        elif k == "known":
            cfg.known_symbols[o["v"]] = "some_module"
        elif k == "assign":
            setattr(cfg, o["a"], conv(o["a"], o["v"], self.libs))
        elif k == "inplace":
            cur = getattr(cfg, o["a"])
            v = conv(o["a"], o["v"], self.libs)
            h = o["how"]
            if h == "append":
                for x in v:
                    cur.append(x)
            elif h == "extend":
                cur.extend(v)
            elif h == "iadd":
                cur += v
            elif h == "insert":
                for x in v:
                    cur.insert(0, x)
            elif h == "clear":
                del cur[:]
            elif cur:
                cur.pop()
        elif k == "parse":
            try:
                cfg.parse_options(self.parsed[o["cl"]])
            except Exception as e:
                return ops.err(e)
        elif k == "use":
            return self.use(cfg, o)
        return "ok"

    def use(self, cfg, o, fault=True):
        text = self.texts[o["src"] % len(self.texts)]
        f = o["fault"] if fault else None
        if f == "syntax":
            text += "struct broken { int\n"
        with open(self.path, "w") as fl:
            fl.write(text)
        op = {"api": o["api"], "text": text, "files": [0]}
        files = [self.path + (".gone" if f == "missing" else "")]
        if o.get("also"):
            with open(self.path + "2.h", "w") as fl:
                fl.write("struct S_also { int a; };\n")
            files.append(self.path + "2.h")
            op["files"] = [0, 1]
        if o.get("as", "abs") != "abs":
            files = [("./" if o["as"] == "dot" else "") + os.path.relpath(x) for x in files]
        if f == "out":
            op["api"] = "string" if "string" in o["api"] else "files"
            return ops.do_translate(op, files, cfg, ops.FaultyOut(o["nth"]))
        if f == "interrupt":
            tr = ops.Tracer(int(50 + o["at"] * 2500), KeyboardInterrupt)
            try:
                with tr:
                    return ops.do_translate(op, files, cfg)
            except KeyboardInterrupt:
                return ["interrupted"]
        if f == "lib":
            # a preloaded library that does not exist: the caller's own list
            cfg.preloaded_dlls.append("/nonexistent/libnone.so")
            try:
                return ops.do_translate(op, files, cfg)
            finally:
                if cfg.preloaded_dlls[-1:] == ["/nonexistent/libnone.so"]:
                    cfg.preloaded_dlls.pop()
        return ops.do_translate(op, files, cfg)


def projection(world, path, libpaths, c):
    """Configuration c with its own operations only."""
    p = Proc(world, path, libpaths)
    for o in world["ops"]:
        if o.get("c") == c and o["op"] not in ("cli", "use"):
            p.do(o)
    cfg = p.get(c)
    v = value(cfg)
    return v, p.use(cfg, {"src": 0, "api": "string", "fault": None})


def default_value():
    from ctypeslib.codegen.config import CodegenConfig
    return value(CodegenConfig())


def run(world, ctx):
    if not world["srcs"] or not world["cls"]:
        raise core.Skip("nothing left")
    libpaths = libs.pool_paths(ctx.shared)
    path = ctx.write("in.h", "int x;\n")
    dflt = ctx.fresh(default_value)
    p = Proc(world, path, libpaths)
    ns = [val(vars(x)) for x in p.parsed]
    mutations = 0
    prev = ""
    for k, o in enumerate(world["ops"]):
        ctx.steps += 1
        before = dict((c, value(x)) for c, x in p.cfgs.items())
        res = p.do(o)
        tag = "%s%s%s" % (o["op"], ":" + o["a"] if "a" in o else "", "+" + o["fault"] if o.get("fault") else "")
        ctx.count("op:" + o["op"])
        if o.get("fault"):
            ctx.count("fault:" + o["fault"])
        ctx.log(k, tag, ctx.dig(res), ctx.dig(dict((str(c), value(x)) for c, x in p.cfgs.items())))
        ctx.state(tag, prev, ctx.dig(res))
        prev = tag
        mutations += o["op"] in ("assign", "inplace", "parse", "flag", "known")
        for c, x in p.cfgs.items():
            now = value(x)
            if o["op"] == "new" and c == o["c"]:
                if now != dflt:
                    raise core.Violation("default-changed", "step %d: new configuration is %s, should be %s" % (
                        k, diff(now, dflt), diff(dflt, now)))
                continue
            if c == o.get("c") and o["op"] != "use":
                continue
            if c in before and now != before[c]:
                kl = "changed-by-use" if o["op"] == "use" and c == o["c"] else "other-changed"
                raise core.Violation(kl, "step %d (%s on %s): configuration %s had %s, has %s" % (
                    k, tag, o.get("c"), c, diff(before[c], now), diff(now, before[c])))
        d = default_value()
        if d != dflt:
            raise core.Violation("default-changed", "after step %d (%s) a new configuration has %s, should have %s" % (
                k, tag, diff(d, dflt), diff(dflt, d)))
        ns2 = [val(vars(x)) for x in p.parsed]
        if ns2 != ns:
            raise core.Violation("parsed-options-changed", "step %d (%s) changed the parsed command line: %s" % (
                k, tag, core.first_diff("\n".join(map(str, ns)), "\n".join(map(str, ns2)))))
    for c in sorted(p.cfgs):
        # the operations since its last creation decide
        wv, wr = ctx.fresh(projection, world, path, libpaths, c)
        gv = value(p.cfgs[c])
        if gv != wv:
            raise core.Violation("not-independent", "configuration %d ended with %s; its own operations give %s" % (
                c, diff(gv, wv), diff(wv, gv)))
        gr = p.use(p.cfgs[c], {"src": 0, "api": "string", "fault": None})
        if gr != wr:
            raise core.Violation("reuse-differs", "translating with configuration %d after its history: %s; fresh: %s" % (
                c, core.clip(gr, 300), core.clip(wr, 300)))
        ctx.log("final", c, ctx.dig(gr))
    ctx.nontrivial = len(p.cfgs) >= 2 and mutations > 0


def diff(a, b):
    return core.clip(dict((k, v) for k, v in a.items() if b.get(k) != v), 400)


def shrinks(w):
    o = w["ops"]
    n = len(o)
    if n > 3:
        yield dict(w, ops=o[n // 2:])
        yield dict(w, ops=o[:n // 2])
    for i in range(n):
        yield dict(w, ops=o[:i] + o[i + 1:])
    for i, s in enumerate(w["srcs"]):
        for s2 in csrc.shrink_source(s):
            yield dict(w, srcs=w["srcs"][:i] + [s2] + w["srcs"][i + 1:])
    for i, c in enumerate(w["cls"]):
        for k in sorted(c):
            c2 = dict(c)
            del c2[k]
            yield dict(w, cls=w["cls"][:i] + [c2] + w["cls"][i + 1:])
