"""S11: modules generated for different targets coexist."""
import ctypes
import gc
import importlib.util
import io
import os
import sys
import threading

from sim import core, csrc, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded interleavings of loads, reloads, uses and deaths of modules for several targets in one process, "
             "refined against each module alone in a fresh process and an identity model of its pointer types")
NOTE = ("Sampled interleavings (about 1400 quick, 24000 thorough) of 2-5 modules over 14 targets; after every step "
        "every live module is summarised again.")
RUNS = {"quick": 1400, "thorough": 24000}
RULE = ("a world is 2-5 modules generated (in processes of their own) from sources sharing names, for seeded targets and "
        "options, and 6-30 operations: load by exec, by import from files (also under one module name), by the API call, "
        "reload, build pointer types of the module's, of plain and of newly defined types, instantiate records from "
        "bytes, forget a module, collect. Non-trivial: modules of two pointer widths were alive together.")
SIMTIME = "no clock in the code under test; the unit is the operation (simulated_steps)"
STATES = "distinct (operation, its target, set of live targets) combinations"
REAL = ["ctypeslib (all of it)", "generated modules", "ctypes", "libclang"]
STUB = ["garbage collector schedule (explicit points)"]
ASSUMPTIONS = ["targets whose long and pointer have the same width, or whose pointer is as wide as the host's"]

TARGETS = {"i386-linux-gnu": 4, "x86_64-linux-gnu": 8, "arm-linux-gnueabihf": 4, "aarch64-linux-gnu": 8, "mips-linux-gnu": 4,
           "powerpc-linux-gnu": 4, "powerpc64-linux-gnu": 8, "sparc-linux-gnu": 4, "s390x-linux-gnu": 8,
           "riscv32-linux": 4, "riscv64-linux": 8, "x86_64-linux-gnux32": 4, "x86_64-pc-windows-msvc": 8,
           "i686-pc-windows-msvc": 4}


def preload():
    ops.load_ctypeslib()


def gen(r, index, tier):
    n = r.randint(2, 5)
    srcs = [csrc.gen_source(r, r.randint(1, 6), safe=True) for _ in range(r.randint(1, n))]
    pool = [r.choice(sorted(t for t in TARGETS if TARGETS[t] == w)) for w in (4, 8)]
    pool += r.sample(sorted(TARGETS), r.randint(0, 2))
    mods = []
    for i in range(n):
        spec = {"clang": ["-target", r.choice(pool)] if r.random() < 0.9 else []}
        for k in ("comments", "docs"):
            if r.random() < 0.15:
                spec[k] = True
        if r.random() < 0.3:
            spec["kinds"] = "cdefmstu"
        mods.append({"src": r.randrange(len(srcs)), "spec": spec})
    out = []
    for _ in range(r.randint(6, 30 if r.random() < 0.15 else 16)):
        x = r.random()
        m = r.randrange(n)
        if x < 0.34:
            out.append({"op": "load", "m": m, "how": r.choice(["exec", "exec", "import", "samename", "api", "apifile"])})
        elif x < 0.40:
            out.append({"op": "reload", "m": m})
        elif x < 0.78:
            out.append({"op": "ptr", "m": m, "k": r.randrange(1000), "th": r.random() < 0.15, "of": r.choice(["own", "own", "plain", "void", "new", "ptrptr", "array", "func", "samename", "derived", "derived", "funcptr"])})
        elif x < 0.79:
            out.append({"op": "ptr", "m": m, "k": r.randrange(1000), "of": "many"})
        elif x < 0.90:
            out.append({"op": "value", "m": m, "k": r.randrange(1000), "seed": r.randrange(1 << 30)})
        elif x < 0.94:
            out.append({"op": "forget", "m": m})
        else:
            out.append({"op": "gc"})
    return {"srcs": srcs, "mods": mods, "ops": out}


# ---------------------------------------------------------------- reference

def make_text(text, spec):
    import ctypeslib
    o = io.StringIO()
    try:
        ctypeslib.translate(text, o, ops.make_cfg(spec))
    except Exception as e:
        return ["err", str(e)]
    return ["ok", o.getvalue()]


def own_types(ns):
    return [k for k in sorted(ns) if isinstance(ns[k], type) and issubclass(ns[k], (ctypes.Structure, ctypes.Union))
            and k not in ("Structure", "Union") and k in ns.get("__all__", ())]


def cross(ns):
    """Whether the module emulates pointers of another width."""
    return "IncorrectWordSizeError" in ns


def ptr_fn(ns):
    return ns.get("POINTER_T", ctypes.POINTER)


def full_summary(ns):
    s = ops.module_summary(ns)
    p = ptr_fn(ns)
    ptrs = {}
    for k in own_types(ns):
        t = p(ns[k])
        ptrs[k] = [t.__name__, ctypes.sizeof(t), ctypes.alignment(t)]
    t = p(None)
    ptrs["void"] = [t.__name__, ctypes.sizeof(t)]
    for x in (ctypes.c_int, ctypes.c_char, ctypes.c_double, ctypes.c_short * 3):
        t = p(x)
        ptrs[x.__name__] = [t.__name__, ctypes.sizeof(t), ctypes.alignment(t)]
    return [s, ptrs]


def alone(code, api, text, spec):
    try:
        return ["ok", full_summary(load(code, api, text, spec))]
    except Exception as e:
        return ops.err(e)


def load(code, api, text, spec, path=None):
    import ctypeslib
    if api == "api":
        return dict(ctypeslib.translate(text, cfg=ops.make_cfg(spec)))
    if api == "apifile":
        path = path or os.path.join(os.getcwd(), "alone.h")
        with open(path, "w") as f:
            f.write(text)
        return dict(ctypeslib.translate_files([path], cfg=ops.make_cfg(spec)))
    ns = {"__name__": "generated"}
    exec(compile(code, "generated.py", "exec"), ns)
    return ns


# ---------------------------------------------------------------- the process

class Loaded:
    def __init__(self, ns, want, width, module=None):
        self.ns, self.want, self.width, self.module = ns, want, width, module
        self.pointers = []      # (pointee, pointer type) as handed out
        self.records = dict((k, ns[k]) for k in own_types(ns))


def check_live(live, step, what):
    for i in sorted(live):
        try:
            got = ["ok", full_summary(live[i].ns)]
        except Exception as e:
            raise core.Violation("module-changed", "after step %d (%s) module %d raises %r when used" % (step, what, i, e))
        if got != live[i].want:
            a, b = live[i].want[1], got[1]
            raise core.Violation("module-changed", "after step %d (%s) module %d differs from itself alone: %s" % (
                step, what, i, diff(a, b)))
        p = ptr_fn(live[i].ns)
        for pointee, t in live[i].pointers:
            if p(pointee) is not t:
                raise core.Violation("pointer-identity", "after step %d (%s): module %d gives another pointer type to %s than before" % (
                    step, what, i, getattr(pointee, "__name__", pointee)))


def diff(a, b):
    for x, y in zip(a, b):
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                return "%s: %s, now %s" % (k, core.clip(x.get(k), 300), core.clip(y.get(k), 300))
    return "?"


THREAD = False


def make_pointer(p, pointee):
    if not THREAD:
        return p(pointee)
    # made in a thread that ends
    out = []
    th = threading.Thread(target=lambda: out.append(p(pointee)))
    th.start()
    th.join()
    return out[0]


def pointer_check(l, pointee, where):
    p = ptr_fn(l.ns)
    try:
        t = make_pointer(p, pointee)
        t2 = p(pointee)
        ctypes.sizeof(t)
    except Exception as e:
        raise core.Violation("pointer-type", "%s: no pointer type to %r: %r" % (where, pointee, e))
    if t is not t2:
        raise core.Violation("pointer-identity", "%s: two pointer types for %s" % (where, getattr(pointee, "__name__", pointee)))
    if ctypes.sizeof(t) != l.width:
        raise core.Violation("pointer-width", "%s: a pointer to %s has %d bytes, the target's have %d" % (
            where, getattr(pointee, "__name__", pointee), ctypes.sizeof(t), l.width))
    if cross(l.ns) and l.width != ctypes.sizeof(ctypes.c_void_p):
        sub = getattr(t, "_subtype_", None)
        if sub is not (type(None) if pointee is None else pointee):
            raise core.Violation("pointee", "%s: the pointer to %r refers to %r" % (where, pointee, sub))
    elif pointee is not None and t._type_ is not pointee:
        raise core.Violation("pointee", "%s: the pointer to %r refers to %r" % (where, pointee, t._type_))
    for other, ot in l.pointers:
        if (other is pointee) != (ot is t):
            raise core.Violation("pointer-identity", "%s: pointers to %r and %r are %s" % (
                where, other, pointee, "the same type" if ot is t else "different types"))
    if not any(o is pointee for o, _ in l.pointers):
        l.pointers.append((pointee, t))
    return t


def run(world, ctx):
    global THREAD
    THREAD = False
    mods = []
    for i, m in enumerate(world["mods"]):
        if not world["srcs"]:
            raise core.Skip("nothing left")
        text = csrc.text(world["srcs"][m["src"] % len(world["srcs"])])
        code = ctx.fresh(make_text, text, m["spec"])
        tgt = m["spec"]["clang"][1] if m["spec"]["clang"] else "x86_64-linux-gnu"
        mods.append({"text": text, "code": code, "target": tgt, "spec": m["spec"], "alone": {}})

    def want(i, api):
        m = mods[i]
        a = api if api in ("api", "apifile") else "exec"
        if a not in m["alone"]:
            m["alone"][a] = ctx.fresh(alone, m["code"][1] if m["code"][0] == "ok" else "raise ValueError()", a, m["text"], m["spec"])
        return m["alone"][a]

    live = {}
    gc.collect()
    gc.disable()
    mdir = ctx.mkdir("mods")
    keep = []
    for k, o in enumerate(world["ops"]):
        ctx.steps += 1
        op = o["op"]
        i = o.get("m", 0) % max(1, len(mods))
        if op not in ("load", "reload", "gc") and i not in live and live:
            i = sorted(live)[o["m"] % len(live)]
        what = op
        if op in ("load", "reload") and mods:
            m = mods[i]
            if m["code"][0] != "ok":
                continue
            how = o.get("how", "exec")
            if op == "reload":
                if i not in live or live[i].module is None:
                    how = "exec"
                else:
                    how = "again"
            what = "%s %s for %s" % (op, how, m["target"])
            w = want(i, how)
            try:
                mod = None
                if how == "again":
                    mod = live[i].module
                    sys.modules[mod.__name__] = mod
                    mod.__spec__.loader.exec_module(mod)
                    ns = vars(mod)
                elif how in ("import", "samename"):
                    name = "bindings" if how == "samename" else "bindings%d" % i
                    d = os.path.join(mdir, "d%d" % i)
                    os.makedirs(d, exist_ok=True)
                    path = os.path.join(d, "bindings.py")
                    with open(path, "w") as f:
                        f.write(m["code"][1])
                    spec = importlib.util.spec_from_file_location(name, path)
                    mod = importlib.util.module_from_spec(spec)
                    sys.modules[name] = mod
                    spec.loader.exec_module(mod)
                    ns = vars(mod)
                else:
                    ns = load(m["code"][1], how, m["text"], m["spec"], ctx.path("api.h"))
                got = ["ok", full_summary(ns)]
            except Exception as e:
                got = ops.err(e)
                ns = None
            if got != w:
                raise core.Violation("load-differs", "step %d (%s), alive %s: alone %s, here %s" % (
                    k, what, [mods[j]["target"] for j in sorted(live)],
                    core.clip(w, 200) if w[0] != got[0] or w[0] == "err" else "", core.clip(got, 200) if w[0] != got[0] or w[0] == "err" else diff(w[1], got[1])))
            if ns is None:
                continue
            live[i] = Loaded(ns, w, TARGETS[m["target"]], mod)
            ctx.count("op:%s:%s" % (op, how))
        elif op == "ptr" and i in live:
            l = live[i]
            if "POINTER_T" not in l.ns and l.width != ctypes.sizeof(ctypes.c_void_p):
                # the module uses no pointer and offers none
                continue
            names = sorted(l.records)
            of = o["of"]
            THREAD = bool(o.get("th"))
            if THREAD:
                ctx.count("fault:thread-ended")
            if of in ("own", "samename") and names:
                n = names[o["k"] % len(names)]
                t = l.ns[n]
                if of == "samename":
                    # another module's record of the same name
                    others = [live[j].ns[n] for j in sorted(live) if j != i and n in live[j].records]
                    for x in others:
                        pointer_check(l, x, "step %d, a foreign %s" % (k, n))
                pointer_check(l, t, "step %d" % k)
            elif of == "derived" and names:
                t = l.ns[names[o["k"] % len(names)]]
                if o["k"] % 3:
                    pointer_check(l, t, "step %d" % k)
                D = type("Derived%d" % (o["k"] % 2), (t,), {"_fields_": [("more", ctypes.c_int)]} if o["k"] % 2 else {})
                pointer_check(l, D, "step %d, a record derived from %s" % (k, t.__name__))
                if not o["k"] % 3:
                    pointer_check(l, t, "step %d" % k)
            elif of == "void":
                pointer_check(l, None, "step %d" % k) if cross(l.ns) else None
            elif of == "new":
                base = l.ns.get("Structure", ctypes.Structure)
                T = type("struct_new%d" % (o["k"] % 2), (base,), {"_fields_": [("a", ctypes.c_int), ("b", ptr_fn(l.ns)(ctypes.c_int))]})
                pointer_check(l, T, "step %d" % k)
                w = max(4, l.width)
                if ctypes.sizeof(T) != (8 if w == 4 else 16):
                    raise core.Violation("pointer-width", "step %d: a record of an int and a pointer has %d bytes, pointers have %d" % (k, ctypes.sizeof(T), l.width))
            elif of == "ptrptr":
                t = pointer_check(l, [ctypes.c_int, ctypes.c_long, ctypes.c_char][o["k"] % 3], "step %d" % k)
                pointer_check(l, t, "step %d, pointer to pointer" % k)
            elif of == "funcptr":
                # function pointer types derive from one another, too
                F = ctypes.CFUNCTYPE(ctypes.c_int)
                G = type("Callback", (F,), {"_flags_": F._flags_, "_restype_": ctypes.c_int, "_argtypes_": ()})
                pointer_check(l, F, "step %d" % k)
                pointer_check(l, G, "step %d, a derived function type" % k)
            elif of == "many":
                # more types than anyone keeps count of
                for n in range([70, 140, 300, 520][o["k"] % 4]):
                    base = ctypes.c_int * (100 + n)
                    l.pointers.append((base, ptr_fn(l.ns)(base)))
                if len(set(id(t) for b, t in l.pointers)) != len(set(id(b) for b, t in l.pointers)):
                    raise core.Violation("pointer-identity", "step %d: different types share a pointer type" % k)
            elif of == "array":
                pointer_check(l, ctypes.c_int * (1 + o["k"] % 3), "step %d" % k)
            elif of == "func":
                ft = [ctypes.CFUNCTYPE(None), ctypes.CFUNCTYPE(ctypes.c_int), ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_double)]
                pointer_check(l, ft[o["k"] % 3], "step %d" % k)
            else:
                pl = [ctypes.c_int, ctypes.c_char, ctypes.c_ubyte, ctypes.c_double, ctypes.c_ulonglong]
                pointer_check(l, pl[o["k"] % 5], "step %d" % k)
            THREAD = False
            what = "pointer to %s in %s" % (of, mods[i]["target"])
            ctx.count("op:ptr:" + of)
        elif op == "value" and i in live:
            l = live[i]
            names = sorted(l.records)
            if not names:
                continue
            t = l.ns[names[o["k"] % len(names)]]
            size = ctypes.sizeof(t)
            r = core.rng_for("bytes", o["seed"])
            data = bytes(r.randrange(1, 255) for _ in range(size))
            inst = t.from_buffer_copy(data) if size else t()
            for f in getattr(t, "_fields_", ()):
                if len(f) > 2 or "PADDING" in f[0]:
                    continue
                d = getattr(t, f[0])
                if issubclass(f[1], ctypes._SimpleCData) and hasattr(f[1], "_subtype_"):
                    v = getattr(inst, f[0])
                    exp = int.from_bytes(data[d.offset:d.offset + d.size], "little")
                    if d.size != l.width or not isinstance(v, f[1]) or v.value != exp:
                        raise core.Violation("pointer-value", "step %d: field %s.%s holds %r, bytes say %#x in %d bytes" % (
                            k, t.__name__, f[0], v, exp, d.size))
                    ctx.count("pointer fields read")
            if bytes(inst) != data:
                raise core.Violation("record-bytes", "step %d: %s does not hold its %d bytes" % (k, t.__name__, size))
            keep.append(inst)
            ctx.count("op:value")
        elif op == "forget" and i in live:
            del live[i]
            ctx.count("fault:forget")
        elif op == "gc":
            gc.collect()
            ctx.count("fault:gc")
        else:
            continue
        tg = sorted(set(mods[j]["target"] for j in live))
        ctx.state(what, *tg)
        if len(set(TARGETS[x] for x in tg)) > 1:
            ctx.nontrivial = True
        check_live(live, k, what)
        ctx.log(k, what, ctx.dig([live[j].want for j in sorted(live)]))


def shrinks(w):
    o = w["ops"]
    n = len(o)
    if n > 3:
        yield dict(w, ops=o[n // 2:])
        yield dict(w, ops=o[:n // 2])
    for i in range(n):
        yield dict(w, ops=o[:i] + o[i + 1:])
    for i, x in enumerate(o):
        if x.get("th"):
            yield dict(w, ops=o[:i] + [dict(x, th=False)] + o[i + 1:])
        if x["op"] == "load" and x["how"] != "exec":
            yield dict(w, ops=o[:i] + [dict(x, how="exec")] + o[i + 1:])
    for i, s in enumerate(w["srcs"]):
        for s2 in csrc.shrink_source(s):
            yield dict(w, srcs=w["srcs"][:i] + [s2] + w["srcs"][i + 1:])
    for i, m in enumerate(w["mods"]):
        for k in sorted(m["spec"]):
            if k != "clang":
                sp = dict(m["spec"])
                del sp[k]
                yield dict(w, mods=w["mods"][:i] + [dict(m, spec=sp)] + w["mods"][i + 1:])
