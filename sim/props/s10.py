"""S10: bound callbacks are routed correctly and stay valid."""
import ctypes
import functools
import gc
import io
import json
import os
import sys
import threading

from sim import core, libs, ops, sched

LEVEL = "exploration"
TECHNIQUE = ("seeded sequences of binds, calls from a compiled C peer (also from threads C starts), garbage collections, "
             "allocation churn, raising and reentrant callbacks and table deaths, against a model of name to callable")
NOTE = ("Sampled structures and operation sequences (about 1800 quick, 30000 thorough). Freed callback thunks are "
        "reused at once, so a call through a dead one reaches another callable and is seen.")
RUNS = {"quick": 1800, "thorough": 30000}
RULE = ("a world is one to three structures with function-pointer and plain fields, generated and compiled on both "
        "sides, and 8-40 operations: bind from new or reused mappings with subsets, None, unknown names, every kind of "
        "callable; calls from C into any live table; collections, churn, deaths of tables and mappings in between; "
        "exceptions and reentrance injected into callbacks. Every call is compared with a model of what was bound. "
        "Non-trivial: a call was routed after a collection, churn or death.")
SIMTIME = "no clock in the code under test; the unit is the operation (simulated_steps)"
STATES = "distinct (operation, callable kind, collected/churned/died since bind, result) combinations"
REAL = ["ctypeslib (all of it)", "generated module", "ctypes/libffi", "libclang", "C peer built by gcc"]
STUB = ["garbage collector schedule (automatic collection off, explicit points)", "unraisable-exception hook (records)"]
ASSUMPTIONS = ["callback result types are those ctypes can return from a callback (no pointers to objects, no structures)"]

RETS = {"int": ("int", 32, True), "long": ("int", 64, True), "short": ("int", 16, True), "unsigned char": ("int", 8, False),
        "unsigned int": ("int", 32, False), "long long": ("int", 64, True), "double": ("float",), "float": ("float",),
        "void": None, "void *": ("ptr",), "signed char": ("int", 8, True), "_Bool": ("bool",),
        "unsigned long": ("int", 64, False), "unsigned short": ("int", 16, False), "enum EE": ("int", 32, False)}
ARGS = ["int", "long", "double", "void *", "short", "unsigned char", "unsigned int", "long long"]
PLAIN = ["int %s;", "char %s;", "long %s[2];", "double %s;", "unsigned int %s : 3;", "const char *%s;", "short %s;",
         "void *%s;"]
KINDS = ["function", "method", "partial", "object", "lambda", "cfunc", "closure", "staticmethod", "builtin",
         "equal", "unhashable"]


def preload():
    sched.patch()
    ops.load_ctypeslib()


def gen(r, index, tier):
    structs = []
    for s in range(r.randint(1, 3)):
        fields = []
        for i in range(r.randint(1, 6)):
            if r.random() < 0.3:
                fields.append({"n": "p%d" % i, "plain": r.choice(PLAIN)})
            else:
                fields.append({"n": r.choice(["cb%d", "on_%d", "m%d"]) % i, "ret": r.choice(sorted(RETS)),
                               "args": [r.choice(ARGS) for _ in range(r.choice([0, 1, 2, 3, 4, 4, 6, 9]))],
                               "td": r.random() < 0.3})
        structs.append(fields)
    cbs = []
    for i in range(r.randint(1, 5)):
        cbs.append({"kind": r.choice(KINDS), "what": r.choice(["value"] * 5 + ["raise", "reenter", "gc", "bind"]),
                    "shared": r.random() < 0.25})
    maps = []
    for i in range(r.randint(1, 4)):
        s = r.randrange(len(structs))
        m = {}
        for f in structs[s]:
            if "ret" in f and r.random() < 0.6:
                m[f["n"]] = r.randrange(len(cbs)) if r.random() < 0.9 else None
            elif f.get("plain") == "int %s;" and r.random() < 0.4:
                m[f["n"]] = {"v": r.randint(1, 99)}
        if r.random() < 0.12:
            m[r.choice(["nosuch", "cb99", "CB0", ""])] = r.randrange(len(cbs))
        maps.append({"s": s, "m": m})
    opsl = []
    for _ in range(r.randint(8, 40 if r.random() < 0.15 else 18)):
        x = r.random()
        if x < 0.24:
            opsl.append({"op": "bind", "m": r.randrange(len(maps)), "t": r.randrange(5)})
        elif x < 0.70:
            opsl.append({"op": "call", "t": r.randrange(5), "f": r.randrange(6), "n": r.choice([1, 1, 1, 3]),
                         "via": r.choice(["c", "c", "c", "thread", "py"]), "seed": r.randrange(1 << 30)})
        elif x < 0.73:
            opsl.append({"op": "mutate", "m": r.randrange(len(maps)), "f": r.randrange(6), "cb": r.randrange(len(cbs)),
                         "how": r.choice(["set", "set", "del", "clear"])})
        elif x < 0.735:
            opsl.append({"op": "bindmany", "m": r.randrange(len(maps)), "n": r.choice([7, 18, 40, 140])})
        elif x < 0.79:
            opsl.append({"op": "gc"})
        elif x < 0.86:
            opsl.append({"op": "churn", "n": r.choice([3, 20, 60])})
        elif x < 0.92:
            opsl.append({"op": "die", "t": r.randrange(5)})
        elif x < 0.95:
            opsl.append({"op": "forget", "m": r.randrange(len(maps))})
        elif x < 0.98:
            opsl.append({"op": "callall", "seed": r.randrange(1 << 30)})
        else:
            opsl.append({"op": "plaininit", "s": r.randrange(len(structs))})
        if opsl[-1]["op"] in ("bind", "call", "callall", "gc") and r.random() < 0.12:
            # in a thread that ends right after
            opsl[-1]["th"] = True
        if r.random() < 0.05:
            sub = []
            for t in r.sample(range(5), r.choice([2, 2, 3])):
                if r.random() < 0.6:
                    sub.append([{"op": "bind", "m": r.randrange(len(maps)), "t": t}] +
                               [{"op": "call", "t": t, "f": r.randrange(6), "n": 1, "via": r.choice(["c", "py"]),
                                 "seed": r.randrange(1 << 30)} for _ in range(r.randrange(3))])
                else:
                    sub.append([{"op": "call", "t": t, "f": r.randrange(6), "n": r.choice([1, 2]),
                                 "via": r.choice(["c", "py"]), "seed": r.randrange(1 << 30)} for _ in range(r.randint(1, 3))])
            opsl.append({"op": "par", "subs": sub,
                         "sch": [[r.choice([1, 2, 3, 5, 9, 17, 40]), r.randrange(4)] for _ in range(r.choice([1, 3, 12]))]})
    opsl.append({"op": "gc"})
    opsl.append({"op": "callall", "seed": r.randrange(1 << 30)})
    return {"structs": structs, "cbs": cbs, "maps": maps, "ops": opsl,
            "load": r.choice(["translate", "translate", "text", "cli"]),
            "spec": {"comments": r.random() < 0.3, "docs": r.random() < 0.3, "locs": r.random() < 0.3}}


# ---------------------------------------------------------------- both sides

def header(structs):
    out = ["enum EE { EE_A, EE_B, EE_C = 7 };"]
    for s, fields in enumerate(structs):
        for f in fields:
            if "ret" in f and f["td"]:
                out.append("typedef %s (*td%d_%s)(%s);" % (f["ret"], s, f["n"], ", ".join(f["args"]) or "void"))
        out.append("struct T%d {" % s)
        for f in fields:
            if "plain" in f:
                out.append("  " + f["plain"] % f["n"])
            elif f["td"]:
                out.append("  td%d_%s %s;" % (s, f["n"], f["n"]))
            else:
                out.append("  %s (*%s)(%s);" % (f["ret"], f["n"], ", ".join(f["args"]) or "void"))
        out.append("};")
    return "\n".join(out) + "\n"


def peer(structs):
    out = [header(structs), "#include <pthread.h>", "#include <string.h>"]
    for s, fields in enumerate(structs):
        for f in fields:
            if "ret" not in f:
                continue
            n = "%d_%s" % (s, f["n"])
            pars = ["struct T%d *t" % s] + ["%s a%d" % (a, i) for i, a in enumerate(f["args"])]
            call = "t->%s(%s)" % (f["n"], ", ".join("a%d" % i for i in range(len(f["args"]))))
            ret = "" if f["ret"] == "void" else "return "
            out.append("%s call_%s(%s) { %s%s; }" % (f["ret"], n, ", ".join(pars), ret, call))
            out.append("int null_%s(struct T%d *t) { return t->%s == 0; }" % (n, s, f["n"]))
            # the same from a thread that C starts
            out.append("struct th_%s { %s%s };" % (n, " ".join(p + ";" for p in pars),
                                                   "" if f["ret"] == "void" else " %s r;" % f["ret"]))
            out.append("static void *run_%s(void *x) { struct th_%s *p = x; %sp->t->%s(%s); return 0; }" % (
                n, n, "" if f["ret"] == "void" else "p->r = ", f["n"],
                ", ".join("p->a%d" % i for i in range(len(f["args"])))))
            out.append("%s thread_%s(%s) { struct th_%s x; memset(&x, 0, sizeof x); x.t = t; %s pthread_t h; "
                       "pthread_create(&h, 0, run_%s, &x); pthread_join(h, 0); %s }" % (
                           f["ret"], n, ", ".join(pars), n,
                           " ".join("x.a%d = a%d;" % (i, i) for i in range(len(f["args"]))), n,
                           "" if f["ret"] == "void" else "return x.r;"))
        out.append("int size_%d(void) { return sizeof(struct T%d); }" % (s, s))
    return "\n".join(out) + "\n"


CT = {"int": ctypes.c_int, "long": ctypes.c_long, "short": ctypes.c_short, "unsigned char": ctypes.c_ubyte,
      "unsigned int": ctypes.c_uint, "long long": ctypes.c_longlong, "double": ctypes.c_double,
      "float": ctypes.c_float, "void": None, "void *": ctypes.c_void_p, "signed char": ctypes.c_byte,
      "_Bool": ctypes.c_bool, "unsigned long": ctypes.c_ulong, "unsigned short": ctypes.c_ushort,
      "enum EE": ctypes.c_uint}


def ret_value(ret, x):
    """A value of the result type derived from the small number x."""
    k = RETS[ret]
    if k is None:
        return None
    if k[0] == "int":
        return -x if k[2] and x % 3 == 0 else x
    if k[0] == "float":
        return x + 0.5
    if k[0] == "bool":
        return bool(x % 2)
    return x * 16 + 8


def arg_value(t, r):
    if t == "double":
        return r.randrange(1000) + 0.25
    if t == "void *":
        return r.randrange(1, 1 << 40)
    if t == "unsigned char":
        return r.randrange(256)
    if t in ("unsigned int",):
        return r.randrange(1 << 32)
    return r.randrange(-100, 30000)


def zero(ret):
    k = RETS[ret]
    if k is None or k[0] == "ptr":
        return None
    return {"int": 0, "float": 0.0, "bool": False}[k[0]]


class Raised(Exception):
    pass


class Record:
    """What one thread saw of its calls."""

    def __init__(self):
        self.calls = []
        self.hook = []
        self.depth = 0


def own(name):
    return property(lambda self: getattr(self.mine(), name), lambda self, v: setattr(self.mine(), name, v))


class Machine:
    calls, hook, depth = own("calls"), own("hook"), own("depth")

    def mine(self):
        return self.records.get(threading.get_ident(), self.record)

    def __init__(self, world, ctx, mod, lib):
        self.w, self.ctx, self.mod, self.lib = world, ctx, mod, lib
        # threads that run at the same time have records of their own
        self.record = Record()
        self.records = {}
        self.tables = {}      # slot -> (table, struct, model)
        self.maps = {}
        self.epoch = 0
        self.serial = 0
        self.shared = {}
        self.types = []
        for s, fields in enumerate(world["structs"]):
            t = self.mod.get("struct_T%d" % s)
            if t is None:
                raise core.Violation("no-table-type", "struct_T%d is not defined" % s)
            if ctypes.sizeof(t) != getattr(lib, "size_%d" % s)():
                raise core.Skip("layout differs: not this property")
            self.types.append(t)

    # -- callables
    def body(self, cid, token, args):
        """What every callable does: note the call, misbehave as told."""
        what = self.w["cbs"][cid]["what"]
        self.calls.append((cid, token, list(args)))
        if what == "gc":
            gc.collect()
        if what == "bind" and self.depth < 2 and self.w["maps"]:
            self.depth += 1
            try:
                self.types[0].bind({})
            finally:
                self.depth -= 1
        if what == "reenter" and self.depth < 2:
            self.depth += 1
            keep = self.calls
            try:
                for t in sorted(self.tables):
                    for fi, f in enumerate(self.w["structs"][self.tables[t][1]]):
                        if "ret" in f and self.tables[t][2].get(f["n"], "default") == "default":
                            self.calls = []
                            self.call(t, f, core.rng_for("re", cid), "c", 1)
                            return
            finally:
                self.calls = keep
                self.depth -= 1
        if what == "raise":
            raise Raised("callback raises")

    def make(self, cid, field):
        """A callable; its token tells it from all others."""
        if self.w["cbs"][cid].get("shared"):
            key = (cid, field["ret"], tuple(field["args"]))
            if key not in self.shared:
                self.shared[key] = self.make1(cid, field)
            return self.shared[key]
        return self.make1(cid, field)

    def make1(self, cid, field):
        self.serial += 1
        token = self.serial
        kind = self.w["cbs"][cid]["kind"]
        v = ret_value(field["ret"], token % 100 + 1)
        me = self

        def fn(*args):
            me.body(cid, token, args)
            return v
        if kind == "method":
            class O:
                def m(self, *args):
                    return fn(*args)
            return O().m, token, v
        if kind == "partial":
            def g(_x, *args):
                return fn(*args)
            return functools.partial(g, "x"), token, v
        if kind == "object":
            class C:
                def __call__(self, *args):
                    return fn(*args)
            return C(), token, v
        if kind == "lambda":
            return (lambda *a: fn(*a)), token, v
        if kind == "equal":
            class E:
                def __call__(self, *args):
                    return fn(*args)

                def __eq__(self, other):
                    return True

                def __hash__(self):
                    return 7
            return E(), token, v
        if kind == "unhashable":
            class D(dict):
                def __call__(self, *args):
                    return fn(*args)
            return D(), token, v
        if kind == "cfunc":
            t = ctypes.CFUNCTYPE(CT[field["ret"]], *[CT[a] for a in field["args"]])
            return t(fn), token, v
        if kind == "staticmethod":
            class S:
                @staticmethod
                def m(*args):
                    return fn(*args)
            return S.m, token, v
        if kind == "builtin":
            # a callable implemented in C that ends up in fn
            return functools.partial(fn), token, v
        return fn, token, v

    def field(self, s, name):
        for f in self.w["structs"][s]:
            if f["n"] == name:
                return f
        return None

    def mapping(self, mi):
        """The mapping object mi, made when first used, then reused."""
        if mi not in self.maps:
            spec = self.w["maps"][mi]
            d, model = {}, {}
            for name in sorted(spec["m"]):
                v = spec["m"][name]
                f = self.field(spec["s"], name)
                if isinstance(v, dict):
                    d[name] = v["v"]
                    model[name] = ("value", v["v"])
                elif v is None:
                    d[name] = None
                    model[name] = None
                else:
                    fld = f if f and "ret" in f else {"ret": "int", "args": []}
                    cid = v % len(self.w["cbs"])
                    cb, token, val = self.make(cid, fld)
                    d[name] = cb
                    model[name] = (cid, token, val)
            self.maps[mi] = (d, model)
        return self.maps[mi]

    # -- operations
    def do(self, o):
        world = self.w
        if o["op"] == "bind":
            if not world["maps"]:
                return None
            mi = o["m"] % len(world["maps"])
            if world["maps"][mi]["s"] >= len(world["structs"]):
                return None
            return self.bind(mi, o["t"])
        if o["op"] == "call":
            if o["t"] not in self.tables:
                return None
            fl = [f for f in world["structs"][self.tables[o["t"]][1]] if "ret" in f]
            if not fl:
                return None
            return self.call(o["t"], fl[o["f"] % len(fl)], core.rng_for("args", o["seed"]), o["via"], o["n"])
        res = ""
        for t in sorted(self.tables):
            for f in world["structs"][self.tables[t][1]]:
                if "ret" in f:
                    res += self.call(t, f, core.rng_for("args", o["seed"], t, f["n"]), "c", 1) + " "
        return res

    def par(self, o):
        """Threads that bind and call at the same time, each its own tables."""
        for sub in o["subs"]:
            for x in sub:
                # mappings are made by the caller beforehand
                if x["op"] == "bind" and self.w["maps"] and self.w["maps"][x["m"] % len(self.w["maps"])]["s"] < len(self.w["structs"]):
                    self.mapping(x["m"] % len(self.w["maps"]))

        def body(sub):
            me = threading.get_ident()
            self.records[me] = Record()
            try:
                return ["ok", [self.do(x) for x in sub]]
            except core.Violation as e:
                return ["violation", e]
            finally:
                del self.records[me]
        s = sched.Scheduler({"list": o["sch"]}, limit=200000)
        res = s.run([functools.partial(body, sub) for sub in o["subs"]])
        self.ctx.count("fault:preemption", len(s.switches))
        for w in s.switches:
            self.ctx.state("switch", w[3], len(o["subs"]))
        if s.abort:
            raise core.Violation("deadlock", "threads that bind and call: %s" % s.abort)
        if s.errors:
            raise AssertionError(s.errors)
        for x in res:
            if x[0] == "violation":
                raise x[1]
        self.epoch += 1
        return [x[1] for x in res]

    def bind(self, mi, slot):
        spec = self.w["maps"][mi]
        s = spec["s"]
        d, model = self.mapping(mi)
        before = list(d.items())
        unknown = [n for n in d if self.field(s, n) is None]
        try:
            t = self.types[s].bind(d)
        except ValueError as e:
            if not unknown:
                raise core.Violation("bind-refused", "bind(%s) raised %r though all names are fields" % (sorted(d), str(e)))
            t = None
        except Exception as e:
            raise core.Violation("bind-error", "bind(%s) raised %r" % (sorted(d), e))
        if t is not None and unknown:
            raise core.Violation("unknown-accepted", "bind accepted the unknown names %s" % unknown)
        after = list(d.items())
        if [(k, id(v)) for k, v in before] != [(k, id(v)) for k, v in after]:
            raise core.Violation("mapping-changed", "bind changed the caller's mapping from %s to %s" % (
                [k for k, v in before], [k for k, v in after]))
        if t is None:
            return "refused"
        self.tables[slot] = (t, s, dict(model), self.epoch)
        for n, m in model.items():
            if m is not None and m[0] == "value" and getattr(t, n) != m[1]:
                raise core.Violation("plain-field", "field %s is %r, bound to %r" % (n, getattr(t, n), m[1]))
        return "bound"

    def call(self, slot, f, r, via, n):
        t, s, model, epoch = self.tables[slot]
        name = f["n"]
        m = model.get(name, "default")
        if m is None:
            isnull = getattr(self.lib, "null_%d_%s" % (s, name))(ctypes.byref(t))
            if not isnull:
                raise core.Violation("none-not-null", "field %s bound to None is not a null pointer" % name)
            return "null"
        out = []
        for _ in range(n):
            args = [arg_value(a, r) for a in f["args"]]
            self.calls = []
            self.hook = []
            if via == "py":
                fn = getattr(t, name)
                got = fn(*args)
            else:
                fn = getattr(self.lib, "%s_%d_%s" % ("call" if via == "c" else "thread", s, name))
                fn.restype = CT[f["ret"]]
                fn.argtypes = [ctypes.c_void_p] + [CT[a] for a in f["args"]]
                got = fn(ctypes.addressof(t), *args)
            where = "table %d field %s called %s after %d collections/deaths" % (slot, name, via, self.epoch - epoch)
            if m == "default":
                if self.calls:
                    raise core.Violation("misrouted", "%s: unbound, but callable %s ran" % (where, self.calls[0][:2]))
                if self.hook:
                    raise core.Violation("default-raised", "%s: the default raised %s" % (where, self.hook[0]))
                if got != zero(f["ret"]) and not (got is None and zero(f["ret"]) in (0, None)):
                    raise core.Violation("default-result", "%s: the default returned %r" % (where, got))
                out.append("default")
                self.ctx.state("default", via, f["ret"], min(3, self.epoch - epoch))
                continue
            cid, token, val = m
            if len(self.calls) != 1 or self.calls[0][0] != cid or self.calls[0][1] != token:
                raise core.Violation("misrouted", "%s: bound to callable (%s, %s), calls seen: %s" % (
                    where, cid, token, core.clip([c[:2] for c in self.calls])))
            if self.calls[0][2] != args:
                raise core.Violation("arguments", "%s: called with %s, received %s" % (where, args, self.calls[0][2]))
            what = self.w["cbs"][cid]["what"]
            if what != "raise" and not (self.w["cbs"][cid]["kind"] == "cfunc" and RETS[f["ret"]] is None):
                if got != val:
                    raise core.Violation("result", "%s: the callable returned %r, C got %r" % (where, val, got))
                if self.hook:
                    raise core.Violation("callback-error", "%s: %s" % (where, self.hook[0]))
            self.ctx.count("fault:raise" if what == "raise" else "calls")
            self.ctx.state(self.w["cbs"][cid]["kind"], what, via, f["ret"], min(3, self.epoch - epoch))
            if self.epoch > epoch:
                self.ctx.nontrivial = True
            out.append("%d" % token)
        return ",".join(out)


def in_thread(fn, *args):
    """In a thread that has ended when this returns."""
    out = []

    def body():
        try:
            out.append(("ok", fn(*args)))
        except BaseException as e:
            out.append(("err", e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if out[0][0] == "err":
        raise out[0][1]
    return out[0][1]


def run(world, ctx):
    if not world["cbs"] or not world["structs"] or not all(world["structs"]):
        raise core.Skip("nothing left")
    text = header(world["structs"])
    lib = ctypes.CDLL(libs.cc(ctx.path("libpeer.so"), peer(world["structs"]), "-O0"))
    hpath = ctx.write("peer.h", text)
    mod = load(world, text, hpath, ctx)
    gc.collect()
    gc.disable()
    m = Machine(world, ctx, mod, lib)
    sys.unraisablehook = lambda u: m.hook.append("%s: %s" % (type(u.exc_value).__name__, u.exc_value))
    for k, o in enumerate(world["ops"]):
        ctx.steps += 1
        op = o["op"]
        res = ""
        if op in ("bind", "call", "callall"):
            res = in_thread(m.do, o) if o.get("th") else m.do(o)
            if o.get("th"):
                ctx.count("fault:thread-ended")
            if res is None:
                continue
        elif op == "par":
            res = m.par(o)
        elif op == "gc":
            in_thread(gc.collect) if o.get("th") else gc.collect()
            m.epoch += 1
            ctx.count("fault:gc")
        elif op == "churn":
            # other thunks and blocks take whatever was freed too early
            keep = [ctypes.CFUNCTYPE(ctypes.c_int)(functools.partial(m.calls.append, ("churn", i, [])))
                    for i in range(o["n"])]
            blocks = [bytes(24 + 8 * (i % 40)) for i in range(o["n"] * 10)]
            m.epoch += 1
            ctx.count("fault:churn")
            if o["n"] < 60:
                m.kept = getattr(m, "kept", []) + [keep, blocks[:4]]
            del keep, blocks
        elif op == "die":
            if m.tables.pop(o["t"], None) is not None:
                m.epoch += 1
                ctx.count("fault:die")
        elif op == "mutate":
            # the caller goes on using its mapping: existing tables do not care
            mi = o["m"] % max(1, len(world["maps"]))
            if mi not in m.maps:
                continue
            d, model = m.maps[mi]
            s = world["maps"][mi]["s"]
            fl = [f for f in world["structs"][s] if "ret" in f] if s < len(world["structs"]) else []
            if not fl:
                continue
            f = fl[o["f"] % len(fl)]
            if o["how"] == "clear":
                d.clear()
                model.clear()
            elif o["how"] == "del":
                d.pop(f["n"], None)
                model.pop(f["n"], None)
            else:
                cid = o["cb"] % len(world["cbs"])
                cb, token, v = m.make(cid, f)
                d[f["n"]] = cb
                model[f["n"]] = (cid, token, v)
            m.epoch += 1
        elif op == "bindmany":
            mi = o["m"] % max(1, len(world["maps"]))
            if mi >= len(world["maps"]) or world["maps"][mi]["s"] >= len(world["structs"]):
                continue
            for i in range(o["n"]):
                res = m.bind(mi, 1000 + len(m.tables))
        elif op == "forget":
            # the caller drops its mapping and callables; tables keep theirs
            if m.maps.pop(o["m"] % max(1, len(world["maps"])), None) is not None:
                m.epoch += 1
                ctx.count("fault:forget")
        elif op == "plaininit":
            if o["s"] < len(m.types):
                m.types[o["s"]]()
        ctx.count("op:" + op)
        ctx.log(k, op, res)


def load(world, text, hpath, ctx):
    spec = world["spec"]
    import ctypeslib
    try:
        if world["load"] == "translate":
            return dict(ctypeslib.translate(text, cfg=ops.make_cfg(spec)))
        if world["load"] == "text":
            o = io.StringIO()
            ctypeslib.translate_files([hpath], o, ops.make_cfg(spec))
            code = o.getvalue()
        else:
            res = ops.do_cli(ops.cli_args(spec) + [hpath])
            if res[1] != 0:
                raise core.Skip("not translated")
            code = res[2]
        ns = {"__name__": "mod"}
        exec(compile(code, "<string>", "exec"), ns)
        return ns
    except core.Skip:
        raise
    except Exception as e:
        raise core.Skip("not translated: %s" % e)


def shrinks(w):
    o = w["ops"]
    n = len(o)
    if n > 3:
        yield dict(w, ops=o[n // 2:])
        yield dict(w, ops=o[:n // 2])
    for i in range(n):
        yield dict(w, ops=o[:i] + o[i + 1:])
    for i, x in enumerate(o):
        if x.get("th"):
            yield dict(w, ops=o[:i] + [dict(x, th=False)] + o[i + 1:])
        if x["op"] == "par":
            for j in range(len(x["subs"])):
                yield dict(w, ops=o[:i] + [dict(x, subs=x["subs"][:j] + x["subs"][j + 1:])] + o[i + 1:] if len(x["subs"]) > 1 else o)
                for l in range(len(x["subs"][j])):
                    yield dict(w, ops=o[:i] + [dict(x, subs=x["subs"][:j] + [x["subs"][j][:l] + x["subs"][j][l + 1:]] + x["subs"][j + 1:])] + o[i + 1:])
            for j in range(len(x["sch"])):
                yield dict(w, ops=o[:i] + [dict(x, sch=x["sch"][:j] + x["sch"][j + 1:])] + o[i + 1:])
    for i, s in enumerate(w["structs"]):
        for j in range(len(s)):
            if len(s) > 1:
                maps = [dict(m, m=dict((k, v) for k, v in m["m"].items() if m["s"] != i or k != s[j]["n"]))
                        for m in w["maps"]]
                yield dict(w, structs=w["structs"][:i] + [s[:j] + s[j + 1:]] + w["structs"][i + 1:], maps=maps)
    for i, m in enumerate(w["maps"]):
        for k in sorted(m["m"]):
            m2 = dict(m["m"])
            del m2[k]
            yield dict(w, maps=w["maps"][:i] + [dict(m, m=m2)] + w["maps"][i + 1:])
    for i, c in enumerate(w["cbs"]):
        if c != {"kind": "function", "what": "value"}:
            yield dict(w, cbs=w["cbs"][:i] + [{"kind": "function", "what": "value"}] + w["cbs"][i + 1:])
    if w["load"] != "translate":
        yield dict(w, load="translate")
    if any(w["spec"].values()):
        yield dict(w, spec={})
