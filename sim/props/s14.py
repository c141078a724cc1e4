"""S14: C strings made by the generated helpers stay valid while referenced."""
import ctypes
import functools
import gc
import io
import threading

from sim import core, libs, ops, sched

LEVEL = "exploration"
TECHNIQUE = ("seeded sequences of conversions, holders, C reads, collections and allocation churn under an allocator that "
             "poisons freed memory, against a model of the bytes")
NOTE = ("Sampled operation sequences (about 1600 quick, 30000 thorough) over generated modules; a block freed while its "
        "pointer is still referenced is overwritten at once and seen by the next read.")
RUNS = {"quick": 1600, "thorough": 30000}
RULE = ("a world is a generated module (entry point, options, target with the host's pointer size) and 8-60 operations: "
        "convert text or bytes under an encoding, put the pointer into a variable, structure, nested structure, array or "
        "array field, drop the other references, read it back in Python and from C, pass a temporary straight to C, let "
        "C keep it, collect, churn. Every read is compared with the model. Non-trivial: a pointer was read after its "
        "source text was dropped and memory was churned or collected.")
SIMTIME = "no clock in the code under test; the unit is the operation (simulated_steps)"
STATES = "distinct (holder, reader, encoding, length class, pressure since creation) combinations"
REAL = ["ctypeslib (all of it)", "generated module", "ctypes", "C peer built by gcc"]
STUB = ["allocator fills freed memory (PYTHONMALLOC=debug)", "garbage collector schedule (explicit points)"]
ASSUMPTIONS = ["texts without NUL characters", "a pointer read out of a structure is only used while the structure lives"]

SRC = """
struct rec { int id; char *name; const char *other; char *names[3]; };
struct outer { short k; struct rec in; struct rec two[2]; };
union un { char *p; long l; };
typedef char *str_t;
struct tdrec { str_t s; int z; };
long sum_(const char *s);
int len_(char *s);
char *ident(char *s);
void keep_(int slot, char *s);
long kept(int slot);
long sumrec(struct rec *r);
long sumarr(char **a, int n);
long sum3(const char *a, const char *b, char *c);
extern int base_;
"""
PEER = SRC.replace("extern int base_;", "int base_ = 3;") + """
static char *slots[8];
long sum_(const char *s) { long h = 7; if (!s) return -1; while (*s) h = h * 31 + (unsigned char)*s++; return h; }
int len_(char *s) { int n = 0; if (!s) return -1; while (s[n]) n++; return n; }
char *ident(char *s) { return s; }
void keep_(int slot, char *s) { slots[slot & 7] = s; }
long kept(int slot) { return sum_(slots[slot & 7]); }
long sumrec(struct rec *r) { return sum_(r->name) + 3 * sum_(r->other) + 5 * sum_(r->names[0]) + 7 * sum_(r->names[1]) + 11 * sum_(r->names[2]); }
long sumarr(char **a, int n) { long h = 0; int i; for (i = 0; i < n; i++) h = h * 13 + sum_(a[i]); return h; }
long sum3(const char *a, const char *b, char *c) { return sum_(a) + 3 * sum_(b) + 5 * sum_(c); }
"""
HOLD = ["var", "var", "var", "name", "other", "names0", "names1", "names2", "array", "outer", "two", "union", "tdrec", "kept", "copy"]
ENC = ["utf-8", "utf-8", "default", "latin-1", "cp1252", "ascii", None, "utf-8-sig", "koi8-r"]
WS = "\n\r\t %\\"
ALPH = {"utf-8": "abz09\u00e9\u20ac\U0001f600\u0416\u0301\ufeff" + WS, "default": "abz09\u00e9\u20ac\U0001f600\u0416\u0301\ufeff" + WS,
        "latin-1": "abz09\u00e9\u00ff" + WS, "cp1252": "abz09 \u20ac\u00e9", "ascii": "abz09~\x01\x7f" + WS, None: "abz09" + WS, "utf-8-sig": "abz\u00e9", "koi8-r": "abz\u0416\u0436"}


def worker_env(shared):
    return {"PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165"}


def preload():
    sched.patch()
    ops.load_ctypeslib()


def setup(shared, tier):
    import os
    libs.cc(os.path.join(shared, "libstr.so"), PEER)


def gen(r, index, tier):
    out = []
    n = r.randint(8, 60 if r.random() < 0.15 else 24)
    for _ in range(n):
        x = r.random()
        if x < 0.40:
            e = r.choice(ENC)
            ln = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 31, 40, 100, 300, 513, 700, 5000])
            t = "".join(r.choice(ALPH[e]) for _ in range(ln))
            out.append({"op": "make", "h": r.choice(HOLD), "k": r.randrange(4), "enc": e, "t": t,
                        "src": r.choice(["str", "str", "bytes", "slice"]) if e is not None else "bytes"})
        elif x < 0.65:
            out.append({"op": "read", "h": r.choice(HOLD), "k": r.randrange(4),
                        "how": r.choice(["cast", "cast", "c", "c", "bytes", "index", "ident", "len"])})
        elif x < 0.72:
            out.append({"op": "temp", "t": "".join(r.choice("abcxyz\u00e9") for _ in range(r.choice([2, 9, 30, 200]))),
                        "n": r.choice([1, 3])})
        elif x < 0.79:
            out.append({"op": "gc"})
        elif x < 0.90:
            out.append({"op": "churn", "n": r.choice([5, 50, 200])})
        elif x < 0.94:
            out.append({"op": "drop", "h": r.choice(HOLD), "k": r.randrange(4)})
        elif x < 0.97:
            out.append({"op": "null", "h": r.choice(HOLD), "k": r.randrange(4)})
        else:
            out.append({"op": "many", "n": r.choice([20, 70, 300, 300, 1100, 2500])})
        if out[-1]["op"] in ("make", "read", "temp", "many") and r.random() < 0.12:
            # in a thread that ends right after
            out[-1]["th"] = True
        if r.random() < 0.05:
            # threads that convert and read at the same time, each its own pointers
            sub = []
            for k in r.sample(range(4), r.choice([2, 2, 3])):
                l = []
                for _ in range(r.randint(1, 3)):
                    e = r.choice(ENC)
                    t = "".join(r.choice(ALPH[e]) for _ in range(r.choice([0, 1, 5, 16, 100])))
                    l.append({"op": "make", "h": r.choice(["var", "name", "other", "names1", "tdrec", "union"]), "k": k, "enc": e, "t": t,
                              "src": r.choice(["str", "slice"]) if e is not None else "bytes"})
                    l.append({"op": "read", "h": l[-1]["h"], "k": k, "how": r.choice(["cast", "c", "bytes"])})
                sub.append(l)
            out.append({"op": "par", "subs": sub,
                        "sch": [[r.choice([1, 2, 3, 5, 9, 17]), r.randrange(4)] for _ in range(r.choice([1, 3, 12]))]})
    out += [{"op": "gc"}, {"op": "churn", "n": 50}, {"op": "readall"}]
    return {"ops": out, "load": r.choice(["translate", "files", "cli"]),
            "target": r.choice([None, None, "aarch64-linux-gnu", "x86_64-linux-gnu", "powerpc64-linux-gnu"]),
            "spec": {"comments": r.random() < 0.2, "docs": r.random() < 0.2},
            "kinds": r.choice([None, "cdefmstu", "fsdu"])}


def cksum(b):
    if b is None:
        return -1
    h = 7
    for c in b:
        h = (h * 31 + c) & 0xffffffffffffffff
    return h - (1 << 64) if h >> 63 else h


class M:
    def __init__(self, mod):
        self.mod = mod
        self.f = {}
        for n in ("sum_", "len_", "ident", "keep_", "kept", "sumrec", "sumarr", "sum3"):
            if n not in mod:
                raise core.Skip("function not bound")
        self.new = {}
        self.holders = {}
        self.model = {}
        self.born = {}
        self.epoch = 0

    def obj(self, kind, k):
        key = (kind, k)
        if key not in self.holders:
            if kind == "rec":
                self.holders[key] = self.mod["struct_rec"]()
            elif kind == "outerrec":
                self.holders[key] = self.mod["struct_outer"]()
            elif kind == "arr":
                self.holders[key] = (ctypes.POINTER(ctypes.c_char) * 4)()
            elif kind == "un":
                self.holders[key] = self.mod["union_un"]()
            elif kind == "td":
                self.holders[key] = self.mod["struct_tdrec"]()
            else:
                self.holders[key] = {}
        return self.holders[key]

    def put(self, h, k, p):
        if h in ("var", "copy"):
            self.obj("var", k)[h] = p
        elif h == "kept":
            self.obj("var", k)[h] = p
            self.mod["keep_"](k, p)
        elif h in ("name", "other"):
            setattr(self.obj("rec", k), h, p)
        elif h.startswith("names"):
            self.obj("rec", k).names[int(h[5:])] = p
        elif h == "array":
            self.obj("arr", 0)[k] = p
        elif h == "outer":
            getattr(self.obj("outerrec", k), "in").name = p
        elif h == "two":
            self.obj("outerrec", k).two[1].names[2] = p
        elif h == "union":
            self.obj("un", k).p = p
        elif h == "tdrec":
            self.obj("td", k).s = p

    def get(self, h, k):
        if h in ("var", "copy", "kept"):
            return self.obj("var", k)[h]
        if h in ("name", "other"):
            return getattr(self.obj("rec", k), h)
        if h.startswith("names"):
            return self.obj("rec", k).names[int(h[5:])]
        if h == "array":
            return self.obj("arr", 0)[k]
        if h == "outer":
            return getattr(self.obj("outerrec", k), "in").name
        if h == "two":
            return self.obj("outerrec", k).two[1].names[2]
        if h == "union":
            return self.obj("un", k).p
        return self.obj("td", k).s


def make_ptr(m, o):
    """The conversion: every other reference to the text is gone on return."""
    t = o["t"]
    e = o["enc"]
    f = m.mod["char_pointer_cast"]
    real = "utf-8" if e in (None, "default") else e
    data = t.encode(real)
    if o["src"] == "str":
        # a str of its own, encoded inside the helper
        s = "".join(list(t))
        return f(s) if e == "default" else f(s, e)
    if o["src"] == "slice":
        s = ("##" + t + "##")[2:-2]
        return f(s) if e == "default" else f(s, e)
    b = bytes(bytearray(data))
    if e == "default":
        return f(b)
    return f(b, e)


def guarded(fn):
    """What the helpers raise is what the user gets."""
    @functools.wraps(fn)
    def f(*a):
        try:
            return fn(*a)
        except (core.Violation, core.Skip, AssertionError):
            raise
        except Exception as e:
            raise core.Violation("conversion-error", "%s: %s raised %r" % (a[-1], fn.__name__, e))
    return f


@guarded
def check(m, ctx, h, k, how, where):
    want, enc, text = m.model[h, k]
    p = m.get(h, k)
    real = "utf-8" if enc in (None, "default") else enc
    got = exp = None
    if how == "cast":
        exp = text
        got = m.mod["string_cast"](p) if enc in (None, "default", "utf-8") else m.mod["string_cast"](p, real)
    elif how == "bytes":
        exp = want
        got = m.mod["string_cast"](p, None)
    elif how == "c":
        exp = cksum(want)
        got = m.mod["kept"](k) if h == "kept" else m.mod["sum_"](p)
    elif how == "len":
        exp = -1 if want is None else len(want)
        got = m.mod["len_"](p)
    elif how == "index":
        if want is None:
            return
        exp = want + b"\0"
        got = p[:len(want) + 1]
    elif how == "ident":
        exp = text
        got = m.mod["string_cast"](m.mod["ident"](p), real)
    if got != exp:
        raise core.Violation("wrong-bytes", "%s: %s[%d] read by %s is %s, should be %s" % (
            where, h, k, how, core.clip(repr(got), 120), core.clip(repr(exp), 120)))
    ctx.count("reads")
    press = min(3, m.epoch - m.born[h, k])
    ctx.state(h, how, enc, len(want).bit_length() if want is not None else "null", press)
    if press:
        ctx.nontrivial = True


def in_thread(fn, *args):
    """In a thread that has ended when this returns."""
    out = []

    def body():
        try:
            out.append(("ok", fn(*args)))
        except BaseException as e:
            out.append(("err", e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if out[0][0] == "err":
        raise out[0][1]
    return out[0][1]


@guarded
def do(m, ctx, o, i, where):
    op = o["op"]
    if op == "make":
        try:
            p = make_ptr(m, o)
        except Exception as e:
            raise core.Violation("convert-error", "%s: char_pointer_cast(%r, %r) raised %r" % (
                where, core.clip(o["t"], 40), o["enc"], e))
        h, k = o["h"], o["k"]
        real = "utf-8" if o["enc"] in (None, "default") else o["enc"]
        m.put(h, k, p)
        if h == "copy":
            # a second reference outlives the first
            q = p
            m.put("var", k, q)
            m.model["var", k] = (o["t"].encode(real), o["enc"], o["t"])
            m.born["var", k] = m.epoch
            del q
        del p
        m.model[h, k] = (o["t"].encode(real), o["enc"], o["t"])
        m.born[h, k] = m.epoch
        ctx.log(i, op, h, k, len(o["t"]))
    elif op == "read":
        if (o["h"], o["k"]) in m.model:
            check(m, ctx, o["h"], o["k"], o["how"], where)
            ctx.log(i, op, o["h"], o["how"])
    elif op == "temp":
        # nothing but the call itself refers to the pointers
        t = o["t"]
        b = t.encode()
        for _ in range(o["n"]):
            got = m.mod["sum_"](m.mod["char_pointer_cast"]("".join(list(t))))
            if got != cksum(b):
                raise core.Violation("wrong-bytes", "%s: a temporary passed to C arrived different" % where)
            got = m.mod["sum3"](m.mod["char_pointer_cast"](t + "1"), m.mod["char_pointer_cast"](t + "2"),
                                m.mod["char_pointer_cast"](t[::-1])) & (2 ** 64 - 1)
            exp = (cksum(b + b"1") + 3 * cksum(b + b"2") + 5 * cksum(t[::-1].encode())) & (2 ** 64 - 1)
            if got != exp:
                raise core.Violation("wrong-bytes", "%s: three temporaries passed to C arrived different" % where)
        ctx.log(i, op, len(b))


def par(m, ctx, o, i, where):
    # the holders are there before
    for sub in o["subs"]:
        for x in sub:
            if x["op"] == "make":
                m.obj({"var": "var", "tdrec": "td", "union": "un"}.get(x["h"], "rec"), x["k"])

    def body(n, sub):
        try:
            for x in sub:
                do(m, quiet, x, i, "%s thread %d" % (where, n))
        except core.Violation as e:
            return e

    class quiet:
        # the threads' own notes would come in any order
        nontrivial = False

        @staticmethod
        def count(*a):
            pass
        log = state = count
    s = sched.Scheduler({"list": o["sch"]}, limit=200000)
    res = s.run([functools.partial(body, n, sub) for n, sub in enumerate(o["subs"])])
    ctx.count("fault:preemption", len(s.switches))
    ctx.log(i, "par", s.switches)
    if s.abort:
        raise core.Violation("deadlock", "%s: threads that convert: %s" % (where, s.abort))
    if s.errors:
        raise AssertionError(s.errors)
    for x in res:
        if x is not None:
            raise x


def run(world, ctx):
    lib = ctx.shared + "/libstr.so"
    hpath = ctx.write("s.h", SRC)
    spec = dict(world["spec"])
    if world["kinds"]:
        spec["kinds"] = world["kinds"]
    if world["target"]:
        spec["clang"] = ["-target", world["target"], "-fsigned-char"]
    spec["dlls"] = [0]
    import ctypeslib
    try:
        if world["load"] == "translate":
            mod = dict(ctypeslib.translate(SRC, cfg=ops.make_cfg(spec, [lib])))
        else:
            if world["load"] == "files":
                o = io.StringIO()
                ctypeslib.translate_files([hpath], o, ops.make_cfg(spec, [lib]))
                code = o.getvalue()
            else:
                res = ops.do_cli(ops.cli_args(spec, [lib]) + [hpath])
                if res[1] != 0:
                    raise core.Skip("not translated")
                code = res[2]
            mod = {"__name__": "mod"}
            exec(compile(code, "<string>", "exec"), mod)
    except core.Skip:
        raise
    except Exception as e:
        raise core.Skip("not translated: %s" % e)
    for n in ("char_pointer_cast", "string_cast"):
        if n not in mod:
            raise core.Violation("helper-missing", "the module has no %s" % n)
    gc.collect()
    gc.disable()
    m = M(mod)
    for i, o in enumerate(world["ops"]):
        ctx.steps += 1
        op = o["op"]
        where = "step %d" % i
        ctx.count("op:" + op)
        if op in ("make", "read", "temp"):
            in_thread(do, m, ctx, o, i, where) if o.get("th") else do(m, ctx, o, i, where)
            if o.get("th"):
                ctx.count("fault:thread-ended")
        elif op == "par":
            par(m, ctx, o, i, where)
        elif op == "readall":
            for h, k in sorted(m.model):
                for how in ("cast", "c", "bytes"):
                    check(m, ctx, h, k, how, where)
            recs = sorted(set(k for h, k in m.model if h in ("name", "other") or h.startswith("names")))
            for k in recs:
                v = [m.model.get((h, k), (None,))[0] for h in ("name", "other", "names0", "names1", "names2")]
                exp = sum(c * cksum(b) for c, b in zip((1, 3, 5, 7, 11), v)) & (2 ** 64 - 1)
                got = m.mod["sumrec"](ctypes.byref(m.obj("rec", k)) if m.mod["sumrec"].argtypes is None else
                                      ctypes.pointer(m.obj("rec", k))) & (2 ** 64 - 1)
                if got != exp:
                    raise core.Violation("wrong-bytes", "%s: C sees another structure %d" % (where, k))
            ctx.log(i, op, len(m.model))
        elif op == "gc":
            gc.collect()
            m.epoch += 1
            ctx.count("fault:gc")
        elif op == "churn":
            x = [bytes(bytearray(b"\x5a" * (n % 64 + n % 7 * 50))) for n in range(o["n"])]
            y = ["%d" % n * 20 for n in range(o["n"])]
            del x[::2], y
            m.epoch += 1
            ctx.count("fault:churn")
        elif op == "many":
            # other conversions, kept alive and dropped
            ps = [m.mod["char_pointer_cast"]("other %d" % n * (n % 9 + 1)) for n in range(o["n"])]
            del ps[::3]
            for n, p in enumerate(ps[:5]):
                pass
            m.new.setdefault("kept", []).append(ps[-3:])
            m.epoch += 1
            ctx.count("fault:many")
        elif op == "drop":
            h, k = o["h"], o["k"]
            if (h, k) in m.model and h in ("var", "copy", "kept"):
                del m.obj("var", k)[h]
                del m.model[h, k]
                m.epoch += 1
                ctx.count("fault:drop")
        elif op == "null":
            h, k = o["h"], o["k"]
            if h in ("kept", "copy", "union"):
                continue
            P = mod["POINTER_T"](ctypes.c_char) if "POINTER_T" in mod else ctypes.POINTER(ctypes.c_char)
            m.put(h, k, P())
            m.model[h, k] = (None, "utf-8", None)
            m.born[h, k] = m.epoch
            check(m, ctx, h, k, "cast", where)
            check(m, ctx, h, k, "bytes", where)


def shrinks(w):
    o = w["ops"]
    n = len(o)
    if n > 3:
        yield dict(w, ops=o[n // 2:])
        yield dict(w, ops=o[:n // 2])
    for i in range(n):
        yield dict(w, ops=o[:i] + o[i + 1:])
    for i, x in enumerate(o):
        if x.get("th"):
            yield dict(w, ops=o[:i] + [dict(x, th=False)] + o[i + 1:])
        if x["op"] == "par":
            for j in range(len(x["subs"])):
                if len(x["subs"]) > 1:
                    yield dict(w, ops=o[:i] + [dict(x, subs=x["subs"][:j] + x["subs"][j + 1:])] + o[i + 1:])
                for l in range(len(x["subs"][j])):
                    yield dict(w, ops=o[:i] + [dict(x, subs=x["subs"][:j] + [x["subs"][j][:l] + x["subs"][j][l + 1:]] + x["subs"][j + 1:])] + o[i + 1:])
            for j in range(len(x["sch"])):
                yield dict(w, ops=o[:i] + [dict(x, sch=x["sch"][:j] + x["sch"][j + 1:])] + o[i + 1:])
        if len(x.get("t", "")) > 2:
            yield dict(w, ops=o[:i] + [dict(x, t=x["t"][:len(x["t"]) // 2])] + o[i + 1:])
    for k, v in (("load", "translate"), ("target", None), ("spec", {}), ("kinds", None)):
        if w[k] != v:
            yield dict(w, **{k: v})
