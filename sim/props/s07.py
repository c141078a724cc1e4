"""S07: several files accumulate into one consistent module in any order."""
import ctypes
import io
import os

from sim import core, ops

LEVEL = "exploration"
TECHNIQUE = ("seeded arrival orders, duplications, aliases and inclusions of generated interdependent files, each delivery compared "
             "with the layouts libclang computes and with the other deliveries")
NOTE = ("Sampled file sets (about 3000 quick, 60000 thorough), 2-4 deliveries each; records, enums, typedefs, functions and "
        "variables referring to each other by value, array and pointer; C only; no system headers.")
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("a world is 2-5 files (listed or only included), entities distributed over them, forward declarations at random places, "
        "and 2-4 deliveries: an order with duplicates and path spellings, through the API or the command line. Non-trivial: "
        "a record used or forward-declared in a file that does not hold its definition, and two different orders.")
SIMTIME = "no clock in the code under test; one step is one file delivered"
STATES = "distinct (relation of a record to the file delivered before its definition, kind, spelling, listed) combinations"
REAL = ["ctypeslib (all of it)", "libclang", "the file system", "the generated modules"]
STUB = []
ASSUMPTIONS = ["the compiler's layout is the one libclang reports for the file holding the definition",
               "what an including file's macros hide of a file is in the module when that file is listed itself; "
               "files that do not compile on their own are out of scope"]

SCAL = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "long long", "float", "double",
        "unsigned long long"]


def preload():
    ops.load_ctypeslib()


# ------------------------------------------------------------------ worlds
# entity: {"n", "k": struct|union|enum|typedef|func|var, "home", "m": [members]}
# member: [mode, arg, n]  mode: s scalar, a array of scalar, v value of entity, w array of entity, p pointer to entity,
#                         P pointer to pointer, F function pointer taking a pointer to entity

def gen(r, index, tier):
    nfiles = r.choice([2, 2, 3, 3, 4, 5])
    files = [{"listed": r.random() < 0.8, "name": "%s%d.h" % (r.choice(["a", "b", "c", "z"]), i),
              "dir": r.choice(["", "", "", "sub", "sub2"])} for i in range(nfiles)]
    seen = set()
    for i, f in enumerate(files):
        if r.random() < 0.4:
            f["name"] = r.choice(["a.h", "b.h", "types.h"])
        if (f["dir"], f["name"]) in seen:
            f["name"] = "n%d.h" % i
        seen.add((f["dir"], f["name"]))
    for i in r.sample(range(nfiles), 2):
        files[i]["listed"] = True
    n = r.randint(2, 12 if tier == "thorough" else 9)
    kinds = ["struct"] * 10 + ["union"] * 3 + ["anon"] * 2 + ["uenum"] + ["enum"] * 2 + ["typedef"] * 3 + ["func"] * 3 + ["var"] * 2
    ents = []
    for i in range(n):
        ents.append({"k": r.choice(kinds), "home": r.randrange(nfiles), "m": []})
    if not any(e["k"] == "struct" for e in ents):
        ents[0]["k"] = "struct"
    tags = {"struct": "S", "union": "U", "enum": "E", "anon": "A", "uenum": "UE", "typedef": "t", "func": "f", "var": "v"}
    for i, e in enumerate(ents):
        e["n"] = "%s%d" % (tags[e["k"]], i)
    order = list(range(n))           # rank for by-value use: only of a lower rank
    r.shuffle(order)
    rank = {ents[i]["n"]: order[i] for i in range(n)}
    byname = {e["n"]: e for e in ents}

    def value_ok(user, used):
        return (used["k"] in ("struct", "union", "enum", "typedef", "anon") and rank[used["n"]] < rank[user["n"]]
                and used["home"] <= user["home"])
    for e in ents:
        k = e["k"]
        vals = [x["n"] for x in ents if x is not e and value_ok(e, x)]
        recs = [x["n"] for x in ents if x["k"] in ("struct", "union", "enum")] + ["Z0", "Z1"]
        recs += [x["n"] for x in ents if x["k"] in ("typedef", "anon") and x["n"] in vals]
        cnt = {"struct": r.randint(1, 5), "union": r.randint(1, 4), "enum": r.randint(1, 4), "uenum": r.randint(1, 3), "typedef": 1,
               "anon": r.randint(1, 4), "func": r.randint(0, 3), "var": 1}[k]
        for j in range(cnt):
            x = r.random()
            if k in ("enum", "uenum"):
                e["m"].append(["e", r.choice([None, None, 5, -2, 300]), 0])
            elif x < 0.3:
                e["m"].append(["s", r.choice(SCAL), 0])
            elif x < 0.38 and k not in ("func", "var"):
                e["m"].append(["a", r.choice(SCAL), r.randint(1, 5)])
            elif x < 0.62 and vals:
                e["m"].append(["v", r.choice(vals), 0])
            elif x < 0.70 and vals and k in ("struct", "union", "anon"):
                e["m"].append(["w", r.choice(vals), r.randint(1, 3)])
            elif x < 0.92:
                e["m"].append(["p", r.choice(recs), 0])
            elif x < 0.96:
                e["m"].append(["P", r.choice(recs), 0])
            elif k in ("struct", "union", "anon") and r.random() < 0.5:
                e["m"].append(["F", r.choice(recs), 0])
            elif k in ("struct", "union", "anon"):
                # a record without a name inside, with or without a member name
                e["m"].append([r.choice("NA"), r.choice(["struct", "union"]), [r.choice(SCAL) for _ in range(r.randint(1, 3))]])
            else:
                e["m"].append(["s", r.choice(SCAL), 0])
        if k == "struct" and r.random() < 0.06:
            e["packed"] = True
        if k == "typedef" and r.random() < 0.25:
            # a typedef of a record that may be defined elsewhere, or nowhere
            e["m"] = [["o", r.choice([x["n"] for x in ents if x["k"] in ("struct", "union")] + ["Z0"]), 0]]
    # typedefs of incomplete records cannot be used by value
    for e in ents:
        e["m"] = [m if not (m[0] in "vw" and byname[m[1]]["k"] == "typedef" and byname[m[1]]["m"][0][0] == "o")
                  else ["p", m[1], 0] for m in e["m"]]
    for e in ents:
        # not seen by the files that include its home under a hiding macro
        if r.random() < 0.35:
            e["hide"] = True
    for f in files:
        f["hides"] = r.random() < 0.4
    fwds = []
    for j in range(r.choice([0, 1, 2, 4, 6])):
        t = r.choice([x["n"] for x in ents if x["k"] in ("struct", "union", "enum")] + ["Z0"])
        fwds.append({"t": t, "f": r.randrange(nfiles), "at": r.random(), "how": r.choice(["tag", "tag", "tag", "func", "typedef", "var"])})
    again = []
    for e in ents:
        if e["k"] in ("func", "var") and r.random() < 0.2:
            again.append({"n": e["n"], "f": r.randrange(nfiles)})
    incs = []
    for a in range(nfiles):
        for b in range(a):
            if r.random() < 0.15:
                incs.append([a, b])
    listed = [i for i in range(nfiles) if files[i]["listed"]]
    deliv = []
    for j in range(r.randint(2, 3 if tier == "quick" else 4)):
        o = list(listed)
        r.shuffle(o)
        o = [[i, r.choice(["abs", "abs", "abs", "rel", "rel", "dot", "updir", "link", "dirlink"])] for i in o]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            o.insert(r.randrange(len(o) + 1), [r.choice(listed), r.choice(["abs", "rel", "dot", "updir", "link", "dirlink"])])
        deliv.append({"o": o, "api": r.choice(["files", "files", "load", "cli"])})
    if len(deliv) > 1 and r.random() < 0.6:
        deliv[1] = dict(deliv[1], o=list(reversed(deliv[0]["o"])))
    opts = {}
    if r.random() < 0.2:
        opts["clang"] = ["-fshort-enums"] if r.random() < 0.15 else ["-target", r.choice(["i386-linux-gnu", "arm-linux-gnueabihf", "aarch64-linux-gnu", "powerpc64-linux-gnu"])]
    if r.random() < 0.25:
        opts["filter"] = False
    for k in ("comments", "docs", "locs"):
        if r.random() < 0.1:
            opts[k] = True
    if opts.get("clang", [""])[-1][:4] in ("i386", "arm-"):
        # function pointers and pointer variables of a foreign word size are not supported: another property
        fwds = [w for w in fwds if w["how"] != "var"]
        for e in ents:
            e["m"] = [["s", "int", 0] if m[0] == "F" or e["k"] == "var" and m[0] in "pPF" else m for m in e["m"]]
    for e in ents:
        # variables of enum type and pointers to typedefs are not supported either
        if e["k"] == "var" and (e["m"][0][0] == "v" or e["m"][0][0] in "pP" and byname.get(e["m"][0][1], {}).get("k") == "typedef"):
            e["m"] = [["s", "long", 0]]
    opts["kinds"] = r.choice(["cdefstu", "cdefmstu", "acdefmstu"])
    return {"files": files, "ents": ents, "fwds": fwds, "again": again, "incs": incs, "deliv": deliv, "opts": opts,
            "rank": rank}


# ------------------------------------------------------------------ C text

def spell(world, n):
    for e in world["ents"]:
        if e["n"] == n:
            return n if e["k"] in ("typedef", "anon") else "%s %s" % (e["k"], n)
    return "struct " + n


def decl(world, m, name):
    mode, arg, n = m
    if mode == "s":
        return "%s %s" % (arg, name)
    if mode == "a":
        return "%s %s[%d]" % (arg, name, n)
    if mode in ("v", "o"):
        return "%s %s" % (spell(world, arg), name)
    if mode == "w":
        return "%s %s[%d]" % (spell(world, arg), name, n)
    if mode == "p":
        return "%s *%s" % (spell(world, arg), name)
    if mode == "P":
        return "%s **%s" % (spell(world, arg), name)
    if mode in ("N", "A"):
        return "%s { %s }%s" % (arg, " ".join("%s %sx%d;" % (t, name, i) for i, t in enumerate(n)), " " + name if mode == "N" else "")
    if mode == "F":
        return "int (*%s)(%s *)" % (name, spell(world, arg))
    raise AssertionError(mode)


def records(world):
    return {e["n"]: e for e in world["ents"]}


def entity_text(world, e):
    ms = e["m"]
    if e["k"] in ("struct", "union"):
        return "%s %s {\n%s}%s;\n" % (e["k"], e["n"], "".join("  %s;\n" % decl(world, m, "m%d" % i) for i, m in enumerate(ms)),
                                      " __attribute__((packed))" if e.get("packed") else "")
    if e["k"] == "anon":
        return "typedef struct {\n%s} %s;\n" % ("".join("  %s;\n" % decl(world, m, "m%d" % i) for i, m in enumerate(ms)), e["n"])
    if e["k"] in ("enum", "uenum"):
        return "enum %s{ %s };\n" % (e["n"] + " " if e["k"] == "enum" else "", ", ".join(
            "%s_%d%s" % (e["n"], i, "" if m[1] is None else " = %d" % m[1]) for i, m in enumerate(ms)))
    if e["k"] == "typedef":
        return "typedef %s;\n" % decl(world, ms[0], e["n"])
    if e["k"] == "func":
        return "int %s(%s);\n" % (e["n"], ", ".join(decl(world, m, "a%d" % i) for i, m in enumerate(ms)) or "void")
    return "extern %s;\n" % decl(world, ms[0], e["n"])


def refs(world, e):
    """(needs complete, only needs a declaration) names of the world."""
    recs = records(world)
    full, part = [], []
    for m in e["m"]:
        if m[0] in "vw":
            full.append(m[1])
        elif m[0] in "pPFo":
            # a typedef name must have been declared, whatever the use
            (full if m[1] in recs and recs[m[1]]["k"] in ("typedef", "anon") else part).append(m[1])
    return full, part


def build(world):
    """Per file: list of (text, what) chunks; and includes.  None: not a valid world (after shrinking)."""
    recs = records(world)
    incs = {i: set(b for a, b in world["incs"] if a == i) for i in range(len(world["files"]))}
    listed = set(i for d in world["deliv"] for i, _ in d["o"])
    wanted = set(w["t"] for w in world["fwds"]) | set(a["n"] for a in world["again"])
    for e in world["ents"]:
        full, part = refs(world, e)
        wanted.update(full + part)
    out = []
    for i, f in enumerate(world["files"]):
        chunks = []
        mine = sorted((e for e in world["ents"] if e["home"] == i), key=lambda e: world["rank"][e["n"]])
        declared = set()

        def need_decl(t):
            # file scope, so that a prototype does not make a type of its own
            if t not in declared:
                declared.add(t)
                k = recs[t]["k"] if t in recs else "struct"
                if k in ("struct", "union"):
                    chunks.append("%s %s;\n" % (k, t))
                elif k == "enum":
                    if recs[t]["home"] == i:
                        pass
                    else:
                        incs[i].add(recs[t]["home"])
        body = []
        for e in mine:
            body.append(("ent", e))
        for a in world["again"]:
            if a["f"] == i and a["n"] in recs and recs[a["n"]]["home"] != i:
                body.append(("ent", recs[a["n"]]))
        for w in world["fwds"]:
            if w["f"] == i:
                body.insert(int(w["at"] * (len(body) + 1)), ("fwd", w))
        for kind, x in body:
            if kind == "fwd":
                t = x["t"]
                if t not in recs and t not in ("Z0", "Z1"):
                    continue
                s = spell(world, t)
                if t in recs and recs[t]["k"] == "enum":
                    # an enumeration can be declared ahead too (as an extension)
                    if x["how"] == "typedef":
                        chunks.append("typedef %s alias_%s_%d;\n" % (s, t, i))
                    elif x["how"] == "func":
                        chunks.append("%s;\nvoid use_%s_%d(%s *x);\n" % (s, t, i, s))
                    elif x["how"] == "tag":
                        chunks.append("%s;\n" % s)
                    continue
                need_decl(t)
                if x["how"] == "tag":
                    chunks.append(s + ";\n")
                elif x["how"] == "func":
                    chunks.append("void use_%s_%d(%s *x);\n" % (t, i, s))
                elif x["how"] == "var":
                    chunks.append("extern %s *ptr_%s_%d;\n" % (s, t, i))
                else:
                    chunks.append("typedef %s alias_%s_%d;\n" % (s, t, i))
                continue
            full, part = refs(world, x)
            for t in full:
                if t not in recs:
                    return None
                h = recs[t]["home"]
                if h != i:
                    incs[i].add(h)
            for t in part:
                if not (t in recs and recs[t]["home"] == i and recs[t]["k"] == "enum" and world["rank"][t] < world["rank"][x["n"]]):
                    if t in recs and recs[t]["k"] == "enum":
                        if recs[t]["home"] == i:
                            # an enum is defined before its use here
                            if t not in declared:
                                declared.add(t)
                                chunks.append(entity_text(world, recs[t]))
                        else:
                            incs[i].add(recs[t]["home"])
                    elif t not in recs and t not in ("Z0", "Z1"):
                        return None
                    else:
                        need_decl(t)
            if x["k"] == "enum" and x["n"] in declared:
                continue
            declared.add(x["n"])
            t = entity_text(world, x)
            if x.get("hide") and x["n"] not in wanted and x["home"] == i and i in listed:
                t = "#ifndef HIDE_%d\n%s#endif\n" % (i, t)
            chunks.append(t)
        out.append(chunks)
    # inclusion must be acyclic: an enum or a repeated declaration may ask for more
    state = {}

    def visit(i):
        if state.get(i) == 1:
            return False
        if state.get(i) == 2:
            return True
        state[i] = 1
        ok = all(visit(j) for j in incs[i])
        state[i] = 2
        return ok
    if not all(visit(i) for i in incs):
        return None
    return out, incs


# ------------------------------------------------------------------ oracle

def clang_layouts(paths, args):
    """What the compiler says about every record and enum defined in these files."""
    from clang import cindex
    out = {}

    def layout(t):
        fl = []
        for f in t.get_fields():
            n = f.spelling if f.spelling[:1] == "m" else "_%d" % sum(1 for x in fl if x[0][0] == "_")
            fl.append([n, f.get_field_offsetof() // 8, f.type.get_size()])
        return fl
    idx = cindex.Index.create()
    errs = []
    for p in paths:
        tu = idx.parse(p, args=args)
        errs += [d.spelling for d in tu.diagnostics if d.severity > 2]
        for c in tu.cursor.get_children():
            k = c.kind.name
            if k in ("STRUCT_DECL", "UNION_DECL") and c.is_definition():
                t = c.type
                out[c.spelling] = {"k": k[:-5].lower(), "size": t.get_size(),
                                   "f": layout(t)}
            elif k == "TYPEDEF_DECL" and c.spelling[:1] == "A":
                t = c.underlying_typedef_type.get_canonical()
                out[c.spelling] = {"k": "anon", "size": t.get_size(), "f": layout(t)}
            elif k == "ENUM_DECL" and c.is_definition():
                vs = [[x.spelling, x.enum_value] for x in c.get_children()]
                n = c.spelling if c.spelling[:1] == "E" else vs[0][0].split("_")[0]
                out[n] = {"k": "enum", "size": c.type.get_size(), "v": vs}
    return out, errs


def describe(ns, world):
    """The delivered module: names, layouts and identities."""
    d = {"all": sorted(ns.get("__all__", [])), "rec": {}, "val": {}, "missing": sorted(n for n in ns.get("__all__", []) if n not in ns)}
    for n in d["all"]:
        v = ns.get(n)
        if isinstance(v, type) and issubclass(v, (ctypes.Structure, ctypes.Union)):
            fl = []
            for f in getattr(v, "_fields_", ()):
                x = getattr(v, f[0])
                t = f[1]
                tgt = getattr(t, "_subtype_", None)
                if tgt is None and isinstance(t, type) and issubclass(t, ctypes._Pointer):
                    tgt = t._type_
                while isinstance(tgt, type) and issubclass(tgt, ctypes._Pointer):
                    tgt = tgt._type_
                ident = None
                if isinstance(tgt, type) and issubclass(tgt, (ctypes.Structure, ctypes.Union)):
                    ident = [tgt.__name__, ns.get(tgt.__name__) is tgt]
                elif isinstance(t, type) and issubclass(t, (ctypes.Structure, ctypes.Union)):
                    ident = [t.__name__, ns.get(t.__name__) is t]
                elif isinstance(t, type) and issubclass(t, ctypes.Array) and issubclass(t._type_, (ctypes.Structure, ctypes.Union)):
                    ident = [t._type_.__name__, ns.get(t._type_.__name__) is t._type_]
                fl.append([f[0], x.offset, x.size & 0xffff if len(f) > 2 else x.size, ident])
            d["rec"][n] = {"size": ctypes.sizeof(v), "f": fl, "u": issubclass(v, ctypes.Union)}
        elif isinstance(v, int):
            d["val"][n] = v
        elif isinstance(v, type):
            try:
                d["val"][n] = ["type", ctypes.sizeof(v)]
            except TypeError:
                pass
    return d


def deliver(world, d, paths):
    """In a process of its own."""
    import ctypeslib
    opts = world["opts"]
    try:
        if d["api"] == "cli":
            res = ops.do_cli(ops.cli_args(opts) + paths)
            if res[:2] != ["exit", 0]:
                return ["err"] + res[:3]
            text = res[-1]
        else:
            cfg = ops.make_cfg(opts)
            if d["api"] == "load":
                m = ctypeslib.translate_files(paths, cfg=cfg)
                return ["ok", describe(dict(m), world)]
            o = io.StringIO()
            ctypeslib.translate_files(paths, o, cfg)
            text = o.getvalue()
        ns = {"__name__": "m"}
        exec(compile(text, "m.py", "exec"), ns)
        return ["ok", describe(ns, world)]
    except Exception as e:
        return ops.err(e)


def run(world, ctx):
    b = build(world)
    if b is None or not any(d["o"] for d in world["deliv"]):
        raise core.Skip("not a valid world")
    chunks, incs = b
    files = world["files"]
    paths = []
    for i, f in enumerate(files):
        guard = "H_%d" % i
        t = "#ifndef %s\n#define %s\n" % (guard, guard)
        for j in sorted(incs[i]):
            rel = os.path.relpath(os.path.join(ctx.root, files[j]["dir"], files[j]["name"]), os.path.join(ctx.root, f["dir"]))
            inc = '#include "%s"\n' % rel
            if f.get("hides"):
                inc = "#define HIDE_%d\n%s#undef HIDE_%d\n" % (j, inc, j)
                if any("ifndef HIDE_%d" % j in c for c in chunks[j]):
                    ctx.count("fault:partly-hidden-include")
            t += inc
        t += "".join(chunks[i]) + "#endif\n"
        paths.append(ctx.write(os.path.join(f["dir"], f["name"]), t))
    ctx.mkdir("sub")
    ctx.mkdir("links")
    want, errs = ctx.fresh(clang_layouts, paths, world["opts"].get("clang", []))
    if errs:
        if any("no such" in e for e in errs):
            raise AssertionError(errs)
        raise core.Skip("rejected by the compiler: %s" % errs[0])
    recs = records(world)
    listed = sorted(set(i for d in world["deliv"] for i, _ in d["o"]))

    # transitive inclusion: what one translation unit sees
    def closure(i):
        seen = {i}
        todo = [i]
        while todo:
            for j in incs[todo.pop()]:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen
    everything = world["opts"].get("filter") is False
    inmod = set(listed)
    if everything:
        for i in listed:
            inmod |= closure(i)
    for i in range(len(files)):
        ctx.state(files[i]["listed"], len(incs[i]))
    base = None
    for n, d in enumerate(world["deliv"]):
        if sorted(set(i for i, _ in d["o"])) != listed:
            continue
        ps = []
        for i, how in d["o"]:
            p = paths[i]
            rel = os.path.relpath(p, ctx.root)
            if how == "rel":
                p = rel
            elif how == "dot":
                p = "./" + rel
            elif how == "updir":
                p = os.path.join(ctx.root, "sub", "..", rel)
            elif how == "link":
                q = os.path.join(ctx.mkdir("links/%d" % i), files[i]["name"])
                # a header's includes are relative to where it is found
                if not os.path.exists(q) and not incs[i]:
                    os.symlink(p, q)
                p = q if os.path.exists(q) else p
            elif how == "dirlink":
                q = ctx.path("dl")
                if not os.path.exists(q):
                    os.symlink(".", q)
                p = os.path.join(q, rel)
            ps.append(p)
        ctx.steps += len(ps)
        ctx.count("files_delivered", len(ps))
        ctx.count("fault:duplicate" if len(d["o"]) > len(listed) else "delivered_once")
        got = ctx.fresh(deliver, world, d, ps)
        what = "delivery %d (%s) of %s" % (n, d["api"], [ctx.norm(p) for p in ps])
        ctx.log(n, d["api"], ps, ctx.dig(got))
        if got[0] != "ok":
            raise core.Violation("rejected", "%s: %s" % (what, got[1:]))
        g = got[1]
        if g["missing"]:
            raise core.Violation("undefined", "%s: exported but undefined %s" % (what, g["missing"]))
        # everything declared is there
        names = set()
        for e in world["ents"]:
            if e["home"] in inmod:
                if e["k"] != "uenum":
                    names.add(e["n"] if e["k"] in ("typedef", "func", "var", "enum", "anon") else "%s_%s" % (e["k"], e["n"]))
                if e["k"] in ("enum", "uenum"):
                    names.update("%s_%d" % (e["n"], j) for j in range(len(e["m"])))
        for w in world["fwds"]:
            if w["f"] in inmod and (w["t"] in recs or w["t"] in ("Z0", "Z1")):
                t = w["t"]
                k = recs[t]["k"] if t in recs else "struct"
                if k == "enum" and w["how"] == "var":
                    continue
                names.add({"tag": "%s_%s" % (k, t) if k != "enum" else t, "func": "use_%s_%d" % (t, w["f"]), "var": "ptr_%s_%d" % (t, w["f"]),
                           "typedef": "alias_%s_%d" % (t, w["f"])}[w["how"]])
        lost = sorted(names - set(g["all"]))
        if lost:
            raise core.Violation("lost", "%s: %s declared but not in the module" % (what, lost))
        # layouts: of every record defined in a file of the module, or needed where the definition is visible
        for e in world["ents"]:
            if e["k"] in ("struct", "union", "anon"):
                pn = "%s_%s" % (e["k"], e["n"]) if e["k"] != "anon" else e["n"]
                if e["home"] not in inmod:
                    continue
                have, w = g["rec"].get(pn), want[e["n"]]
                if have is None:
                    raise core.Violation("layout", "%s: %s is not a record type" % (what, pn))
                hf = [f[:3] for f in have["f"] if not f[0].startswith("PADDING")]
                if have["size"] != w["size"] or hf != w["f"]:
                    raise core.Violation("layout", "%s: %s has size %d fields %s, the compiler says size %d fields %s" % (
                        what, pn, have["size"], hf, w["size"], w["f"]))
                bad = [f for f in have["f"] if f[3] and not f[3][1]]
                if bad:
                    raise core.Violation("identity", "%s: field %s of %s refers to another %s than the module's" % (
                        what, bad[0][0], pn, bad[0][3][0]))
                used = [f for f in range(len(files)) if f != e["home"] and any(
                    e["n"] in sum(refs(world, x), []) for x in world["ents"] if x["home"] == f)]
                used += [w2["f"] for w2 in world["fwds"] if w2["t"] == e["n"] and w2["f"] != e["home"]]
                if used and n:
                    ctx.nontrivial = True
                pos = [i for i, _ in d["o"]]
                ctx.state(e["k"], bool(used), any(u in pos and pos.index(u) < pos.index(e["home"]) for u in used if e["home"] in pos),
                          d["api"], len(set(used)), sorted(set(h for _, h in d["o"])))
            elif e["k"] in ("enum", "uenum") and e["home"] in inmod:
                for k, v in want[e["n"]]["v"]:
                    if g["val"].get(k) != v:
                        raise core.Violation("enum", "%s: %s is %s, the compiler says %d" % (what, k, g["val"].get(k), v))
                if e["k"] == "enum" and g["val"].get(e["n"]) != ["type", want[e["n"]]["size"]]:
                    raise core.Violation("enum", "%s: enum %s is %s, the compiler says size %d" % (
                        what, e["n"], g["val"].get(e["n"]), want[e["n"]]["size"]))
        for z in ("struct_Z0", "struct_Z1"):
            if z in g["rec"] and g["rec"][z]["f"]:
                raise core.Violation("opaque", "%s: %s has fields %s" % (what, z, g["rec"][z]["f"]))
        if base is None:
            base = (what, g)
        else:
            if base[1]["all"] != g["all"]:
                raise core.Violation("names-by-order", "%s and %s: only in the first %s, only in the second %s" % (
                    base[0], what, sorted(set(base[1]["all"]) - set(g["all"])), sorted(set(g["all"]) - set(base[1]["all"]))))
            for part in ("rec", "val"):
                for k in sorted(base[1][part]):
                    if base[1][part][k] != g[part].get(k):
                        raise core.Violation("layout-by-order", "%s and %s: %s is %s, then %s" % (
                            base[0], what, k, base[1][part][k], g[part].get(k)))


def shrinks(w):
    for i in range(len(w["deliv"])):
        yield dict(w, deliv=w["deliv"][:i] + w["deliv"][i + 1:])
    for i in range(len(w["ents"])):
        yield dict(w, ents=w["ents"][:i] + w["ents"][i + 1:])
    for k in ("fwds", "again", "incs"):
        for i in range(len(w[k])):
            yield dict(w, **{k: w[k][:i] + w[k][i + 1:]})
    for i, d in enumerate(w["deliv"]):
        for j in range(len(d["o"])):
            x = dict(d, o=d["o"][:j] + d["o"][j + 1:])
            yield dict(w, deliv=w["deliv"][:i] + [x] + w["deliv"][i + 1:])
        for j, (f, how) in enumerate(d["o"]):
            if how != "abs":
                x = dict(d, o=d["o"][:j] + [[f, "abs"]] + d["o"][j + 1:])
                yield dict(w, deliv=w["deliv"][:i] + [x] + w["deliv"][i + 1:])
        if d["api"] != "files":
            yield dict(w, deliv=w["deliv"][:i] + [dict(d, api="files")] + w["deliv"][i + 1:])
    for i, f in enumerate(w["files"]):
        if f.get("hides"):
            yield dict(w, files=w["files"][:i] + [dict(f, hides=False)] + w["files"][i + 1:])
    # drop a file from every delivery
    for f in range(len(w["files"])):
        yield dict(w, deliv=[dict(d, o=[x for x in d["o"] if x[0] != f]) for d in w["deliv"]])
    for i, e in enumerate(w["ents"]):
        if e["k"] in ("struct", "union", "anon", "func", "enum", "uenum") and len(e["m"]) > 1:
            for j in range(len(e["m"])):
                x = dict(e, m=e["m"][:j] + e["m"][j + 1:])
                yield dict(w, ents=w["ents"][:i] + [x] + w["ents"][i + 1:])
        for j, m in enumerate(e["m"]):
            if m[0] not in "se" or m[1] not in ("int", None):
                nm = ["s", "int", 0] if m[0] != "e" else ["e", None, 0]
                x = dict(e, m=e["m"][:j] + [nm] + e["m"][j + 1:])
                yield dict(w, ents=w["ents"][:i] + [x] + w["ents"][i + 1:])
    for k in sorted(w["opts"]):
        if k != "kinds":
            o = dict(w["opts"])
            del o[k]
            yield dict(w, opts=o)
