"""Generator of C (and a little C++) sources, as lists of declarations.

A source is {"lang": "c"|"c++", "decls": [{"n": name, "k": kind, "c": code,
"needs": [names]}]}: removing declarations nobody needs keeps it valid, which
is what the minimiser does.  Names come from a small pool so that different
sources define the same names differently."""

SCALARS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int",
           "long", "unsigned long", "long long", "unsigned long long", "float", "double", "_Bool"]
RARE = ["long double", "__int128", "unsigned __int128", "wchar_t_"]
INTS = ["int", "unsigned int", "short", "unsigned short", "long", "unsigned long", "long long",
        "unsigned char", "signed char"]


class Gen:
    def __init__(self, rng, safe=True, prefix="", lang="c", features=None):
        self.r = rng
        self.safe = safe
        self.p = prefix
        self.lang = lang
        self.decls = []
        self.used = set()
        self.values = []     # (spelling, needs): complete types usable by value
        self.tags = []       # struct tags, complete
        self.fptypes = []    # typedef names of function pointers
        self.f = features or {}

    def name(self, kind, n=6):
        for _ in range(12):
            x = "%s%s%d" % (self.p, kind, self.r.randrange(n))
            if x not in self.used:
                self.used.add(x)
                return x
        i = n
        while "%s%s%d" % (self.p, kind, i) in self.used:
            i += 1
        x = "%s%s%d" % (self.p, kind, i)
        self.used.add(x)
        return x

    def add(self, n, k, c, needs=()):
        if self.f.get("comments") and self.r.random() < 0.3:
            c = "/** \\brief about %s %d */\n%s" % (n, self.r.randrange(5), c)
        self.decls.append({"n": n, "k": k, "c": c, "needs": sorted(set(needs))})

    def scalar(self):
        t = self.r.choice(SCALARS)
        return "bool" if t == "_Bool" and self.lang == "c++" else t

    # a type by value: (spelling, needs)
    def value_type(self):
        r = self.r
        x = r.random()
        if x < 0.55 or not self.values:
            return self.scalar(), []
        return r.choice(self.values)

    def any_type(self):
        """A type usable as parameter or field: maybe a pointer."""
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.value_type()
        if x < 0.6:
            return "void *", []
        if x < 0.75:
            return r.choice(["char *", "const char *", "unsigned char *"]), []
        if x < 0.85 and self.f.get("opaque", True):
            return "struct %sO%d *" % (self.p, r.randrange(3)), []
        t, needs = self.value_type()
        return t + " *" * r.choice([1, 1, 1, 2]), needs

    def fields(self, me, depth=0, union=False):
        r = self.r
        out, needs = [], []
        n = r.randint(1, 5 if depth == 0 else 3)
        i = 0
        while len(out) < n:
            i += 1
            fn = "m%d" % i if depth == 0 else "n%d_%d" % (depth, i)
            x = r.random()
            if x < 0.42:
                t, nd = self.value_type()
                out.append("%s %s;" % (t, fn))
                needs += nd
            elif x < 0.55:
                t, nd = self.value_type()
                out.append("%s %s[%d];" % (t, fn, r.randint(1, 5)))
                needs += nd
            elif x < 0.72:
                t, nd = self.any_type()
                out.append("%s %s;" % (t, fn))
                needs += nd
            elif x < 0.78 and me:
                out.append("%s *%s;" % (me, fn))
            elif x < 0.84 and self.f.get("fp", True):
                out.append("%s;" % self.fnptr(fn))
            elif x < 0.90 and not union and self.f.get("bits", True) and depth == 0:
                # a full int of bitfields: layouts of others are not the point here
                w = r.randint(1, 31)
                if not self.safe and r.random() < 0.5:
                    # unnamed ones: the parser tells them apart by position
                    v = r.randint(1, 31)
                    out.append(r.choice(["unsigned int %sa : %d; unsigned int : %d; int %sb : 3; int : 2;" % (fn, w, 32 - w, fn),
                                         "int : %d; unsigned char %sa : 5; int : 0; unsigned int %sb : %d;" % (v, fn, fn, w),
                                         "unsigned long long %sa : 40; unsigned long long : 3; int : %d;" % (fn, w)]))
                    continue
                out.append("unsigned int %sa : %d; unsigned int %sb : %d;" % (fn, w, fn, 32 - w))
            elif x < 0.96 and depth < 1 and self.f.get("nested", True):
                body, nd = self.fields(None, depth + 1, False)
                out.append("struct { %s } %s;" % (" ".join(body), fn))
                needs += nd
            elif depth < 1 and self.f.get("nested", True) and not self.f.get("noanon"):
                body, nd = self.fields(None, depth + 1, True)
                out.append("union { %s };" % " ".join(b.replace(" n1_", " %su_" % fn).replace("(*n1_", "(*%su_" % fn) for b in body))
                needs += nd
            else:
                out.append("int %s;" % fn)
        return out, needs

    def fnptr(self, name):
        r = self.r
        ret = r.choice(["void", "int", "long", "double", "unsigned char", "void *"])
        args = ", ".join(r.choice(["int", "long", "double", "const char *", "void *", "short"])
                         for _ in range(r.randint(0, 3))) or "void"
        return "%s (*%s)(%s)" % (ret, name, args)

    def one(self):
        r = self.r
        x = r.random()
        cxx = self.lang == "c++"
        if x < 0.30:
            tag = self.name("S")
            me = "struct %s" % tag
            body, needs = self.fields(me)
            packed = " __attribute__((packed))" if r.random() < 0.12 else ""
            self.add(me, "struct", "struct %s { %s }%s;" % (tag, " ".join(body), packed), needs)
            self.values.append((me, [me]))
            self.tags.append(tag)
        elif x < 0.38:
            tag = self.name("U")
            me = "union %s" % tag
            body, needs = self.fields(None, 1, True)
            self.add(me, "union", "union %s { %s };" % (tag, " ".join(body)), needs)
            self.values.append((me, [me]))
        elif x < 0.48:
            tag = self.name("E")
            vals = []
            v = r.choice([None, None, 0, 1, -3, 200, 70000])
            for i in range(r.randint(1, 4)):
                n = self.name("EV", 30)
                if v is not None and r.random() < 0.6:
                    vals.append("%s = %d" % (n, v))
                    v += r.randint(1, 300)
                else:
                    vals.append(n)
                    v = None
            self.add("enum %s" % tag, "enum", "enum %s { %s };" % (tag, ", ".join(vals)))
            self.values.append(("enum %s" % tag, ["enum %s" % tag]))
        elif x < 0.60:
            n = self.name("t")
            y = r.random()
            if y < 0.25 and self.f.get("fp", True):
                self.add(n, "typedef", "typedef %s;" % self.fnptr(n))
                self.values.append((n, [n]))
            elif y < 0.45:
                self.used.add(n)
                body, needs = self.fields(None)
                self.add(n, "typedef", "typedef struct %s_ { %s } %s;" % (n, " ".join(body), n), needs)
                self.values.append((n, [n]))
            elif y < 0.55 and not self.safe:
                body, needs = self.fields(None, 1)
                self.add(n, "typedef", "typedef struct { %s } %s;" % (" ".join(body), n), needs)
                self.values.append((n, [n]))
            elif y < 0.70:
                t, needs = self.any_type()
                self.add(n, "typedef", "typedef %s %s;" % (t, n), needs)
                self.values.append((n, [n]))
            else:
                t = r.choice(INTS)
                self.add(n, "typedef", "typedef %s %s;" % (t, n))
                self.values.append((n, [n]))
        elif x < 0.80:
            n = self.name("f", 8)
            args, needs = [], []
            for i in range(r.randint(0, 3)):
                t, nd = self.any_type()
                args.append(t + (" a%d" % i if r.random() < 0.7 else ""))
                needs += nd
            y = r.random()
            if y < 0.2:
                ret = "void"
            elif y < 0.85 or not self.values:
                ret = self.scalar()
            else:
                ret, nd = r.choice(self.values)
                needs += nd
            if r.random() < 0.06 and args:
                args.append("...")
            self.add(n, "func", "%s %s(%s);" % (ret, n, ", ".join(args) or "void"), needs)
        elif x < 0.90:
            n = self.name("v")
            y = r.random()
            if y < 0.3:
                self.add(n, "var", "int %s = %d;" % (n, r.randint(-5, 1000)))
            elif y < 0.45:
                self.add(n, "var", "const char *%s = \"str%d %s\";" % (n, r.randrange(9), r.choice(["", "\\xc3\\xa9", "x"]) if not self.safe else "x"))
            elif y < 0.6:
                self.add(n, "var", "unsigned long %s = %dUL;" % (n, r.randint(0, 99999)) if not self.safe else "long %s = %d;" % (n, r.randint(0, 99999)))
            elif y < 0.72:
                self.add(n, "var", "int %s[3] = {%d, 2, 3};" % (n, r.randrange(9)))
            elif y < 0.85:
                self.add(n, "var", "extern int %s;" % n)
            else:
                self.add(n, "var", "double %s = %d.5;" % (n, r.randrange(9)))
        elif x < 0.97:
            n = self.name("M")
            v = r.choice(["%d" % r.randint(0, 9999), "\"s%d\"" % r.randrange(9), "%d.25" % r.randrange(9),
                          "0x%x" % r.randrange(65536), "(%d)" % r.randrange(99), "-%d" % r.randrange(99)])
            self.add(n, "macro", "#define %s %s" % (n, v))
        else:
            tag = "%sO%d" % (self.p, r.randrange(3))
            self.add("fwd %s %d" % (tag, len(self.decls)), "fwd", "struct %s;" % tag)
        if cxx and r.random() < 0.35:
            self.cxx()
        if not self.safe and r.random() < 0.18:
            self.weird()

    def cxx(self):
        r = self.r
        n = self.name("C")
        classes = [d["n"][6:] for d in self.decls if d["k"] == "class"]
        bases = r.sample(classes, min(len(classes), r.choice([0, 0, 1, 2])))
        body, needs = self.fields(None, 1)
        code = "class %s%s { public: %s };" % (
            n, " : " + ", ".join("public " + b for b in bases) if bases else "", " ".join(body))
        self.add("class " + n, "class", code, needs + ["class " + b for b in bases])

    def weird(self):
        """Things that are legal C but that ctypeslib may reject: fine where a
        run only compares outcomes."""
        r = self.r
        n = self.name("w", 9)
        self.add(n, "weird", r.choice([
            "long double %s;" % n,
            "typedef __int128 %s;" % n,
            "struct %s { int a : 3; int : 0; char b; unsigned long long c : 40; };" % n,
            "struct %s { int n; char data[]; };" % n,
            "struct %s { int : 4; int : 5; char a : 2; int : 6; int b : 20; };" % n,
            "struct %s { struct { int x; struct { char y; union { int z; float w; }; }; }; int t; };" % n,
            "struct %s { struct { int a; } x, *y, z[2]; };" % n,
            "struct { struct %s_in { int a; enum { %s_P, %s_Q = 7 } e; } i; } %s;" % (n, n, n, n),
            "struct %s { char a; double b; } __attribute__((packed, aligned(4)));" % n,
            "typedef struct %s *%s_p; struct %s { %s_p next; int v; };" % (n, n, n, n),
            "typedef int (*%s[4])(void);" % n,
            "typedef int %s(int, char *);" % n,
            "int (*%s(int a))(double);" % n,
            "const volatile unsigned char * const * %s;" % n,
            "int %s[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } };" % n,
            "const char *%s[] = { \"a\", \"b\\n\", 0 };" % n,
            "void %s(int n, int a[n], ...);" % n,
            "union { int a; char b; } %s;" % n,
            "struct { int a; struct { int b; }; } %s[2];" % n,
            "int %s[];" % n,
            "typedef int %s __attribute__((vector_size(16)));" % n,
            "_Complex double %s;" % n,
            "int (*%s[3])(int, ...);" % n,
            "enum { %s_A, %s_B = -1 } %s;" % (n, n, n),
            "static inline int %s(int a) { return a + 1; }" % n,
            "extern char *%s(const int a[3], void (*cb)(int));" % n,
            "#define %s(x, y) ((x) + (y))" % n,
            "#define %s sizeof(int) + 3" % n,
            "char %s = 'c';" % n,
            "float %s = 1.5f;" % n,
        ]))

    def generate(self, n):
        while len(self.decls) < n:
            self.one()
        return {"lang": self.lang, "decls": self.decls}


def gen_source(rng, n, **kw):
    return Gen(rng, **kw).generate(n)


def text(src):
    return "".join(d["c"] + "\n" for d in src["decls"])


def shrink_source(src):
    """Smaller sources: drop a half, a single declaration with its users."""
    decls = src["decls"]

    def without(drop):
        drop = set(drop)
        gone = set(decls[i]["n"] for i in drop)
        out = []
        for i, d in enumerate(decls):
            if i in drop:
                continue
            if any(x in gone for x in d["needs"]):
                gone.add(d["n"])
                continue
            out.append(d)
        return dict(src, decls=out)
    n = len(decls)
    if n > 3:
        yield without(range(n // 2, n))
        yield without(range(0, n // 2))
    if n > 1:
        for i in range(n):
            yield without([i])
