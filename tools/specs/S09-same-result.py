exec(open('/tmp/specs/common.py').read())
PROP="S09"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
''','''        restype = self.type_name(func.returns)
        if len(restype) > 40:
            # long types are spelled out once
            if restype in self._restypes:
                restype = self._restypes[restype]
            else:
                self._restypes[restype] = "%s.restype" % func.name
        print("    %s.restype = %s" % (func.name, restype), file=self.stream)
'''),("ctypeslib/codegen/codegenerator.py",'''        self.macros = 0
        self.cross_arch''','''        self.macros = 0
        self._restypes = {}
        self.cross_arch''')]
NEEDS="two functions with the same long result type (pointers to pointers of records, function pointers), the first missing from the library at load time"
BREAKS="the result type of a function refers to the one of an earlier function: when that one is missing the module fails to load"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    h = os.path.join(d, "h.h"); c = os.path.join(d, "l.c"); so = os.path.join(d, "l.so")
    open(h, "w").write("struct a_structure_with_a_long_name { int a; };\\n"
                       "struct a_structure_with_a_long_name **first(void);\\nstruct a_structure_with_a_long_name **second(void);\\n")
    def build(names):
        open(c, "w").write("".join("void *%s(void) { return 0; }\\n" % n for n in names))
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", so, c])
    build(["first", "second"])
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", h, "-l", so], text=True, stderr=subprocess.DEVNULL)
    build(["second"])
    ns = {}
    try:
        exec(text, ns)
        ok = not ns["second"]() and "first" not in ns
    except Exception as e:
        print(type(e).__name__, e)
        ok = False
    sys.exit(0 if ok else 1)
'''}
