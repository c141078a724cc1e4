exec(open('/tmp/specs/common.py').read())
PROP="S09"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
''','''        # functions return an int unless told otherwise
        if self.type_name(func.returns) != "ctypes.c_int32":
            print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
'''),("ctypeslib/codegen/codegenerator.py",'''        print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
''','''        if args != self._last_argtypes:
            print("    _argtypes = [%s]" % ", ".join(args), file=self.stream)
            self._last_argtypes = args
        print("    %s.argtypes = _argtypes" % func.name, file=self.stream)
'''),("ctypeslib/codegen/codegenerator.py",'''    def Function(self, func):
''','''    _last_argtypes = None

    def Function(self, func):
''')]
NEEDS="two consecutive functions with the same argument types, of which the library lost the first"
BREAKS="the argument types shared by consecutive functions are assigned in the block of the first one: when that function is missing the second one silently gets the argument types of an earlier function"
DEMO=RUN
FILES={"demo.py":'''import ctypes, io, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    so = os.path.join(d, "l.so"); c = os.path.join(d, "l.c"); h = os.path.join(d, "l.h")
    open(h, "w").write("int f0(char *a);\\nint f1(double a, int b);\\nint f2(double a, int b);\\nint f3(short a);\\n")
    def build(names):
        body = {"f0": "int f0(char*a){return 0;}", "f1": "int f1(double a,int b){return 1;}",
                "f2": "int f2(double a,int b){return 2;}", "f3": "int f3(short a){return 3;}"}
        open(c, "w").write("\\n".join(body[n] for n in names))
        if os.path.exists(so):
            os.remove(so)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", so, c])
    build(["f0", "f1", "f2", "f3"])
    text = subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", h, "-l", so], text=True,
                                   stderr=subprocess.DEVNULL)
    build(["f0", "f2", "f3"])
    m = os.path.join(d, "m.py"); open(m, "w").write(text)
    code = ("import runpy,ctypes;n=runpy.run_path(%r);assert 'f1' not in n;"
            "assert list(n['f2'].argtypes)==[ctypes.c_double,ctypes.c_int32],n['f2'].argtypes;"
            "assert list(n['f3'].argtypes)==[ctypes.c_int16]" % m)
    sys.exit(subprocess.call([sys.executable, "-c", code]) and 1)
'''}
